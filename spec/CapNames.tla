------------------------------ MODULE CapNames ------------------------------
(* Which sets of named things capgen takes (C30): tables and variables of the *)
(* host, derived types, schemes and their entry points, suites and groups.    *)
(* A behaviour draws host files, scheme files and suites, then walks through  *)
(* them in the order of the command line with the names known so far, as the  *)
(* generator has to; the names at fault are collected.  Invariant SameVerdict *)
(* states that this agrees with a definition by pairs of colliding things.    *)
(*   hosts    sequence of files: sequence of tables                           *)
(*            [k "module" | "ddt", n name, vs sequence of <<local, standard>>] *)
(*   schemes  sequence of files: [n name, ph sequence of entry point suffixes] *)
(*   suites   sequence of files: [n name, gs sequence of <<group, schemes>>]   *)
(* Names of variables, suites and groups do not depend on the case; what is   *)
(* written for a group of a suite is a routine <suite>_<group>, next to the   *)
(* routines <suite>_<phase> of the suite.                                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

VARIABLES stage, hosts, schemes, suites, todo, known, bad
vars == <<stage, hosts, schemes, suites, todo, known, bad>>

R(S) == IF S = {} THEN {} ELSE { RandomElement(S) }
Low == [ X |-> "x", Y |-> "y", Quantity_X |-> "quantity_x", QUANTITY_Y |-> "quantity_y", S |-> "s", T_G |-> "t_g", G |-> "g", S_T |-> "s_t" ]
L(s) == IF s \in DOMAIN Low THEN Low[s] ELSE s
Locals == << "x", "y", "z", "w", "X", "Y", "v", "u" >>
Stds == << "quantity_x", "quantity_y", "quantity_z", "quantity_w", "Quantity_X", "QUANTITY_Y", "quantity_v", "quantity_u" >>
Suffix == << "init", "initialize", "run", "finalize", "final", "timestep_init", "timestep_initialize" >>
PhaseOf == [ init |-> "init", initialize |-> "init", run |-> "run", finalize |-> "final", final |-> "final",
             timestep_init |-> "ts_init", timestep_initialize |-> "ts_init" ]
SuitePhases == << "register", "initialize", "timestep_initial", "timestep_final", "finalize" >>
SName == << "s", "s_t", "u", "aa", "s_t_g", "S", "S_T" >>
GName == << "g", "h", "t_g", "k", "aa", "G", "T_G", "t_initialize", "initialize", "finalize", "init" >>

----------------------------------------------------------------------------
(* drawing; rarer elements come later in the lists above.  A name is usually  *)
(* taken from those which do not collide.                                     *)
Range(q) == { q[i] : i \in 1..Len(q) }
Init == /\ stage = "hosts" /\ hosts = << >> /\ schemes = << >> /\ suites = << >>
        /\ todo = 0 /\ known = {} /\ bad = {}

HTables == UNION { Range(hosts[i]) : i \in 1..Len(hosts) }
HVars == UNION { Range(t.vs) : t \in { y \in HTables : y.k = "module" } }
Fresh(all, used) == { all[i] : i \in { j \in 1..Len(all) : L(all[j]) \notin used } }
(* d: whether a collision is wanted *)
Colliding(all, used) == { all[i] : i \in { j \in 1..Len(all) : L(all[j]) \in used } }
Pick(all, used, d) == R(IF ~d THEN Fresh(all, used) ELSE IF Colliding(all, used) = {} THEN Range(all) ELSE Colliding(all, used))

AddTable ==
  /\ stage = "hosts"
  /\ \E d \in R(1..12) : \E k \in R({"module", "module2", "ddt"}) : \E newfile \in R(1..3) : \E nv \in R(0..2) : \E stop \in R(1..3) :
       LET names == IF k = "ddt" THEN << "dd", "de", "df" >> ELSE << "ha", "hb", "hc", "hd" >>
           lu == { L(x[1]) : x \in HVars }
           su == { L(x[2]) : x \in HVars }
       IN \E n \in Pick(names, { t.n : t \in HTables }, d = 1) :
          \E a \in Pick(Locals, lu, d = 2) : \E b \in Pick(Locals, lu \cup {L(a)}, d = 3) :
          \E p \in Pick(Stds, su, d = 4) : \E q \in Pick(Stds, su \cup {L(p)}, d = 5) :
            LET kk == IF k = "ddt" THEN "ddt" ELSE "module"
                \* within one table the Fortran source must be legal
                vs == IF kk = "ddt" \/ nv = 0 THEN << <<a, p>> >>
                      ELSE IF L(a) = L(b) THEN << <<a, p>> >> ELSE << <<a, p>>, <<b, q>> >>
                t == [k |-> kk, n |-> n, vs |-> vs]
            IN /\ hosts' = IF newfile = 1 /\ hosts # << >> THEN [hosts EXCEPT ![Len(hosts)] = Append(@, t)]
                           ELSE Append(hosts, << t >>)
               /\ stage' = IF stop = 1 \/ Cardinality(HTables) >= 2 THEN "schemes" ELSE stage
  /\ UNCHANGED <<schemes, suites, todo, known, bad>>

AddScheme ==
  /\ stage = "schemes"
  /\ \E d \in R(1..10) : \E stop \in R(1..2) : \E n \in Pick(<< "aa", "bb", "cc", "aa_bb" >>, { schemes[i].n : i \in 1..Len(schemes) }, d = 1) :
     \E ph \in R({ << "run" >>, << "run", "init" >>, << "initialize", "run", "finalize" >>, << "timestep_init", "run" >>, << "init", "final" >> }
                 \cup IF d = 2 THEN { << "run", "init", "initialize" >>, << "final", "run", "finalize" >>,
                                      << "timestep_init", "timestep_initialize" >> } ELSE {}) :
       /\ schemes' = Append(schemes, [n |-> n, ph |-> ph])
       /\ stage' = IF (stop = 1 \/ Len(schemes) >= 2) THEN "suites" ELSE stage
  /\ UNCHANGED <<hosts, suites, todo, known, bad>>

SuiteOf(d) ==
  LET sn == { schemes[i].n : i \in 1..Len(schemes) }
      cand == IF d = 1 THEN sn \cup {"ghost"} ELSE sn
  IN { [n |-> n, gs |-> g] :
       n \in Pick(SName, { L(suites[i].n) : i \in 1..Len(suites) }, d = 2),
       g \in LET gn == IF d <= 4 THEN Range(GName) ELSE {"g", "h", "t_g", "k"} IN
             R({ << <<x, <<y>> >> >> : x \in gn, y \in cand }
               \cup { << <<x[1], <<y, z>> >>, <<x[2], <<y>> >> >> : x \in { w \in gn \X gn : d <= 4 \/ w[1] # w[2] }, y \in cand, z \in cand }) }
AddSuite ==
  /\ stage = "suites"
  /\ \E d \in R(1..8) : \E stop \in R(1..2) : \E s \in SuiteOf(d) :
       /\ suites' = Append(suites, s)
       /\ stage' = IF stop = 1 \/ Len(suites) >= 2 THEN "walk" ELSE stage
       /\ todo' = 1
  /\ UNCHANGED <<hosts, schemes, known, bad>>

----------------------------------------------------------------------------
(* The things that need a name of their own, in the order they are read:      *)
(* <<name space, key, what is reported>>                                       *)
RECURSIVE Flat(_)
Flat(q) == IF q = << >> THEN << >> ELSE Head(q) \o Flat(Tail(q))
TableThings(t) == << <<"host table", t.n, t.n>> >> \o
  IF t.k = "ddt" THEN << >>
  ELSE Flat([i \in 1..Len(t.vs) |-> << <<"standard name", L(t.vs[i][2]), L(t.vs[i][2])>>, <<"local name", L(t.vs[i][1]), L(t.vs[i][1])>> >>])
SchemeThings(s) == << <<"scheme table", s.n, s.n>> >> \o
  [i \in 1..Len(s.ph) |-> <<"entry point", <<s.n, PhaseOf[s.ph[i]]>>, s.n>>]
SuiteThings(u) == << <<"suite", L(u.n), L(u.n)>> >> \o
  [i \in 1..5 |-> <<"routine", << L(u.n), SuitePhases[i] >>, L(u.n)>>] \o
  [i \in 1..Len(u.gs) |-> <<"routine", << L(u.n), L(u.gs[i][1]) >>, L(u.n)>>]
(* the text <suite>_<group> of a routine can be the same for different pairs  *)
Text(k) ==
  CASE k = << "s", "t_g" >> -> << "s_t", "g" >>
    [] k = << "s", "t_initialize" >> -> << "s_t", "initialize" >>
    [] OTHER -> k
Key(x) == IF x[1] = "routine" THEN Text(x[2]) ELSE x[2]
Wanted(u) == UNION { Range(u.gs[i][2]) : i \in 1..Len(u.gs) }
(* the routines of a suite are next to the scheme routines it calls            *)
Routines(u) == { << L(u.n), p >> : p \in Range(SuitePhases) \cup { L(u.gs[i][1]) : i \in 1..Len(u.gs) } }
Called(u) == UNION { { << schemes[i].n, p >> : p \in Range(schemes[i].ph) } : i \in { j \in 1..Len(schemes) : schemes[j].n \in Wanted(u) } }
Things == Flat([i \in 1..Len(hosts) |-> Flat([j \in 1..Len(hosts[i]) |-> TableThings(hosts[i][j])])]) \o
          Flat([i \in 1..Len(schemes) |-> SchemeThings(schemes[i])]) \o
          Flat([i \in 1..Len(suites) |-> SuiteThings(suites[i])])

(* the walk *)
Walk == /\ stage = "walk"
        /\ LET T == Things IN
           IF todo > Len(T)
           THEN /\ stage' = "refs" /\ todo' = 1 /\ UNCHANGED <<known, bad>>
           ELSE LET x == T[todo]
                    id == <<x[1], ToString(Key(x))>>
                IN /\ bad' = IF id \in known THEN bad \cup {x[3]} ELSE bad
                   /\ known' = known \cup {id}
                   /\ todo' = todo + 1 /\ stage' = stage
        /\ UNCHANGED <<hosts, schemes, suites>>
Refs == /\ stage = "refs"
        /\ IF todo > Len(suites) THEN stage' = "done" /\ UNCHANGED <<todo, bad>>
           ELSE /\ bad' = bad \cup { y \in Wanted(suites[todo]) : <<"scheme table", ToString(y)>> \notin known }
                            \cup (IF Routines(suites[todo]) \cap Called(suites[todo]) # {} THEN { L(suites[todo].n) } ELSE {})
                /\ todo' = todo + 1 /\ stage' = stage
        /\ UNCHANGED <<hosts, schemes, suites, known>>

Next == AddTable \/ AddScheme \/ AddSuite \/ Walk \/ Refs

----------------------------------------------------------------------------
(* by pairs                                                                    *)
Collide(a, b) == a[1] = b[1] /\ ToString(Key(a)) = ToString(Key(b))
Consistent == LET T == Things IN
  /\ \A i, j \in 1..Len(T) : i < j => ~ Collide(T[i], T[j])
  /\ \A i \in 1..Len(suites) : \A y \in Wanted(suites[i]) : \E k \in 1..Len(schemes) : schemes[k].n = y
  /\ \A i \in 1..Len(suites) : \A k \in 1..Len(schemes) : \A j \in 1..Len(schemes[k].ph) :
       (schemes[k].n \in Wanted(suites[i]) /\ schemes[k].n = L(suites[i].n)) =>
       /\ schemes[k].ph[j] \notin {"register", "initialize", "finalize", "timestep_initial", "timestep_final"}
       /\ \A g \in 1..Len(suites[i].gs) : L(suites[i].gs[g][1]) # schemes[k].ph[j]
SameVerdict == stage = "done" => (Consistent <=> bad = {})
Emit == stage = "done" =>
  PrintT("@@" \o ToJson([hosts |-> hosts, schemes |-> schemes, suites |-> suites, bad |-> bad]))
=============================================================================
