------------------------------ MODULE CapIntro ------------------------------
(* What the introspection routines of the caps (C07) and the generation       *)
(* database (C08) have to report.  A behaviour draws a project (host          *)
(* variables, scheme interfaces, suites), then accumulates the answers by     *)
(* walking through the suites group by group, phase by phase and argument by  *)
(* argument, as a generator has to; invariant Faithful states that the        *)
(* accumulated answers are the ones the suite definitions and the scheme      *)
(* metadata imply.                                                            *)
(* Host variables: plain ones; an array whose slices have standard names of   *)
(* their own (its children); elements of a derived type; variables others     *)
(* depend on (the flag of an activation condition, the extent of a            *)
(* dimension).  Variables no host declares are owned by the suite and are not *)
(* reported.                                                                  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

VARIABLES stage,   \* host | args | props | suites | walk | done
          host,    \* standard name -> [prot, act]
          kids,    \* children of the array
          entry,   \* <<scheme, phase>> -> sequence of <<standard name, intent>>
          meta,    \* scheme -> [proc: phases which name a process, mod, deps]
          suites,  \* sequence of sequences of [name, items]
          todo, acc
vars == <<stage, host, kids, entry, meta, suites, todo, acc>>

R(S) == IF S = {} THEN {} ELSE { RandomElement(S) }
PHL == << "init", "ts_init", "run", "ts_final", "final" >>
Schemes == { "zeta", "alpha", "mid_scheme", "beta2" }
Plain == { "air_temperature", "snow_depth", "a_variable_with_quite_a_long_standard_name_for_a_list", "step_number" }
Arr == "tracer_array"
Slices == { "first_tracer", "second_tracer", "zz_tracer" }
Elems == { "element_one", "element_two" }     \* of the derived type
Cond == "conditional_field"                   \* active if Flag
Flag == "condition_flag"
ByDim == "banded_field"                       \* dimensioned by Ext
Ext == "number_of_bands"
Own == { "own_mixing", "own_index" }
ErrVars == { "ccpp_error_message", "ccpp_error_code" }
(* dimensions by which the plain fields of the host are declared              *)
HostStds == Plain \cup {Arr} \cup Slices \cup Elems \cup {Cond, Flag, ByDim, Ext}
MayWrite(q) == ~ host[q].prot

Init == /\ stage = "host" /\ host = << >> /\ kids = {} /\ entry = << >> /\ meta = << >> /\ suites = << >>
        /\ todo = HostStds /\ acc = << >>

AddHost == /\ stage = "host"
           /\ \/ \E q \in R(todo) : \E p \in R(0..2) :
                   /\ todo' = todo \ {q}
                   /\ host' = (q :> [prot |-> p = 0 /\ q \notin Slices \cup {Arr}]) @@ host
                   /\ UNCHANGED <<stage, kids, entry>>
              \/ /\ todo = {}
                 /\ \E K \in R(SUBSET Slices) : kids' = K
                 /\ \E f \in R([Schemes -> { S \in SUBSET { PHL[i] : i \in 1..5 } : Cardinality(S) \in 1..2 }]) :
                    LET A == UNION { { <<s, p>> : p \in f[s] \cup (IF s = "alpha" THEN {"run"} ELSE {}) } : s \in Schemes } IN
                      /\ todo' = A /\ entry' = [x \in A |-> << >>]
                 /\ stage' = "args" /\ UNCHANGED host
           /\ UNCHANGED <<meta, suites, acc>>

Usable == (HostStds \ Slices) \cup kids
AddArgs == /\ stage = "args"
           /\ \/ \E x \in R(todo) : \E n \in R(1..4) :
                   LET used == { entry[x][i][1] : i \in 1..Len(entry[x]) } IN
                   \E q \in R((IF n = 4 /\ x[2] # "run" THEN Own ELSE Usable) \ used) :
                   \E o \in R(1..50) :
                   \E t \in R(IF q \in Own THEN (IF o = 1 THEN {"inout", "in"} ELSE {"out"})
                              ELSE IF host[q].prot THEN {"in"} ELSE {"in", "out", "inout"}) :
                   \E stop \in R(1..4) :
                      /\ entry' = [entry EXCEPT ![x] = Append(@, <<q, t>>)]
                      /\ todo' = IF stop = 1 \/ Len(entry[x]) >= 4 THEN todo \ {x} ELSE todo
                      /\ stage' = stage
              \/ \E x \in R(todo) : \E n \in R(1..6) :
                   /\ todo' = IF n = 1 THEN todo \ {x} ELSE todo
                   /\ UNCHANGED <<entry, stage>>
              \/ /\ todo = {} /\ stage' = "props" /\ todo' = Schemes /\ UNCHANGED entry
           /\ UNCHANGED <<host, kids, meta, suites, acc>>

Phases(s) == { x[2] : x \in { y \in DOMAIN entry : y[1] = s } }
AddProps == /\ stage = "props"
            /\ \/ \E s \in R(todo) : \E p \in R(SUBSET Phases(s)) : \E d \in R(SUBSET {"da.F90", "db.F90", "dc.F90"}) :
                  \E m \in R(0..2) : \E r \in R(0..2) : \E pn \in R({"longwave", "deep"}) :
                    /\ meta' = (s :> [proc |-> p, pname |-> pn, mod |-> m = 0, deps |-> d, rel |-> IF r = 0 THEN "sub" ELSE ""]) @@ meta
                    /\ todo' = todo \ {s} /\ stage' = stage
               \/ todo = {} /\ stage' = "suites" /\ UNCHANGED <<todo, meta>>
            /\ UNCHANGED <<host, kids, entry, suites, acc>>

GNames == << "zgroup", "alpha_part", "mid", "Beta" >>
SNames == << "zsuite", "asuite", "msuite" >>
Lists(S, m) == UNION { [1..n -> S] : n \in 1..m }
AddSuites == /\ stage = "suites"
             /\ \E pm \in R({ f \in [1..3 -> 1..4] : Cardinality({ f[i] : i \in 1..3 }) = 3 }) : \E n \in R(1..3) :
                \E l1 \in R(Lists(Schemes, 3)) : \E l2 \in R(Lists(Schemes, 3)) : \E l3 \in R(Lists(Schemes, 3)) : LET ls == <<l1, l2, l3>> IN
                  suites' = Append(suites, [name |-> SNames[Len(suites) + 1],
                                            groups |-> [j \in 1..n |-> [name |-> GNames[pm[j]], items |-> ls[j]]]])
             /\ \E m \in R(1..2) : stage' = IF m = 1 \/ Len(suites') = 3 THEN "walk" ELSE stage
             /\ UNCHANGED <<host, kids, entry, meta, todo, acc>>

----------------------------------------------------------------------------
(* the walk: per suite, the variables read and written, and the parts         *)
Par(q) == IF q \in Slices THEN { Arr } ELSE {}
(* what a use of q makes the suite read as well: the condition, but not the   *)
(* extents, which come with the host array                                    *)
Needs(q) == IF q = Cond THEN {Flag} ELSE {}
Elem(q) == IF q = Arr /\ kids # {} THEN kids ELSE {q}
Use(a, q, t) == IF q \in Own THEN a ELSE
  [a EXCEPT !.rd = @ \cup (IF t \in {"in", "inout"} THEN {q} ELSE {}) \cup Needs(q),
            !.wr = @ \cup (IF t \in {"out", "inout"} THEN {q} ELSE {})]
RECURSIVE UseAll(_, _, _)
UseAll(a, args, i) == IF i > Len(args) THEN a ELSE UseAll(Use(a, args[i][1], args[i][2]), args, i + 1)
Scheme1(a, s, p) == LET x == <<s, p>> IN
  IF x \notin DOMAIN entry THEN a ELSE UseAll([a EXCEPT !.schemes = @ \cup {s}, !.wr = @ \cup ErrVars], entry[x], 1)
RECURSIVE Items(_, _, _, _)
Items(a, its, p, i) == IF i > Len(its) THEN a ELSE Items(TLCEval(Scheme1(a, its[i], p)), its, p, i + 1)
RECURSIVE PhasesOf(_, _, _)
PhasesOf(a, its, k) == IF k > 5 THEN a ELSE PhasesOf(TLCEval(Items(a, its, PHL[k], 1)), its, k + 1)

Walk == /\ stage = "walk"
        /\ IF Len(acc) = Len(suites) THEN stage' = "done" /\ UNCHANGED acc
           ELSE LET s == suites[Len(acc) + 1]
                    start == [name |-> s.name, parts |-> << >>, schemes |-> {}, rd |-> {}, wr |-> {}]
                    RECURSIVE Gr(_, _)
                    Gr(a, g) == IF g > Len(s.groups) THEN a
                                ELSE Gr(TLCEval([PhasesOf(a, s.groups[g].items, 1) EXCEPT !.parts = Append(@, s.groups[g].name)]), g + 1)
                IN acc' = Append(acc, Gr(start, 1)) /\ stage' = stage
        /\ UNCHANGED <<host, kids, entry, meta, suites, todo>>

Next == AddHost \/ AddArgs \/ AddProps \/ AddSuites \/ Walk
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* the same answers from the definitions *)
Listed(s) == UNION { { g.items[i] : i \in 1..Len(g.items) } : g \in { s.groups[j] : j \in 1..Len(s.groups) } }
Calls(s) == { x \in DOMAIN entry : x[1] \in Listed(s) }
Args(s) == UNION { { entry[x][i] : i \in 1..Len(entry[x]) } : x \in Calls(s) }
Reads(s) == LET U == { a \in Args(s) : a[1] \notin Own } IN
  { a[1] : a \in { b \in U : b[2] # "out" } } \cup UNION { Needs(a[1]) : a \in U }
Writes(s) == { a[1] : a \in { b \in Args(s) : b[2] # "in" /\ b[1] \notin Own } } \cup (IF Calls(s) = {} THEN {} ELSE ErrVars)

Faithful == stage = "done" =>
  \A k \in 1..Len(suites) :
    /\ acc[k].name = suites[k].name
    /\ acc[k].parts = [j \in 1..Len(suites[k].groups) |-> suites[k].groups[j].name]
    /\ acc[k].schemes = { s \in Listed(suites[k]) : Phases(s) # {} }
    /\ acc[k].rd = Reads(suites[k])
    /\ acc[k].wr = Writes(suites[k])

(* Known defect (recorded as a finding, the existing tests expect it): the    *)
(* intents of a variable in the groups of one phase are merged over all       *)
(* suites, and the result lands in the first group which uses the variable.   *)
GroupUses(its, p) == LET X == { x \in DOMAIN entry : x[2] = p /\ \E i \in 1..Len(its) : its[i] = x[1] }
                         U == UNION { { entry[x][i] : i \in 1..Len(entry[x]) } : x \in X }
  IN { u \in U : u[1] \notin Own } \cup { <<q, "in">> : q \in UNION { Needs(u[1]) : u \in U } }
RECURSIVE Cat(_, _)
Cat(s, j) == IF j > Len(s.groups) THEN << >> ELSE s.groups[j].items \o Cat(s, j + 1)
GroupsOf(k, p) == IF p = "run" THEN [j \in 1..Len(suites[k].groups) |-> [k |-> k, u |-> GroupUses(suites[k].groups[j].items, p)]]
                  ELSE << [k |-> k, u |-> GroupUses(Cat(suites[k], 1), p)] >>
RECURSIVE AllGroups(_, _)
AllGroups(k, p) == IF k > Len(suites) THEN << >> ELSE GroupsOf(k, p) \o AllGroups(k + 1, p)
Merged(u, q) == LET I == { x[2] : x \in { y \in u : y[1] = q } } IN IF Cardinality(I) = 1 THEN CHOOSE i \in I : TRUE ELSE "inout"
Leak(k) == { q \in HostStds : \E ph \in 1..5 :
               LET G == AllGroups(1, PHL[ph])
                   has == { i \in 1..Len(G) : \E x \in G[i].u : x[1] = q }
               IN /\ has # {}
                  /\ LET f == CHOOSE i \in has : \A j \in has : i <= j
                     IN G[f].k = k /\ \E j \in has : Merged(G[j].u, q) # Merged(G[f].u, q) }

(* a protected variable is no input the host has to provide *)
Prot(q) == q \in DOMAIN host /\ host[q].prot
SuiteNo(n) == CHOOSE k \in 1..Len(suites) : suites[k].name = n
Answer(a) == LET rd == { q \in a.rd : ~ Prot(q) }
                 X(S) == UNION { Elem(q) : q \in S }
  IN [name |-> a.name, parts |-> a.parts, schemes |-> a.schemes,
      leak |-> Leak(SuiteNo(a.name)), in |-> rd, out |-> a.wr, xin |-> X(rd), xout |-> X(a.wr), pin |-> a.rd]
HostList == { [std |-> q, prot |-> host[q].prot] : q \in { x \in DOMAIN host : x \notin Slices \/ x \in kids } }
Emit == stage = "done" =>
  PrintT("@@" \o ToJson([host |-> HostList, kids |-> kids,
     entry |-> [i \in 1..Cardinality(DOMAIN entry) |-> 0],
     args |-> { [c |-> x[1], p |-> x[2], a |-> entry[x]] : x \in DOMAIN entry },
     meta |-> meta, suites |-> suites, answer |-> [k \in 1..Len(acc) |-> Answer(acc[k])],
     used |-> UNION { acc[k].schemes : k \in 1..Len(acc) }]))
=============================================================================
