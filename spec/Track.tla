------------------------------- MODULE Track -------------------------------
(* The variable tracking tool (C23).  A behaviour draws metadata tables       *)
(* (schemes with entry points and their arguments), a suite and a query, then *)
(* walks through the suite call by call as the tool has to.  Names are        *)
(* sequences of characters, so that "contains the text" means what it means   *)
(* for the tool.  path: the uses of the variable in call order, per group;    *)
(* near: entry points with names that contain the text.  Invariant Declared:  *)
(* the walk agrees with a declarative definition.                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

VARIABLES stage, tabs, groups, query, flaw, pc, path, near
vars == <<stage, tabs, groups, query, flaw, pc, path, near>>

R(S) == IF S = {} THEN {} ELSE { RandomElement(S) }
Schemes == {"sc_a", "sc_b", "sc_run", "sc_c_init", "sc"}
PHL == << "init", "timestep_init", "run", "timestep_final", "finalize" >>
Intents == {"in", "out", "inout"}
(* standard names: a few whole and truncated names with common parts *)
Front1 == { <<"a">>, <<"b">>, <<"a", "b">>, <<"b", "a", "b">> }
Tail1  == { << >>, <<"_">> \o <<"a">>, <<"_", "b", "a">>, <<"a">>, <<"2">>, <<"_", "a", "b", "_", "c">>, <<"_", "o", "f", "_", "a">> }
Names == { f \o r : f \in Front1, r \in Tail1 }
Texts == Names \cup { <<"_", "a">>, <<"b", "_">>, <<"_">>, <<"a", "b", "_", "c">>, <<"o", "f">>, <<"x">>, <<"2">>, <<"c">>, <<"a", "_", "a">> }

HasText(n, t) == \E i \in 0 .. Len(n) - Len(t) : \A j \in 1 .. Len(t) : n[i + j] = t[j]

Init == /\ stage = "draw" /\ tabs = << >> /\ groups = << >> /\ query = << >> /\ flaw = ""
        /\ pc = [g |-> 1, s |-> 1, k |-> 1, n |-> 1, e |-> 1] /\ path = << >> /\ near = << >>

(* a table: at most five entry points, each with named arguments *)
RECURSIVE Args(_, _)
Args(k, used) == IF k = 0 THEN << >>
                 ELSE LET n == RandomElement(Names \ used)
                      IN << [n |-> n, i |-> RandomElement(Intents)] >> \o Args(k - 1, used \cup {n})
Entries(P) == [ j \in 1 .. Cardinality(P) |->
                 LET idx == { i \in 1..5 : i \in P }
                     s == SetToSortSeq(idx, LAMBDA x, y : x < y)
                 IN [p |-> PHL[s[j]], args |-> Args(RandomElement(0..4), {})] ]

DrawTab ==
  /\ stage = "draw" /\ Cardinality(DOMAIN tabs) < Cardinality(Schemes)
  /\ LET c == CHOOSE x \in Schemes \ DOMAIN tabs : TRUE
     IN \E P \in R(SUBSET (1..5)) :
        \* a phase of one scheme may be the name of another one: sc_run is sc + run
        LET Q == P \ { i \in 1..5 : c \o "_" \o PHL[i] \in Schemes }
        IN tabs' = (c :> Entries(IF Q = {} THEN (IF c = "sc" THEN {1} ELSE {3}) ELSE Q)) @@ tabs
  /\ UNCHANGED <<stage, groups, query, flaw, pc, path, near>>

DrawGroup ==
  /\ stage = "draw" /\ DOMAIN tabs = Schemes /\ Len(groups) < 3
  /\ \E more \in R({TRUE, TRUE, FALSE}), ns \in R(1..3) :
       IF more \/ groups = << >>
       THEN /\ \E l1, l2, l3 \in R(1..3), z1, z2, z3 \in R({1, 1, 2, 3}) :
                 LET one(l, z) == [loop |-> l, schemes |-> [ i \in 1..z |-> RandomElement(Schemes) ]]
                     all == << one(l1, z1), one(l2, z2), one(l3, z3) >>
                 IN groups' = Append(groups, SubSeq(all, 1, ns))
            /\ UNCHANGED <<stage, query, flaw>>
       ELSE /\ stage' = "query" /\ UNCHANGED <<groups, query, flaw>>
  /\ UNCHANGED <<tabs, pc, path, near>>

UsedTabs == { groups[g][s].schemes[n] : <<g, s, n>> \in { <<g, s, n>> \in (1..3) \X (1..3) \X (1..3) :
                g \in DOMAIN groups /\ s \in DOMAIN groups[g] /\ n \in DOMAIN groups[g][s].schemes } }
Flaws == {"", "", "", "", "", "", "", "", "nometa", "nosuite", "badmeta", "noconfig"}
DrawQuery ==
  /\ stage = "query" \/ (stage = "draw" /\ Len(groups) = 3)
  /\ \E q \in R(Texts), f \in R(1..12) : query' = q /\ flaw' = <<"", "", "", "", "", "", "", "", "nometa", "nosuite", "badmeta", "noconfig">>[f]
  /\ stage' = "walk"
  /\ UNCHANGED <<tabs, groups, pc, path, near>>

----------------------------------------------------------------------------
(* the walk: one entry point of one call at a time *)
Step(g, s, k, n, e) ==        \* the position after this entry point
  LET sub == groups[g][s] IN
  IF e < Len(tabs[sub.schemes[n]]) THEN [pc EXCEPT !.e = e + 1]
  ELSE IF n < Len(sub.schemes) THEN [pc EXCEPT !.e = 1, !.n = n + 1]
  ELSE IF k < sub.loop THEN [pc EXCEPT !.e = 1, !.n = 1, !.k = k + 1]
  ELSE IF s < Len(groups[g]) THEN [pc EXCEPT !.e = 1, !.n = 1, !.k = 1, !.s = s + 1]
  ELSE [g |-> g + 1, s |-> 1, k |-> 1, n |-> 1, e |-> 1]

Visit ==
  /\ stage = "walk" /\ pc.g <= Len(groups)
  /\ LET c == groups[pc.g][pc.s].schemes[pc.n]
         x == tabs[c][pc.e]
         hit == SelectSeq(x.args, LAMBDA a : a.n = query)
         part == SelectSeq(x.args, LAMBDA a : HasText(a.n, query))
     IN /\ path' = IF hit = << >> THEN path ELSE Append(path, [g |-> pc.g, c |-> c, p |-> x.p, i |-> hit[1].i])
        /\ near' = IF hit # << >> \/ part = << >> \/ \E m \in DOMAIN near : near[m].c = c /\ near[m].p = x.p THEN near
                   ELSE Append(near, [c |-> c, p |-> x.p, names |-> [ m \in DOMAIN part |-> part[m].n ]])
        /\ pc' = Step(pc.g, pc.s, pc.k, pc.n, pc.e)
  /\ UNCHANGED <<stage, tabs, groups, query, flaw>>
Finish == /\ stage = "walk" /\ pc.g > Len(groups) /\ stage' = "done"
          /\ UNCHANGED <<tabs, groups, query, flaw, pc, path, near>>
Next == DrawTab \/ DrawGroup \/ DrawQuery \/ Visit \/ Finish

----------------------------------------------------------------------------
(* declarative definition: the path is the projection of the unrolled suite *)
RECURSIVE Times(_, _)
Times(q, k) == IF k = 0 THEN << >> ELSE q \o Times(q, k - 1)
Uses(g, c) == FlattenSeq([ e \in DOMAIN tabs[c] |->
                [ m \in 1 .. Cardinality({ a \in DOMAIN tabs[c][e].args : tabs[c][e].args[a].n = query }) |->
                   [g |-> g, c |-> c, p |-> tabs[c][e].p,
                    i |-> tabs[c][e].args[CHOOSE a \in DOMAIN tabs[c][e].args : tabs[c][e].args[a].n = query].i] ] ])
Unrolled(g) == FlattenSeq([ s \in DOMAIN groups[g] |-> Times(groups[g][s].schemes, groups[g][s].loop) ])
Expected == FlattenSeq([ g \in DOMAIN groups |-> LET u == Unrolled(g) IN FlattenSeq([ n \in DOMAIN u |-> Uses(g, u[n]) ]) ])
Suggested == { <<c, p>> \in UsedTabs \X { PHL[i] : i \in 1..5 } :
                 \E e \in DOMAIN tabs[c] : /\ tabs[c][e].p = p
                                           /\ \A a \in DOMAIN tabs[c][e].args : tabs[c][e].args[a].n # query
                                           /\ \E a \in DOMAIN tabs[c][e].args : HasText(tabs[c][e].args[a].n, query) }
Declared == stage = "done" => /\ path = Expected
                              /\ { <<near[m].c, near[m].p>> : m \in DOMAIN near } = Suggested
                              /\ (path = << >>) = (\A c \in UsedTabs : \A e \in DOMAIN tabs[c] :
                                                     \A a \in DOMAIN tabs[c][e].args : tabs[c][e].args[a].n # query)
Emit == stage = "done" =>
  PrintT("@@" \o ToJson([tabs |-> tabs, groups |-> groups, query |-> query, flaw |-> flaw, path |-> path, near |-> near,
                         used |-> UsedTabs]))
============================================================================
