---------------------------- MODULE ConstAccept ----------------------------
(* Which constituents and tendencies capgen accepts (C29).  A behaviour draws *)
(* a configuration (variables of the host, schemes with constituents and with *)
(* tendencies of constituents, suites; mostly consistent, with a few          *)
(* deviations) and walks through it as the generator has to: per suite, the   *)
(* calls in order, with the dictionary of the constituents the suite          *)
(* declares; then over the suites, with the dictionary of the model's         *)
(* constituents and tendencies; then over the tendencies.  It ends with a     *)
(* verdict and the names at fault.  Invariant SameVerdict states that the     *)
(* walk agrees with a declarative definition of consistency.                  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

VARIABLES stage,   \* host | args | suites | dev | suite | tend | done
          host,    \* name -> variable of the host
          entry,   \* <<scheme, phase>> -> sequence of arguments
          suites,  \* sequence of suites: sequence of groups: sequence of schemes
          todo,    \* what is still to be drawn / processed
          dict,    \* the constituents of the suite that is processed
          model,   \* the constituents and tendencies of the model
          bad      \* the names at fault so far
vars == <<stage, host, entry, suites, todo, dict, model, bad>>

R(S) == IF S = {} THEN {} ELSE { RandomElement(S) }
Schemes == {"alpha", "beta", "gamma"}
Names == {"dust", "ozone", "cloud_liquid_water", "mole_fraction_of_dust"}
Fam == [ dust |-> {"kg kg-1", "g kg-1"}, ozone |-> {"Pa", "hPa"}, cloud_liquid_water |-> {"m s-1", "km h-1"}, mole_fraction_of_dust |-> {"kg m-2"} ]
AllUnits == UNION { Fam[n] : n \in Names } \cup {"m", "K"}
Conv == { {"kg kg-1", "g kg-1"}, {"Pa", "hPa"}, {"m s-1", "km h-1"} }
UnitsOK(u, v) == u = v \/ {u, v} \in Conv
Rate(u) == u \o " s-1"
WrongRate(u) == { u, u \o " s-2", u \o " h-1", u \o " s-1 m", u \o " m s-1", u \o " s-1 s-1" }

Full == <<"H", "V">>
(* the argument receives one level of the variable *)
Sliced(d, v) == v = Full /\ d = <<"H">>
Compatible(a, v) == a.ty = v.ty /\ UnitsOK(a.u, v.u) /\ (a.d = v.d \/ Sliced(a.d, v.d))
(* what can be stored in the constituent array *)
Storable(v) == v.d = Full /\ v.ty = "real"
(* definitions of the same constituent by two suites                          *)
Agree(v, m) == Compatible(v, m) /\ v.d = m.d
Std(a) == IF a.t THEN "tendency_of_" \o a.n ELSE a.n

----------------------------------------------------------------------------
Init == /\ stage = "host" /\ host = << >> /\ entry = << >> /\ suites = << >>
        /\ todo = [q |-> Names, e |-> {}] /\ dict = << >> /\ model = << >> /\ bad = {}

AddHost == /\ stage = "host"
           /\ \E n \in R(0..6) : \E q \in R(Names) : \E u \in R(Fam[q]) :
                host' = IF n = 0 THEN (q :> [ty |-> "real", u |-> u, d |-> Full]) ELSE << >>
           /\ \E A \in R({ S \in SUBSET (Schemes \X {"init", "run"}) : Cardinality(S) \in 2..4 /\ \E x \in S : x[2] = "run" }) :
                /\ todo' = [q |-> {}, e |-> A]
                /\ entry' = [x \in A |-> << >>]
           /\ stage' = "args"
           /\ UNCHANGED <<suites, dict, model, bad>>

(* units of the state are the same everywhere in most configurations *)
Usual(n) == IF n \in Names THEN CHOOSE u \in Fam[n] : TRUE ELSE "K"
ArgOf(n, t) == { [n |-> n, t |-> t, u |-> IF t THEN Rate(Usual(n)) ELSE u, ty |-> "real", kind |-> IF k = 1 THEN "kind_r4" ELSE "kind_phys",
                  d |-> Full, int |-> i, fl |-> f] :
                 u \in IF t THEN {""} ELSE Fam[n], k \in 1..4, i \in {"in", "inout"}, f \in {"constituent", "advected"} }
AddArgs == /\ stage = "args"
           /\ \/ \E x \in R(todo.e) : \E m \in R(1..4) : \E n \in R(Names) : \E t \in R(1..3) :
                   \E a \in R(ArgOf(n, t = 1)) : \E o \in R(1..3) :
                   LET b == IF o > 1 /\ ~ a.t THEN [a EXCEPT !.u = Usual(n)] ELSE a
                       fresh == \A i \in 1..Len(entry[x]) : Std(entry[x][i]) # Std(b)
                       (* mostly, tendencies of constituents which exist *)
                       fits == b.t => (n \notin DOMAIN host /\ \E y \in DOMAIN entry : \E i \in 1..Len(entry[y]) : Std(entry[y][i]) = n /\ entry[y][i].u = Usual(n))
                   IN /\ entry' = IF fresh /\ fits THEN [entry EXCEPT ![x] = Append(@, b)] ELSE entry
                      /\ todo' = [todo EXCEPT !.e = IF m >= 3 /\ Len(entry[x]) > 0 THEN @ \ {x} ELSE @]
                      /\ stage' = stage
              \/ /\ todo.e = {} /\ stage' = "suites" /\ UNCHANGED <<entry, todo>>
           /\ UNCHANGED <<host, suites, dict, model, bad>>

Lists(S) == UNION { [1..n -> S] : n \in 1..2 }
AddSuites == /\ stage = "suites"
             /\ \E n \in R(1..3) : \E s1 \in R(Lists(Lists(Schemes))) : \E s2 \in R(Lists(Lists(Schemes))) :
                  suites' = IF n = 1 THEN << s1 >> ELSE << s1, s2 >>
             /\ \E n \in R({0, 1, 2}) : todo' = [q |-> {}, e |-> n]
             /\ stage' = "dev"
             /\ UNCHANGED <<host, entry, dict, model, bad>>

Slots == UNION { { <<x, i>> : i \in 1..Len(entry[x]) } : x \in DOMAIN entry }
Listed == UNION { UNION { { suites[s][g][k] : k \in 1..Len(suites[s][g]) } : g \in 1..Len(suites[s]) } : s \in 1..Len(suites) }
UsedSlots == { z \in Slots : z[1][1] \in Listed }
Deviate(a, k) ==
  CASE k = "type"  -> [a EXCEPT !.ty = "integer", !.kind = ""]
    [] k = "units" -> [a EXCEPT !.u = RandomElement(AllUnits \cup IF a.t THEN WrongRate(Usual(a.n)) ELSE {})]
    [] k = "rate"  -> IF a.t THEN [a EXCEPT !.u = RandomElement(WrongRate(Usual(a.n)))] ELSE a
    [] k = "dims"  -> [a EXCEPT !.d = RandomElement({<<"H", "I">>, <<"V", "H">>, <<"V">>, <<"H">>, <<"H", "V", "N">>})]
    [] k = "flag"  -> [a EXCEPT !.fl = ""]
    [] k = "orphan" -> IF a.t THEN [a EXCEPT !.n = "lost_quantity"] ELSE a
    [] OTHER       -> IF a.t THEN [a EXCEPT !.n = RandomElement(Names)] ELSE [a EXCEPT !.kind = "kind_r4"]
Dev == /\ stage = "dev" /\ todo.e > 0
       /\ \/ \E k \in R({"type", "units", "rate", "dims", "flag", "orphan", "other"}) : \E z \in R(UsedSlots) :
               LET e2 == [entry EXCEPT ![z[1]][z[2]] = Deviate(@, k)]
                   sane == \A x \in DOMAIN e2 : \A i, j \in 1..Len(e2[x]) : i # j => Std(e2[x][i]) # Std(e2[x][j])
               IN entry' = IF sane THEN e2 ELSE entry
          \/ UsedSlots = {} /\ entry' = entry
       /\ todo' = [todo EXCEPT !.e = @ - 1]
       /\ UNCHANGED <<stage, host, suites, dict, model, bad>>

----------------------------------------------------------------------------
(* the walk of the generator *)
RECURSIVE Flat(_)
Flat(q) == IF q = << >> THEN << >> ELSE Head(q) \o Flat(Tail(q))
RECURSIVE Once(_, _)
Once(q, seen) == IF q = << >> THEN << >>
                 ELSE IF Head(q) \in seen THEN Once(Tail(q), seen)
                 ELSE << Head(q) >> \o Once(Tail(q), seen \cup {Head(q)})
CallsOf(s) == LET all == Flat(suites[s])
                  ph(p) == [i \in 1..Len(all) |-> << all[i], p >>]
              IN SelectSeq(Once(ph("init"), {}) \o ph("run"), LAMBDA x : x \in DOMAIN entry)
ArgsOf(s) == Flat([k \in 1..Len(CallsOf(s)) |-> entry[CallsOf(s)[k]]])
Var(a) == [ty |-> a.ty, u |-> a.u, d |-> a.d]

Begin == /\ stage = "dev" /\ todo.e = 0
         /\ stage' = "suite" /\ todo' = [q |-> 1, e |-> ArgsOf(1)] /\ dict' = << >>
         /\ UNCHANGED <<host, entry, suites, model, bad>>
(* the next argument of the suite *)
Step == /\ stage = "suite" /\ todo.e # << >>
        /\ LET a == Head(todo.e)
               s == Std(a)
               known == s \in DOMAIN host \/ s \in DOMAIN dict
               v == IF s \in DOMAIN host THEN host[s] ELSE IF s \in DOMAIN dict THEN dict[s] ELSE Var(a)
           IN /\ bad' = IF known THEN (IF Compatible(a, v) THEN bad ELSE bad \cup {s})
                        ELSE IF a.fl # "" THEN bad ELSE bad \cup {s}
              /\ dict' = IF ~ known /\ a.fl # "" THEN (s :> [ty |-> a.ty, u |-> a.u, d |-> a.d, t |-> a.t, n |-> a.n]) @@ dict ELSE dict
        /\ todo' = [todo EXCEPT !.e = Tail(@)]
        /\ UNCHANGED <<stage, host, entry, suites, model>>
(* the suite's constituents become constituents of the model *)
Merge == /\ stage = "suite" /\ todo.e = << >>
         /\ LET new == DOMAIN dict \ DOMAIN model IN
            /\ bad' = bad \cup { s \in new : ~ Storable(dict[s]) } \cup { s \in DOMAIN dict \cap DOMAIN model : ~ Agree(dict[s], model[s]) }
            /\ model' = [s \in DOMAIN model \cup new |-> IF s \in new THEN dict[s] ELSE model[s]]
         /\ IF todo.q < Len(suites)
            THEN /\ todo' = [q |-> todo.q + 1, e |-> ArgsOf(todo.q + 1)] /\ dict' = << >> /\ stage' = stage
            ELSE /\ stage' = "tend" /\ todo' = [q |-> { s \in DOMAIN model' : model'[s].t }, e |-> {}] /\ UNCHANGED dict
         /\ UNCHANGED <<host, entry, suites>>
Tend == /\ stage = "tend"
        /\ IF todo.q = {} THEN stage' = "done" /\ UNCHANGED <<todo, bad>>
           ELSE LET s == CHOOSE x \in todo.q : TRUE
                    v == model[s]
                IN /\ todo' = [todo EXCEPT !.q = @ \ {s}]
                   /\ bad' = IF v.n \in DOMAIN model /\ v.u = Rate(model[v.n].u) /\ v.ty = model[v.n].ty /\ v.d = model[v.n].d
                             THEN bad ELSE bad \cup {s}
                   /\ stage' = stage
        /\ UNCHANGED <<host, entry, suites, dict, model>>

Next == AddHost \/ AddArgs \/ AddSuites \/ Dev \/ Begin \/ Step \/ Merge \/ Tend

----------------------------------------------------------------------------
(* Consistency, declaratively: every argument denotes a variable of the host  *)
(* or the constituent which the first flagged declaration of its suite        *)
(* defines, and is compatible with it; the suites' definitions agree with the *)
(* model's, which can be stored; a tendency is the rate of a constituent.     *)
Uses(s, q) == { k \in 1..Len(ArgsOf(s)) : Std(ArgsOf(s)[k]) = q }
Least(S) == CHOOSE k \in S : \A j \in S : k <= j
Def(s, q) == ArgsOf(s)[Least(Uses(s, q))]
AllStd == UNION { { Std(entry[x][i]) : i \in 1..Len(entry[x]) } : x \in DOMAIN entry }
Declaring(q) == IF q \in DOMAIN host THEN {} ELSE { s \in 1..Len(suites) : Uses(s, q) # {} }
Consistent ==
  /\ \A s \in 1..Len(suites), q \in AllStd : Uses(s, q) # {} =>
       /\ q \notin DOMAIN host => Def(s, q).fl # ""
       /\ \A k \in Uses(s, q) : Compatible(ArgsOf(s)[k], IF q \in DOMAIN host THEN host[q] ELSE Def(s, q))
  /\ \A q \in AllStd : Declaring(q) # {} =>
       LET m == Def(Least(Declaring(q)), q) IN
       /\ Storable(m)
       /\ \A s \in Declaring(q) : Agree(Def(s, q), m)
       /\ m.t => /\ m.n \in AllStd /\ Declaring(m.n) # {}
                 /\ m.u = Rate(Def(Least(Declaring(m.n)), m.n).u)
SameVerdict == stage = "done" => (Consistent <=> bad = {})
Emit == stage = "done" =>
  PrintT("@@" \o ToJson([host |-> host, entry |-> { [c |-> x[1], p |-> x[2], args |-> entry[x]] : x \in DOMAIN entry },
                         suites |-> suites, bad |-> bad, consts |-> { s \in DOMAIN model : ~ model[s].t }]))
=============================================================================
