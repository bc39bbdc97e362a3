----------------------------- MODULE CapAccept -----------------------------
(* Which combinations of host variables, scheme interfaces and suites capgen  *)
(* accepts (C06).  A behaviour draws a configuration (mostly consistent, with *)
(* a few deviations), then walks through it as the generator has to: suite by *)
(* suite, phase by phase, scheme by scheme, argument by argument, with the    *)
(* dictionary of what the host and the earlier schemes provide, and ends with *)
(* a verdict and the arguments at fault.  Invariant SameVerdict states that   *)
(* this walk agrees with a declarative definition of consistency.             *)
(* Dimensions: H columns (for an argument: the loop extent in the run phase,  *)
(* the whole dimension otherwise), L the loop extent where it does not        *)
(* belong, V layers, I interfaces, N another dimension of the host, U a       *)
(* dimension nobody provides; Z and B are layers from 0 and from a lower bound *)
(* of the host (other ranges than V, and never reduced to one level).          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

VARIABLES stage,   \* host | args | suites | dev | proc | done
          host,    \* standard name -> host variable
          entry,   \* <<scheme, phase>> -> sequence of arguments
          suites,  \* sequence of suites: sequence of groups: sequence of schemes
          todo,    \* what is still to be drawn / processed
          dict,    \* what is provided at this point of the suite
          bad,     \* the arguments at fault so far
          hist     \* deviations applied
vars == <<stage, host, entry, suites, todo, dict, bad, hist>>

R(S) == IF S = {} THEN {} ELSE { RandomElement(S) }
PHL == << "init", "ts_init", "run", "ts_final", "final" >>
Schemes == {"alpha", "beta", "gamma"}

FamUnits == [ len |-> {"m", "cm", "mm", "um", "km"}, time |-> {"s", "min", "h", "d"}, pres |-> {"Pa", "hPa"},
              temp |-> {"K", "C"}, mix |-> {"kg kg-1", "g kg-1"}, speed |-> {"m s-1", "km h-1"},
              flux |-> {"W m-2", "erg cm-2 s-1"}, angle |-> {"radian", "degree", "degree_north", "degree_east"},
              one |-> {"1"}, count |-> {"count"}, none |-> {"none", "None"}, flag |-> {"flag"} ]
AllUnits == UNION { FamUnits[f] : f \in DOMAIN FamUnits }
(* pairs of units with a known transformation *)
Conv == { {"m", "cm"}, {"m", "mm"}, {"m", "um"}, {"m", "km"}, {"mm", "km"}, {"s", "min"}, {"s", "h"}, {"h", "d"}, {"s", "d"},
          {"Pa", "hPa"}, {"K", "C"}, {"kg kg-1", "g kg-1"}, {"m s-1", "km h-1"}, {"W m-2", "erg cm-2 s-1"},
          {"radian", "degree"}, {"radian", "degree_north"}, {"radian", "degree_east"} }
NormU(u) == IF u = "None" THEN "none" ELSE u
UnitsOK(ty, u, v) == NormU(u) = NormU(v) \/ ({u, v} \in Conv /\ ty \in {"real", "integer"})

(* quantities: type, unit family, dimensions, and whether hosts provide them  *)
Quant == [
  air_temperature  |-> [ty |-> "real", fam |-> "temp", d |-> <<"H", "V">>, own |-> FALSE],
  air_pressure     |-> [ty |-> "real", fam |-> "pres", d |-> <<"H", "I">>, own |-> FALSE],
  snow_depth       |-> [ty |-> "real", fam |-> "len", d |-> <<"H">>, own |-> FALSE],
  wind_speed       |-> [ty |-> "real", fam |-> "speed", d |-> <<"V", "H">>, own |-> FALSE],
  reference_height |-> [ty |-> "real", fam |-> "len", d |-> <<"V">>, own |-> FALSE],
  soil_age         |-> [ty |-> "real", fam |-> "time", d |-> <<"H", "N">>, own |-> FALSE],
  band_flux        |-> [ty |-> "real", fam |-> "flux", d |-> <<"H", "V", "N">>, own |-> FALSE],
  latitude         |-> [ty |-> "real", fam |-> "angle", d |-> <<"H">>, own |-> FALSE],
  edge_speed       |-> [ty |-> "real", fam |-> "speed", d |-> <<"H", "Z">>, own |-> FALSE],
  base_profile     |-> [ty |-> "real", fam |-> "pres", d |-> <<"B">>, own |-> FALSE],
  step_length      |-> [ty |-> "real", fam |-> "time", d |-> << >>, own |-> FALSE],
  step_number      |-> [ty |-> "integer", fam |-> "one", d |-> << >>, own |-> FALSE],
  index_of_top     |-> [ty |-> "integer", fam |-> "count", d |-> <<"H">>, own |-> FALSE],
  wet_columns      |-> [ty |-> "logical", fam |-> "flag", d |-> <<"H">>, own |-> FALSE],
  start_flag       |-> [ty |-> "logical", fam |-> "flag", d |-> << >>, own |-> FALSE],
  method_name      |-> [ty |-> "character", fam |-> "none", d |-> << >>, own |-> FALSE],
  own_mixing       |-> [ty |-> "real", fam |-> "mix", d |-> <<"H", "V">>, own |-> TRUE],
  own_length       |-> [ty |-> "real", fam |-> "len", d |-> <<"H">>, own |-> TRUE],
  own_index        |-> [ty |-> "integer", fam |-> "one", d |-> <<"H">>, own |-> TRUE],
  own_edges        |-> [ty |-> "real", fam |-> "pres", d |-> <<"H", "B">>, own |-> TRUE],
  own_time         |-> [ty |-> "real", fam |-> "time", d |-> << >>, own |-> TRUE],
  own_name         |-> [ty |-> "character", fam |-> "none", d |-> << >>, own |-> TRUE] ]
HostStds == { q \in DOMAIN Quant : ~ Quant[q].own }
OwnStds == DOMAIN Quant \ HostStds
Kinds(ty) == CASE ty = "real" -> {"kind_phys", "kind_r4"} [] ty = "character" -> {"len=8", "len=16", "len=*"} [] OTHER -> {""}

(* declared types agree up to what can be converted *)
KindOK(a, v) == a.ty = "character" => (a.kind = v.kind \/ "len=*" \in {a.kind, v.kind})
Without(d, x) == SelectSeq(d, LAMBDA e : e # x)
Vert(d) == { x \in {"V", "I"} : \E i \in 1..Len(d) : d[i] = x }
(* the argument receives one level of the variable *)
Sliced(a, v) == /\ \E i \in 1..Len(a.d) : a.d[i] = "H"
                /\ \E x \in Vert(v.d) : a.d = Without(v.d, x)
DimsOK(a, v) == a.d = v.d \/ Sliced(a, v)
Known(d) == \A i \in 1..Len(d) : d[i] \in {"H", "V", "I", "N", "Z", "B"}
LoopVar(std) == std \in {"horizontal_loop_extent", "horizontal_loop_begin", "horizontal_loop_end"}

Compatible(a, v) ==
  /\ a.ty = v.ty
  /\ KindOK(a, v)
  /\ UnitsOK(a.ty, a.u, v.u)
  /\ DimsOK(a, v)
  /\ v.act => a.opt
  /\ v.prot => a.int = "in"

Var(a) == [ty |-> a.ty, kind |-> a.kind, u |-> a.u, d |-> a.d, act |-> FALSE, prot |-> FALSE, top |-> a.top]
(* an argument nobody provides can be created from this declaration *)
Creates(a) == a.int = "out" /\ Known(a.d) /\ a.kind # "len=*"

----------------------------------------------------------------------------
(* drawing a configuration *)
Init == /\ stage = "host" /\ host = << >> /\ entry = << >> /\ suites = << >>
        /\ todo = [q |-> HostStds, e |-> {}] /\ dict = << >> /\ bad = {} /\ hist = << >>

HostVar(q) == { [ty |-> Quant[q].ty, kind |-> k, u |-> u, d |-> Quant[q].d, act |-> a = 1, prot |-> p = 1, top |-> t = 1] :
                k \in Kinds(Quant[q].ty) \ {"len=*"}, u \in FamUnits[Quant[q].fam],
                a \in IF Quant[q].ty # "character" /\ Quant[q].d # << >> THEN 0..3 ELSE {0}, p \in 0..3,
                t \in IF Vert(Quant[q].d) # {} /\ Quant[q].d[1] # "V" THEN 0..2 ELSE {0} }

AddHost == /\ stage = "host"
           /\ \/ \E q \in R(todo.q) : \E v \in R(HostVar(q)) : \E keep \in R(1..3) :
                   /\ todo' = [todo EXCEPT !.q = @ \ {q}]
                   /\ host' = IF keep = 1 THEN host ELSE (q :> v) @@ host
                   /\ UNCHANGED <<stage, entry>>
              \/ /\ todo.q = {}
                 /\ \E A \in R({ S \in SUBSET (Schemes \X { PHL[i] : i \in 1..5 }) :
                                   /\ \A s \in Schemes : Cardinality({ x \in S : x[1] = s }) \in 1..2
                                   /\ \E x \in S : x[2] = "run" }) :
                      /\ todo' = [q |-> {}, e |-> A]
                      /\ entry' = [x \in A |-> << >>]
                      /\ stage' = "args"
                 /\ UNCHANGED host
           /\ UNCHANGED <<suites, dict, bad, hist>>

ArgOf(q) == LET v == IF q \in DOMAIN host THEN host[q] ELSE [act |-> FALSE, prot |-> FALSE, u |-> "", d |-> Quant[q].d] IN
  { [std |-> q, ty |-> Quant[q].ty, kind |-> k, u |-> u, d |-> Quant[q].d, int |-> i,
     opt |-> (v.act \/ (q \in DOMAIN host /\ o = 0)), top |-> t = 0, dflt |-> FALSE] :
    k \in Kinds(Quant[q].ty) \ (IF v.u = "" /\ Quant[q].own THEN {"len=*"} ELSE {}),
    u \in { x \in FamUnits[Quant[q].fam] : v.u = "" \/ UnitsOK(Quant[q].ty, x, v.u) },
    i \in IF v.prot THEN {"in"} ELSE IF v.u = "" THEN {"out", "in"} ELSE {"in", "out", "inout"},
    o \in 0..5, t \in IF Vert(Quant[q].d) # {} /\ Quant[q].d[1] # "V" THEN 0..2 ELSE {1} }
(* character lengths must fit what the host declares *)
FitLen(a) == IF a.ty = "character" /\ a.std \in DOMAIN host /\ a.kind # "len=*" THEN [a EXCEPT !.kind = host[a.std].kind]
             ELSE IF a.std = "own_name" THEN [a EXCEPT !.kind = "len=16"] ELSE a

AddArgs == /\ stage = "args"
           /\ \/ \E x \in R(todo.e) : \E n \in R(1..4) :
                   LET used == { entry[x][i].std : i \in 1..Len(entry[x]) }
                       made == UNION { { entry[y][i].std : i \in 1..Len(entry[y]) } : y \in DOMAIN entry } \ DOMAIN host
                   IN \E q \in R((IF n = 4 THEN OwnStds ELSE (DOMAIN host \cup made)) \ used) : \E a \in R(ArgOf(q)) :
                      /\ entry' = [entry EXCEPT ![x] = Append(@, FitLen(a))]
                      /\ todo' = [todo EXCEPT !.e = IF n >= 3 /\ Len(entry[x]) > 0 THEN @ \ {x} ELSE @]
                      /\ stage' = stage
              \/ /\ todo.e = {} /\ stage' = "suites" /\ UNCHANGED <<entry, todo>>
           /\ UNCHANGED <<host, suites, dict, bad, hist>>

Lists(S) == UNION { [1..n -> S] : n \in 1..2 }
AddSuites == /\ stage = "suites"
             /\ \E n \in R(1..3) :
                  \E s1 \in R(Lists(Lists(Schemes))) : \E s2 \in R(Lists(Lists(Schemes))) :
                    suites' = IF n = 1 THEN << s1, s2 >> ELSE << s1 >>
             /\ \E n \in R({0, 0, 1, 1, 1, 2} \cup {0, 1}) : todo' = [q |-> {}, e |-> n]
             /\ stage' = "dev"
             /\ UNCHANGED <<host, entry, dict, bad, hist>>

----------------------------------------------------------------------------
(* deviations *)
Slots == UNION { { <<x, i>> : i \in 1..Len(entry[x]) } : x \in DOMAIN entry }
Listed == UNION { UNION { { suites[s][g][k] : k \in 1..Len(suites[s][g]) } : g \in 1..Len(suites[s]) } : s \in 1..Len(suites) }
UsedSlots == { z \in Slots : z[1][1] \in Listed }
Swap(d) == IF Len(d) < 2 THEN d ELSE << d[2], d[1] >> \o SubSeq(d, 3, Len(d))
CONSTANT Only       \* the deviations to draw from, {} for all of them
Devs == IF Only # {} THEN Only ELSE {"type", "units", "len", "swapdims", "moredims", "lessdims", "scalar", "otherlev", "lower", "slice", "loopdim", "nonopt",
         "write", "hostprot", "hostact", "hostgone", "missing", "misswrite", "unknowndim", "default", "loopvar", "createstar", "other"}
(* the deviation applied to an argument *)
Deviate(a, k, ph) ==
  CASE k = "type"       -> { [a EXCEPT !.ty = t, !.kind = IF t = "real" THEN "kind_phys" ELSE IF t = "character" THEN "len=8" ELSE ""] :
                             t \in {"real", "integer", "logical", "character"} \ {a.ty} }
    [] k = "units"      -> { [a EXCEPT !.u = u] : u \in AllUnits \ {a.u} }
    [] k = "len"        -> IF a.ty = "character" THEN { [a EXCEPT !.kind = x] : x \in {"len=4", "len=8", "len=16"} } ELSE {}
    [] k = "swapdims"   -> IF Len(a.d) >= 2 THEN { [a EXCEPT !.d = Swap(@)] } ELSE {}
    [] k = "moredims"   -> { [a EXCEPT !.d = Append(@, x)] : x \in {"N", "V"} \ { a.d[i] : i \in 1..Len(a.d) } }
    [] k = "lessdims"   -> IF a.d # << >> THEN { [a EXCEPT !.d = Tail(@)] } ELSE {}
    [] k = "scalar"     -> IF a.d # << >> THEN { [a EXCEPT !.d = << >>] } ELSE { [a EXCEPT !.d = <<"H">>] }
    [] k = "otherlev"   -> IF Vert(a.d) # {} THEN { [a EXCEPT !.d = [i \in 1..Len(a.d) |-> IF a.d[i] = "V" THEN "I" ELSE IF a.d[i] = "I" THEN "V" ELSE a.d[i]]] } ELSE {}
    [] k = "lower"      -> IF \E i \in 1..Len(a.d) : a.d[i] \in {"V", "Z", "B"}
                           THEN { [a EXCEPT !.d = [i \in 1..Len(a.d) |-> IF a.d[i] \in {"V", "Z", "B"} THEN x ELSE a.d[i]]] : x \in {"V", "Z", "B"} } ELSE {}
    [] k = "slice"      -> IF Vert(a.d) # {} THEN { [a EXCEPT !.d = Without(Without(@, "V"), "I"), !.top = FALSE] } ELSE {}
    [] k = "loopdim"    -> IF ph # "run" /\ \E i \in 1..Len(a.d) : a.d[i] = "H"
                           THEN { [a EXCEPT !.d = [i \in 1..Len(a.d) |-> IF a.d[i] = "H" THEN "L" ELSE a.d[i]]] } ELSE {}
    [] k = "nonopt"     -> IF a.opt THEN { [a EXCEPT !.opt = FALSE] } ELSE {}
    [] k = "write"      -> IF a.int = "in" THEN { [a EXCEPT !.int = i] : i \in {"out", "inout"} } ELSE {}
    [] k = "missing"    -> { [a EXCEPT !.std = "lost_quantity", !.int = i, !.opt = FALSE] : i \in {"in", "inout"} }
    [] k = "misswrite"  -> { [a EXCEPT !.std = "new_quantity", !.int = "out", !.opt = FALSE] }
    [] k = "unknowndim" -> { [a EXCEPT !.std = "new_quantity", !.int = "out", !.opt = FALSE, !.d = Append(@, "U")] }
    [] k = "default"    -> IF a.ty = "character" THEN {}
                           ELSE { [a EXCEPT !.std = "default_quantity", !.int = i, !.opt = FALSE, !.dflt = TRUE, !.d = << >>] : i \in {"in", "inout"} }
    [] k = "loopvar"    -> { [a EXCEPT !.std = "horizontal_loop_extent", !.ty = "integer", !.kind = "", !.u = "count", !.d = << >>,
                                       !.int = "in", !.opt = FALSE] }
    [] k = "createstar" -> { [a EXCEPT !.std = "new_name", !.ty = "character", !.kind = x, !.u = "none", !.d = << >>, !.int = "out",
                                       !.opt = FALSE] : x \in {"len=*", "len=8"} }
    [] k = "other"      -> { [a EXCEPT !.int = i] : i \in {"in", "out", "inout"} }
    [] OTHER -> {}
HostDev(v, k) == CASE k = "hostprot" -> {[v EXCEPT !.prot = TRUE]}
                   [] k = "hostact"  -> IF v.ty # "character" THEN {[v EXCEPT !.act = TRUE]} ELSE {}
                   [] OTHER -> {}
NoTop(a) == IF Vert(a.d) = {} \/ a.d[1] = "V" THEN [a EXCEPT !.top = FALSE] ELSE a
(* not drawn: two arguments of one table with the same standard name, and a
   default value for a name which is also used without                       *)
Sane(e) == /\ \A x \in DOMAIN e : \A i, j \in 1..Len(e[x]) : i # j => e[x][i].std # e[x][j].std
           /\ Cardinality({ z \in UNION { { <<x, i>> : i \in 1..Len(e[x]) } : x \in DOMAIN e } : e[z[1]][z[2]].dflt }) <= 1

Dev == /\ stage = "dev" /\ todo.e > 0
       /\ \E k \in R(Devs) : \E z \in R(UsedSlots) :
            LET a == entry[z[1]][z[2]] IN
            \/ /\ k \in {"hostprot", "hostact", "hostgone"}
               /\ IF a.std \in DOMAIN host
                  THEN IF k = "hostgone"
                       THEN host' = [q \in DOMAIN host \ {a.std} |-> host[q]]
                       ELSE \E v \in (IF HostDev(host[a.std], k) = {} THEN {host[a.std]} ELSE HostDev(host[a.std], k)) :
                              host' = [host EXCEPT ![a.std] = v]
                  ELSE host' = host
               /\ entry' = entry
            \/ /\ k \notin {"hostprot", "hostact", "hostgone"}
               /\ LET C == Deviate(a, k, z[1][2]) IN
                  IF C = {} THEN entry' = entry
                  ELSE \E b \in R(C) :
                         LET e2 == [entry EXCEPT ![z[1]][z[2]] = NoTop(b)] IN entry' = IF Sane(e2) THEN e2 ELSE entry
               /\ host' = host
       /\ hist' = Append(hist, "d")
       /\ todo' = [todo EXCEPT !.e = @ - 1]
       /\ UNCHANGED <<stage, suites, dict, bad>>

----------------------------------------------------------------------------
(* the walk of the generator *)
RECURSIVE Flat(_)
Flat(q) == IF q = << >> THEN << >> ELSE Head(q) \o Flat(Tail(q))
RECURSIVE Once(_, _)
Once(q, seen) == IF q = << >> THEN << >>
                 ELSE IF Head(q) \in seen THEN Once(Tail(q), seen)
                 ELSE << Head(q) >> \o Once(Tail(q), seen \cup {Head(q)})
(* the calls of suite s: <<scheme, phase>> in order *)
CallsOf(s) == LET all == Flat(suites[s])
                  ph(p) == [i \in 1..Len(all) |-> << all[i], p >>]
                  one(p) == SelectSeq(IF p = "run" THEN ph(p) ELSE Once(ph(p), {}), LAMBDA x : x \in DOMAIN entry)
              IN one("init") \o one("ts_init") \o one("run") \o one("ts_final") \o one("final")
ArgsOf(s) == LET cs == CallsOf(s)
                 as(x) == [i \in 1..Len(entry[x]) |-> [x |-> x, i |-> i]]
             IN Flat([k \in 1..Len(cs) |-> as(cs[k])])

Begin == /\ stage = "dev" /\ todo.e = 0
         /\ stage' = "proc"
         /\ todo' = [q |-> 1, e |-> ArgsOf(1)]
         /\ dict' = host
         /\ UNCHANGED <<host, entry, suites, bad, hist>>

(* one vertical loop per call: what the earlier arguments of the table do     *)
SliceDim(a, D) == IF a.std \in DOMAIN D /\ a.d # D[a.std].d /\ Sliced(a, D[a.std])
                  THEN CHOOSE x \in Vert(D[a.std].d) : TRUE ELSE ""
LoopOK(x, i, D) == LET m == SliceDim(entry[x][i], D) IN
                   m = "" \/ \A j \in 1..(i - 1) : SliceDim(entry[x][j], D) \in {"", m}

Step == /\ stage = "proc" /\ todo.e # << >>
        /\ LET z == Head(todo.e)
               a == entry[z.x][z.i]
               ph == z.x[2]
               ok == IF LoopVar(a.std) THEN ph = "run"
                     ELSE IF a.std \in DOMAIN dict
                     THEN Compatible(a, dict[a.std]) /\ LoopOK(z.x, z.i, dict)
                     ELSE Creates(a) \/ a.dflt
           IN /\ dict' = IF ~ LoopVar(a.std) /\ a.std \notin DOMAIN dict /\ a.int = "out" /\ ok THEN (a.std :> Var(a)) @@ dict ELSE dict
              /\ bad' = IF ok THEN bad ELSE bad \cup {<<z.x, z.i, a.std>>}
        /\ todo' = [todo EXCEPT !.e = Tail(@)]
        /\ UNCHANGED <<stage, host, entry, suites, hist>>

NextSuite == /\ stage = "proc" /\ todo.e = << >>
             /\ IF todo.q < Len(suites)
                THEN /\ todo' = [q |-> todo.q + 1, e |-> ArgsOf(todo.q + 1)]
                     /\ dict' = host /\ stage' = stage
                ELSE /\ stage' = "done" /\ UNCHANGED <<todo, dict>>
             /\ UNCHANGED <<host, entry, suites, bad, hist>>

Next == AddHost \/ AddArgs \/ AddSuites \/ Dev \/ Begin \/ Step \/ NextSuite

----------------------------------------------------------------------------
(* Declarative consistency of a suite                                         *)
At(z) == entry[z.x][z.i]
ConsistentSuite(s) ==
  LET L == ArgsOf(s)
      std(k) == At(L[k]).std
      First(q) == CHOOSE k \in 1..Len(L) : std(k) = q /\ \A j \in 1..(k - 1) : std(j) # q
      Provider(q) == IF q \in DOMAIN host THEN host[q] ELSE Var(At(L[First(q)]))
  IN \A k \in 1..Len(L) :
       LET a == At(L[k]) IN
       IF LoopVar(a.std) THEN L[k].x[2] = "run"
       ELSE IF a.dflt THEN TRUE
       ELSE /\ a.std \notin DOMAIN host => Creates(At(L[First(a.std)]))
            /\ (a.std \in DOMAIN host \/ First(a.std) # k) => Compatible(a, Provider(a.std))
            /\ \A j \in 1..(k - 1) :
                 L[j].x = L[k].x /\ L[j].i < L[k].i =>
                 LET b == At(L[j])
                     m(c) == IF LoopVar(c.std) \/ c.dflt \/ c.d = Provider(c.std).d \/ ~ Sliced(c, Provider(c.std)) THEN ""
                             ELSE CHOOSE x \in Vert(Provider(c.std).d) : TRUE
                 IN m(a) = "" \/ m(b) = "" \/ m(a) = m(b)
Consistent == \A s \in 1..Len(suites) : ConsistentSuite(s)
SameVerdict == stage = "done" => (Consistent <=> bad = {})
(* removing a writer of a host variable never makes a configuration wrong:
   sanity of the definition                                                  *)
EntrySeq == LET S == DOMAIN entry IN S
Emit == stage = "done" =>
  PrintT("@@" \o ToJson([host |-> host, entry |-> { [c |-> x[1], p |-> x[2], args |-> entry[x]] : x \in DOMAIN entry },
                         suites |-> suites, bad |-> bad, n |-> Len(hist)]))
=============================================================================
