---------------------------- MODULE StaticAccept ----------------------------
(* Which configurations prebuild accepts (C24).  A behaviour draws a host,    *)
(* scheme tables and suites (mostly consistent, with a few deviations), then  *)
(* walks through the tables as the generator has to: the suite files, the     *)
(* host's tables, then table by table and argument by argument.  bad collects *)
(* what is wrong with anything the suites call (must be rejected), iffy what  *)
(* is wrong with tables no suite calls (prebuild reads them too, both answers *)
(* are allowed).  Invariant SameVerdict: the walk agrees with a declarative   *)
(* definition.  Dimensions: H columns, V layers, I interfaces, N and U other  *)
(* dimensions, U is provided by nobody.                                       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

VARIABLES stage, host, entry, suites, sdef, todo, bad, iffy, hist
vars == <<stage, host, entry, suites, sdef, todo, bad, iffy, hist>>

R(S) == IF S = {} THEN {} ELSE { RandomElement(S) }
PHL == << "init", "ts_init", "run", "ts_final", "final" >>
Phases == { PHL[i] : i \in 1..5 }
Schemes == {"alpha", "beta", "run_off", "finalize_it", "initial"}

FamUnits == [ len |-> {"m", "cm", "mm", "um", "km"}, time |-> {"s", "min", "h", "d"}, pres |-> {"Pa", "hPa"},
              temp |-> {"K", "C"}, mix |-> {"kg kg-1", "g kg-1"}, speed |-> {"m s-1", "km h-1"},
              flux |-> {"W m-2", "erg cm-2 s-1"}, angle |-> {"radian", "degree", "degree_north", "degree_east"},
              one |-> {"1"}, count |-> {"count"}, none |-> {"none"}, flag |-> {"flag"} ]
AllUnits == UNION { FamUnits[f] : f \in DOMAIN FamUnits }
Conv == { {"m", "cm"}, {"m", "mm"}, {"m", "um"}, {"m", "km"}, {"mm", "km"}, {"s", "min"}, {"s", "h"}, {"h", "d"}, {"s", "d"},
          {"Pa", "hPa"}, {"K", "C"}, {"kg kg-1", "g kg-1"}, {"m s-1", "km h-1"}, {"W m-2", "erg cm-2 s-1"},
          {"radian", "degree"}, {"radian", "degree_north"}, {"radian", "degree_east"} }
UnitsOK(u, v) == u = v \/ {u, v} \in Conv

Quant == [
  air_temperature  |-> [ty |-> "real", fam |-> "temp", d |-> <<"H", "V">>],
  air_pressure     |-> [ty |-> "real", fam |-> "pres", d |-> <<"H", "I">>],
  snow_depth       |-> [ty |-> "real", fam |-> "len", d |-> <<"H">>],
  wind_speed       |-> [ty |-> "real", fam |-> "speed", d |-> <<"V", "H">>],
  reference_height |-> [ty |-> "real", fam |-> "len", d |-> <<"V">>],
  soil_age         |-> [ty |-> "real", fam |-> "time", d |-> <<"H", "N">>],
  band_flux        |-> [ty |-> "real", fam |-> "flux", d |-> <<"H", "V", "N">>],
  latitude         |-> [ty |-> "real", fam |-> "angle", d |-> <<"H">>],
  water_mixing     |-> [ty |-> "real", fam |-> "mix", d |-> <<"H", "V">>],
  step_length      |-> [ty |-> "real", fam |-> "time", d |-> << >>],
  step_number      |-> [ty |-> "integer", fam |-> "one", d |-> << >>],
  index_of_top     |-> [ty |-> "integer", fam |-> "count", d |-> <<"H">>],
  wet_columns      |-> [ty |-> "logical", fam |-> "flag", d |-> <<"H">>],
  start_flag       |-> [ty |-> "logical", fam |-> "flag", d |-> << >>],
  method_name      |-> [ty |-> "character", fam |-> "none", d |-> << >>],
  site_name        |-> [ty |-> "character", fam |-> "none", d |-> << >>] ]
Kinds(ty) == CASE ty = "real" -> {"kind_phys", "kind_r4"} [] ty = "character" -> {"len=8", "len=16", "len=*"} [] OTHER -> {""}

Compatible(a, v) ==
  /\ a.ty = v.ty
  /\ \/ a.kind = v.kind
     \/ a.ty = "character" /\ "len=*" \in {a.kind, v.kind}
  /\ Len(a.d) = Len(v.d)

----------------------------------------------------------------------------
Init == /\ stage = "host" /\ host = << >> /\ entry = << >> /\ suites = << >> /\ sdef = << >>
        /\ todo = [q |-> DOMAIN Quant, e |-> {}] /\ bad = {} /\ iffy = {} /\ hist = << >>

HostVar(q) == { [ty |-> Quant[q].ty, kind |-> k, u |-> u, d |-> Quant[q].d, act |-> IF a = 1 THEN "known" ELSE "", dup |-> FALSE] :
                k \in Kinds(Quant[q].ty) \ {"len=*"}, u \in FamUnits[Quant[q].fam],
                a \in IF Quant[q].ty # "character" /\ Quant[q].d # << >> THEN 0..2 ELSE {0} }

AddHost == /\ stage = "host"
           /\ \/ \E q \in R(todo.q) : \E v \in R(HostVar(q)) : \E keep \in R(1..3) :
                   /\ todo' = [todo EXCEPT !.q = @ \ {q}]
                   /\ host' = IF keep = 1 THEN host ELSE (q :> v) @@ host
                   /\ UNCHANGED <<stage, entry>>
              \/ /\ todo.q = {}
                 /\ \E n \in R(2..4) : \E S \in R({ X \in SUBSET Schemes : Cardinality(X) = n }) :
                    \E f \in R([S -> { P \in SUBSET Phases : Cardinality(P) \in 1..2 }]) :
                      LET A == { <<s, p>> \in S \X Phases : p \in f[s] } IN
                      /\ todo' = [q |-> {}, e |-> A]
                      /\ entry' = [x \in A |-> << >>]
                      /\ stage' = "args"
                 /\ UNCHANGED host
           /\ UNCHANGED <<suites, sdef, bad, iffy, hist>>

ArgOf(q) == LET v == host[q] IN
  { [std |-> q, ty |-> v.ty, kind |-> k, u |-> u, d |-> v.d, int |-> i, opt |-> (v.act # "" \/ o = 0)] :
    k \in IF v.ty = "character" THEN {v.kind, "len=*"} ELSE {v.kind},
    u \in { x \in FamUnits[Quant[q].fam] : UnitsOK(x, v.u) }, i \in {"in", "out", "inout"},
    o \in IF v.ty # "character" THEN 0..5 ELSE {1} }

AddArgs == /\ stage = "args"
           /\ \/ \E x \in R(todo.e) : \E n \in R(1..4) :
                   LET used == { entry[x][i].std : i \in 1..Len(entry[x]) } IN
                   \E q \in R(LET C == { h \in DOMAIN host : host[h].ty = "character" } IN
                             IF n = 2 /\ C \ used # {} THEN C \ used ELSE DOMAIN host \ used) : \E a \in R(ArgOf(q)) :
                      /\ entry' = [entry EXCEPT ![x] = Append(@, a)]
                      /\ todo' = [todo EXCEPT !.e = IF n >= 3 THEN @ \ {x} ELSE @]
                      /\ stage' = stage
              \/ /\ todo.e = {} /\ stage' = "suites" /\ UNCHANGED <<entry, todo>>
           /\ UNCHANGED <<host, suites, sdef, bad, iffy, hist>>

Written == { x[1] : x \in DOMAIN entry }
Lists(S) == UNION { [1..n -> S] : n \in 1..2 }
AddSuites == /\ stage = "suites"
             /\ \E n \in R(1..3) : \E s1 \in R(Lists(Lists(Written))) : \E s2 \in R(Lists(Lists(Written))) :
                  /\ suites' = IF n = 1 THEN << s1, s2 >> ELSE << s1 >>
                  /\ sdef' = [k \in 1..(IF n = 1 THEN 2 ELSE 1) |-> "ok"]
             /\ \E n \in R(0..9) : todo' = [q |-> {}, e |-> IF n < 3 THEN 0 ELSE IF n < 9 THEN 1 ELSE 2]
             /\ stage' = "dev"
             /\ UNCHANGED <<host, entry, bad, iffy, hist>>

----------------------------------------------------------------------------
(* deviations *)
Listed == UNION { UNION { { suites[s][g][k] : k \in 1..Len(suites[s][g]) } : g \in 1..Len(suites[s]) } : s \in 1..Len(suites) }
Slots == UNION { { <<x, i>> : i \in 1..Len(entry[x]) } : x \in DOMAIN entry }
UsedSlots == { z \in Slots : z[1][1] \in Listed }
ArgDevs == {"type", "units", "kind", "len", "swapdims", "moredims", "lessdims", "scalar", "otherdim", "nonopt", "missing", "unknowndim"}
HostDevs == {"gone", "act", "badact", "dup", "baddim"}
SuiteDevs == {"nofile", "name", "scheme", "long"}
Deviate(a, k) ==
  CASE k = "type"       -> { [a EXCEPT !.ty = t, !.kind = IF t = "real" THEN "kind_phys" ELSE IF t = "character" THEN "len=8" ELSE "", !.opt = FALSE] :
                             t \in {"real", "integer", "logical", "character"} \ {a.ty} }
    [] k = "units"      -> { [a EXCEPT !.u = u] : u \in AllUnits \ {a.u} }
    [] k \in {"kind", "len"} -> { [a EXCEPT !.kind = x] : x \in Kinds(a.ty) }
    [] k = "swapdims"   -> IF Len(a.d) >= 2 THEN { [a EXCEPT !.d = << a.d[2], a.d[1] >> \o SubSeq(a.d, 3, Len(a.d))] } ELSE {}
    [] k = "moredims"   -> { [a EXCEPT !.d = Append(@, x)] : x \in {"N", "V"} \ { a.d[i] : i \in 1..Len(a.d) } }
    [] k = "lessdims"   -> IF a.d # << >> THEN { [a EXCEPT !.d = Tail(@)] } ELSE {}
    [] k = "scalar"     -> IF a.d # << >> THEN { [a EXCEPT !.d = << >>] } ELSE { [a EXCEPT !.d = <<"H">>] }
    [] k = "otherdim"   -> { [a EXCEPT !.d = [i \in 1..Len(a.d) |-> IF a.d[i] = "V" THEN "I" ELSE IF a.d[i] = "I" THEN "V" ELSE a.d[i]]] }
    [] k = "nonopt"     -> { [a EXCEPT !.opt = FALSE] }
    [] k = "missing"    -> { [a EXCEPT !.std = "lost_quantity", !.int = i, !.opt = FALSE] : i \in {"in", "inout", "out"} }
    [] k = "unknowndim" -> IF a.d # << >> THEN { [a EXCEPT !.d = [@ EXCEPT ![Len(a.d)] = "U"]] } ELSE {}
Sane(e) == \A x \in DOMAIN e : \A i, j \in 1..Len(e[x]) : i # j => e[x][i].std # e[x][j].std
Dev == /\ stage = "dev" /\ todo.e > 0
       /\ \E w \in R(1..8) :
            \/ /\ w <= 5
               /\ \E k \in R(ArgDevs) : \E z \in R(IF w = 5 THEN Slots ELSE UsedSlots) :
                    LET C == Deviate(entry[z[1]][z[2]], k) IN
                    IF C = {} THEN entry' = entry
                    ELSE \E b \in R(C) : LET e2 == [entry EXCEPT ![z[1]][z[2]] = b] IN entry' = IF Sane(e2) THEN e2 ELSE entry
               /\ UNCHANGED <<host, suites, sdef>>
            \/ /\ w \in {6, 7}
               /\ \E k \in R(HostDevs) : \E z \in R(IF w = 6 THEN UsedSlots ELSE Slots) :
                    LET q == entry[z[1]][z[2]].std IN
                    host' = IF q \notin DOMAIN host THEN host
                            ELSE CASE k = "gone" -> [x \in DOMAIN host \ {q} |-> host[x]]
                                   [] k = "act" -> [host EXCEPT ![q].act = IF host[q].ty = "character" THEN "" ELSE "known"]
                                   [] k = "badact" -> [host EXCEPT ![q].act = IF host[q].ty = "character" THEN "" ELSE "unknown"]
                                   [] k = "dup" -> [host EXCEPT ![q].dup = TRUE]
                                   [] k = "baddim" -> IF host[q].d = << >> THEN host
                                                      ELSE [host EXCEPT ![q].d = [@ EXCEPT ![Len(@)] = "U"]]
               /\ UNCHANGED <<entry, suites, sdef>>
            \/ /\ w = 8
               /\ \E k \in R(SuiteDevs) : \E s \in R(1..Len(suites)) : sdef' = [sdef EXCEPT ![s] = k]
               /\ UNCHANGED <<entry, host, suites>>
       /\ hist' = Append(hist, "d")
       /\ todo' = [todo EXCEPT !.e = @ - 1]
       /\ UNCHANGED <<stage, bad, iffy>>

----------------------------------------------------------------------------
(* the walk *)
Fault(c, p, i, what, std) == [c |-> c, p |-> p, i |-> i, what |-> what, std |-> std]
DimFault(d) == \E i \in 1..Len(d) : d[i] = "U"
RECURSIVE Order(_)
Order(S) == IF S = {} THEN << >> ELSE LET x == CHOOSE y \in S : TRUE IN << x >> \o Order(S \ {x})

Begin == /\ stage = "dev" /\ todo.e = 0
         /\ stage' = "sdefs" /\ todo' = [q |-> 1, e |-> Order(Slots)]
         /\ UNCHANGED <<host, entry, suites, sdef, bad, iffy, hist>>
ReadSuite == /\ stage = "sdefs"
             /\ bad' = IF sdef[todo.q] = "ok" THEN bad ELSE bad \cup { Fault("", "suite", todo.q, sdef[todo.q], "") }
             /\ IF todo.q < Len(suites) THEN todo' = [todo EXCEPT !.q = @ + 1] /\ stage' = stage
                ELSE todo' = [todo EXCEPT !.q = DOMAIN host] /\ stage' = "hosts"
             /\ UNCHANGED <<host, entry, suites, sdef, iffy, hist>>
(* a standard name the host defines twice is ambiguous *)
ReadHost == /\ stage = "hosts"
            /\ IF todo.q = {} THEN stage' = "args2" /\ UNCHANGED <<todo, bad, iffy>>
               ELSE LET q == CHOOSE x \in todo.q : TRUE
                        used == \E z \in UsedSlots : entry[z[1]][z[2]].std = q
                        f == IF host[q].dup THEN { Fault("", "host", 0, "dup", q) } ELSE {}
                    IN /\ todo' = [todo EXCEPT !.q = @ \ {q}] /\ stage' = stage
                       /\ bad' = IF used THEN bad \cup f ELSE bad
                       /\ iffy' = IF used THEN iffy ELSE iffy \cup f
            /\ UNCHANGED <<host, entry, suites, sdef, hist>>
What(a) == IF a.std \notin DOMAIN host THEN "missing"
           ELSE IF ~ Compatible(a, host[a.std]) THEN "incompatible"
           ELSE IF ~ UnitsOK(a.u, host[a.std].u) THEN "units"
           ELSE IF DimFault(a.d) \/ DimFault(host[a.std].d) THEN "dims"
           ELSE IF host[a.std].act = "unknown" THEN "active"
           ELSE "ok"
(* a table nobody calls may also disagree with the others *)
Disagrees(z) == \E y \in Slots : LET a == entry[z[1]][z[2]] b == entry[y[1]][y[2]] IN a.std = b.std /\ ~ Compatible(a, b)
ReadArg == /\ stage = "args2"
           /\ IF todo.e = << >> THEN stage' = "done" /\ UNCHANGED <<todo, bad, iffy>>
              ELSE LET z == Head(todo.e)
                       a == entry[z[1]][z[2]]
                       f == { Fault(z[1][1], z[1][2], z[2], What(a), a.std) }
                   IN /\ todo' = [todo EXCEPT !.e = Tail(@)] /\ stage' = stage
                      /\ IF z \in UsedSlots
                         THEN /\ bad' = IF What(a) = "ok" THEN bad ELSE bad \cup f
                              /\ iffy' = IF Disagrees(z) THEN iffy \cup f ELSE iffy
                         ELSE /\ iffy' = IF What(a) = "ok" /\ ~ Disagrees(z) THEN iffy ELSE iffy \cup f
                              /\ bad' = bad
           /\ UNCHANGED <<host, entry, suites, sdef, hist>>

Next == AddHost \/ AddArgs \/ AddSuites \/ Dev \/ Begin \/ ReadSuite \/ ReadHost \/ ReadArg

----------------------------------------------------------------------------
(* Declarative: everything the suites call gets a well defined value *)
Consistent ==
  /\ \A s \in 1..Len(suites) : sdef[s] = "ok"
  /\ \A z \in UsedSlots :
       LET a == entry[z[1]][z[2]] IN
       /\ a.std \in DOMAIN host
       /\ LET v == host[a.std] IN
          /\ ~ v.dup
          /\ a.ty = v.ty /\ Len(a.d) = Len(v.d)
          /\ IF a.ty = "character" THEN a.kind \in {v.kind, "len=*"} ELSE a.kind = v.kind
          /\ UnitsOK(a.u, v.u)
          /\ v.act # "unknown"
          /\ \A i \in 1..Len(a.d) : "U" \notin {a.d[i], v.d[i]}
SameVerdict == stage = "done" => (Consistent <=> bad = {})
Emit == stage = "done" =>
  PrintT("@@" \o ToJson([host |-> host, entry |-> { [c |-> x[1], p |-> x[2], args |-> entry[x]] : x \in DOMAIN entry },
                         suites |-> suites, sdef |-> sdef, bad |-> bad, iffy |-> iffy # {}, n |-> Len(hist)]))
=============================================================================
