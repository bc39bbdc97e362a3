------------------------------- MODULE Units -------------------------------
(* Unit conversions (C22).  A unit is a sequence of factors (prefix, symbol,  *)
(* exponent); its meaning is a vector of physical dimensions and an exact     *)
(* scale factor, written as exponents of 2, 3, 5 and pi; temperatures have an *)
(* origin in hundredths of a kelvin.  Hence every conversion is an exact      *)
(* affine map.  Labels ("none", "flag", ...) are dimensions of their own.     *)
(*                                                                            *)
(* MODE "pairs": every ordered triple of units is a state; invariants: there  *)
(* and back is the identity, the detour over a third unit is the direct map,  *)
(* supported pairs measure the same thing, support is symmetric.  Every pair  *)
(* is printed with its verdict and its map.                                   *)
(* MODE "chains": a set of variables with owner, unit and kind is drawn, then *)
(* for each a chain of consumers with units, kinds and intents of their own;  *)
(* the walk keeps for the stored number the map from the unit of the last     *)
(* writer to the unit of the owner.  Invariant: what a consumer reads after   *)
(* passing through the owner's unit is the direct map from the writer's unit. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MODE, NVAR, SUITEOWNED

----------------------------------------------------------------------------
Prefix == [ n |-> -9, u |-> -6, m |-> -3, c |-> -2, d |-> -1, h |-> 2, k |-> 3 ]
\* dimension vector: length, mass, time, temperature, angle, electric current; then the label, if any
Z == <<0, 0, 0, 0, 0, 0>>
Atom == [ m |-> <<<<1,0,0,0,0,0>>, <<0,0,0,0>>>>, g |-> <<<<0,1,0,0,0,0>>, <<-3,0,-3,0>>>>,
          s |-> <<<<0,0,1,0,0,0>>, <<0,0,0,0>>>>, min |-> <<<<0,0,1,0,0,0>>, <<2,1,1,0>>>>,
          h |-> <<<<0,0,1,0,0,0>>, <<4,2,2,0>>>>, d |-> <<<<0,0,1,0,0,0>>, <<7,3,2,0>>>>,
          K |-> <<<<0,0,0,1,0,0>>, <<0,0,0,0>>>>, C |-> <<<<0,0,0,1,0,0>>, <<0,0,0,0>>>>,
          rad |-> <<<<0,0,0,0,1,0>>, <<0,0,0,0>>>>, deg |-> <<<<0,0,0,0,1,0>>, <<-2,-2,-1,1>>>>,
          Pa |-> <<<<-1,1,-2,0,0,0>>, <<0,0,0,0>>>>, J |-> <<<<2,1,-2,0,0,0>>, <<0,0,0,0>>>>,
          erg |-> <<<<2,1,-2,0,0,0>>, <<-7,0,-7,0>>>>, W |-> <<<<2,1,-3,0,0,0>>, <<0,0,0,0>>>>,
          N |-> <<<<1,1,-2,0,0,0>>, <<0,0,0,0>>>>, A |-> <<<<0,0,0,0,0,1>>, <<0,0,0,0>>>>,
          one |-> <<Z, <<0,0,0,0>>>> ]

\* text |-> factors <<prefix, symbol, exponent>>; a label is <<"label", text, 1>>
F(p, s, e) == <<p, s, e>>
Unit == [
  m |-> <<F("", "m", 1)>>, mm |-> <<F("m", "m", 1)>>, cm |-> <<F("c", "m", 1)>>, um |-> <<F("u", "m", 1)>>,
  km |-> <<F("k", "m", 1)>>, nm |-> <<F("n", "m", 1)>>, dm |-> <<F("d", "m", 1)>>,
  s |-> <<F("", "s", 1)>>, min |-> <<F("", "min", 1)>>, h |-> <<F("", "h", 1)>>, d |-> <<F("", "d", 1)>>,
  ms |-> <<F("m", "s", 1)>>,
  K |-> <<F("", "K", 1)>>, C |-> <<F("", "C", 1)>>,
  radian |-> <<F("", "rad", 1)>>, degree |-> <<F("", "deg", 1)>>, degree_north |-> <<F("", "deg", 1)>>,
  degree_east |-> <<F("", "deg", 1)>>,
  Pa |-> <<F("", "Pa", 1)>>, hPa |-> <<F("h", "Pa", 1)>>, kPa |-> <<F("k", "Pa", 1)>>,
  kg |-> <<F("k", "g", 1)>>, g |-> <<F("", "g", 1)>>, J |-> <<F("", "J", 1)>>, W |-> <<F("", "W", 1)>>,
  none |-> <<F("label", "none", 1)>>, flag |-> <<F("label", "flag", 1)>>, index |-> <<F("label", "index", 1)>>,
  count |-> <<F("label", "count", 1)>>, fraction |-> <<F("label", "fraction", 1)>>,
  km2 |-> <<F("k", "m", 2)>>, m2 |-> <<F("", "m", 2)>> ]
  @@ ( "kg kg-1" :> <<F("k", "g", 1), F("k", "g", -1)>> ) @@ ( "g kg-1" :> <<F("", "g", 1), F("k", "g", -1)>> )
  @@ ( "mg kg-1" :> <<F("m", "g", 1), F("k", "g", -1)>> ) @@ ( "kg g-1" :> <<F("k", "g", 1), F("", "g", -1)>> )
  @@ ( "m s-1" :> <<F("", "m", 1), F("", "s", -1)>> ) @@ ( "km h-1" :> <<F("k", "m", 1), F("", "h", -1)>> )
  @@ ( "m h-1" :> <<F("", "m", 1), F("", "h", -1)>> ) @@ ( "km s-1" :> <<F("k", "m", 1), F("", "s", -1)>> )
  @@ ( "m-1 s" :> <<F("", "m", -1), F("", "s", 1)>> ) @@ ( "m s" :> <<F("", "m", 1), F("", "s", 1)>> )
  @@ ( "W m-2" :> <<F("", "W", 1), F("", "m", -2)>> ) @@ ( "W cm-2" :> <<F("", "W", 1), F("c", "m", -2)>> )
  @@ ( "erg cm-2 s-1" :> <<F("", "erg", 1), F("c", "m", -2), F("", "s", -1)>> )
  @@ ( "J m-2 s-1" :> <<F("", "J", 1), F("", "m", -2), F("", "s", -1)>> )
  @@ ( "kg m-2 s-1" :> <<F("k", "g", 1), F("", "m", -2), F("", "s", -1)>> )
  @@ ( "mm s-1" :> <<F("m", "m", 1), F("", "s", -1)>> ) @@ ( "K s-1" :> <<F("", "K", 1), F("", "s", -1)>> )
  @@ ( "C s-1" :> <<F("", "C", 1), F("", "s", -1)>> ) @@ ( "m s-2" :> <<F("", "m", 1), F("", "s", -2)>> )
  @@ ( "km h-2" :> <<F("k", "m", 1), F("", "h", -2)>> ) @@ ( "kg m-3" :> <<F("k", "g", 1), F("", "m", -3)>> )
  @@ ( "1" :> <<F("", "one", 1)>> )
Texts == DOMAIN Unit

\* what the framework documents as convertible
Supported == { {"mm", "m"}, {"cm", "m"}, {"um", "m"}, {"km", "m"}, {"mm", "km"},
               {"s", "min"}, {"s", "h"}, {"h", "d"}, {"s", "d"}, {"K", "C"}, {"kg kg-1", "g kg-1"},
               {"radian", "degree"}, {"radian", "degree_north"}, {"radian", "degree_east"},
               {"Pa", "hPa"}, {"m s-1", "km h-1"}, {"W m-2", "erg cm-2 s-1"} }
Sup(u, v) == u = v \/ {u, v} \in Supported

----------------------------------------------------------------------------
VAdd(a, b) == [ i \in DOMAIN a |-> a[i] + b[i] ]
VMul(a, n) == [ i \in DOMAIN a |-> a[i] * n ]
Ten(n) == <<n, 0, n, 0>>
Labels(u) == { Unit[u][i][2] : i \in { j \in DOMAIN Unit[u] : Unit[u][j][1] = "label" } }
Fac(f) == IF f[1] = "label" THEN <<Z, <<0,0,0,0>>>>
          ELSE LET a == Atom[f[2]] p == IF f[1] = "" THEN 0 ELSE Prefix[f[1]]
               IN <<VMul(a[1], f[3]), VMul(VAdd(a[2], Ten(p)), f[3])>>
RECURSIVE Prod(_, _)
Prod(u, i) == IF i = 0 THEN <<Z, <<0,0,0,0>>>>
              ELSE LET r == Prod(u, i - 1) f == Fac(u[i]) IN <<VAdd(r[1], f[1]), VAdd(r[2], f[2])>>
Dim(u) == Prod(Unit[u], Len(Unit[u]))[1]
Scale(u) == Prod(Unit[u], Len(Unit[u]))[2]
\* only a bare C is a point on a scale, in "C s-1" it is a difference
Origin(u) == IF u = "C" THEN 27315 ELSE 0
Same(u, v) == Dim(u) = Dim(v) /\ Labels(u) = Labels(v)

\* y = x * 2^a 3^b 5^c pi^d + o/100; an origin occurs only with scale 1
Map(u, v) == [s |-> VAdd(Scale(u), VMul(Scale(v), -1)), o |-> Origin(u) - Origin(v)]
Id == [s |-> <<0, 0, 0, 0>>, o |-> 0]
Compose(f, g) == [s |-> VAdd(f.s, g.s), o |-> f.o + g.o]      \* g after f
Sound(u, v) == Map(u, v).o = 0 \/ Map(u, v).s = <<0, 0, 0, 0>>

----------------------------------------------------------------------------
VARIABLES u, v, w, stage, cfg, i, k, hold, hist
vars == <<u, v, w, stage, cfg, i, k, hold, hist>>
R(S) == IF S = {} THEN {} ELSE { RandomElement(S) }

InitPairs == /\ u \in Texts /\ v \in Texts /\ w \in Texts
             /\ stage = "pairs" /\ cfg = << >> /\ i = 0 /\ k = 0 /\ hold = Id /\ hist = << >>
RoundTrip == stage = "pairs" /\ Same(u, v) => Compose(Map(u, v), Map(v, u)) = Id /\ Sound(u, v)
Detour == stage = "pairs" /\ Same(u, v) /\ Same(v, w) => Compose(Map(u, v), Map(v, w)) = Map(u, w)
Physical == stage = "pairs" /\ Sup(u, v) => Same(u, v)
EmitPairs == stage = "pairs" /\ w = u =>
             PrintT("@@" \o ToJson([u |-> u, v |-> v, ok |-> Sup(u, v), same |-> Same(u, v), map |-> Map(u, v)]))

----------------------------------------------------------------------------
Kinds == {"kind_phys", "kind_r4"}
Near(x) == { y \in Texts : Sup(x, y) }
InitChains == /\ u = "1" /\ v = "1" /\ w = "1" /\ stage = "vars" /\ cfg = << >> /\ i = 1 /\ k = 1
              /\ hold = Id /\ hist = << >>

AddVar == /\ stage = "vars"
          /\ \E o \in R(IF SUITEOWNED THEN {"host", "host", "suite"} ELSE {"host"}) :
             \E x \in R(UNION Supported) : \E kd \in R(Kinds) : \E a \in R({TRUE, FALSE}) : \E ini \in R(1..9) :
             \E c1 \in R(IF o = "suite" THEN {x} ELSE Near(x)) : \E c2, c3 \in R({0, 1, 2, 3}) : \E y2, y3 \in R(Near(x)) :
             \E k1, k2, k3 \in R(Kinds) : \E n1, n2, n3 \in R(1..9) : \E i1, i2, i3 \in R({"in", "inout", "out"}) :
               LET C(un, kn, it, n) == [u |-> un, kind |-> kn, int |-> it, val |-> n]
                   fst == <<C(c1, IF o = "suite" THEN kd ELSE k1, IF o = "suite" THEN "out" ELSE i1, n1)>>
                   None == [u |-> "1", kind |-> "", int |-> "no", val |-> 0]
                   cs == fst \o <<IF c2 = 0 THEN None ELSE C(y2, k2, i2, n2)>>
                             \o <<IF c3 = 0 THEN None ELSE C(y3, k3, i3, n3)>>
                             \o <<C(x, kd, "in", 0)>>
               IN cfg' = Append(cfg, [own |-> o, u |-> x, kind |-> kd, arr |-> a, ini |-> ini, cons |-> cs])
          /\ stage' = IF Len(cfg) + 1 = NVAR THEN "walk" ELSE "vars"
          /\ UNCHANGED <<u, v, w, i, k, hold, hist>>

\* hold: [val, by, m]: the number written last, by a consumer working in unit by, and
\* m: the map that turned it into the number the owner stores
Start(n) == [val |-> cfg[n].ini, by |-> cfg[n].u, m |-> Id]
Cur == IF k = 1 THEN Start(i) ELSE hold
Step == /\ stage = "walk"
        /\ LET c == cfg[i].cons[k] h == Cur IN
           /\ hist' = IF c.int \in {"in", "inout"}
                      THEN Append(hist, [v |-> i, c |-> k, val |-> h.val, map |-> Compose(h.m, Map(cfg[i].u, c.u))]) ELSE hist
           /\ hold' = IF c.int \in {"inout", "out"}
                      THEN [val |-> c.val, by |-> c.u, m |-> Map(c.u, cfg[i].u)] ELSE h
           /\ w' = IF c.int \in {"in", "inout"} THEN h.by ELSE w
           /\ IF k < Len(cfg[i].cons) THEN k' = k + 1 /\ i' = i
              ELSE k' = 1 /\ i' = i + 1
           /\ stage' = IF i = Len(cfg) /\ k = Len(cfg[i].cons) THEN "done" ELSE "walk"
        /\ UNCHANGED <<u, v, cfg>>

ReadIsDirect == stage \in {"walk", "done"} /\ hist # << >> =>
                LET e == hist[Len(hist)] IN e.map = Map(w, cfg[e.v].cons[e.c].u)
EmitChains == stage = "done" => PrintT("@@" \o ToJson([cfg |-> cfg, hist |-> hist]))

NextPairs == FALSE /\ UNCHANGED vars
NextChains == AddVar \/ Step
=============================================================================
