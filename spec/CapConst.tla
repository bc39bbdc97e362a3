------------------------------- MODULE CapConst -------------------------------
(* The host's view of constituents in a generated model (C18): suites register    *)
(* their run-time constituents, the host registers its own together with them and  *)
(* the ones of the schemes' metadata, allocates the data, runs suites whose schemes *)
(* read and write constituents and their tendencies by name, gathers, updates and    *)
(* queries, cleans up and starts again.  A project (suites, schemes, definitions) is   *)
(* a function of a seed; a behaviour is one session with it.  Everything is stated by   *)
(* name: the order of indices is left to the implementation.                             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Seeds, Depth

NC == 4   \* columns
NL == 2   \* layers
U  == 1000000000   \* value of a constituent without a default

VARIABLES cf, sel, pc, dyn, st, reg, val, tnd, hc, hist, n
vars == <<cf, sel, pc, dyn, st, reg, val, tnd, hc, hist, n>>

(* ------------------------------------------------------------ the project *)
Mix(s, k) == LET a == (((s * 31) % 46337) + (k * 7919) + 101) % 46337
                 b == (a * a + 3 * a + k) % 46337
             IN (b * 211 + a) % 46337
Sel(s, k, q) == q[1 + (Mix(s, k) % Len(q))]
One(s, k, m) == Mix(s, k) % m = 0
Num(s, k, lo, hi) == lo + (Mix(s, k) % ((hi - lo) + 1))
Drop(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
The(S) == CHOOSE z \in S : TRUE
RECURSIVE Perm(_, _)
Perm(s, q) == IF q = << >> THEN << >>
              ELSE The({ << q[i] >> \o Perm(Mix(s, 7), Drop(q, i)) : i \in {Num(s, 5, 1, Len(q))} })
Some(s, k) == SubSeq(Perm(s, << 1, 2, 3, 4, 5, 6 >>), 1, k)     \* k different constituents
RECURSIVE Flat(_)
Flat(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Flat(Tail(ss))
Range(q) == { q[i] : i \in DOMAIN q }

Names == << "dust", "dust_coarse", "cloud_liquid", "cloud_ice", "ozone", "tracer_of_age" >>
Ids == 1..6
Cls == [host |-> 1, dyn |-> 2, meta |-> 3]
Base(s, i) == LET e == Mix(s, 40 + i) IN
   [i |-> i, n |-> Names[i], u |-> Sel(e, 1, << "kg kg-1", "kg kg-1", "mol mol-1" >>), adv |-> One(e, 2, 2),
    def |-> Sel(e, 3, << -1, 0, 1, 2, 3 >>)]
\* the sources agree on what has to match; they may differ in the default value
Def(s, c, i) == LET e == Mix(s, 60 + 10 * c + i) IN
   IF One(e, 1, 3) THEN [Base(s, i) EXCEPT !.def = Sel(e, 2, << 5, 6, 7 >>)] ELSE Base(s, i)
Bad(s, d) == IF One(s, 1, 2) THEN [d EXCEPT !.adv = ~@]
             ELSE [d EXCEPT !.u = IF @ = "kg kg-1" THEN "mol mol-1" ELSE "kg kg-1"]

Plain(s) == s % 10 = 7                   \* schemes without any constituents of their own
\* a variable the host provides under the same name takes the place of the constituent
HV(s) == IF Plain(s) \/ ~One(s, 11, 3) THEN {} ELSE {Num(s, 12, 1, 6)}
NSuites(s) == Sel(s, 1, << 1, 2, 2, 2, 3 >>)
SuiteNames == << "sa", "sab", "s_c" >>
\* scheme 1 may be shared by all suites, scheme k + 1 belongs to suite k, the others to some suite
NSchemes(s) == NSuites(s) + Num(s, 2, 1, 3)
Shared(s) == One(s, 3, 2)
Owner(s, j) == IF j = 1 THEN 1 ELSE IF j <= NSuites(s) + 1 THEN j - 1 ELSE Num(Mix(s, j), 4, 1, NSuites(s))
Order(s, k) == Perm(Mix(s, 20 + k), SelectSeq([j \in 1..NSchemes(s) |-> j],
                    LAMBDA j : Owner(s, j) = k \/ (j = 1 /\ Shared(s))))
Kind(s, j) == Sel(Mix(s, 100 + j), 1, << "vars", "vars", "vars", "apply", "all" >>)
CArg(s, e, i) == [k |-> "c", d |-> Def(s, Cls.meta, i), it |-> Sel(e, 1, << "in", "out", "inout", "inout" >>),
                  m |-> IF Base(s, i).def < 0 THEN 1 ELSE Sel(e, 2, << 1, -1 >>), b |-> Num(e, 3, 1, 9) * 100]
CArgs(s, e, k) == LET q == Some(e, k) IN [a \in 1..k |-> CArg(s, Mix(e, 30 + a), q[a])]
\* the generator demands that a constituent which the host provides is set first in the init phase
NoOut(s, q) == [a \in 1..Len(q) |-> IF q[a].it = "out" /\ q[a].d.i \in HV(s) THEN [q[a] EXCEPT !.it = "inout"] ELSE q[a]]
RunC(s, j) == IF Plain(s) THEN << >> ELSE IF Kind(s, j) = "vars" \/ j = 1 THEN NoOut(s, CArgs(s, Mix(s, 120 + j), Num(Mix(s, 120 + j), 1, 1, 3))) ELSE << >>
InitC(s, j) == IF Plain(s) THEN << >> ELSE IF One(Mix(s, 140 + j), 1, 2) THEN CArgs(s, Mix(s, 140 + j), Num(Mix(s, 140 + j), 2, 1, 2)) ELSE << >>
TsiC(s, j) == IF Plain(s) THEN << >> ELSE IF One(Mix(s, 180 + j), 1, 3) THEN NoOut(s, CArgs(s, Mix(s, 180 + j), Num(Mix(s, 180 + j), 2, 1, 2))) ELSE << >>
\* constituents of the schemes' metadata
AllC(s, j) == RunC(s, j) \o InitC(s, j) \o TsiC(s, j)
MetaIds(s) == UNION { { AllC(s, j)[a].d.i : a \in 1..Len(AllC(s, j)) } : j \in 1..NSchemes(s) } \ HV(s)
RECURSIVE ToSeq(_)
ToSeq(S) == IF S = {} THEN << >> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN << x >> \o ToSeq(S \ {x})
TArgs(s, j) == LET e == Mix(s, 160 + j)
                   d == Def(s, Cls.meta, Sel(e, 2, ToSeq(MetaIds(s)))) IN
   IF MetaIds(s) = {} \/ Kind(s, j) # "vars" \/ One(e, 1, 2) THEN << >>
   ELSE << [k |-> "t", d |-> d, it |-> Sel(e, 3, << "in", "out", "inout", "inout" >>), m |-> 1, b |-> Num(e, 4, 1, 9)] >>
NArg == [k |-> "n", d |-> 0, it |-> "in", m |-> 1, b |-> 0]
Spc(k) == [k |-> k, d |-> 0, it |-> "in", m |-> 1, b |-> 0]
RunArgs(s, j) ==
   LET q == IF (Kind(s, j) = "vars" \/ j = 1) /\ ~Plain(s) THEN RunC(s, j) \o TArgs(s, j)
            ELSE << Spc(IF Kind(s, j) = "vars" THEN "all" ELSE Kind(s, j)) >>
   IN IF One(Mix(s, 170 + j), 1, 3) THEN << NArg >> \o q ELSE q
DynAlt(s, e) == LET q == SelectSeq(Some(e, Num(e, 1, 0, 2)), LAMBDA i : i \notin HV(s)) IN
   [a \in 1..Len(q) |-> IF One(e, 40 + a, 8) THEN Bad(e, Def(s, Cls.dyn, q[a])) ELSE Def(s, Cls.dyn, q[a])]
Scheme(s, j) == LET e == Mix(s, 200 + j) IN
   [id |-> j, name |-> Sel(e, 1, << "sch", "my_sch", "x" >>) \o ToString(j), reg |-> One(e, 2, 2),
    dyn |-> [a \in 1..3 |-> DynAlt(s, Mix(e, 10 + a))],
    init |-> InitC(s, j), ts_init |-> TsiC(s, j), run |-> RunArgs(s, j)]
Alt(s, i) == IF i \in HV(s) THEN 1 + (i % 6) ELSE i
HostDef(s, h) == LET d == Def(s, Cls.host, Alt(s, IF h <= 6 THEN h ELSE Num(s, 90 + h, 1, 6))) IN
   IF h <= 6 THEN d ELSE Bad(Mix(s, h), d)
Conf(s) == [seed |-> s,
            suites |-> [k \in 1..NSuites(s) |-> [name |-> SuiteNames[k], schemes |-> Order(s, k),
                                                  cut |-> IF Len(Order(s, k)) > 1 /\ One(Mix(s, 190 + k), 1, 2)
                                                          THEN Num(Mix(s, 190 + k), 2, 1, Len(Order(s, k)) - 1) ELSE 0]],
            hv |-> [z \in 1..Cardinality(HV(s)) |-> Base(s, ToSeq(HV(s))[z])],
            schemes |-> [j \in 1..NSchemes(s) |-> Scheme(s, j)],
            hostdefs |-> [h \in 1..8 |-> HostDef(s, h)]]

(* ------------------------------------------------------------ state *)
NoDef == [i |-> 0]
NoReg == [i \in Ids |-> NoDef]
Regd == { i \in Ids : reg[i] # NoDef }
Const(x) == [c \in 1..NC |-> [l \in 1..NL |-> x]]
Zero == [i \in Ids |-> Const(0)]
HostVars == { cf.hv[z].i : z \in 1..Len(cf.hv) }
Start == [i \in Ids |-> IF i \in HostVars THEN Const(7) ELSE Const(0)]
Suites == 1..Len(cf.suites)
SchOf(k) == [a \in 1..Len(cf.suites[k].schemes) |-> cf.schemes[cf.suites[k].schemes[a]]]
HasDyn(k) == \E a \in 1..Len(SchOf(k)) : SchOf(k)[a].reg
Meta(k) == LET q == SchOf(k)
               args == Flat([a \in 1..Len(q) |-> q[a].run \o q[a].init \o q[a].ts_init])
           IN { args[a].d : a \in { a \in 1..Len(args) : args[a].k = "c" /\ args[a].d.i \notin HostVars } }
AllMeta == UNION { Meta(k) : k \in Suites }
Idle == \A k \in Suites : pc[k] \in {"none", "reg"}
Nope == << >>

Init == /\ cf \in { Conf(s) : s \in Seeds }
        /\ sel = [j \in 1..Len(cf.schemes) |-> 1] /\ pc = [k \in Suites |-> "none"]
        /\ dyn = [k \in Suites |-> [al |-> FALSE, q |-> Nope]]
        /\ st = "none" /\ reg = NoReg /\ val = Start /\ tnd = Zero
        /\ hc = [al |-> FALSE, q |-> Nope] /\ hist = << >> /\ n = 0

Log(op, exp) == hist' = Append(hist, [op |-> op, exp |-> exp]) /\ n' = n + 1 /\ UNCHANGED cf
Compat(d, e) == d.u = e.u /\ d.adv = e.adv

(* adding definitions one after the other: a compatible one that is already there is   *)
(* skipped, an incompatible one is an error                                              *)
RECURSIVE AddAll(_, _)
AddAll(r, q) ==
  IF q = << >> THEN [ok |-> TRUE, r |-> r]
  ELSE LET d == Head(q) IN
       IF r[d.i] = NoDef THEN AddAll([r EXCEPT ![d.i] = d], Tail(q))
       ELSE IF Compat(r[d.i], d) THEN AddAll(r, Tail(q))
       ELSE [ok |-> FALSE, r |-> r]
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN << >> ELSE LET x == CHOOSE x \in S : \A y \in S : x.i <= y.i IN << x >> \o SetSeq(S \ {x})

Choose(j, a) == /\ sel' = [sel EXCEPT ![j] = a] /\ Log([c |-> "sel", j |-> j, a |-> a], [ok |-> TRUE])
                /\ UNCHANGED <<pc, dyn, st, reg, val, tnd, hc>>

Register(k) ==
  /\ pc[k] \in {"none", "reg"}
  /\ LET q == SchOf(k)
         again == HasDyn(k) /\ dyn[k].al IN
     /\ Log([c |-> "register", s |-> cf.suites[k].name], [err |-> again])
     /\ IF again THEN UNCHANGED <<pc, dyn>>
        ELSE /\ pc' = [pc EXCEPT ![k] = "reg"]
             /\ dyn' = [dyn EXCEPT ![k] = [al |-> TRUE, q |-> Flat([a \in 1..Len(q) |->
                                              IF q[a].reg THEN q[a].dyn[sel[q[a].id]] ELSE Nope])]]
  /\ UNCHANGED <<sel, st, reg, val, tnd, hc>>

HostDefs(q) == [a \in 1..Len(q) |-> cf.hostdefs[q[a]]]
\* the host keeps its constituents as long as they are registered
RegConsts(same, q) ==
  /\ Idle
  /\ IF same THEN hc.al /\ hc.q = q ELSE st \in {"none", "open"}
  /\ LET r == AddAll(NoReg, HostDefs(q) \o Flat([k \in Suites |-> dyn[k].q]) \o SetSeq(AllMeta)) IN
     /\ reg' = r.r /\ st' = (IF r.ok THEN "props" ELSE "open")
     /\ Log([c |-> "regc", same |-> same, q |-> q], [err |-> ~r.ok])
  /\ hc' = [al |-> TRUE, q |-> q]
  /\ UNCHANGED <<sel, pc, dyn, val, tnd>>

InitConsts ==
  /\ Log([c |-> "initc"], [err |-> st # "props"])
  /\ IF st = "props"
     THEN /\ st' = "data" /\ tnd' = Zero
          /\ val' = [i \in Ids |-> IF i \in HostVars THEN val[i] ELSE IF reg[i] = NoDef THEN Const(0) ELSE Const(IF reg[i].def < 0 THEN U ELSE reg[i].def)]
     ELSE UNCHANGED <<st, tnd, val>>
  /\ UNCHANGED <<sel, pc, dyn, reg, hc>>

(* ------------------------------------------------------------ running *)
Chunk(f, a, b) == Flat([l \in 1..NL |-> [c \in 1..((b - a) + 1) |-> f[(a + c) - 1][l]]])
\* columns a..b assigned from g(old value, local column, layer)
Assign(f, a, b, arg) == [c \in 1..NC |-> [l \in 1..NL |->
    IF c < a \/ c > b THEN f[c][l]
    ELSE LET i == (c - a) + 1
             inc == arg.b + i + (IF arg.k = "c" THEN 10 * l ELSE 0)
         IN IF arg.it = "out" THEN inc
            ELSE IF f[c][l] = U THEN U ELSE arg.m * f[c][l] + inc]]
LogOf(arg, a, b, v, t) ==
  CASE arg.k = "c" /\ arg.it # "out" -> << [k |-> "c", x |-> arg.d.n, v |-> Chunk(v[arg.d.i], a, b)] >>
    [] arg.k = "t" /\ arg.it # "out" -> << [k |-> "t", x |-> arg.d.n, v |-> Chunk(t[arg.d.i], a, b)] >>
    [] arg.k = "n" -> << [k |-> "n", x |-> "", v |-> << Cardinality(Regd) >>] >>
    [] arg.k = "all" -> << [k |-> "all", x |-> "", v |-> [z \in 1..Cardinality(Regd) |->
                             LET i == ToSeq(Regd)[z] IN [x |-> Names[i], v |-> Chunk(v[i], a, b)]]] >>
    [] OTHER -> << >>
RECURSIVE Args(_, _, _, _)
Args(q, a, b, s) ==
  IF q = << >> THEN s
  ELSE LET x == Head(q) IN Args(Tail(q), a, b,
    CASE x.k = "c" /\ x.it # "in" -> [s EXCEPT !.v[x.d.i] = Assign(@, a, b, x)]
      [] x.k = "t" /\ x.it # "in" -> [s EXCEPT !.t[x.d.i] = Assign(@, a, b, x)]
      [] x.k = "apply" -> [s EXCEPT !.v = [i \in Ids |-> [c \in 1..NC |-> [l \in 1..NL |->
                                IF c < a \/ c > b \/ s.v[i][c][l] = U THEN s.v[i][c][l] ELSE s.v[i][c][l] + s.t[i][c][l]]]],
                                    !.t = [i \in Ids |-> [c \in 1..NC |-> [l \in 1..NL |->
                                IF c < a \/ c > b THEN s.t[i][c][l] ELSE 0]]]]
      [] OTHER -> s)
RECURSIVE Schemes(_, _, _, _, _)
Schemes(q, ph, a, b, s) ==
  IF q = << >> THEN s
  ELSE LET x == Head(q)
           ar == x[ph]
           s2 == Args(ar, a, b, s)
           lg == Flat([z \in 1..Len(ar) |-> LogOf(ar[z], a, b, s.v, s.t)])
       IN Schemes(Tail(q), ph, a, b,
            [s2 EXCEPT !.log = Append(s.log, [s |-> x.name, l |-> lg])])
\* group 1: the first schemes of the suite, group 2: the others (cut = 0: one group)
Group(k, g) == LET q == SchOf(k)
                   cut == IF cf.suites[k].cut = 0 THEN Len(q) ELSE cf.suites[k].cut
               IN IF g = 0 THEN q ELSE IF g = 1 THEN SubSeq(q, 1, cut) ELSE SubSeq(q, cut + 1, Len(q))
Do(k, g, ph, a, b) == Schemes(SelectSeq(Group(k, g), LAMBDA x : ph = "run" \/ x[ph] # << >>), ph, a, b,
                              [v |-> val, t |-> tnd, log |-> << >>])

SuiteInit(k) ==
  /\ pc[k] = "reg" /\ st = "data" /\ pc' = [pc EXCEPT ![k] = "init"]
  /\ \E s \in {Do(k, 0, "init", 1, NC)} :
       /\ val' = s.v /\ tnd' = s.t
       /\ Log([c |-> "init", s |-> cf.suites[k].name], [log |-> s.log])
  /\ UNCHANGED <<sel, dyn, st, reg, hc>>
TsInit(k) ==
  /\ pc[k] = "init" /\ pc' = [pc EXCEPT ![k] = "step"]
  /\ \E s \in {Do(k, 0, "ts_init", 1, NC)} :
       /\ val' = s.v /\ tnd' = s.t
       /\ Log([c |-> "ts_init", s |-> cf.suites[k].name], [log |-> s.log])
  /\ UNCHANGED <<sel, dyn, st, reg, hc>>
Step(k, c, from, to) ==
  /\ pc[k] = from /\ pc' = [pc EXCEPT ![k] = to]
  /\ Log([c |-> c, s |-> cf.suites[k].name], [log |-> << >>])
  /\ UNCHANGED <<sel, dyn, st, reg, val, tnd, hc>>
Run(k, g, a, b) ==
  /\ pc[k] = "step"
  /\ \E s \in {Do(k, g, "run", a, b)} :
       /\ val' = s.v /\ tnd' = s.t
       /\ Log([c |-> "run", s |-> cf.suites[k].name, g |-> g, a |-> a, b |-> b], [log |-> s.log])
  /\ UNCHANGED <<sel, pc, dyn, st, reg, hc>>

Dealloc ==
  /\ Idle
  /\ pc' = [k \in Suites |-> "none"] /\ dyn' = [k \in Suites |-> [al |-> FALSE, q |-> Nope]]
  /\ st' = "none" /\ reg' = NoReg /\ tnd' = Zero
  /\ val' = [i \in Ids |-> IF i \in HostVars THEN val[i] ELSE Const(0)]
  /\ Log([c |-> "dealloc"], [ok |-> TRUE]) /\ UNCHANGED <<sel, hc>>

(* ------------------------------------------------------------ queries *)
Locked == st \in {"props", "data"}
Same == UNCHANGED <<sel, pc, dyn, st, reg, val, tnd, hc>>
NumConsts(w) == /\ Same
  /\ Log([c |-> "numc", w |-> w],
         [err |-> st = "none",
          v |-> IF ~Locked THEN 0 ELSE Cardinality({ i \in Regd : w = "a" \/ (w = "t") = reg[i].adv })])
IsScheme(x) == /\ Same /\ Log([c |-> "isc", x |-> x], [v |-> \E d \in AllMeta : d.n = x])
Index(i) == /\ Same /\ Log([c |-> "idx", x |-> Names[i]], [err |-> st = "none", found |-> Locked /\ i \in Regd])
Snap == [z \in 1..Cardinality(Regd) |-> LET i == ToSeq(Regd)[z] IN [d |-> reg[i], v |-> Chunk(val[i], 1, NC)]]
Ptrs == /\ Same /\ Log([c |-> "ptrs"], [st |-> st, q |-> IF Locked THEN Snap ELSE << >>])
Gather(e) ==
  /\ Same /\ Cardinality(Regd) + e > 0
  /\ Log([c |-> "gather", m |-> Cardinality(Regd) + e],
         [st |-> st, err |-> (st = "none") \/ (st = "data" /\ e < 0),
          q |-> IF st = "data" /\ e >= 0 THEN Snap ELSE << >>])
HostV == /\ Same /\ Log([c |-> "hostv"], [q |-> [z \in 1..Len(cf.hv) |-> Chunk(val[cf.hv[z].i], 1, NC)]])
HostC == /\ Same /\ Log([c |-> "hostc"], [q |-> IF hc.al THEN HostDefs(hc.q) ELSE << >>])
\* update: constituent i becomes b + 100 i + 10 layer + column
Update(b) ==
  /\ st = "data" /\ Regd # {}
  /\ val' = [i \in Ids |-> IF i \in Regd THEN [c \in 1..NC |-> [l \in 1..NL |-> b + 100 * i + 10 * l + c]] ELSE val[i]]
  /\ Log([c |-> "update", m |-> Cardinality(Regd), q |-> [z \in 1..Cardinality(Regd) |->
             LET i == ToSeq(Regd)[z] IN [x |-> Names[i], b |-> b + 100 * i]]], [err |-> FALSE])
  /\ UNCHANGED <<sel, pc, dyn, st, reg, tnd, hc>>

(* ------------------------------------------------------------ sessions *)
Rnd(S) == {RandomElement(S)}
Wish == << "choose", "register", "register", "register", "regc", "regc", "regc", "initc", "initc", "init", "init", "init", "tsi", "tsi", "tsi",
           "run", "run", "run", "run", "run", "run", "run", "run", "tsf", "fin", "fin", "dealloc", "init", "tsi", "register", "register", "initc", "regc", "regc",
           "num", "isc", "idx", "ptrs", "ptrs", "gather", "hostc", "update", "hostv", "initc", "initc" >>
HostLists == { << >>, <<1>>, <<2, 3>>, <<4, 5, 6>>, <<1, 2, 3, 4, 5, 6>>, <<6, 1, 6>>, <<7>>, <<3, 8>>, <<2, 4>>, <<5>> }
Next ==
  /\ n < Depth
  /\ \E w \in Rnd(1..Len(Wish)) : \E k \in Rnd(Suites) :
     LET o == Wish[w]
         reg0 == \E k2 \in Suites : pc[k2] = "none"
         A == [ register |-> pc[k] = "none" \/ (pc[k] = "reg" /\ w = 2),
                regc |-> Idle /\ (st \in {"none", "open"} \/ (hc.al /\ w = 5)) /\ (w = 5 \/ ~reg0),
                initc |-> st = "props" \/ (w = 8 /\ n % 3 = 0),
                init |-> pc[k] = "reg" /\ st = "data", tsi |-> pc[k] = "init", run |-> pc[k] = "step",
                tsf |-> pc[k] = "step", fin |-> pc[k] = "init", dealloc |-> Idle /\ st # "none",
                gather |-> TRUE, update |-> st = "data" /\ Regd # {} ]
     IN IF o \in DOMAIN A /\ ~A[o] THEN n' = n /\ UNCHANGED <<cf, sel, pc, dyn, st, reg, val, tnd, hc, hist>>
        ELSE CASE o = "choose" -> \E j \in Rnd(1..Len(cf.schemes)) : \E a \in Rnd(1..3) : Choose(j, a)
               [] o = "register" -> Register(k)
               [] o = "regc" -> IF hc.al /\ (st \in {"props", "data"} \/ w = 6) THEN RegConsts(TRUE, hc.q)
                                ELSE \E q \in Rnd(HostLists) : RegConsts(FALSE, q)
               [] o = "initc" -> InitConsts
               [] o = "init" -> SuiteInit(k)
               [] o = "tsi" -> TsInit(k)
               [] o = "tsf" -> Step(k, "ts_final", "step", "init")
               [] o = "fin" -> Step(k, "final", "init", "reg")
               [] o = "run" -> \E r \in Rnd({ << 1, 4 >>, << 1, 2 >>, << 3, 4 >>, << 2, 2 >>, << 2, 4 >> }) :
                                 \E g \in Rnd(IF cf.suites[k].cut = 0 THEN {1} ELSE {1, 2}) : Run(k, g, r[1], r[2])
               [] o = "dealloc" -> Dealloc
               [] o = "num" -> \E x \in Rnd({"a", "t", "f"}) : NumConsts(x)
               [] o = "isc" -> \E x \in Rnd(Range(Names) \cup {"dus", "tendency_of_dust", "ozone_2"}) : IsScheme(x)
               [] o = "idx" -> \E i \in Rnd(Ids) : Index(i)
               [] o = "ptrs" -> Ptrs
               [] o = "gather" -> \E e \in Rnd({-1, 0, 0, 1}) : IF Cardinality(Regd) + e > 0 THEN Gather(e) ELSE Ptrs
               [] o = "hostc" -> HostC
               [] o = "hostv" -> HostV
               [] OTHER -> \E b \in Rnd({1000, 2000, 3000}) : Update(b)
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------ properties *)
\* whatever was registered, the metadata constituents of every suite are there, with what has to match
MetaThere == Locked => \A d \in AllMeta : reg[d.i] # NoDef /\ Compat(reg[d.i], d)
DynThere == Locked => \A a \in 1..Len(hc.q) : reg[cf.hostdefs[hc.q[a]].i] # NoDef
\* the host's definitions take precedence
HostWins == Locked => \A a \in 1..Len(hc.q) : LET d == cf.hostdefs[hc.q[a]] IN
              (\A b \in 1..(a - 1) : cf.hostdefs[hc.q[b]].i # d.i) => reg[d.i] = d
NothingElse == Locked => \A i \in Regd : \/ reg[i] \in AllMeta
                                          \/ (\E a \in 1..Len(hc.q) : cf.hostdefs[hc.q[a]] = reg[i])
                                          \/ (\E k \in Suites : \E a \in 1..Len(dyn[k].q) : dyn[k].q[a] = reg[i])
                                          \/ (\E k \in Suites : pc[k] = "none")
RunOnlyWithData == (\E k \in Suites : pc[k] \in {"init", "step"}) => st = "data"
UnusedZero == \A i \in Ids \ Regd : (st = "data" /\ i \notin HostVars) => val[i] = Const(0)
Fresh == st = "none" => Regd = {} /\ Idle
Emit == (n = Depth) => PrintT("@@" \o ToJson([cf |-> cf, hist |-> hist]))
=============================================================================
