------------------------------ MODULE CapData ------------------------------
(* What the schemes called through the capgen-generated physics API see and   *)
(* do: host variables, unit / kind / orientation conversions, the columns in  *)
(* range (C03), optional arguments and activation (C04) and variables owned   *)
(* by the suites (C05).                                                       *)
(* All values are held as integers in a resolution common to the units of a   *)
(* quantity ("physical" values): a variable in unit u with physical value p   *)
(* shows the number (p - Units[u][2]) / Units[u][1].  Module CapDataCfg       *)
(* (written per configuration) defines                                        *)
(*   NC, NL     columns and layers of the host                                *)
(*   Units      unit -> <<physical units per unit, physical value of 0>>      *)
(*   Suites, Parts[s]  sequence of <<part, sequence of schemes>>              *)
(*   Entry      <<scheme, phase>> -> sequence of arguments                    *)
(*      [n, std, u, cls, flip, int: "in"|"inout"|"out", opt, k, ty]           *)
(*      cls: s | v | i | h | hv | hi   (scalar, layers, interfaces, columns)  *)
(*      vcls, vflip: class and orientation of the variable; an argument of    *)
(*      class h for a variable of class hv or hi receives one level: such a   *)
(*      scheme is called once per level, in the order in which the host       *)
(*      stores the levels                                                     *)
(*   Host       standard name -> [u, cls, flip, cond, dyn, init, step, ty]    *)
(*      cond: << >> (always active) or a condition tree over host variables   *)
(*      dyn: the host allocates it only while it is active                    *)
(*   FlagVals   flag variables of the conditions -> values the host sets      *)
(*   Inits      alternative first values the host may set a variable to       *)
(*   Dflts      standard name nobody provides -> <<unit, number>>: its default *)
(*              value, which it has at the start of every call that uses it   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, CapDataCfg

CONSTANTS D          \* length of a behaviour

VARIABLES st,   \* suite -> life-cycle state
          hv,   \* host variable -> sequence of physical values (<< >>: not allocated)
          sv,   \* suite -> (suite variable -> sequence of physical values)
          cols, \* << first, last >> column of the run phase
          n,    \* number of scheme calls so far
          hist
vars == <<st, hv, sv, cols, n, hist>>

UNDEF == -2000000000

Horizontal(cls) == cls \in {"h", "hv", "hi"}
NLev(cls) == CASE cls \in {"v", "hv"} -> NL [] cls \in {"i", "hi"} -> NL + 1 [] OTHER -> 1
NCells(cls) == (IF Horizontal(cls) THEN NC ELSE 1) * NLev(cls)
Sliced(a) == a.cls = "h" /\ a.vcls \in {"hv", "hi"}
(* number of the level that iteration k of the loop passes (0: no loop)       *)
Levels(as) == LET I == { i \in 1..Len(as) : Sliced(as[i]) }
              IN IF I = {} THEN << 0 >>
                 ELSE LET a == as[CHOOSE i \in I : TRUE] nl == NLev(a.vcls)
                      IN [k \in 1..nl |-> IF a.vflip THEN nl - k + 1 ELSE k]
(* The cells of an array of this class in Fortran element order, for columns  *)
(* b to e; cell (c, l) is number (l - 1) * NC + c with l counted from below.  *)
Cells(cls, flip, b, e) ==
  LET nl == NLev(cls)
      nc == IF Horizontal(cls) THEN e - b + 1 ELSE 1
  IN [i \in 1..(nc * nl) |->
        LET k == (i - 1) \div nc + 1
            l == IF flip THEN nl - k + 1 ELSE k
        IN IF Horizontal(cls) THEN (l - 1) * NC + b + ((i - 1) % nc) ELSE l]

RECURSIVE Holds(_, _)
Holds(c, H) ==
  IF c = << >> THEN TRUE
  ELSE CASE c[1] = "is"  -> H[c[2]][1] = 1
         [] c[1] = "gt"  -> H[c[2]][1] > c[3]
         [] c[1] = "not" -> ~ Holds(c[2], H)
         [] c[1] = "and" -> Holds(c[2], H) /\ Holds(c[3], H)
         [] c[1] = "or"  -> Holds(c[2], H) \/ Holds(c[3], H)

ToPhys(u, x) == x * Units[u][1] + Units[u][2]

InitVals(std, base) == LET h == Host[std] IN
  [i \in 1..NCells(h.cls) |->
     IF h.ty = "log" THEN (base + i) % 2 ELSE ToPhys(h.u, base + h.step * (i - 1))]

SuiteStds(s) == LET E == UNION { { Entry[k][i] : i \in 1..Len(Entry[k]) } : k \in DOMAIN Entry }
                IN { a.std : a \in E } \ DOMAIN Host
ClsOf(std) == LET E == UNION { { Entry[k][i] : i \in 1..Len(Entry[k]) } : k \in DOMAIN Entry }
              IN (CHOOSE a \in E : a.std = std).vcls

----------------------------------------------------------------------------
(* The effect of one argument of scheme call number m on the value sequence   *)
NewVal(a, old, i, m) ==
  CASE a.int = "in"    -> old
    [] a.int = "inout" -> IF old = UNDEF THEN UNDEF
                          ELSE IF a.ty = "log" THEN 1 - old
                          ELSE old + (a.k + i) * Units[a.u][1]
    [] a.int = "out"   -> IF a.ty = "log" THEN (a.k + m + i) % 2
                          ELSE ToPhys(a.u, a.k + m + 2 * i)

Present(a, H) == a.opt => (a.std \in DOMAIN Host => Holds(Host[a.std].cond, H))
Store(a, H, S) == IF a.std \in DOMAIN Host THEN H[a.std] ELSE S[a.std]

ArgCells(a, b, e, lev) ==
  IF Sliced(a) THEN [i \in 1..(e - b + 1) |-> (lev - 1) * NC + b + i - 1]
  ELSE Cells(a.cls, a.flip, b, e)
Seen(a, H, S, b, e, lev) ==
  IF ~ Present(a, H) THEN [n |-> a.n, k |-> "absent", u |-> a.u, v |-> << >>]
  ELSE LET cs == ArgCells(a, b, e, lev)
           q  == Store(a, H, S)
       IN IF a.int = "out"
          THEN [n |-> a.n, k |-> "size", u |-> a.u, v |-> <<Len(cs)>>]
          ELSE [n |-> a.n, k |-> "val", u |-> a.u, v |-> [i \in 1..Len(cs) |-> q[cs[i]]]]

Put(a, q, m, b, e, lev) ==
  LET cs == ArgCells(a, b, e, lev)
      inv == [c \in { cs[i] : i \in 1..Len(cs) } |-> CHOOSE i \in 1..Len(cs) : cs[i] = c]
  IN TLCEval([c \in 1..Len(q) |-> IF c \in DOMAIN inv THEN NewVal(a, q[c], inv[c], m) ELSE q[c]])

RECURSIVE Args(_, _, _, _, _, _, _)
(* all arguments of a call; H0 is the host state at the time of the call      *)
Args(as, HS, H0, m, b, e, lev) ==
  IF as = << >> THEN HS
  ELSE LET a == Head(as)
           nxt == IF a.int = "in" \/ ~ Present(a, H0) THEN HS
                  ELSE IF a.std \in DOMAIN Host
                       THEN << [HS[1] EXCEPT ![a.std] = Put(a, @, m, b, e, lev)], HS[2] >>
                       ELSE << HS[1], [HS[2] EXCEPT ![a.std] = Put(a, @, m, b, e, lev)] >>
       IN Args(Tail(as), nxt, H0, m, b, e, lev)

RECURSIVE RunAll(_, _, _, _, _, _, _, _)
(* q: sequence of << scheme, level >>                                         *)
RunAll(q, ph, H, S, m, b, e, ev) ==
  IF q = << >> THEN << H, S, m, ev >>
  ELSE LET c == Head(q)[1] lev == Head(q)[2]
           as == Entry[<<c, ph>>]
           HS == TLCEval(Args(as, <<H, S>>, H, m + 1, b, e, lev))
       IN RunAll(Tail(q), ph, HS[1], HS[2], m + 1, b, e,
                 Append(ev, [c |-> c, args |-> [i \in 1..Len(as) |-> Seen(as[i], H, S, b, e, lev)]]))
RECURSIVE Expand(_, _)
Expand(q, ph) == IF q = << >> THEN << >>
                 ELSE LET ls == Levels(Entry[<<Head(q), ph>>])
                      IN [i \in 1..Len(ls) |-> << Head(q), ls[i] >>] \o Expand(Tail(q), ph)

RECURSIVE Dedup(_, _), AllListed(_), Having(_, _)
Dedup(q, seen) == IF q = << >> THEN << >>
                  ELSE IF Head(q) \in seen THEN Dedup(Tail(q), seen)
                  ELSE << Head(q) >> \o Dedup(Tail(q), seen \cup {Head(q)})
AllListed(ps) == IF ps = << >> THEN << >> ELSE Head(ps)[2] \o AllListed(Tail(ps))
Having(q, ph) == IF q = << >> THEN << >>
                 ELSE (IF <<Head(q), ph>> \in DOMAIN Entry THEN << Head(q) >> ELSE << >>)
                      \o Having(Tail(q), ph)

----------------------------------------------------------------------------
FullPhases == {"init", "ts_init", "ts_final", "final"}
From(ph) == CASE ph = "init" -> "un" [] ph = "ts_init" -> "in" [] ph = "run" -> "ts"
              [] ph = "ts_final" -> "ts" [] ph = "final" -> "in"
To(ph)   == CASE ph = "init" -> "in" [] ph = "ts_init" -> "ts" [] ph = "run" -> "ts"
              [] ph = "ts_final" -> "in" [] ph = "final" -> "un"

(* the variables with a default value that the calls q of a phase use         *)
DfltOf(q, ph) == { std \in DOMAIN Dflts : \E k \in 1..Len(q) : \E i \in 1..Len(Entry[<<q[k], ph>>]) : Entry[<<q[k], ph>>][i].std = std }
Fresh(s) == [v \in SuiteStds(s) |-> [i \in 1..NCells(ClsOf(v)) |-> UNDEF]]
NoVars == [v \in {} |-> << >>]

Flags == DOMAIN FlagVals
Started == [std \in DOMAIN Host |-> InitVals(std, Host[std].init)]
DynFix(H, H0) == [std \in DOMAIN Host |->
    IF ~ Host[std].dyn THEN H[std]
    ELSE IF ~ Holds(Host[std].cond, H) THEN << >>
    ELSE IF H0[std] = << >> THEN InitVals(std, Host[std].init) ELSE H[std]]
Init == /\ st = [s \in Suites |-> "un"]
        /\ hv = DynFix(Started, Started)
        /\ sv = [s \in Suites |-> NoVars]
        /\ cols = <<1, NC>> /\ n = 0
        /\ hist = << [a |-> [op |-> "start"], ev |-> << >>, h |-> hv] >>

Log(a, ev) == hist' = Append(hist, [a |-> a, ev |-> ev, h |-> hv'])

Call(ph, s, p) ==
  /\ st[s] = From(ph)
  /\ LET q == IF ph = "run" THEN Having(Parts[s][p][2], "run")
              ELSE Having(Dedup(AllListed(Parts[s]), {}), ph)
         b == IF ph = "run" THEN cols[1] ELSE 1
         e == IF ph = "run" THEN cols[2] ELSE NC
         S1 == IF ph = "init" THEN Fresh(s) ELSE sv[s]
         df == DfltOf(q, ph)
         S0 == [v \in DOMAIN S1 |-> IF v \in df THEN << ToPhys(Dflts[v][1], Dflts[v][2]) >> ELSE S1[v]]
         r == RunAll(Expand(q, ph), ph, hv, S0, n, b, e, << >>)
     IN /\ hv' = r[1]
        /\ sv' = [sv EXCEPT ![s] = IF ph = "final" THEN NoVars ELSE r[2]]
        /\ n' = r[3]
        /\ st' = [st EXCEPT ![s] = To(ph)]
        /\ UNCHANGED cols
        /\ Log([op |-> "call", ph |-> ph, s |-> s, p |-> Parts[s][p][1]], r[4])

SetCols(b, e) == /\ cols' = <<b, e>> /\ UNCHANGED <<st, hv, sv, n>>
                 /\ Log([op |-> "cols", b |-> b, e |-> e], << >>)
SetFlag(f, v) == /\ hv' = DynFix([hv EXCEPT ![f] = <<v>>], hv)
                 /\ UNCHANGED <<st, sv, cols, n>>
                 /\ Log([op |-> "flag", f |-> f, v |-> v], << >>)
SetVar(std, x) == /\ hv' = [hv EXCEPT ![std] = InitVals(std, x)]
                  /\ UNCHANGED <<st, sv, cols, n>>
                  /\ Log([op |-> "set", std |-> std, v |-> x], << >>)

Settable == { std \in DOMAIN Host : hv[std] # << >> /\ std \notin Flags }
R(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
Next == /\ Len(hist) < D
        /\ \E w \in R(1..10), s \in R(Suites) :
             IF w <= 6 \/ (w = 10 /\ Settable = {})
             THEN \E ph \in R(IF st[s] = "un" THEN {"init"}
                              ELSE IF st[s] = "in" THEN {"ts_init", IF w = 1 THEN "final" ELSE "ts_init"}
                              ELSE {"run", IF w <= 2 THEN "ts_final" ELSE "run"}) :
                  \E p \in R(1..Len(Parts[s])) : Call(ph, s, p)
             ELSE IF w = 7 \/ w = 8 \/ Settable = {}
             THEN \E b \in R(1..NC) : \E e \in R(b..NC) : SetCols(b, e)
             ELSE IF w = 9 /\ Flags # {}
             THEN \E f \in R(Flags) : \E v \in R(FlagVals[f]) : SetFlag(f, v)
             ELSE \E std \in R(Settable) : \E x \in R(Inits) : SetVar(std, x)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Last == hist'[Len(hist')]
Called == Len(hist') > Len(hist) /\ Last.a.op = "call"
WrittenIn(ev) == UNION { LET as == Entry[<<ev[i].c, Last.a.ph>>]
                         IN { as[j].std : j \in { j \in 1..Len(as) : as[j].int # "in" } } : i \in 1..Len(ev) }
TypeOK == /\ \A s \in Suites : st[s] \in {"un", "in", "ts"}
          /\ \A v \in DOMAIN Host : Len(hv[v]) \in {0, NCells(Host[v].cls)}
          /\ \A s \in Suites : st[s] = "un" => DOMAIN sv[s] = {}
(* C03: only the columns in range change, only variables some scheme of the   *)
(* call declares out or inout                                                 *)
OnlyInRange == [][ Called => \A v \in DOMAIN Host :
    /\ (hv'[v] # hv[v] => v \in WrittenIn(Last.ev))
    /\ Last.a.ph = "run" /\ Horizontal(Host[v].cls) =>
         \A i \in 1..Len(hv[v]) :
            (((i - 1) % NC) + 1) \notin (cols[1]..cols[2]) => hv'[v][i] = hv[v][i] ]_vars
(* C04: what is inactive throughout a call keeps its value                    *)
InactiveUntouched == [][ Called => \A v \in DOMAIN Host :
    Flags \cap WrittenIn(Last.ev) = {} /\ ~ Holds(Host[v].cond, hv) => hv'[v] = hv[v] ]_vars
(* C05: the storage of a suite is only changed by calls of that suite, is     *)
(* fresh after initialize and persists between calls                          *)
SuitesApart == [][ \A s \in Suites : sv'[s] # sv[s] => Called /\ Last.a.s = s ]_vars
DefinedStays == [][ \A s \in Suites : st'[s] # "un" /\ st[s] # "un" =>
    \A v \in DOMAIN sv[s] : \A i \in 1..Len(sv[s][v]) : sv[s][v][i] # UNDEF => sv'[s][v][i] # UNDEF ]_vars
(* C05: what nobody provides is its default value for the first scheme        *)
DefaultFirst == [][ Called => \A v \in DOMAIN Dflts :
    LET At == { <<i, j>> \in { <<i, j>> : i \in 1..Len(Last.ev), j \in 1..5 } :
                  j <= Len(Last.ev[i].args) /\ Entry[<<Last.ev[i].c, Last.a.ph>>][j].std = v }
    IN At # {} => LET z == CHOOSE z \in At : \A y \in At : z[1] <= y[1]
                  IN Last.ev[z[1]].args[z[2]].v = << ToPhys(Dflts[v][1], Dflts[v][2]) >> ]_vars
Emit == Len(hist) < D \/ PrintT("@@" \o ToJson(hist))
=============================================================================
