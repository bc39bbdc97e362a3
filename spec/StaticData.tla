----------------------------- MODULE StaticData -----------------------------
(* What the schemes called through the static API of prebuild see and do      *)
(* (C20): order and repetition of the calls, unit conversions, blocks and     *)
(* chunks of the columns, copies per thread and per instance, activation.     *)
(* Values are integers in a resolution common to the units of a quantity (as  *)
(* in CapData.tla): a variable in unit u with physical value p shows          *)
(* (p - Units[u][2]) / Units[u][1].  Module StaticDataCfg defines             *)
(*   NC, NL     columns and layers of the host                                *)
(*   Blocks     sequence of << first, last >> column of each block / chunk    *)
(*   Insts, NT  instances (1..) and number of threads                         *)
(*   Units, Suites, BlkVal                                                    *)
(*   Groups[s]  sequence of << name, sequence of << iterations, schemes >> >> *)
(*   Entry      <<scheme, stage>> -> sequence of arguments                    *)
(*      [n, std, u, cls, int, opt, k, ty, sp]   sp: "" or the framework       *)
(*      variable: cnt max inst blk thr nthr ncol                              *)
(*   Host       std -> [u, cls, cond, dyn, init, step, ty, where]             *)
(*      cls: s h v z hv vh hz; z: layers from 0; where: com | inst | thr      *)
(*   FlagVals, Inits, FailTags (set of <<scheme, stage>>)                     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, StaticDataCfg

CONSTANTS D

VARIABLES ini,   \* set of << suite, group, instance >>
          hv,    \* host variable -> sequence (copies) of sequences of values
          cx,    \* [inst, blk, thr] of the next calls
          fail, n, hist
vars == <<ini, hv, cx, fail, n, hist>>

UNDEF == -2000000000
NoFail == <<"-", "-">>

Horizontal(cls) == cls \in {"h", "hv", "vh", "hz"}
NLev(cls) == CASE cls \in {"v", "hv", "vh"} -> NL [] cls \in {"z", "hz"} -> NL + 1 [] OTHER -> 1
NCells(cls) == (IF Horizontal(cls) THEN NC ELSE 1) * NLev(cls)
Copies(std) == CASE Host[std].where = "inst" -> Cardinality(Insts)
                 [] Host[std].where = "thr" -> NT [] OTHER -> 1
CopyOf(std, c) == CASE Host[std].where = "inst" -> c.inst
                    [] Host[std].where = "thr" -> c.thr [] OTHER -> 1
(* The cells of columns b to e in Fortran element order; cell (c, l) is       *)
(* number (l - 1) * NC + c.                                                   *)
Cells(cls, b, e) ==
  LET nl == NLev(cls)
      nc == IF Horizontal(cls) THEN e - b + 1 ELSE 1
  IN [i \in 1..(nc * nl) |->
        IF ~ Horizontal(cls) THEN i
        ELSE IF cls = "vh" THEN ((i - 1) % nl) * NC + b + (i - 1) \div nl
        ELSE ((i - 1) \div nc) * NC + b + ((i - 1) % nc)]

RECURSIVE Holds(_, _)
Holds(c, H) ==
  IF c = << >> THEN TRUE
  ELSE CASE c[1] = "is"  -> H[c[2]][1][1] = 1
         [] c[1] = "gt"  -> H[c[2]][1][1] > c[3]
         [] c[1] = "no"  -> FALSE
         [] c[1] = "not" -> ~ Holds(c[2], H)
         [] c[1] = "and" -> Holds(c[2], H) /\ Holds(c[3], H)
         [] c[1] = "or"  -> Holds(c[2], H) \/ Holds(c[3], H)

ToPhys(u, x) == x * Units[u][1] + Units[u][2]
InitVals(std, base) == LET h == Host[std] IN
  [k \in 1..Copies(std) |->
    [i \in 1..NCells(h.cls) |->
      IF h.ty = "log" THEN (base + i) % 2 ELSE ToPhys(h.u, base + h.step * (i - 1) + 3 * (k - 1))]]

----------------------------------------------------------------------------
NewVal(a, old, i, m) ==
  CASE a.int = "in"    -> old
    [] a.int = "inout" -> IF old = UNDEF THEN UNDEF
                          ELSE IF a.ty = "log" THEN 1 - old
                          ELSE old + (a.k + i) * Units[a.u][1]
    [] a.int = "out"   -> IF a.ty = "log" THEN (a.k + m + i) % 2
                          ELSE ToPhys(a.u, a.k + m + 2 * i)

Present(a, H) == a.sp # "" \/ ~ a.opt \/ Holds(Host[a.std].cond, H)

(* q: a call [c, cnt, max]; the columns of a variable of the thread are those *)
(* of the block, from 1                                                       *)
Range(a, ph, c) ==
  LET b == IF ph = "run" THEN Blocks[c.blk][1] ELSE 1
      e == IF ph = "run" THEN Blocks[c.blk][2] ELSE NC
  IN IF Host[a.std].where = "thr" THEN << 1, e - b + 1 >> ELSE << b, e >>
ArgCells(a, ph, c) == LET r == Range(a, ph, c) IN Cells(a.cls, r[1], r[2])

Special(a, q, ph, c) ==
  CASE a.sp = "cnt"  -> q.cnt
    [] a.sp = "max"  -> q.max
    [] a.sp = "inst" -> InstNo[c.inst]
    [] a.sp = "blk"  -> c.blk
    [] a.sp = "thr"  -> c.thr
    [] a.sp = "nthr" -> NT
    [] a.sp = "ncol" -> IF ph = "run" THEN Blocks[c.blk][2] - Blocks[c.blk][1] + 1 ELSE NC

Seen(a, H, q, ph, c) ==
  IF a.sp # "" THEN [n |-> a.n, k |-> "int", u |-> "-", v |-> << Special(a, q, ph, c) >>]
  ELSE IF ~ Present(a, H) THEN [n |-> a.n, k |-> "absent", u |-> a.u, v |-> << >>]
  ELSE LET cs == ArgCells(a, ph, c)
           x  == H[a.std][CopyOf(a.std, c)]
       IN IF a.int = "out"
          THEN [n |-> a.n, k |-> "size", u |-> a.u, v |-> << Len(cs) >>]
          ELSE [n |-> a.n, k |-> "val", u |-> a.u, v |-> [i \in 1..Len(cs) |-> x[cs[i]]]]

Put(a, x, m, ph, c, bad) ==
  LET cs == ArgCells(a, ph, c)
      inv == [z \in { cs[i] : i \in 1..Len(cs) } |-> CHOOSE i \in 1..Len(cs) : cs[i] = z]
  IN TLCEval([z \in 1..Len(x) |-> IF z \notin DOMAIN inv THEN x[z]
                                  ELSE IF bad THEN UNDEF ELSE NewVal(a, x[z], inv[z], m)])

RECURSIVE Args(_, _, _, _, _, _, _)
(* H0: the host state at the time of the call; bad: the scheme fails (what it *)
(* leaves in its outputs is not specified)                                    *)
Args(as, H, H0, m, ph, c, bad) ==
  IF as = << >> THEN H
  ELSE LET a == Head(as)
           nxt == IF a.sp # "" \/ a.int = "in" \/ ~ Present(a, H0) THEN H
                  ELSE [H EXCEPT ![a.std][CopyOf(a.std, c)] = Put(a, @, m, ph, c, bad)]
       IN Args(Tail(as), nxt, H0, m, ph, c, bad)

RECURSIVE RunAll(_, _, _, _, _, _)
(* q: sequence of calls; result << host, calls made, events, failed >>        *)
RunAll(q, ph, H, m, c, ev) ==
  IF q = << >> THEN << H, m, ev, FALSE >>
  ELSE LET k  == Head(q)
           as == Entry[<<k.c, ph>>]
           bad == fail = <<k.c, ph>>
           H2 == TLCEval(Args(as, H, H, m + 1, ph, c, bad))
           e2 == Append(ev, [c |-> k.c, args |-> [i \in 1..Len(as) |-> Seen(as[i], H, k, ph, c)]])
       IN IF bad THEN << H2, m + 1, e2, TRUE >>
          ELSE RunAll(Tail(q), ph, H2, m + 1, c, e2)

(* The calls of a group: subcycles repeated in the run stage, schemes without *)
(* an entry point for the stage left out.                                     *)
RECURSIVE Pass(_, _, _, _), Reps(_, _, _, _), OfGroup(_, _)
Pass(ss, ph, k, mx) == IF ss = << >> THEN << >>
  ELSE (IF <<Head(ss), ph>> \in DOMAIN Entry THEN << [c |-> Head(ss), cnt |-> k, max |-> mx] >> ELSE << >>)
       \o Pass(Tail(ss), ph, k, mx)
Reps(ss, ph, k, mx) == IF k > mx THEN << >> ELSE Pass(ss, ph, k, mx) \o Reps(ss, ph, k + 1, mx)
OfGroup(cy, ph) == IF cy = << >> THEN << >>
  ELSE Reps(Head(cy)[2], ph, 1, IF ph = "run" THEN Head(cy)[1] ELSE 1) \o OfGroup(Tail(cy), ph)

----------------------------------------------------------------------------
Stages == {"init", "ts_init", "run", "ts_final", "final"}
Flags == DOMAIN FlagVals
Started == [std \in DOMAIN Host |-> InitVals(std, Host[std].init)]
DynFix(H, H0) == [std \in DOMAIN Host |->
    IF ~ Host[std].dyn THEN H[std]
    ELSE IF ~ Holds(Host[std].cond, H) THEN << >>
    ELSE IF H0[std] = << >> THEN InitVals(std, Host[std].init) ELSE H[std]]
Init == /\ ini = {}
        /\ hv = DynFix(Started, Started)
        /\ cx = [inst |-> 1, blk |-> 1, thr |-> 1]
        /\ fail = NoFail /\ n = 0
        /\ hist = << [a |-> [op |-> "start"], ev |-> << >>, h |-> hv] >>
Log(a, ev) == hist' = Append(hist, [a |-> a, ev |-> ev, h |-> hv'])

Ready(s, g, ph) == IF ph = "init" THEN <<s, g, cx.inst>> \notin ini ELSE <<s, g, cx.inst>> \in ini

(* groups gs of the suite (indices), in order, up to a failure                *)
RECURSIVE Walk(_, _, _, _, _, _, _)
Walk(s, gs, ph, H, m, ev, done) ==
  IF gs = << >> THEN [h |-> H, n |-> m, ev |-> ev, bad |-> FALSE, done |-> done]
  ELSE LET r == RunAll(OfGroup(Groups[s][Head(gs)][2], ph), ph, H, m, cx, ev)
       IN IF r[4] THEN [h |-> r[1], n |-> r[2], ev |-> r[3], bad |-> TRUE, done |-> done]
          ELSE Walk(s, Tail(gs), ph, r[1], r[2], r[3], done \cup { <<s, Groups[s][Head(gs)][1], cx.inst>> })

Call(ph, s, g) ==    \* g: index of a group or 0 (the whole suite)
  LET gs == IF g = 0 THEN [i \in 1..Len(Groups[s]) |-> i] ELSE << g >>
      r  == Walk(s, gs, ph, hv, n, << >>, {})
  IN /\ \A i \in 1..Len(gs) : Ready(s, Groups[s][gs[i]][1], ph)
     /\ hv' = r.h /\ n' = r.n
     /\ ini' = CASE ph = "init" -> ini \cup r.done [] ph = "final" -> ini \ r.done [] OTHER -> ini
     /\ UNCHANGED <<cx, fail>>
     /\ Log([op |-> "call", ph |-> ph, s |-> s, g |-> IF g = 0 THEN "_" ELSE Groups[s][g][1],
             bad |-> r.bad], r.ev)

SetCx(i, b, t) == /\ cx' = [inst |-> i, blk |-> b, thr |-> t]
                  /\ UNCHANGED <<ini, hv, fail, n>>
                  /\ Log([op |-> "cx", inst |-> i, blk |-> b, thr |-> t], << >>)
SetFlag(f, v) == /\ hv' = DynFix([hv EXCEPT ![f] = << <<v>> >>], hv)
                 /\ UNCHANGED <<ini, cx, fail, n>>
                 /\ Log([op |-> "flag", f |-> f, v |-> v], << >>)
SetVar(std, x) == /\ hv' = [hv EXCEPT ![std] = InitVals(std, x)]
                  /\ UNCHANGED <<ini, cx, fail, n>>
                  /\ Log([op |-> "set", std |-> std, v |-> x], << >>)
SetFail(t) == /\ fail' = t
              /\ UNCHANGED <<ini, hv, cx, n>>
              /\ Log([op |-> "fail", c |-> t[1], ph |-> t[2]], << >>)

R(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
Settable == { std \in DOMAIN Host : hv[std] # << >> /\ std \notin Flags }
CanCall == { <<ph, s, g>> \in { <<ph, s, g>> \in Stages \X Suites \X (0..4) : g <= Len(Groups[s]) } :
               \A i \in (IF g = 0 THEN 1..Len(Groups[s]) ELSE {g}) : Ready(s, Groups[s][i][1], ph) }
(* mostly runs once they are possible, finalization rarely *)
Likely(w) == LET run == { x \in CanCall : x[1] = "run" }
                 oth == { x \in CanCall : x[1] \notin {"run", "final"} }
             IN IF run # {} /\ w <= 3 THEN run
                ELSE IF oth # {} /\ w <= 5 THEN oth ELSE CanCall
Next == /\ Len(hist) < D
        /\ \E w \in R(1..13) :
             IF w <= 6 \/ (w = 13 /\ Settable = {}) \/ (w = 11 /\ Flags = {})
             THEN \E x \in R(Likely(w)) : Call(x[1], x[2], x[3])
             ELSE IF w <= 10
             THEN \E i \in R(Insts), b \in R(1..Len(Blocks)), t \in R(1..NT) : SetCx(i, b, t)
             ELSE IF w = 11
             THEN \E f \in R(Flags) : \E v \in R(FlagVals[f]) : SetFlag(f, v)
             ELSE IF w = 12
             THEN \E t \in R(FailTags \cup {NoFail}) : SetFail(t)
             ELSE \E std \in R(Settable) : \E x \in R(Inits) : SetVar(std, x)

----------------------------------------------------------------------------
Last == hist'[Len(hist')]
Called == Len(hist') > Len(hist) /\ Last.a.op = "call"
WrittenIn(ev) == UNION { LET as == Entry[<<ev[i].c, Last.a.ph>>]
                         IN { as[j].std : j \in { j \in 1..Len(as) : as[j].sp = "" /\ as[j].int # "in" } }
                       : i \in 1..Len(ev) }
TypeOK == \A v \in DOMAIN Host : hv[v] = << >> \/
            (Len(hv[v]) = Copies(v) /\ \A k \in 1..Copies(v) : Len(hv[v][k]) = NCells(Host[v].cls))
(* only variables some scheme of the call declares out or inout change, in    *)
(* the run stage only in the columns of the block and never in the copies of  *)
(* other threads and instances                                                *)
OnlyInRange == [][ Called => \A v \in DOMAIN Host :
    /\ (hv'[v] # hv[v] => v \in WrittenIn(Last.ev))
    /\ (hv[v] # << >> => \A k \in 1..Copies(v) : k # CopyOf(v, cx) => hv'[v][k] = hv[v][k])
    /\ (Last.a.ph = "run" /\ Horizontal(Host[v].cls) /\ Host[v].where # "thr") =>
         \A k \in 1..Len(hv[v]) : \A i \in 1..Len(hv[v][k]) :
            (((i - 1) % NC) + 1) \notin (Blocks[cx.blk][1]..Blocks[cx.blk][2]) => hv'[v][k][i] = hv[v][k][i] ]_vars
InactiveUntouched == [][ Called => \A v \in DOMAIN Host :
    Flags \cap WrittenIn(Last.ev) = {} /\ ~ Holds(Host[v].cond, hv) => hv'[v] = hv[v] ]_vars
(* a failing scheme is the last one called                                    *)
FailureStops == [][ Called => \A i \in 1..Len(Last.ev) :
    (<<Last.ev[i].c, Last.a.ph>> = fail) <=> (i = Len(Last.ev) /\ Last.a.bad) ]_vars
Emit == Len(hist) < D \/ PrintT("@@" \o ToJson(hist))
=============================================================================
