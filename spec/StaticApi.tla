------------------------------ MODULE StaticApi ------------------------------
(* The physics API that prebuild generates for a set of suites (C19): which   *)
(* groups of which suite are initialized for which instance, which calls are  *)
(* refused, and the schemes every call runs, in order.  Suites are data:      *)
(* module StaticCfg (written per configuration) defines                       *)
(*   Suites, BadSuites, BadGroups                                             *)
(*   Groups[s]     sequence of <<group name, << <<iterations, <<scheme..>> >> >>*)
(*   Entry[c]      the stages scheme c has an entry point for                 *)
(*   Insts         instance numbers                                           *)
(*   FailTags      set of <<scheme, stage>> that may be told to fail          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, StaticCfg

VARIABLES ini,       \* the set of <<suite, group, instance>> initialized
          fail, act, res
vars == <<ini, fail, act, res>>
view == <<ini, fail>>

NoFail == <<"-", "-">>
Stages == {"init", "ts_init", "run", "ts_final", "final"}
Guarded == {"ts_init", "run", "ts_final"}

----------------------------------------------------------------------------
(* The calls of one stage of a group: every listing of a scheme in order;     *)
(* subcycles are repeated in the run stage only.                              *)
RECURSIVE Rep(_, _), Keep(_, _), FlatG(_, _)
Rep(q, n) == IF n <= 0 THEN << >> ELSE q \o Rep(q, n - 1)
Keep(q, ph) == IF q = << >> THEN << >>
               ELSE (IF ph \in Entry[Head(q)] THEN << Head(q) >> ELSE << >>) \o Keep(Tail(q), ph)
FlatG(cycles, ph) ==
  IF cycles = << >> THEN << >>
  ELSE Rep(Keep(Head(cycles)[2], ph), IF ph = "run" THEN Head(cycles)[1] ELSE 1)
       \o FlatG(Tail(cycles), ph)
GroupNames(s) == { Groups[s][i][1] : i \in 1..Len(Groups[s]) }
AllGroups == UNION { GroupNames(s) : s \in Suites }
Index(s, g) == CHOOSE i \in 1..Len(Groups[s]) : Groups[s][i][1] = g
Calls(s, g, ph) == FlatG(Groups[s][Index(s, g)][2], ph)
RECURSIVE Upto(_, _)
Upto(q, c) == IF q = << >> THEN << >>
              ELSE << Head(q) >> \o (IF Head(q) = c THEN << >> ELSE Upto(Tail(q), c))
InSeq(c, q) == \E i \in 1..Len(q) : q[i] = c

----------------------------------------------------------------------------
(* What one group does: a set of possible outcomes                            *)
(*   [err, ev, ini]   err: "ok", "refused" or "scheme".                       *)
GroupCall(S, s, g, n, ph) ==
  LET q    == Calls(s, g, ph)
      me   == <<s, g, n>>
      on   == me \in S
      bad  == fail[2] = ph /\ InSeq(fail[1], q)
      R(e, v, i) == [err |-> e, ev |-> v, ini |-> i]
  IN CASE ph = "init" ->
            IF on THEN { R("ok", << >>, S) }
            ELSE IF bad THEN { R("scheme", Upto(q, fail[1]), S) }
            ELSE { R("ok", q, S \cup {me}) }
       [] ph = "final" ->
            IF ~on THEN { R("ok", << >>, S) }
            ELSE IF bad THEN { R("scheme", Upto(q, fail[1]), S),
                               R("scheme", Upto(q, fail[1]), S \ {me}) }
            ELSE { R("ok", q, S \ {me}) }
       [] OTHER ->
            IF ~on THEN { R("refused", << >>, S) } \cup
                        \* nothing to refuse where no scheme would be called
                        (IF q = << >> THEN { R("ok", << >>, S) } ELSE {})
            ELSE IF bad THEN { R("scheme", Upto(q, fail[1]), S) }
            ELSE { R("ok", q, S) }

(* A whole suite is its groups in order up to the first error.                *)
RECURSIVE SuiteCall(_, _, _, _, _, _)
SuiteCall(S, s, i, n, ph, ev) ==
  IF i > Len(Groups[s]) THEN { [err |-> "ok", ev |-> ev, ini |-> S] }
  ELSE UNION { IF o.err # "ok" THEN { [o EXCEPT !.ev = ev \o o.ev] }
               ELSE SuiteCall(o.ini, s, i + 1, n, ph, ev \o o.ev)
             : o \in GroupCall(S, s, Groups[s][i][1], n, ph) }

----------------------------------------------------------------------------
Init == /\ ini = {} /\ fail = NoFail
        /\ act = [op |-> "none"] /\ res = [err |-> "ok", ev |-> << >>]

Call(ph, s, g, n) ==
  /\ act' = [op |-> "call", stage |-> ph, suite |-> s, group |-> g, inst |-> n]
  /\ UNCHANGED fail
  /\ IF s \notin Suites \/ (g # "*" /\ g \notin GroupNames(s))
     THEN res' = [err |-> "unknown", ev |-> << >>] /\ ini' = ini
     ELSE \E o \in (IF g = "*" THEN SuiteCall(ini, s, 1, n, ph, << >>)
                    ELSE GroupCall(ini, s, g, n, ph)) :
            /\ res' = [err |-> o.err, ev |-> o.ev]
            /\ ini' = o.ini
SetFail(t) == /\ act' = [op |-> "fail", scheme |-> t[1], stage |-> t[2]]
              /\ t # fail
              /\ res' = [err |-> "ok", ev |-> << >>]
              /\ fail' = t /\ UNCHANGED ini

Next == \/ \E ph \in Stages, s \in Suites \cup BadSuites, g \in AllGroups \cup BadGroups \cup {"*"},
              n \in Insts : Call(ph, s, g, n)
        \/ \E t \in FailTags \cup {NoFail} : SetFail(t)

----------------------------------------------------------------------------
All == UNION { {<<s, g, n>> : g \in GroupNames(s), n \in Insts} : s \in Suites }
TypeOK == ini \subseteq All
(* run and timestep phases call schemes only of initialized groups            *)
Refused == [][ (act'.op = "call" /\ act'.stage \in Guarded) =>
                 /\ ini' = ini
                 /\ \A i \in 1..Len(res'.ev) :
                      \E x \in ini : /\ x[1] = act'.suite /\ x[3] = act'.inst
                                     /\ InSeq(res'.ev[i], Calls(x[1], x[2], act'.stage)) ]_vars
(* a call only ever changes the state of its own suite, group and instance    *)
Independent == [][ \A x \in All : (x \in ini) # (x \in ini') =>
                     /\ act'.op = "call" /\ act'.suite = x[1] /\ act'.inst = x[3]
                     /\ act'.group \in {x[2], "*"}
                     /\ act'.stage = (IF x \in ini THEN "final" ELSE "init") ]_vars
(* a repeated initialize or finalize has no effect                            *)
Idempotent == [][ (/\ act'.op = "call" /\ act'.stage \in {"init", "final"}
                   /\ act'.suite \in Suites /\ act'.group \in GroupNames(act'.suite)
                   /\ (<<act'.suite, act'.group, act'.inst>> \in ini) = (act'.stage = "init"))
                  => (res'.err = "ok" /\ res'.ev = << >> /\ ini' = ini) ]_vars
(* only an error stops the schemes of a suite                                 *)
Complete == [][ (/\ act'.op = "call" /\ act'.suite \in Suites /\ act'.group = "*"
                 /\ act'.stage \in Guarded /\ res'.err = "ok")
                => Len(res'.ev) >= Cardinality({ g \in GroupNames(act'.suite) :
                                     Calls(act'.suite, g, act'.stage) # << >> }) ]_vars

Emit == PrintT("@@" \o ToJson([f |-> <<ini, fail>>, a |-> act', r |-> res', t |-> <<ini', fail'>>]))
=============================================================================
