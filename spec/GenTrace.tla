------------------------------ MODULE GenTrace ------------------------------
(* Checks recorded histories of a real output directory against GenDirRel.    *)
(* TraceData provides Traces: each a record of the initial directory, the     *)
(* files of the user, the rewrite rules, and the steps taken.                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, GenDirRel, TraceData
VARIABLES t, i, last, gen
vars == <<t, i, last, gen>>
Init == t \in 1..Len(Traces) /\ i = 1 /\ last = {} /\ gen = {}
T == Traces[t]
S == T.steps[i]
Prev == IF i = 1 THEN T.init ELSE T.steps[i - 1].disk
Bad ==
  LET d == Prev e == S.disk IN
  CASE S.op = "ok"    -> RunOK(d, e, S.fresh, gen \cup DOMAIN S.fresh, T.user, T.up, T.always, S.force)
    [] S.op = "fail"  -> FailOK(d, e, S.fresh, gen, T.user, T.staging)
    [] S.op = "kill"  -> KillOK(d, e, S.fresh, gen, T.user, T.staging, T.always)
    [] S.op = "clean" -> CleanOK(d, e, IF T.staging THEN last ELSE gen, T.user)
    [] S.op = "lose"  -> {}
Next == /\ i <= Len(T.steps)
        /\ i' = i + 1 /\ t' = t
        /\ gen' = gen \cup DOMAIN S.fresh
        /\ last' = CASE S.op = "ok" -> DOMAIN S.fresh
                     [] S.op = "kill" -> {}
                     [] S.op = "fail" -> (IF T.staging THEN last ELSE {})
                     [] S.op = "clean" -> {}
                     [] S.op = "lose" -> {}
Conforms == i <= Len(T.steps) => (Bad # {} => PrintT("@@" \o ToJson([t |-> t, i |-> i, bad |-> Bad])))
=============================================================================
