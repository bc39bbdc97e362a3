---------------------------- MODULE CapLifecycle ----------------------------
(* The host-facing physics API that capgen generates for a set of suites:     *)
(* life-cycle state of every suite (C01) and the schemes every call runs      *)
(* (C02).  The suites are data: module CapCfg (written per configuration)     *)
(* defines                                                                    *)
(*   Suites        set of suite names                                         *)
(*   Parts[s]      sequence of <<part name, items>>                           *)
(*     item: [k |-> "s", n |-> scheme] or                                     *)
(*           [k |-> "l", c |-> iterations (-1: host variable), b |-> items]   *)
(*   Entry[c]      set of the phases scheme c has an entry point for          *)
(*   BadSuites, BadParts   names that do not exist                            *)
(*   FailTags      set of <<scheme, phase>> that may be told to fail          *)
(*   Threads       numbers of the threads calls are made from (0: master; the *)
(*                 non-run phases must not be called from other threads)      *)
(*   LoopVals      values the host loop variable may take (LoopInit: first)   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, CapCfg

VARIABLES st,      \* suite -> "uninitialized" | "initialized" | "in_time_step"
          fail,    \* the (scheme, phase) that reports an error, or NoFail
          nsub,    \* value of the host's subcycle variable
          act, res \* last input and response (for emission only)
vars == <<st, fail, nsub, act, res>>
view == <<st, fail, nsub>>

NoFail == <<"-", "-">>
Phases == {"register", "init", "ts_init", "run", "ts_final", "final"}
From(ph) == CASE ph = "register" -> "uninitialized"
              [] ph = "init"     -> "uninitialized"
              [] ph = "ts_init"  -> "initialized"
              [] ph = "run"      -> "in_time_step"
              [] ph = "ts_final" -> "in_time_step"
              [] ph = "final"    -> "initialized"
To(ph)   == CASE ph = "register" -> "uninitialized"
              [] ph = "init"     -> "initialized"
              [] ph = "ts_init"  -> "in_time_step"
              [] ph = "run"      -> "in_time_step"
              [] ph = "ts_final" -> "initialized"
              [] ph = "final"    -> "uninitialized"

----------------------------------------------------------------------------
(* The schemes of an item list, in order, with subcycles repeated.           *)
RECURSIVE Flat(_, _), Rep(_, _)
Rep(q, n) == IF n <= 0 THEN << >> ELSE q \o Rep(q, n - 1)
Flat(items, n) ==
  IF items = << >> THEN << >>
  ELSE LET h == Head(items)
           hd == IF h.k = "s" THEN << h.n >>
                 ELSE Rep(Flat(h.b, n), IF h.c < 0 THEN n ELSE h.c)
       IN hd \o Flat(Tail(items), n)
(* All the schemes listed in an item list, every subcycle taken once.        *)
RECURSIVE Listed(_)
Listed(items) ==
  IF items = << >> THEN << >>
  ELSE LET h == Head(items)
       IN (IF h.k = "s" THEN << h.n >> ELSE Listed(h.b)) \o Listed(Tail(items))

RECURSIVE Dedup(_, _)
Dedup(q, seen) == IF q = << >> THEN << >>
                  ELSE IF Head(q) \in seen THEN Dedup(Tail(q), seen)
                  ELSE << Head(q) >> \o Dedup(Tail(q), seen \cup {Head(q)})
RECURSIVE Having(_, _)
Having(q, ph) == IF q = << >> THEN << >>
                 ELSE (IF ph \in Entry[Head(q)] THEN << Head(q) >> ELSE << >>)
                      \o Having(Tail(q), ph)
RECURSIVE AllListed(_)
AllListed(ps) == IF ps = << >> THEN << >>
                 ELSE Listed(Head(ps)[2]) \o AllListed(Tail(ps))

PartNames(s) == { Parts[s][i][1] : i \in 1..Len(Parts[s]) }
PartItems(s, p) == LET i == CHOOSE i \in 1..Len(Parts[s]) : Parts[s][i][1] = p
                   IN Parts[s][i][2]
(* what a successful call must run *)
Must(ph, s, p) == IF ph = "run" THEN Having(Flat(PartItems(s, p), nsub), "run")
                  ELSE Having(Dedup(AllListed(Parts[s]), {}), ph)
(* the prefix that runs when a scheme fails *)
RECURSIVE Upto(_, _)
Upto(q, c) == IF q = << >> THEN << >>
              ELSE << Head(q) >> \o (IF Head(q) = c THEN << >> ELSE Upto(Tail(q), c))
InSeq(c, q) == \E i \in 1..Len(q) : q[i] = c

----------------------------------------------------------------------------
Init == /\ st = [s \in Suites |-> "uninitialized"]
        /\ fail = NoFail
        /\ nsub = LoopInit
        /\ act = [op |-> "none"] /\ res = [err |-> "ok", ev |-> << >>]

Legal(ph, s, p) == /\ s \in Suites
                   /\ ph = "run" => p \in PartNames(s)
                   /\ st[s] = From(ph)

AllParts == UNION { PartNames(s) : s \in Suites }

Call(ph, s, p, th) ==
  /\ act' = [op |-> "call", phase |-> ph, suite |-> s, part |-> p, thread |-> th]
  /\ UNCHANGED <<fail, nsub>>
  /\ IF ~Legal(ph, s, p) \/ (ph # "run" /\ th > 0)
     THEN /\ res' = [err |-> "illegal", ev |-> << >>]
          /\ st' = st
     ELSE LET q == Must(ph, s, p)
          IN IF fail[2] = ph /\ InSeq(fail[1], q)
             THEN /\ res' = [err |-> "scheme", ev |-> Upto(q, fail[1])]
                  \* the state after a failed call is not specified
                  /\ st' \in { st, [st EXCEPT ![s] = To(ph)] }
             ELSE /\ res' = [err |-> "ok", ev |-> q]
                  /\ st' = [st EXCEPT ![s] = To(ph)]

SetFail(t) == /\ act' = [op |-> "fail", scheme |-> t[1], phase |-> t[2]]
              /\ res' = [err |-> "ok", ev |-> << >>]
              /\ fail' = t /\ UNCHANGED <<st, nsub>>
SetN(v) == /\ v # nsub
           /\ act' = [op |-> "setn", v |-> v]
           /\ res' = [err |-> "ok", ev |-> << >>]
           /\ nsub' = v /\ UNCHANGED <<st, fail>>

Next == \/ \E ph \in Phases \ {"run"}, s \in Suites \cup BadSuites, th \in Threads :
              Call(ph, s, "-", th)
        \/ \E s \in Suites \cup BadSuites, p \in AllParts \cup BadParts,
              th \in Threads : Call("run", s, p, th)
        \/ \E t \in FailTags \cup {NoFail} : SetFail(t)
        \/ \E v \in LoopVals : SetN(v)

----------------------------------------------------------------------------
States == {"uninitialized", "initialized", "in_time_step"}
TypeOK == st \in [Suites -> States]
IllegalIsRefused ==
  [][ act'.op = "call" =>
        ( ~Legal(act'.phase, act'.suite, act'.part) \/ (act'.phase # "run" /\ act'.thread > 0)
          => ( res'.err # "ok" /\ res'.ev = << >> /\ st' = st ) ) ]_vars
OneSuiteMoves ==
  [][ \A s1, s2 \in Suites : (st'[s1] # st[s1] /\ st'[s2] # st[s2]) => s1 = s2 ]_vars
OnlyEntryPoints ==
  [][ act'.op = "call" =>
        \A i \in 1..Len(res'.ev) : act'.phase \in Entry[res'.ev[i]] ]_vars
OncePerFullPhase ==
  [][ (act'.op = "call" /\ act'.phase # "run") =>
        \A i, j \in 1..Len(res'.ev) : res'.ev[i] = res'.ev[j] => i = j ]_vars
(* a run is only ever reached through initialize and timestep_initial         *)
RunNeedsTimestep ==
  [][ (act'.op = "call" /\ act'.phase = "run" /\ res'.err # "illegal")
        => st[act'.suite] = "in_time_step" ]_vars

Emit == PrintT("@@" \o ToJson([f |-> <<st, fail, nsub>>, a |-> act', r |-> res',
                               t |-> <<st', fail', nsub'>>]))
=============================================================================
