------------------------------ MODULE DetTrace ------------------------------
(* Recorded generations: the output must be a function of the project and of  *)
(* the order of the inputs, and its meaning of the project alone.             *)
(* Obs: a sequence of [p, ord, bytes, meaning, rc], the reference run of a    *)
(* project first.                                                             *)
EXTENDS Naturals, Sequences, TLC, Json, TraceData
VARIABLES i, bytes, meaning, bad
vars == <<i, bytes, meaning, bad>>
Init == i = 1 /\ bytes = << >> /\ meaning = << >> /\ bad = << >>
O == Obs[i]
Key == <<O.p, O.ord>>
Next == /\ i <= Len(Obs)
        /\ i' = i + 1
        /\ bytes' = IF Key \in DOMAIN bytes THEN bytes ELSE (Key :> i) @@ bytes
        /\ meaning' = IF O.p \in DOMAIN meaning THEN meaning ELSE (O.p :> i) @@ meaning
        /\ bad' = (IF Key \in DOMAIN bytes /\ <<Obs[bytes[Key]].rc, Obs[bytes[Key]].bytes>> # <<O.rc, O.bytes>>
                   THEN << [i |-> i, j |-> bytes[Key], what |-> "bytes"] >> ELSE << >>) \o
                  (IF O.p \in DOMAIN meaning /\ <<Obs[meaning[O.p]].rc, Obs[meaning[O.p]].meaning>> # <<O.rc, O.meaning>>
                   THEN << [i |-> i, j |-> meaning[O.p], what |-> "meaning"] >> ELSE << >>)
Functional == \A k \in 1..Len(bad) : PrintT("@@" \o ToJson(bad[k]))
=============================================================================
