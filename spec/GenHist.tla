------------------------------ MODULE GenHist ------------------------------
(* Random histories of commands for GenTrace (C10, C21): edits of the inputs, *)
(* runs, killed runs, cleaning and losing generated files.                    *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS LEN, FORCE
VARIABLES h, broken, setup
vars == <<h, broken, setup>>
R(S) == IF S = {} THEN {} ELSE { RandomElement(S) }
Op(o, a, b) == [op |-> o, a |-> a, b |-> b]
Init == h = << >> /\ broken = FALSE /\ setup = [layout |-> 0, legacy |-> 0]
Add(o) == h' = Append(h, o)
(* swap, flip and twist keep the length of the generated files *)
Edits == {"scheme", "same", "group", "order", "select", "host", "kind", "dep", "debug", "swap", "flip", "twist"}
Next == /\ Len(h) < LEN
        /\ IF h = << >> THEN /\ \E l \in R(0..3) : setup' = [setup EXCEPT !.layout = l]
                             /\ Add(Op("run", 0, 0)) /\ UNCHANGED broken
           ELSE /\ UNCHANGED setup
                /\ \E x \in R(1..20) : \E a \in R(0..3), b \in R(0..7), k \in R(1..60), e \in R(Edits), w \in R(0..4) :
                   CASE x \in 1..7   -> Add(Op("edit " \o e, a, b)) /\ UNCHANGED broken
                     [] x \in 8..12  -> Add(Op("run", 0, 0)) /\ UNCHANGED broken
                     [] x \in 13..15 -> Add(Op("kill", k, 0)) /\ UNCHANGED broken
                     [] x = 16       -> Add(Op("clean", 0, 0)) /\ UNCHANGED broken
                     [] x = 17       -> Add(Op("lose", b, a)) /\ UNCHANGED broken
                     [] x = 18       -> Add(Op(IF FORCE THEN "force" ELSE "run", 0, 0)) /\ UNCHANGED broken
                     [] OTHER        -> /\ broken' = ~broken
                                        /\ Add(IF broken THEN Op("mend", 0, 0) ELSE Op("break", w, a))
Emit == Len(h) = LEN => PrintT("@@" \o ToJson([h |-> h, setup |-> setup]))
=============================================================================
