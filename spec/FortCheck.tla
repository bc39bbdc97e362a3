------------------------------ MODULE FortCheck ------------------------------
(* Physical lines recorded from the real writer, checked against FortLine.     *)
EXTENDS FortLine, TLC, Json, TraceData
VARIABLE i
Traces == Recorded
Init == i = 1
T == Traces[i]
Ind(l) == FirstInk(l) - 1
CodeLines == { k \in DOMAIN T.lines : FirstInk(T.lines[k]) > 0 /\ T.lines[k][FirstInk(T.lines[k])] # BANG }
Bad ==
  (IF SameMeaning(T.stmt, T.lines) THEN {} ELSE {"meaning"}) \cup
  (IF \A k \in DOMAIN T.lines : Len(T.lines[k]) <= T.max + 2 THEN {} ELSE {"limit"}) \cup
  (IF Len(T.stmt) + T.ind > T.fill \/ Len(T.lines) = 1 THEN {} ELSE {"needless"}) \cup
  (IF Len(T.lines) > 0 /\ Ind(T.lines[1]) = T.ind THEN {} ELSE {"indentation"}) \cup
  (IF \A k \in CodeLines : k = 1 \/ T.lines[k][FirstInk(T.lines[k])] = AMP \/ Ind(T.lines[k]) = T.ind + 5 THEN {} ELSE {"continued"})
Next == i < Len(Traces) /\ i' = i + 1
Valid == Read(<<T.stmt>>).err = {}
Conforms == (IF Valid THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> i, bad |-> {"invalid"}, got |-> Read(<<T.stmt>>)])))
            /\ (Bad # {} => PrintT("@@" \o ToJson([i |-> i, bad |-> Bad])))
=============================================================================
