------------------------------ MODULE FortText ------------------------------
(* Statements for the line writer (C14): atoms of code, literals and comments *)
(* chosen one by one, for different limits and indentations.                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
VARIABLES w, shape, atoms, left, stage
vars == <<w, shape, atoms, left, stage>>
R(S) == IF S = {} THEN {} ELSE { RandomElement(S) }
Widths == << [fill |-> 97, max |-> 130], [fill |-> 97, max |-> 130], [fill |-> 40, max |-> 60], [fill |-> 20, max |-> 30], [fill |-> 28, max |-> 32] >>
Shapes == << "code", "code", "trailing", "comment", "literal" >>
Ops == <<"=", "+", "//", "==", "=>", "(", ")", "%", "::", "/", "*", ",", ", ", ", ", " ", " ", "  ", "-", " .and. ", " // ">>
Pieces == <<"a", "word", "two words", "!", "& ", " ", "  ", ",", ", ", "//", "long_name_of_a_thing", "x y z", "QUOTE", "OTHER", "!!", ": ">>
Init == /\ stage = "start" /\ w = [fill |-> 0, max |-> 0, ind |-> 0] /\ shape = "" /\ atoms = << >> /\ left = 0
Begin == /\ stage = "start" /\ stage' = "go" /\ atoms' = << >>
         /\ \E k \in R(1..5), s \in R(1..5), i \in R(0..3), n \in R(1..14) :
              /\ w' = [fill |-> Widths[k].fill, max |-> Widths[k].max, ind |-> i]
              /\ shape' = Shapes[s] /\ left' = (IF k < 3 THEN 5 * n ELSE 2 * n)
Word(n) == [k |-> "word", n |-> n, s |-> "", q |-> ""]
Text(s) == [k |-> "text", n |-> 0, s |-> s, q |-> ""]
Add == /\ stage = "go" /\ left > 0 /\ left' = left - 1
       /\ \E a \in R(1..12), o \in R(1..20), p \in R(1..16), n \in R(1..12), big \in R(1..30) :
            LET comment == shape = "comment" \/ (shape = "trailing" /\ left * 4 < w.fill /\ left < 8)
                lit == shape = "literal" /\ left < w.fill \div 3
            IN atoms' = Append(atoms,
                 IF comment THEN (IF a < 7 THEN [k |-> "comtext", n |-> 0, s |-> Pieces[p], q |-> "'"] ELSE [k |-> "comtext", n |-> 0, s |-> " ", q |-> "'"])
                 ELSE IF lit THEN [k |-> "littext", n |-> 0, s |-> Pieces[p], q |-> ""]
                 ELSE IF big = 1 THEN Word(w.fill + n)
                 ELSE IF a < 6 THEN Word(n)
                 ELSE IF a < 11 THEN Text(Ops[o])
                 ELSE [k |-> "lit", n |-> n, s |-> Pieces[p], q |-> IF o < 11 THEN "'" ELSE "\""])
       /\ UNCHANGED <<w, shape, stage>>
Stop == stage = "go" /\ left = 0 /\ stage' = "done" /\ UNCHANGED <<w, shape, atoms, left>>
Next == Begin \/ Add \/ Stop
Emit == stage = "done" => PrintT("@@" \o ToJson([w |-> w, shape |-> shape, atoms |-> atoms]))
=============================================================================
