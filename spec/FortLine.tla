------------------------------ MODULE FortLine ------------------------------
(* What the physical lines of a free form Fortran source mean (C14): a reader *)
(* that consumes lines character by character (characters are code points)    *)
(* and yields the tokens of the code, the text of the comments and what is    *)
(* malformed.  Read(<<s>>) is the meaning of a statement written on one line. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt

BL == 32  BANG == 33  DQ == 34  AMP == 38  SQ == 39
IsWord(c) == (c >= 48 /\ c <= 57) \/ (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122) \/ c = 95
(* //  ==  /=  <=  >=  =>  ::  **  (/  /) *)
Pairs == { <<47,47>>, <<61,61>>, <<47,61>>, <<60,61>>, <<62,61>>, <<61,62>>, <<58,58>>, <<42,42>>, <<40,47>>, <<47,41>> }

(* m: code, sq, dq, sqe, dqe (just after a closing quote), com, amp (after a
   trailing &).  cont: the statement goes on in the next line. *)
Reader0 == [m |-> "code", cont |-> FALSE, cur |-> << >>, toks |-> << >>, com |-> << >>, err |-> {}]
Flush(r) == IF r.cur = << >> THEN [r EXCEPT !.m = "code"] ELSE [r EXCEPT !.toks = Append(@, r.cur), !.cur = << >>, !.m = "code"]
InLit(r) == r.m \in {"sq", "dq"}

LastInk(l) == LET I == { i \in DOMAIN l : l[i] # BL } IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : j <= i
FirstInk(l) == LET I == { i \in DOMAIN l : l[i] # BL } IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j

CodeChar(r0, c) ==
  LET r == IF r0.m \in {"sqe", "dqe"} THEN Flush(r0) ELSE r0 IN
  CASE c = BL   -> Flush(r)
    [] c = BANG -> [Flush(r) EXCEPT !.m = "com"]
    [] c = SQ   -> [Flush(r) EXCEPT !.m = "sq", !.cur = <<c>>]
    [] c = DQ   -> [Flush(r) EXCEPT !.m = "dq", !.cur = <<c>>]
    [] IsWord(c) -> IF r.cur # << >> /\ IsWord(Last(r.cur)) THEN [r EXCEPT !.cur = Append(@, c)]
                    ELSE [Flush(r) EXCEPT !.cur = <<c>>]
    [] OTHER    -> IF Append(r.cur, c) \in Pairs THEN [r EXCEPT !.cur = Append(@, c)]
                   ELSE [Flush(r) EXCEPT !.cur = <<c>>]

Char(l, last, r, i) ==
  LET c == l[i] IN
  CASE r.m = "com" -> IF c = BL \/ c = BANG THEN r ELSE [r EXCEPT !.com = Append(@, c)]
    [] r.m = "amp" -> IF c = BL THEN r ELSE IF c = BANG THEN [r EXCEPT !.m = "ampcom"]
                      ELSE [r EXCEPT !.err = @ \cup {"text after &"}]
    [] r.m = "ampcom" -> IF c = BL \/ c = BANG THEN r ELSE [r EXCEPT !.com = Append(@, c)]
    [] r.m = "sq"  -> IF c = AMP /\ i = last THEN [r EXCEPT !.cont = TRUE]
                      ELSE [r EXCEPT !.cur = Append(@, c), !.m = IF c = SQ THEN "sqe" ELSE "sq"]
    [] r.m = "dq"  -> IF c = AMP /\ i = last THEN [r EXCEPT !.cont = TRUE]
                      ELSE [r EXCEPT !.cur = Append(@, c), !.m = IF c = DQ THEN "dqe" ELSE "dq"]
    [] r.m = "sqe" /\ c = SQ -> [r EXCEPT !.cur = Append(@, c), !.m = "sq"]
    [] r.m = "dqe" /\ c = DQ -> [r EXCEPT !.cur = Append(@, c), !.m = "dq"]
    [] OTHER -> IF c = AMP THEN [r EXCEPT !.m = "amp", !.cont = TRUE] ELSE CodeChar(r, c)

(* a continuation inside a word or literal keeps cur; amp mode is left at the
   end of the line, where a pending literal quote is remembered in m *)
EndLine(r) ==
  IF r.m = "amp" \/ r.m = "ampcom" THEN [r EXCEPT !.m = IF r.cur # << >> /\ Head(r.cur) = SQ THEN "sqe"
                                                       ELSE IF r.cur # << >> /\ Head(r.cur) = DQ THEN "dqe" ELSE "code"]
  ELSE IF r.cont THEN (IF InLit(r) THEN r ELSE [r EXCEPT !.m = "code"])
  ELSE IF InLit(r) THEN [Flush(r) EXCEPT !.err = @ \cup {"open literal"}]
  ELSE Flush(r)

Line(r, l) ==
  LET f == FirstInk(l)  n == LastInk(l) IN
  IF f = 0 THEN r
  ELSE IF l[f] = BANG /\ ~InLit(r)
  THEN [r EXCEPT !.com = @ \o SelectSeq(SubSeq(l, f, n), LAMBDA c : c # BL /\ c # BANG)]   \* a comment line
  ELSE LET start == IF r.cont /\ l[f] = AMP THEN f + 1 ELSE f
           r1 == IF ~r.cont
                 THEN [(IF r.toks = << >> THEN r ELSE [r EXCEPT !.toks = Append(@, <<10>>)]) EXCEPT
                          !.err = @ \cup (IF l[f] = AMP THEN {"& at the start of a statement"} ELSE {})]
                 ELSE IF l[f] = AMP THEN r
                 ELSE IF InLit(r) THEN [r EXCEPT !.err = @ \cup {"literal continued without &"}]
                 ELSE Flush(r)
           r2 == [r1 EXCEPT !.cont = FALSE]
           r3 == IF f = n /\ l[f] = AMP THEN [r2 EXCEPT !.err = @ \cup {"line of a single &"}] ELSE r2
       IN EndLine(FoldLeft(LAMBDA a, i : Char(l, n, a, i), r3, [ i \in 1 .. n - start + 1 |-> start + i - 1 ]))

Read(lines) == LET r == FoldLeft(Line, Reader0, lines)
               IN [toks |-> r.toks, com |-> r.com, err |-> r.err \cup (IF r.cont THEN {"continued at the end"} ELSE {})]
SameMeaning(stmt, lines) == LET a == Read(<<stmt>>)  b == Read(lines) IN a.err = {} => b = a
=============================================================================
