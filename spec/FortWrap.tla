------------------------------ MODULE FortWrap ------------------------------
(* The writer: a statement is split over lines at any place where Fortran     *)
(* permits it.  Checked exhaustively for all short statements over a small    *)
(* alphabet: whatever legal places are chosen, the reader of FortLine         *)
(* recovers the statement, so every writer that only uses these breaks is     *)
(* correct; and a statement can be broken anywhere (Breakable), so that no    *)
(* statement has to exceed a limit.                                           *)
EXTENDS FortLine, TLC
CONSTANTS MaxLen, Alphabet
VARIABLES stmt, pos, lead, out, ctx
vars == <<stmt, pos, lead, out, ctx>>

Init == stmt = << >> /\ pos = 0 /\ lead = << >> /\ out = << >> /\ ctx = "type"
Type == /\ ctx = "type" /\ Len(stmt) < MaxLen
        /\ \E c \in Alphabet : stmt' = Append(stmt, c) /\ UNCHANGED <<pos, lead, out, ctx>>
Legal == stmt # << >> /\ Read(<<stmt>>).err = {} /\ Head(stmt) # BL /\ Last(stmt) # BL
Start == /\ ctx = "type" /\ Legal /\ ctx' = "split" /\ UNCHANGED <<stmt, pos, lead, out>>

(* the reader's state after the first k characters of the statement *)
Mode(k) == FoldLeft(LAMBDA a, i : Char(stmt, 0, a, i), Reader0, [ i \in 1 .. k |-> i ])
Tail1(k) == SubSeq(stmt, k + 1, Len(stmt))
NextInk(k) == Tail1(k)[FirstInk(Tail1(k))]
InComment(k) == Mode(k).m = "com"
BeforeComment(k) == ~InLit(Mode(k)) /\ Mode(k).m # "com" /\ NextInk(k) = BANG
(* between two tokens: nothing is pending, or what follows starts a new token *)
BetweenTokens(k) ==
  LET r == Mode(k)  c == stmt[k + 1] IN
  /\ ~InLit(r) /\ r.m # "com" /\ ~BeforeComment(k)
  /\ \/ r.cur = << >>
     \/ r.m \in {"sqe", "dqe"} /\ c \notin {SQ, DQ}
     \/ r.m = "code" /\ r.cur # << >> /\ ~(IsWord(Last(r.cur)) /\ IsWord(c)) /\ Append(r.cur, c) \notin Pairs
Anywhere(k) == Mode(k).m # "com" /\ ~BeforeComment(k)
Breakable == ctx = "split" => \A k \in 1 .. Len(stmt) - 1 : InComment(k) \/ BeforeComment(k) \/ BetweenTokens(k) \/ Anywhere(k)

Cut ==
  /\ ctx = "split"
  /\ \E k \in pos + 1 .. Len(stmt) - 1 :
       LET text == lead \o SubSeq(stmt, pos + 1, k) IN
       /\ pos' = k
       /\ FirstInk(SubSeq(stmt, pos + 1, k)) > 0        \* no line consists of & only
       /\ \/ InComment(k) /\ out' = Append(out, text) /\ lead' = <<BANG>>
          \/ BeforeComment(k) /\ out' = Append(out, text) /\ lead' = << >>
          \/ BetweenTokens(k) /\ out' = Append(out, text \o <<AMP>>) /\ lead' = <<BL, BL>>
          \/ Anywhere(k) /\ out' = Append(out, text \o <<AMP>>) /\ lead' = <<AMP>>
  /\ UNCHANGED <<stmt, ctx>>
Next == Type \/ Start \/ Cut
Recovered == ctx = "split" => SameMeaning(stmt, Append(out, lead \o Tail1(pos)))
=============================================================================
