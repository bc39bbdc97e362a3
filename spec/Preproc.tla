------------------------------- MODULE Preproc -------------------------------
(* Which lines of a source the preprocessor keeps (C13).  The program is drawn  *)
(* line by line while it is executed: stack holds the open conditionals, defs   *)
(* the macros ("none": defined without a value), kept the lines that reach the  *)
(* compiler.  The command line definitions hold at the start of every file.     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

VARIABLES cmd, defs, stack, lines, kept, err, file, stage, done
vars == <<cmd, defs, stack, lines, kept, err, file, stage, done>>

R(S) == IF S = {} THEN {} ELSE { RandomElement(S) }
Names == {"A", "BB", "CCPP", "WITH_X", "DEFINED_Y", "N2"}
None == -1                                     \* defined, but without a value
Vals == {0, 1, 2, 10, 201511}

(* ---- conditions ---- *)
RECURSIVE Eval(_, _)
Truth(c, d) == Eval(c, d) # 0
B(b) == IF b THEN 1 ELSE 0
Eval(c, d) ==
  CASE c.op = "int"  -> c.v
    [] c.op = "def"  -> B(c.n \in DOMAIN d)
    [] c.op = "name" -> IF c.n \in DOMAIN d THEN d[c.n] ELSE 0
    [] c.op = "not"  -> B(~Truth(c.a[1], d))
    [] c.op = "and"  -> B(\A i \in DOMAIN c.a : Truth(c.a[i], d))
    [] c.op = "or"   -> B(\E i \in DOMAIN c.a : Truth(c.a[i], d))
    [] c.op = "eq"   -> B(Eval(c.a[1], d) = Eval(c.a[2], d))
    [] c.op = "ne"   -> B(Eval(c.a[1], d) # Eval(c.a[2], d))
    [] c.op = "lt"   -> B(Eval(c.a[1], d) < Eval(c.a[2], d))
    [] c.op = "le"   -> B(Eval(c.a[1], d) <= Eval(c.a[2], d))
    [] c.op = "gt"   -> B(Eval(c.a[1], d) > Eval(c.a[2], d))
    [] c.op = "ge"   -> B(Eval(c.a[1], d) >= Eval(c.a[2], d))
Leaf(op, n, v) == [op |-> op, n |-> n, v |-> v, a |-> << >>]
Tree(op, a) == [op |-> op, n |-> "", v |-> 0, a |-> a]

(* numbers: literals and macros with a value; bare names may be undefined, but
   not defined without a value *)
Number(d) == LET V == { n \in DOMAIN d : d[n] # None } IN
             IF V = {} \/ RandomElement(1..3) = 1 THEN Leaf("int", "", RandomElement(Vals)) ELSE Leaf("name", RandomElement(V), 0)
Bare(d) == { n \in Names : n \notin DOMAIN d \/ d[n] # None }
RECURSIVE Cond(_, _)
Cond(depth, d) ==
  LET k == RandomElement(1..14) IN
  CASE k <= 4 \/ (depth = 0 /\ k > 9) -> Leaf("def", RandomElement(Names), 0)
    [] k = 5 -> Leaf("int", "", RandomElement({0, 1}))
    [] k = 6 -> IF Bare(d) = {} THEN Leaf("int", "", 1) ELSE Leaf("name", RandomElement(Bare(d)), 0)
    [] k \in 7..9 -> Tree(RandomElement({"eq", "ne", "lt", "le", "gt", "ge"}), << Number(d), Number(d) >>)
    [] k = 10 -> Tree("not", << Cond(depth - 1, d) >>)
    [] k = 11 -> Tree("and", << Cond(depth - 1, d), Cond(depth - 1, d) >>)
    [] k = 12 -> Tree("or", << Cond(depth - 1, d), Cond(depth - 1, d) >>)
    [] k = 13 -> Tree("and", << Cond(depth - 1, d), Cond(depth - 1, d), Cond(depth - 1, d) >>)
    [] k = 14 -> Tree("or", << Cond(depth - 1, d), Cond(depth - 1, d), Cond(depth - 1, d) >>)

(* ---- the machine ---- *)
Active == \A i \in DOMAIN stack : stack[i].on
Outer == \A i \in 1 .. Len(stack) - 1 : stack[i].on
Top == stack[Len(stack)]
Pop == SubSeq(stack, 1, Len(stack) - 1)
Put(l) == lines' = Append(lines, l)
Ln(k, n, c) == [k |-> k, n |-> n, c |-> c, v |-> 0]
NoC == Leaf("int", "", 1)

Init == /\ stage = "cmd" /\ cmd = << >> /\ defs = << >> /\ stack = << >> /\ lines = << >> /\ kept = << >> /\ err = "" /\ file = 1 /\ done = << >>
Cmd == /\ stage = "cmd"
       /\ \E S \in R(SUBSET Names) : \E z \in R(1..4) :
             LET T == IF z = 1 THEN {} ELSE S
                 f == [ n \in T |-> RandomElement(Vals \cup {1, None}) ] IN
             \E g \in {f} : cmd' = g /\ defs' = [ n \in T |-> IF g[n] = None THEN 1 ELSE g[n] ]
       /\ stage' = "go" /\ UNCHANGED <<stack, lines, kept, err, file, done>>

Push(l, on) == /\ stack' = Append(stack, [on |-> on, taken |-> on, els |-> FALSE]) /\ Put(l)
               /\ UNCHANGED <<defs, kept, err>>
Going == stage = "go" /\ err = "" /\ Len(lines) < 26
Text == /\ Going /\ LET n == Len(lines) + 1 IN Put(Ln("text", "", NoC)) /\ kept' = (IF Active THEN Append(kept, n) ELSE kept)
        /\ UNCHANGED <<defs, stack, err>>
Ifdef == /\ Going /\ \E n \in R(Names), neg \in R({TRUE, FALSE}) :
              LET on == Active /\ ((n \in DOMAIN defs) # neg)
              IN Push(Ln(IF neg THEN "ifndef" ELSE "ifdef", n, NoC), on)
(* in a region that is skipped conditions are not looked at *)
If == /\ Going /\ \E c \in {Cond(2, defs)} : \E junk \in R(1..4) :
            IF Active THEN Push(Ln("if", "", c), Truth(c, defs))
            ELSE Push(Ln(IF junk = 1 THEN "ifjunk" ELSE "if", "", c), FALSE)
Elif == /\ Going
        /\ \E c \in {Cond(2, defs)} : \E junk \in R(1..4) :
             LET look == stack # << >> /\ ~Top.els /\ Outer /\ ~Top.taken
                 l == Ln(IF ~look /\ junk = 1 /\ stack # << >> THEN "elifjunk" ELSE "elif", "", c)
             IN /\ Put(l)
                /\ IF stack = << >> \/ Top.els THEN err' = "elif" /\ stack' = stack
                   ELSE LET on == look /\ Truth(c, defs)
                        IN err' = err /\ stack' = Append(Pop, [on |-> on, taken |-> Top.taken \/ on, els |-> FALSE])
        /\ UNCHANGED <<defs, kept>>
Else == /\ Going
        /\ Put(Ln("else", "", NoC))
        /\ IF stack = << >> \/ Top.els THEN err' = "else" /\ stack' = stack
           ELSE err' = err /\ stack' = Append(Pop, [on |-> Outer /\ ~Top.taken, taken |-> TRUE, els |-> TRUE])
        /\ UNCHANGED <<defs, kept>>
Endif == /\ Going /\ Put(Ln("endif", "", NoC))
         /\ IF stack = << >> THEN err' = "endif" /\ stack' = stack ELSE err' = err /\ stack' = Pop
         /\ UNCHANGED <<defs, kept>>
Define == /\ Going /\ \E n \in R(Names), v \in R(Vals \cup {None}) :
               /\ Put([Ln("define", n, NoC) EXCEPT !.v = v])
               /\ defs' = IF Active THEN (n :> v) @@ defs ELSE defs
          /\ UNCHANGED <<stack, kept, err>>
Undef == /\ Going /\ \E n \in R(Names) :
               /\ Put(Ln("undef", n, NoC))
               /\ defs' = IF Active THEN [ m \in DOMAIN defs \ {n} |-> defs[m] ] ELSE defs
         /\ UNCHANGED <<stack, kept, err>>

(* one line; mistakes are rare *)
Line == /\ stage = "go" /\ err = ""
        /\ \E k \in R(1..40) :
             CASE k <= 12 -> Text
               [] k \in 13..16 -> Ifdef
               [] k \in 17..21 -> If
               [] k \in 22..25 -> (IF stack # << >> /\ ~Top.els THEN Elif ELSE Text)
               [] k \in 26..28 -> (IF stack # << >> /\ ~Top.els THEN Else ELSE Text)
               [] k \in 29..34 -> (IF stack # << >> THEN Endif ELSE Text)
               [] k \in 35..37 -> Define
               [] k = 38 -> Undef
               [] k = 39 -> (IF RandomElement(1..6) = 1 THEN Elif ELSE Text)
               [] k = 40 -> (IF RandomElement(1..6) = 1 THEN Else ELSE IF RandomElement(1..6) = 1 THEN Endif ELSE Define)
        /\ UNCHANGED <<cmd, file, stage, done>>
Close == /\ stage = "go" /\ Len(lines) >= 26 /\ err = ""       \* almost always the open conditionals are closed
         /\ \E z \in R(1..8) :
              IF stack = << >> \/ z = 1
              THEN /\ stage' = "end" /\ err' = (IF stack = << >> THEN "" ELSE "open") /\ UNCHANGED <<lines, stack>>
              ELSE /\ lines' = lines \o [ i \in DOMAIN stack |-> Ln("endif", "", NoC) ] /\ stack' = << >>
                   /\ stage' = "end" /\ err' = err
         /\ UNCHANGED <<cmd, defs, kept, file, done>>
Fail == stage = "go" /\ err # "" /\ stage' = "end" /\ UNCHANGED <<cmd, defs, stack, lines, kept, err, file, done>>
NextFile ==
  /\ stage = "end" /\ file <= 2
  /\ done' = Append(done, [lines |-> lines, kept |-> kept, err |-> err])
  /\ file' = file + 1
  /\ stage' = (IF file = 2 THEN "done" ELSE "go")
  /\ defs' = [ n \in DOMAIN cmd |-> IF cmd[n] = None THEN 1 ELSE cmd[n] ]
  /\ stack' = << >> /\ lines' = << >> /\ kept' = << >> /\ err' = "" /\ UNCHANGED cmd
Next == Cmd \/ Line \/ Close \/ Fail \/ NextFile

(* declarative definition: a line is kept iff every conditional around it has
   selected its branch; stated on the stack of the moment *)
Sane == /\ \A i \in DOMAIN stack : (stack[i].on => stack[i].taken) /\ (stack[i].on => \A j \in 1 .. i - 1 : stack[j].on)
        /\ \A i \in DOMAIN kept : lines[kept[i]].k = "text"
Emit == stage = "done" => PrintT("@@" \o ToJson([cmd |-> [ n \in Names |-> IF n \in DOMAIN cmd THEN cmd[n] ELSE -2 ], files |-> done]))
=============================================================================
