------------------------------ MODULE FileList ------------------------------
(* The files that a list of pathnames denotes (C25).  A behaviour draws a     *)
(* directory tree with files, directories and pathname files (.txt), and the  *)
(* list given on a command line, then works through the list entry by entry:  *)
(* a stack holds the pathname files being read.  Names are sequences of       *)
(* characters, so that wildcards, suffixes and the sorting mean what they     *)
(* mean in a file system.  Invariants: no file twice, the files are exactly   *)
(* those of the declarative definition, an error for every entry that names   *)
(* something which does not exist.                                            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

VARIABLES stage, sufs, tree, texts, args, stack, seen, list, errs
vars == <<stage, sufs, tree, texts, args, stack, seen, list, errs>>

R(S) == IF S = {} THEN {} ELSE { RandomElement(S) }
One(q) == q[RandomElement(1 .. Len(q))]

(* characters in the order of their codes *)
Order == << "*", "-", ".", "/", "0", "1", "2", "9", "?", "F", "M", "_", "a", "b", "c", "d", "e", "f", "i", "k", "l", "m", "n", "o", "p", "s", "t", "x", "~" >>
Rank == [ ch \in { Order[i] : i \in DOMAIN Order } |-> CHOOSE i \in DOMAIN Order : Order[i] = ch ]
RECURSIVE Less(_, _)
Less(p, q) == IF q = << >> THEN FALSE ELSE IF p = << >> THEN TRUE
              ELSE IF p[1] = q[1] THEN Less(Tail(p), Tail(q)) ELSE Rank[p[1]] < Rank[q[1]]

(* names *)
Meta == << <<"m","1",".","m","e","t","a">>, <<"m","2",".","m","e","t","a">>, <<"m","1","0",".","m","e","t","a">>, <<"M","1",".","m","e","t","a">>,
           <<"m",".","1",".","m","e","t","a">>, <<"m","-","1",".","m","e","t","a">>, <<"n","1",".","m","e","t","a">>, <<".","m",".","m","e","t","a">>,
           <<"m","1",".","m","e","t","a","~">>, <<"m","e","t","a">>, <<".","m","e","t","a">>, <<"m","1",".","t","x","t",".","m","e","t","a">> >>
Fort == << <<"m","1",".","F","9","0">>, <<"m","1",".","f","9","0">>, <<"m","2",".","F">>, <<"m","2",".","f">>, <<"n","1",".","F","9","0">>, <<"n","1",".","f">>,
           <<"m","1",".","F","9">>, <<"m","1","0",".","F","9","0">>, <<"m","1",".","F","9","0",".","o">>, <<".","m",".","F","9","0">> >>
Xml  == << <<"m","1",".","x","m","l">>, <<"m","2",".","x","m","l">>, <<"m","1","0",".","x","m","l">>, <<"M","1",".","x","m","l">>, <<"n","1",".","x","m","l">>,
           <<".","m",".","x","m","l">>, <<"m","1",".","x","m","l","~">>, <<"m","1",".","t","x","t",".","x","m","l">>, <<"x","m","l">>, <<"m","1",".","m","e","t","a">> >>
Text == << <<"l","1",".","t","x","t">>, <<"l","2",".","t","x","t">>, <<"l","1","0",".","t","x","t">>, <<"m","1",".","m","e","t","a",".","t","x","t">> >>
Txt == <<"t","x","t">>
Dirs == { << >>, << <<"a">> >>, << <<"b">> >>, << <<"a">>, <<"c">> >>, << <<"a",".","b">> >>, << <<"d",".","m","e","t","a">> >> }

RECURSIVE Cut(_, _)      \* position of the last dot, 0 if there is none
Cut(n, i) == IF i = 0 THEN 0 ELSE IF n[i] = "." THEN i ELSE Cut(n, i - 1)
Suffix(n) == LET i == Cut(n, Len(n))
             IN IF i <= 1 \/ \A j \in 1 .. i : n[j] = "." THEN << >> ELSE SubSeq(n, i + 1, Len(n))
(* wildcards: * and ? ; a leading dot is matched by a dot only *)
RECURSIVE Match(_, _)
Match(w, n) == IF w = << >> THEN n = << >>
               ELSE IF w[1] = "*" THEN Match(Tail(w), n) \/ (n # << >> /\ Match(w, Tail(n)))
               ELSE n # << >> /\ (w[1] = n[1] \/ w[1] = "?") /\ Match(Tail(w), Tail(n))
Matches(w, n) == (n[1] = "." => w[1] = ".") /\ Match(w, n)
Magic(w) == \E i \in DOMAIN w : w[i] \in {"*", "?"}
AnyMagic(p) == \E i \in DOMAIN p : Magic(p[i])

Init == /\ stage = "tree" /\ sufs = << >> /\ tree = << >> /\ texts = << >> /\ args = << >>
        /\ stack = << >> /\ seen = {} /\ list = << >> /\ errs = {}

(* draws *)
DrawKind == /\ stage = "tree" /\ sufs = << >>
            /\ \E k \in R(1..3) : sufs' = IF k = 1 THEN << <<"m","e","t","a">> >> ELSE IF k = 2 THEN << <<"x","m","l">> >>
                                          ELSE << <<"F","9","0">>, <<"f","9","0">>, <<"F">>, <<"f">> >>
            /\ UNCHANGED <<stage, tree, texts, args, stack, seen, list, errs>>
Pool == IF Len(sufs) > 1 THEN Fort ELSE IF sufs[1] = <<"x","m","l">> THEN Xml ELSE Meta
DrawDir ==
  /\ stage = "tree" /\ sufs # << >>
  /\ IF DOMAIN tree = Dirs THEN stage' = "texts" /\ UNCHANGED tree
     ELSE LET d == CHOOSE x \in Dirs \ DOMAIN tree : TRUE
          IN /\ \E z \in R(0..6), y \in R(0..2) :
                  LET pick == { Pool[RandomElement(DOMAIN Pool)] : i \in 1 .. z }
                      more == { Text[RandomElement(DOMAIN Text)] : i \in 1 .. y }
                      n == { Pool[RandomElement(DOMAIN Pool)], Pool[RandomElement(DOMAIN Pool)] }
                  IN tree' = (d :> (pick \cup more \cup n)) @@ tree
             /\ UNCHANGED stage
  /\ UNCHANGED <<sufs, texts, args, stack, seen, list, errs>>

Texts == { d \o <<n>> : d \in DOMAIN tree, n \in { Text[i] : i \in DOMAIN Text } } \cap { d \o <<n>> : <<d, n>> \in { <<d, n>> \in Dirs \X { Text[i] : i \in DOMAIN Text } : n \in tree[d] } }
IsFile(p) == p # << >> /\ Front(p) \in Dirs /\ Last(p) \in tree[Front(p)]

(* an entry: a target, spelled relative to <base> *)
Wild(n) == LET s == Suffix(n) ext == IF s = << >> THEN << >> ELSE <<".">> \o s
           IN One(<< <<"*">> \o ext, <<n[1], "*">> \o ext, <<"?">> \o Tail(n), << "*", "1">> \o ext, <<n[1], "?">> \o ext, n >>)
RECURSIVE Common(_, _)
Common(p, q) == IF p = << >> \/ q = << >> THEN 0 ELSE IF p[1] # q[1] THEN 0 ELSE 1 + Common(Tail(p), Tail(q))
Up(n) == [ i \in 1 .. n |-> <<".", ".">> ]
Relative(base, p) == LET c == Common(base, Front(p)) IN Up(Len(base) - c) \o SubSeq(p, c + 1, Len(p))
Spell(base, p, how) ==
  LET rel == Relative(base, p)
  IN CASE how = 1 -> [abs |-> FALSE, path |-> <<<<".">>>> \o rel]
       [] how = 2 -> [abs |-> TRUE, path |-> p]
       [] how = 3 -> [abs |-> TRUE, path |-> << <<"a">>, <<".", ".">> >> \o p]
       [] how = 4 -> [abs |-> FALSE, path |-> Up(Len(base)) \o << <<"b">>, <<".", ".">> >> \o p]
       [] OTHER -> [abs |-> FALSE, path |-> rel]
DrawEntry(base) ==
  LET d == RandomElement(Dirs)
      k == RandomElement(1..12)
      files == { n \in tree[d] : Suffix(n) # Txt }
      lists == Texts
      target ==
        IF k <= 4 /\ files # {} THEN d \o << RandomElement(files) >>
        ELSE IF k = 5 /\ d # << >> THEN d
        ELSE IF k \in {6, 7, 8} /\ lists # {} THEN RandomElement(lists)
        ELSE IF k = 9 THEN d \o << One(Pool) >>                        \* perhaps missing
        ELSE IF k = 10 THEN d \o << Wild(One(Pool)) >>
        ELSE IF k = 11 /\ \E n \in tree[d] : Suffix(n) = Txt THEN d \o << Wild(CHOOSE n \in tree[d] : Suffix(n) = Txt) >>
        ELSE IF k = 12 THEN << One(<< <<"*">>, <<"?">>, <<"a","*">>, <<"*","*">> >>), One(<<Wild(One(Pool)), One(Pool)>>) >>
        ELSE d \o << Wild(One(Pool)) >>
      e == Spell(base, target, RandomElement(1..7))
  IN [dir |-> target \in Dirs, slash |-> target \in Dirs /\ RandomElement(1..2) = 1] @@ e
(* missing names are rare, so that most behaviours come to a list *)
Denotes(base, e) == e.dir \/ AnyMagic(e.path) \/ Suffix(Last(e.path)) \notin ({ sufs[i] : i \in DOMAIN sufs } \cup {Txt})
RECURSIVE Resolve(_, _)
Resolve(at, p) == IF p = << >> THEN at
                  ELSE IF p[1] = <<".">> THEN Resolve(at, Tail(p))
                  ELSE IF p[1] = <<".", ".">> THEN Resolve(Front(at), Tail(p))
                  ELSE Resolve(Append(at, p[1]), Tail(p))
Where(base, e) == Resolve(IF e.abs THEN << >> ELSE base, e.path)
(* the directories that match the components but the last *)
Walk(S, w) == { d \in Dirs : d # << >> /\ Front(d) \in S /\ Matches(w, Last(d)) }
RECURSIVE InDirs(_, _)
InDirs(S, p) == IF Len(p) <= 1 THEN S ELSE InDirs(Walk(S, p[1]), Tail(p))
Found(p) == { d \o <<n>> : <<d, n>> \in { <<d, n>> \in InDirs({<< >>}, p) \X UNION { tree[x] : x \in Dirs } : n \in tree[d] /\ Matches(Last(p), n) } }
(* entries that cannot be decided: a wildcard without suffix, or one which matches a directory;  *)
(* pathname files by a wildcard that matches nothing                           *)
Fair(p) == /\ Magic(Last(p)) => Suffix(Last(p)) # << >> /\ ~ Magic(Suffix(Last(p))) /\ Walk(InDirs({<< >>}, p), Last(p)) = {}
           /\ AnyMagic(p) /\ Suffix(Last(p)) = Txt => Found(p) # {}
Ok(base, e) == e.dir \/ (Fair(Where(base, e)) /\ (Denotes(base, e) \/ IsFile(Where(base, e)) \/ RandomElement(1..12) = 1))
Entries(base, n) == SelectSeq([ i \in 1 .. n |-> DrawEntry(base) ], LAMBDA e : Ok(base, e))
Line(e) == [k |-> "path", e |-> e, sp |-> RandomElement(0..5)]
Noise == [k |-> One(<<"blank", "hash", "bang", "space", "hashpath", "bangpath">>), sp |-> RandomElement(0..3)]
Lines(q) == FlattenSeq([ i \in DOMAIN q |-> IF RandomElement(1..4) = 1 THEN << Noise, Line(q[i]) >> ELSE << Line(q[i]) >> ])
DrawText ==
  /\ stage = "texts"
  /\ IF Texts \subseteq DOMAIN texts THEN stage' = "args" /\ UNCHANGED texts
     ELSE LET t == CHOOSE x \in Texts \ DOMAIN texts : TRUE
          IN /\ \E z \in R(0..3) : \E q \in {Entries(Front(t), z)} : texts' = (t :> Lines(q)) @@ texts
             /\ UNCHANGED stage
  /\ UNCHANGED <<sufs, tree, args, stack, seen, list, errs>>
Bases == { << >>, << <<"a">> >>, << <<"a">>, <<"c">> >> }
DrawArgs ==
  /\ stage = "args"
  /\ \E z \in R(1..5), b \in R(Bases), how \in R(1..4), sp \in R(0..3) :
       \E q \in {Entries(b, z)} :
         /\ args' = [base |-> b, how |-> how, sp |-> sp, e |-> q]
         /\ stack' = << [base |-> b, rest |-> q] >>
  /\ stage' = "read"
  /\ UNCHANGED <<sufs, tree, texts, seen, list, errs>>

----------------------------------------------------------------------------
(* the meaning of one entry *)
Sorted(S) == LET flat(p) == FlattenSeq([ i \in DOMAIN p |-> <<"/">> \o p[i] ])
             IN SetToSortSeq(S, LAMBDA p, q : Less(flat(p), flat(q)))
Contents(d) == FlattenSeq([ i \in DOMAIN sufs |-> Sorted({ d \o <<n>> : n \in { x \in tree[d] : Matches(<<"*", ".">> \o sufs[i], x) } }) ])
Wanted(p) == \E i \in DOMAIN sufs : Suffix(Last(p)) = sufs[i]

RECURSIVE AddAll(_, _)
AddAll(q, new) == IF new = << >> THEN q
                  ELSE AddAll(IF \E i \in DOMAIN q : q[i] = new[1] THEN q ELSE Append(q, new[1]), Tail(new))
Paths(t) == LET ls == SelectSeq(texts[t], LAMBDA l : l.k = "path") IN [ i \in DOMAIN ls |-> ls[i].e ]

Pop == /\ stage = "read" /\ stack # << >> /\ Last(stack).rest = << >>
       /\ stack' = Front(stack)
       /\ UNCHANGED <<stage, sufs, tree, texts, args, seen, list, errs>>
ReadEntry ==
  /\ stage = "read" /\ stack # << >> /\ Last(stack).rest # << >>
  /\ LET f == Last(stack)
         e == f.rest[1]
         p == Where(f.base, e)
         below == Append(Front(stack), [f EXCEPT !.rest = Tail(f.rest)])
         isdir == p \in Dirs
         new == IF isdir THEN Contents(p) ELSE IF Wanted(p) THEN Sorted(Found(p)) ELSE << >>
         tx == IF ~ isdir /\ Suffix(Last(p)) = Txt THEN Sorted(Found(p)) ELSE << >>
     IN /\ list' = AddAll(list, new)
        /\ errs' = IF ~ isdir /\ ~ AnyMagic(p) /\ Found(p) = {} /\ (Wanted(p) \/ Suffix(Last(p)) = Txt)
                   THEN errs \cup {p} ELSE errs
        \* several pathname files (of a wildcard) are read one after the other
        /\ stack' = IF tx = << >> THEN below
                    ELSE IF Len(tx) = 1
                         THEN IF tx[1] \in seen THEN below ELSE Append(below, [base |-> Front(tx[1]), rest |-> Paths(tx[1])])
                         ELSE Append(Front(stack), [f EXCEPT !.rest = [ i \in DOMAIN tx |-> [abs |-> TRUE, path |-> tx[i], dir |-> FALSE, slash |-> FALSE] ] \o Tail(f.rest)])
        /\ seen' = IF Len(tx) = 1 THEN seen \cup {tx[1]} ELSE seen
  /\ UNCHANGED <<stage, sufs, tree, texts, args>>
Finish == /\ stage = "read" /\ stack = << >> /\ stage' = "done"
          /\ UNCHANGED <<sufs, tree, texts, args, stack, seen, list, errs>>
Next == DrawKind \/ DrawDir \/ DrawText \/ DrawArgs \/ Pop \/ ReadEntry \/ Finish

----------------------------------------------------------------------------
(* declarative definition: entries reachable through pathname files *)
All(base, q) == { <<base, q[i]>> : i \in DOMAIN q }
TextsOf(E) == UNION { IF Where(x[1], x[2]) \notin Dirs /\ Suffix(Last(Where(x[1], x[2]))) = Txt THEN Found(Where(x[1], x[2])) ELSE {} : x \in E }
RECURSIVE Reach(_)
Reach(E) == LET N == E \cup UNION { All(Front(t), Paths(t)) : t \in TextsOf(E) } IN IF N = E THEN E ELSE Reach(N)
Denoted(E) == UNION { LET p == Where(x[1], x[2]) IN
                      IF p \in Dirs THEN { d \in { p \o <<n>> : n \in tree[p] } : Wanted(d) /\ Last(d)[1] # "." }
                      ELSE IF Wanted(p) THEN Found(p) ELSE {} : x \in E }
Missing(E) == { p \in { Where(x[1], x[2]) : x \in E } : p \notin Dirs /\ ~ AnyMagic(p) /\ (Wanted(p) \/ Suffix(Last(p)) = Txt) /\ ~ IsFile(p) }
Declared == stage = "done" =>
  LET E == Reach(All(args.base, args.e)) IN /\ { list[i] : i \in DOMAIN list } = Denoted(E)
                                            /\ errs = Missing(E)
                                            /\ seen = TextsOf(E)
NoDup == \A i, j \in DOMAIN list : i # j => list[i] # list[j]
Emit == stage = "done" => PrintT("@@" \o ToJson([sufs |-> sufs, dirs |-> Dirs, tree |-> { [d |-> d, n |-> tree[d]] : d \in Dirs },
          texts |-> { [t |-> t, l |-> texts[t]] : t \in DOMAIN texts }, args |-> args, list |-> list, errs |-> errs]))
============================================================================
