-------------------------------- MODULE Det ---------------------------------
(* Plans of generations of one project in different environments (C09).       *)
(* The first run of a plan is the reference.  An environment is everything    *)
(* that surrounds a generation and is not an input.  The order in which       *)
(* files are given is an input for the bytes, not for the meaning.            *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS RUNS, NH, NS, NU, TOOL
VARIABLES plan
vars == <<plan>>
Env == [ hash : 0..4,       \* hash seed
         dir  : 0..2,       \* how the system lists directories
         cwd  : 0..2,       \* working directory: the project's, below it, elsewhere
         path : 0..2,       \* inputs named relative, absolute, with detours
         out  : 0..3,       \* output directory: name, deep, relative, existing
         place: 0..1,       \* where the project lies
         hist : 0..3,       \* before, in the same process: nothing, the same, another project, a failure
         loc  : 0..1,       \* locale
         via  : 0..2 ]      \* files listed directly, in a text file, mixed
Ref == [hash |-> 0, dir |-> 0, cwd |-> 0, path |-> 0, out |-> 0, place |-> 0, hist |-> 0, loc |-> 0, via |-> 0]
Fields == DOMAIN Ref
Top == [hash |-> 4, dir |-> 2, cwd |-> 2, path |-> 2, out |-> 3, place |-> 1, hist |-> 3, loc |-> 1, via |-> 2]
Max(f) == IF TOOL = "capgen" THEN Top[f]
          ELSE CASE f \in {"cwd", "via", "hist"} -> 0 [] f = "path" -> 1 [] OTHER -> Top[f]
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
(* the k-th permutation of s *)
RECURSIVE Nth(_, _)
Drop(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Nth(s, k) == IF s = << >> THEN << >>
             ELSE LET f == Fact(Len(s) - 1) i == ((k \div f) % Len(s)) + 1 IN << s[i] >> \o Nth(Drop(s, i), k % f)
Id(n) == [i \in 1..n |-> i]
Ords == [h : 0..(Fact(NH) - 1), s : 0..(Fact(NS) - 1), u : 0..(Fact(NU) - 1)]
Order(o) == [h |-> Nth(Id(NH), o.h), s |-> Nth(Id(NS), o.s), u |-> Nth(Id(NU), o.u)]
R(S) == { RandomElement(S) }
Init == plan = << [env |-> Ref, ord |-> Order([h |-> 0, s |-> 0, u |-> 0])] >>
(* one or two things of the environment differ, or all may; the order is that *)
(* of the reference, that of the run before, or a new one                     *)
Vary(how, f, g) == IF how = 0 THEN [x \in Fields |-> RandomElement(0..Max(x))]
                   ELSE [Ref EXCEPT ![f] = RandomElement(0..Max(f)), ![g] = RandomElement(0..Max(g))]
Next == /\ Len(plan) < RUNS
        /\ \E how \in R(0..2), f \in R(Fields), g \in R(Fields), k \in R(0..5) :
           \E e \in { Vary(how, f, g) } :
           \E o \in { CASE k \in 0..2 -> plan[1].ord
                        [] k = 3     -> plan[Len(plan)].ord
                        [] k = 4     -> Order([h |-> RandomElement(0..(Fact(NH) - 1)), s |-> 0, u |-> 0])
                        [] OTHER     -> Order([h |-> RandomElement(0..(Fact(NH) - 1)), s |-> RandomElement(0..(Fact(NS) - 1)),
                                               u |-> RandomElement(0..(Fact(NU) - 1))]) } :
             plan' = Append(plan, [env |-> e, ord |-> o])
Emit == Len(plan) = RUNS => PrintT("@@" \o ToJson(plan))
=============================================================================
