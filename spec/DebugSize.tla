----------------------------- MODULE DebugSize -----------------------------
(* Size checks of caps generated with --debug (C27).  A behaviour draws host  *)
(* arrays (dimensions, activation, storage), schemes that use them and then a *)
(* history: the host reallocates arrays, changes the number the dimension N   *)
(* stands for, switches flags, narrows the columns, and calls the phases.  A  *)
(* call walks over the schemes of the suite; a scheme one of whose available  *)
(* arrays has another size than declared is not called, the call ends with an *)
(* error and the suite stays where it was.  In the run phase the host part    *)
(* hands over the declared section, so only arrays which contain it are       *)
(* allowed then.  Where a product of wrong extents is the right size (Amb),   *)
(* no promise is made and the phase is not called.                            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS LEN

VARIABLES stage, arr, entry, sv, todo, st, ext, nn, flag, cols, hist
vars == <<stage, arr, entry, sv, todo, st, ext, nn, flag, cols, hist>>

R(S) == IF S = {} THEN {} ELSE { RandomElement(S) }
NH == 4
NV == 3
Phases == {"init", "ts_init", "run", "ts_final", "final"}
Schemes == {1, 2, 3}
Shapes == { <<"H">>, <<"V">>, <<"N">>, <<"H", "V">>, <<"V", "H">>, <<"N", "H">>, <<"H", "N">>, <<"H", "V", "N">>, <<"N", "V">> }

Declared(k, n) == CASE k = "H" -> NH [] k = "V" -> NV [] k = "N" -> n
Decl(a, n) == [ i \in 1..Len(arr[a].d) |-> Declared(arr[a].d[i], n) ]
RECURSIVE Prod(_)
Prod(s) == IF s = << >> THEN 1 ELSE Head(s) * Prod(Tail(s))

----------------------------------------------------------------------------
Init == /\ stage = "arrays" /\ arr = << >> /\ entry = << >> /\ sv = 0 /\ todo = {}
        /\ st = "un" /\ ext = << >> /\ nn = 2 /\ flag = <<TRUE, TRUE>> /\ cols = <<1, NH>> /\ hist = << >>

AddArray ==
  /\ stage = "arrays" /\ Len(arr) < 6
  /\ \E d \in R(Shapes) : \E ty \in R({"real", "real", "integer", "logical", "character"}) : \E w \in R(1..6) : \E f \in R({1, 2}) : \E cv \in R({TRUE, FALSE}) :
       LET keep == CASE w = 1 -> "ddt" [] w = 2 -> "section" [] w = 3 -> "alloc" [] OTHER -> "module"
       IN arr' = Append(arr, [d |-> d, ty |-> ty, keep |-> keep, cv |-> cv /\ ty = "real" /\ keep # "alloc",
                              act |-> IF w \in {2, 5, 6} /\ ty # "character" THEN f ELSE 0])
  /\ ext' = Append(ext, [ i \in 1..Len(arr'[Len(arr')].d) |-> Declared(arr'[Len(arr')].d[i], nn) ])
  /\ UNCHANGED <<stage, entry, sv, todo, st, nn, flag, cols, hist>>
Tables ==
  /\ stage = "arrays" /\ Len(arr) = 6
  /\ \E f \in R([Schemes -> { P \in SUBSET Phases : Cardinality(P) \in 2..4 }]) : \E b \in R(0..1) :
       LET A == { <<s, p>> \in Schemes \X Phases : p \in f[s] }
       IN /\ entry' = [ x \in A |-> << >> ] /\ todo' = A /\ sv' = b
  /\ stage' = "args"
  /\ UNCHANGED <<arr, st, ext, nn, flag, cols, hist>>
Used(x) == { entry[x][i].a : i \in 1..Len(entry[x]) }
AddArg ==
  /\ stage = "args" /\ todo # {}
  /\ \E x \in R(todo) : \E a \in R(1..Len(arr) \ Used(x)) : \E i \in R(IF arr[a].keep = "alloc" /\ x[2] # "init" THEN {"in", "inout"} ELSE {"in", "inout", "out"}) : \E o \in R(1..4) : \E more \in R(1..5) :
       /\ entry' = [entry EXCEPT ![x] = Append(@, [a |-> a, int |-> i, opt |-> arr[a].act # 0 \/ (o = 1 /\ arr[a].keep # "alloc" /\ arr[a].ty # "character"),
                                                   cv |-> arr[a].cv /\ o > 2,
                                                   alloc |-> arr[a].keep = "alloc" /\ x[2] = "init" /\ i = "out"])]
       /\ todo' = IF more > 3 \/ Len(entry'[x]) = 4 THEN todo \ {x} ELSE todo
  /\ UNCHANGED <<stage, arr, sv, st, ext, nn, flag, cols, hist>>
Start == stage = "args" /\ todo = {} /\ stage' = "go" /\ UNCHANGED <<arr, entry, sv, todo, st, ext, nn, flag, cols, hist>>

----------------------------------------------------------------------------
Going == stage = "go" /\ Len(hist) < LEN
H(e) == hist' = Append(hist, e)
Cfg == <<stage, arr, entry, sv, todo>>
Resize == /\ Going /\ \E a \in R(1..Len(arr)) : \E k \in R(1..Len(arr[a].d)) : \E w \in R({-1, 0, 1}) :
               LET e == Declared(arr[a].d[k], nn) + w IN
               /\ e >= 0
               /\ ext' = [ext EXCEPT ![a] = [@ EXCEPT ![k] = e]]
               /\ H([op |-> "ext", a |-> a, e |-> ext'[a]])
          /\ UNCHANGED <<Cfg, st, nn, flag, cols>>
Fit == /\ Going /\ \E a \in R(1..Len(arr)) :
            /\ ext' = [ext EXCEPT ![a] = Decl(a, nn)]
            /\ H([op |-> "ext", a |-> a, e |-> ext'[a]])
       /\ UNCHANGED <<Cfg, st, nn, flag, cols>>
FitAll == /\ Going /\ ext' = [ a \in 1..Len(arr) |-> Decl(a, nn) ] /\ H([op |-> "all", e |-> ext'])
          /\ UNCHANGED <<Cfg, st, nn, flag, cols>>
SetN == /\ Going /\ \E n \in R(0..3) : nn' = n /\ H([op |-> "n", n |-> n])
        /\ UNCHANGED <<Cfg, st, ext, flag, cols>>
(* often with the arrays that depend on it *)
SetNFit == /\ Going /\ \E n \in R(0..3) : nn' = n /\ ext' = [ a \in 1..Len(arr) |-> [ i \in 1..Len(ext[a]) |-> IF arr[a].d[i] = "N" THEN n ELSE ext[a][i] ] ]
           /\ H([op |-> "nall", n |-> nn', e |-> ext'])
           /\ UNCHANGED <<Cfg, st, flag, cols>>
SetFlag == /\ Going /\ \E f \in R({1, 2}) : flag' = [flag EXCEPT ![f] = ~ @] /\ H([op |-> "flag", f |-> f, v |-> flag'[f]])
           /\ UNCHANGED <<Cfg, st, ext, nn, cols>>
SetCols == /\ Going /\ \E b \in R(1..NH) : \E e \in R(b - 1 .. NH) : cols' = <<b, e>> /\ H([op |-> "cols", b |-> b, e |-> e])
           /\ UNCHANGED <<Cfg, st, ext, nn, flag>>

Avail(a) == arr[a].act = 0 \/ flag[arr[a].act]
Legal(p) == CASE p = "init" -> st = "un" [] p = "ts_init" -> st = "in" [] p = "run" -> st = "ts" [] p = "ts_final" -> st = "ts" [] p = "final" -> st = "in"
After(p) == CASE p = "init" -> "in" [] p = "ts_init" -> "ts" [] p = "run" -> "ts" [] p = "ts_final" -> "in" [] p = "final" -> "un"
InPhase(p) == { x \in DOMAIN entry : x[2] = p }
Arrays(p) == UNION { Used(x) : x \in InPhase(p) }
Amb(a, e) == e[a] # Decl(a, nn) /\ Prod(e[a]) = Prod(Decl(a, nn))
Contains(a) == \A i \in 1..Len(ext[a]) : ext[a][i] >= Decl(a, nn)[i]
Size(a, p) == IF ~ Avail(a) THEN -1
              ELSE LET D == Decl(a, nn) IN
                   Prod([ i \in 1..Len(D) |-> IF p = "run" /\ arr[a].d[i] = "H" THEN cols[2] - cols[1] + 1 ELSE D[i] ])
Wrong(g, p, e) == p # "run" /\ Avail(g.a) /\ ~ g.alloc /\ Prod(e[g.a]) # Prod(Decl(g.a, nn))
(* the walk over the schemes: called schemes with the sizes they see, the extents afterwards, an error *)
RECURSIVE Walk(_, _, _)
Walk(s, p, w) ==
  IF s = 4 \/ w.err THEN w
  ELSE IF <<s, p>> \notin DOMAIN entry THEN Walk(s + 1, p, w)
  ELSE LET g == entry[<<s, p>>] IN
       IF \E i \in 1..Len(g) : Wrong(g[i], p, w.ext) THEN [w EXCEPT !.err = TRUE]
       ELSE Walk(s + 1, p, [w EXCEPT !.called = Append(@, [s |-> s, sizes |-> [ i \in 1..Len(g) |-> IF g[i].alloc THEN -2 ELSE Size(g[i].a, p) ]]),
                                     !.ext = [ a \in 1..Len(arr) |-> IF \E i \in 1..Len(g) : g[i].a = a /\ g[i].alloc THEN Decl(a, nn) ELSE @[a] ]])
Call(p) == /\ Going /\ Legal(p)
           /\ \A a \in Arrays(p) : IF p = "run" THEN Contains(a) ELSE ~ Amb(a, ext)
           /\ LET w == Walk(1, p, [called |-> << >>, ext |-> ext, err |-> FALSE]) IN
              /\ ext' = w.ext
              /\ st' = IF w.err THEN st ELSE After(p)
              /\ H([op |-> "call", p |-> p, called |-> w.called, err |-> w.err, ncol |-> cols[2] - cols[1] + 1])
           /\ UNCHANGED <<Cfg, nn, flag, cols>>
Next == AddArray \/ Tables \/ AddArg \/ Start \/ Resize \/ Fit \/ FitAll \/ SetN \/ SetNFit \/ SetFlag \/ SetCols
        \/ \E k \in 1..3 : \E p \in Phases : Call(p)

----------------------------------------------------------------------------
(* A call fails exactly if some scheme would get an array of another size *)
Detects ==
  [][ Len(hist') > Len(hist) /\ hist'[Len(hist')].op = "call" =>
        LET h == hist'[Len(hist')]
            p == h.p
            Fits(g, x) == \/ ~ Avail(g.a) \/ p = "run" \/ Prod(ext[g.a]) = Prod(Decl(g.a, nn)) \/ g.alloc
                          \/ \E y \in InPhase(p) : y[1] < x[1] /\ \E j \in 1..Len(entry[y]) : entry[y][j].a = g.a /\ entry[y][j].alloc
            Good == { x \in InPhase(p) : \A i \in 1..Len(entry[x]) : Fits(entry[x][i], x) }
        IN /\ h.err <=> Good # InPhase(p)
           /\ { h.called[i].s : i \in 1..Len(h.called) } = { x[1] : x \in { z \in Good : \A y \in InPhase(p) : y[1] < z[1] => y \in Good } }
           /\ h.err => st' = st /\ st # "gone" ]_vars
Emit == stage = "go" /\ Len(hist) = LEN =>
  PrintT("@@" \o ToJson([arr |-> arr, sv |-> sv, entry |-> { [s |-> x[1], p |-> x[2], args |-> entry[x]] : x \in DOMAIN entry }, hist |-> hist]))
=============================================================================
