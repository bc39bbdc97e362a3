------------------------------- MODULE FortDecl -------------------------------
(* Fortran sources against their metadata (C12).  A behaviour draws a module    *)
(* (scheme routines, or a host module with derived types) as statements, lays    *)
(* the statements out in free form, reads the layout back statement by statement *)
(* (Read) and compares what was read with metadata tables that may deviate        *)
(* (Compare).  Invariants: the reader recovers what was declared, whatever the     *)
(* layout; the verdict is the declarative one.                                      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

VARIABLES mode, decl, meta, items, cur, r, cmp, stage
vars == <<mode, decl, meta, items, cur, r, cmp, stage>>

(* ------------------------------------------------------------ drawing *)
(* All draws are functions of a seed, so that an expression may be evaluated any number of times. *)
Mix(s, k) == LET a == (((s * 31) % 46337) + (k * 7919) + 101) % 46337
                 b == (a * a + 3 * a + k) % 46337
             IN (b * 211 + a) % 46337
Sel(s, k, q) == q[1 + (Mix(s, k) % Len(q))]
One(s, k, n) == Mix(s, k) % n = 0
Num(s, k, lo, hi) == lo + (Mix(s, k) % (hi - lo + 1))
The(S) == CHOOSE z \in S : TRUE                 \* The({ f(x) : x \in {e} }) evaluates e once
Range(q) == { q[i] : i \in DOMAIN q }
RECURSIVE Flat(_)
Flat(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Flat(Tail(ss))
Drop(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Ins(q, i, x) == SubSeq(q, 1, i - 1) \o << x >> \o SubSeq(q, i, Len(q))
RECURSIVE Perm(_, _)
Perm(s, q) == IF q = << >> THEN << >>
              ELSE The({ << q[i] >> \o Perm(Mix(s, 7), Drop(q, i)) : i \in {Num(s, 5, 1, Len(q))} })
RECURSIVE Join(_, _)
Join(ss, sep) == IF Len(ss) = 0 THEN << >> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(Tail(ss), sep)
RECURSIVE Select(_, _)
Select(q, S) == IF q = << >> THEN << >> ELSE (IF Head(q) \in S THEN << Head(q) >> ELSE << >>) \o Select(Tail(q), S)

(* ------------------------------------------------------------ what is declared *)
Names == << "temp", "n", "len_x", "real_v", "type_of", "end_date", "use_flag", "contains_ice", "intent_n",
            "kind1", "x", "optional_q", "module_id", "dimension_1", "character_set", "do_it", "q2" >>
Spare == "other_name"
Kinds(t, m) == CASE t = "integer" -> << "", "i8" >>
              [] t = "real" -> << "kind_phys", "kind_phys", "r4", "" >>
              [] t = "logical" -> << "", "l1" >>
              [] t = "complex" -> << "", "r4" >>
              [] t = "character" -> IF m = "scheme" THEN << "len=*", "len=16", "len=512" >> ELSE << "len=16", "len=512" >>
              [] OTHER -> << "" >>
Types == << "integer", "real", "real", "real", "logical", "character", "ty_t", "double precision", "complex", "integer" >>
Intents == << "in", "out", "inout" >>
Deferred(rk) == [ i \in 1..rk |-> << ":" >> ]
Shape(s, rk) == [ i \in 1..rk |-> Sel(s, i, << << ":" >>, << ":" >>, << "0", ":" >>, << "np", ":" >> >>) ]
Explicit(s, rk, last, hasn) == [ i \in 1..rk |->
     IF last /\ i = rk THEN << "*" >>
     ELSE Sel(s, i, << << "3" >>, << "np" >>, << "0", ":", "3" >>, << "1", ":", "np" >>, << "1", ":", "3" >> >>
                    \o (IF hasn THEN << << "n" >>, << "n" >>, << "1", ":", "n" >>, << "0", ":", "n" >> >> ELSE << >>)) ]
(* scheme arguments; "n" is always an integer scalar so that it can be an extent *)
DrawArg(s, nm, elem, hasn) ==
  IF nm = "n" THEN [n |-> nm, t |-> "integer", k |-> "", it |-> "in", rk |-> 0, op |-> FALSE, at |-> "", dm |-> << >>, ini |-> << >>]
  ELSE LET t == Sel(s, 1, Types)
           it == Sel(s, 2, Intents)
           rk == IF elem THEN 0 ELSE Sel(s, 3, << 0, 1, 1, 2, 2, 3 >>)
           a0 == IF elem THEN "" ELSE Sel(s, 4, << "", "", "", "target", "pointer", "allocatable", "contiguous" >>)
           at == IF a0 = "contiguous" /\ rk = 0 THEN "" ELSE a0
           dm == IF at \in {"pointer", "allocatable"} THEN Deferred(rk)
                 ELSE IF at = "contiguous" \/ One(s, 5, 2) THEN Shape(Mix(s, 6), rk)
                 ELSE Explicit(Mix(s, 6), rk, One(s, 7, 5) /\ ~(it = "out" /\ t = "ty_t"), hasn)
       IN [n |-> nm, t |-> t, k |-> Sel(s, 8, Kinds(t, "scheme")), it |-> it, rk |-> rk, op |-> One(s, 9, 4), at |-> at, dm |-> dm, ini |-> << >>]
(* module variables and components *)
Lit(s, t) == CASE t = "integer" -> "3" [] t \in {"real", "double precision"} -> "1.5" [] t = "logical" -> ".true."
            [] t = "character" -> Sel(s, 1, << "'a, b'", "\"c = (\"", "'it''s'", "'x ! y'", "'a; b'", "'::'", "'['" >>)
            [] OTHER -> "0"
Ini(s, t, at, dm) ==
  IF at = "pointer" THEN << "=>", "null", "(", ")" >>
  ELSE IF t = "complex" THEN << "=", "(", "1.0", ",", "2.0", ")" >>
  ELSE IF dm = << << "3" >> >> /\ t # "character" /\ One(s, 2, 2)
       THEN LET l == Lit(s, t) IN
            << "=" >> \o (IF One(s, 3, 2) THEN << "[", l, ",", l, ",", l, "]" >> ELSE << "(/", l, ",", l, ",", l, "/)" >>)
  ELSE IF t = "logical" /\ One(s, 4, 2) THEN << "=", "3", "==", "np" >>
  ELSE IF t = "integer" /\ One(s, 5, 2) THEN << "=", "np", "+", "min", "(", "1", ",", "2", ")" >>
  ELSE << "=", Lit(s, t) >>
DrawMem(s, nm, kind) ==
  LET t == Sel(s, 1, Types)
      rk == Sel(s, 2, << 0, 0, 1, 1, 2, 3 >>)
      a0 == Sel(s, 3, IF kind = "ddt" THEN << "", "", "", "allocatable", "pointer", "public" >>
                      ELSE << "", "", "target", "save", "public", "protected", "allocatable", "pointer", "parameter" >>)
      at == IF a0 = "parameter" /\ t = "ty_t" THEN "" ELSE a0
      dm == IF at \in {"pointer", "allocatable"} THEN Deferred(rk) ELSE Explicit(Mix(s, 4), rk, FALSE, FALSE)
      ini == at = "parameter" \/ (at # "allocatable" /\ (t # "ty_t" \/ at = "pointer") /\ One(s, 5, 2))
  IN [n |-> nm, t |-> t, k |-> Sel(s, 6, Kinds(t, "host")), it |-> "", rk |-> rk, op |-> FALSE, at |-> at, dm |-> dm,
      ini |-> IF ini THEN Ini(Mix(s, 7), t, at, dm) ELSE << >>]
Prefixes == << << >>, << >>, << >>, << >>, << "pure" >>, << "recursive" >>, << "elemental" >>, << "impure", "elemental" >>,
               << "recursive", "pure" >>, << "pure", "recursive" >>, << "pure", "elemental" >> >>
DrawRoutine(s, nm) ==
  LET pf == Sel(s, 1, Prefixes)
      elem == "elemental" \in Range(pf)
      ns0 == SubSeq(Perm(Mix(s, 2), Names), 1, Num(s, 3, 0, 6))
      ns == IF "n" \in Range(ns0) \/ One(s, 4, 2) THEN ns0 ELSE IF One(s, 5, 2) THEN << "n" >> \o ns0 ELSE Append(ns0, "n")
      ns2 == IF elem /\ ns = << >> THEN << "x" >> ELSE ns
  IN [kind |-> "scheme", n |-> nm, pf |-> pf, pure |-> "pure" \in Range(pf) \/ (elem /\ "impure" \notin Range(pf)),
      v |-> [ i \in DOMAIN ns2 |-> DrawArg(Mix(s, 10 + i), ns2[i], elem, "n" \in Range(ns2)) ]]
DrawHolder(s, nm, kind) ==
  LET ns == Select(SubSeq(Perm(Mix(s, 2), Names), 1, Num(s, 3, 2, 6)), Range(Names) \ {"n"})
  IN [kind |-> kind, n |-> nm, pf |-> << >>, pure |-> FALSE, v |-> [ i \in DOMAIN ns |-> DrawMem(Mix(s, 10 + i), ns[i], kind) ]]
DrawDecl(s, m) ==
  IF m = "scheme"
  THEN LET k == Num(s, 1, 1, 2) IN [ i \in 1..k |-> DrawRoutine(Mix(s, 2 + i), IF i = 1 THEN "sch_run" ELSE "sch_init") ]
  ELSE LET k == Num(s, 1, 0, 2)
           T == [ i \in 1..k |-> DrawHolder(Mix(s, 2 + i), IF i = 1 THEN "box_t" ELSE "tile_type", "ddt") ]
           M == << DrawHolder(Mix(s, 6), "hostmod", "module") >>
       IN IF One(s, 8, 3) THEN M \o T ELSE T \o M

(* ------------------------------------------------------------ metadata (with deviations) *)
Plain(v) == [n |-> v.n, t |-> v.t, k |-> v.k, it |-> v.it, rk |-> v.rk, op |-> v.op, sec |-> 0]
Devs == << "drop", "droplast", "add", "swap", "type", "kind", "rank", "intent", "opt", "name", "case" >>
New(m) == [n |-> Spare, t |-> "integer", k |-> "", it |-> IF m = "scheme" THEN "in" ELSE "", rk |-> 0, op |-> FALSE, sec |-> 0]
Mutate(s, vs, what, m) ==
  IF what = "add" THEN Ins(vs, Num(s, 1, 1, Len(vs) + 1), New(m))
  ELSE IF vs = << >> THEN vs
  ELSE LET i == Num(s, 2, 1, Len(vs))
           j == Num(s, 3, 1, Len(vs))
       IN
  CASE what = "drop" -> Drop(vs, i)
    [] what = "droplast" -> SubSeq(vs, 1, Len(vs) - 1)
    [] what = "swap" -> [ vs EXCEPT ![i] = vs[j], ![j] = vs[i] ]
    [] what = "type" -> LET t == Sel(s, 4, Types) IN [ vs EXCEPT ![i].t = t, ![i].k = IF t = "character" THEN "len=16" ELSE "" ]
    [] what = "kind" -> [ vs EXCEPT ![i].k = Sel(s, 5, Kinds(vs[i].t, m)) ]
    [] what = "rank" -> [ vs EXCEPT ![i].rk = IF @ = 0 \/ (@ < 3 /\ One(s, 6, 2)) THEN @ + 1 ELSE @ - 1 ]
    [] what = "intent" -> [ vs EXCEPT ![i].it = IF m = "scheme" THEN Sel(s, 7, Intents) ELSE "" ]
    [] what = "opt" -> [ vs EXCEPT ![i].op = IF m = "scheme" THEN ~@ ELSE FALSE ]
    [] what = "name" -> [ vs EXCEPT ![i].n = Spare ]
    [] OTHER -> vs
MetaVars(s, f, k, m) ==          \* the variables of table f, with k deviations
  LET v0 == [ j \in DOMAIN f.v |-> Plain(f.v[j]) ]
      v1 == IF m = "host" THEN LET p == Perm(Mix(s, 1), v0) IN IF Len(p) > 1 /\ One(s, 2, 2) THEN Tail(p) ELSE p ELSE v0
      v2 == IF k >= 1 THEN Mutate(Mix(s, 3), v1, Sel(s, 4, Devs), m) ELSE v1
  IN IF k >= 2 THEN Mutate(Mix(s, 5), v2, Sel(s, 6, Devs), m) ELSE v2
(* module variables may also be described section by section: q and q(:,1) *)
Section(s, vs, kind) ==
  IF kind # "module" THEN vs
  ELSE Flat([ j \in DOMAIN vs |-> IF vs[j].rk > 0 /\ vs[j].n # Spare /\ One(s, j, 3)
                                  THEN IF One(s, 20 + j, 2) THEN << [ vs[j] EXCEPT !.sec = 1 ], vs[j] >> ELSE << vs[j], [ vs[j] EXCEPT !.sec = 1 ] >>
                                  ELSE << vs[j] >> ])
DrawMeta(s, F, m) ==
  LET w == Num(s, 1, 1, Len(F))
      k == Sel(s, 2, << 0, 0, 0, 1, 1, 1, 1, 2 >>)
      M == [ i \in DOMAIN F |-> [kind |-> F[i].kind, n |-> F[i].n, c |-> Sel(s, 10 + i, << 0, 0, 0, 0, 1, 2 >>),
                                 v |-> Section(Mix(s, 30 + i), MetaVars(Mix(s, 20 + i), F[i], IF i = w THEN k ELSE 0, m), F[i].kind)] ]
  IN IF One(s, 3, 40) THEN Drop(M, w)
     ELSE IF One(s, 4, 40) THEN [ M EXCEPT ![w].n = IF m = "scheme" THEN "sch_finalize" ELSE "nobody" ]
     ELSE M

(* ------------------------------------------------------------ statements *)
St(toks) == [t |-> toks, m |-> ""]
Mark(nm) == [t |-> << >>, m |-> nm]
Paren(x) == << "(" >> \o x \o << ")" >>
DimToks(dm) == Paren(Join(dm, << "," >>))
TypeToks(s, v, plain) ==
  CASE v.t = "double precision" -> << "double", "precision" >>
    [] v.t = "ty_t" -> << IF plain \/ v.it = "" THEN "type" ELSE Sel(s, 1, << "type", "type", "class" >>) >> \o Paren(<< "ty_t" >>)
    [] v.t = "character" ->
         LET l == CASE v.k = "len=*" -> "*" [] v.k = "len=16" -> "16" [] OTHER -> "512"
         IN << "character" >> \o (IF One(s, 2, 4) THEN Paren(<< l >>) ELSE Paren(<< "len", "=", l >>))
    [] v.k = "" -> << v.t >>
    [] OTHER -> << v.t >> \o Paren(IF One(s, 3, 2) THEN << v.k >> ELSE << "kind", "=", v.k >>)
IntentToks(s, i) == << "intent" >> \o Paren(IF i = "inout" THEN Sel(s, 1, << << "inout" >>, << "inout" >>, << "in", "out" >> >>) ELSE << i >>)
Ent(s, v, dattr) == << v.n >> \o (IF v.rk = 0 \/ (dattr = v.dm /\ One(s, 1, 2)) THEN << >> ELSE DimToks(v.dm)) \o v.ini
Same(a, b) == a.t = b.t /\ a.k = b.k /\ a.it = b.it /\ a.op = b.op /\ a.at = b.at
(* one declaration for the variables vs, which have the same type and attributes *)
DeclStmt(s, vs, plain) ==
  LET dattr == IF (\A i \in DOMAIN vs : vs[i].rk > 0) /\ One(s, 1, 2) THEN vs[1].dm ELSE << >>
      as == (IF vs[1].it = "" THEN << >> ELSE << IntentToks(Mix(s, 2), vs[1].it) >>)
            \o (IF vs[1].op THEN << << "optional" >> >> ELSE << >>)
            \o (IF vs[1].at = "" THEN << >> ELSE << << vs[1].at >> >>)
            \o (IF dattr = << >> THEN << >> ELSE << << "dimension" >> \o DimToks(dattr) >>)
      ini == \E i \in DOMAIN vs : vs[i].ini # << >>
  IN The({ St(TypeToks(Mix(s, 3), vs[1], plain) \o Flat([ i \in DOMAIN q |-> << "," >> \o q[i] ])
           \o (IF q = << >> /\ ~ini /\ One(s, 4, 3) THEN << >> ELSE << "::" >>)
           \o Join([ i \in DOMAIN vs |-> Ent(Mix(s, 10 + i), vs[i], dattr) ], << "," >>)) : q \in {Perm(Mix(s, 5), as)} })
RECURSIVE Group(_, _, _)
Group(s, vs, plain) ==             \* a declaration for the first and some of the compatible ones, then the rest
  IF vs = << >> THEN << >>
  ELSE LET js == { j \in 2 .. Len(vs) : Same(vs[1], vs[j]) /\ One(s, j, 2) }
           mine == << vs[1] >> \o Flat([ j \in 1 .. Len(vs) |-> IF j \in js THEN << vs[j] >> ELSE << >> ])
           rest == Flat([ j \in 1 .. Len(vs) |-> IF j = 1 \/ j \in js THEN << >> ELSE << vs[j] >> ])
       IN << DeclStmt(Mix(s, 40), mine, plain) >> \o Group(Mix(s, 41), rest, plain)
NFirst(vs) == Select(vs, { v \in Range(vs) : v.n = "n" }) \o Select(vs, { v \in Range(vs) : v.n # "n" })
RECURSIVE Mingle(_, _, _)
Mingle(s, a, b) == IF a = << >> THEN b ELSE IF b = << >> THEN a
                   ELSE IF One(s, 1, 2) THEN << Head(a) >> \o Mingle(Mix(s, 2), Tail(a), b) ELSE << Head(b) >> \o Mingle(Mix(s, 2), a, Tail(b))
Some(s, q, n) == SubSeq(Perm(s, q), 1, Num(s, 90, 0, n))
Locals == << St(<< "integer", "::", "i1", ",", "i2" >>), St(<< "real", "(", "kind_phys", ")", "::", "work", "(", "np", ")" >>),
             St(<< "character", "(", "len", "=", "40", ")", "::", "msg" >>), St(<< "logical", "::", "flag" >>),
             St(<< "integer", ",", "parameter", "::", "loc", "(", "2", ")", "=", "(/", "1", ",", "2", "/)" >>),
             St(<< "type", "(", "ty_t", ")", "::", "tloc" >>),
             St(<< "real", "(", "kind_phys", ")", ",", "dimension", "(", ":", ")", ",", "allocatable", "::", "buf" >>),
             St(<< "interface" >>) >>
Iface(nm) == << St(<< "interface" >>), St(<< "subroutine", nm, "(", "x", ",", "temp", ")" >>), St(<< "real", ",", "intent", "(", "in", ")", "::", "x" >>),
            St(<< "integer", ",", "intent", "(", "out", ")", "::", "temp" >>), St(<< "end", "subroutine", nm >>), St(<< "end", "interface" >>) >>
ExecLoc == << St(<< "i1", "=", "1" >>), St(<< "flag", "=", "i1", "==", "2" >>), St(<< "msg", "=", "'end subroutine sch_run'" >>),
              St(<< "msg", "=", "\"it's; ! & contains\"" >>), St(<< "if", "(", "flag", ")", "i2", "=", "3" >>) >>
ExecBlk == << St(<< "if", "(", "np", ">", "3", ")", "then" >>), St(<< "i1", "=", "2" >>), St(<< "end", "if" >>),
              St(<< "do", "i1", "=", "1", ",", "2" >>), St(<< "i2", "=", "i1" >>), St(<< "end", "do" >>) >>
Inner(s, nm) == << St(<< "subroutine", nm, "(", "temp", ")" >>), St(<< "integer", ",", "intent", "(", "in", ")", "::", "temp" >>), St(<< "end", "subroutine", nm >>) >>
EndOf(s, what, nm) == St(Sel(s, 1, << << "end", what, nm >>, << "end", what, nm >>, << "end", what >>, << "end" >> >>))
RoutineStmts(s, f, marked) ==
  LET args == [ i \in DOMAIN f.v |-> << f.v[i].n >> ]
      head == f.pf \o << "subroutine", f.n >> \o (IF args = << >> THEN Sel(s, 1, << << >>, << "(", ")" >> >>) ELSE Paren(Join(args, << "," >>)))
      noisy == One(s, 2, 2) /\ "elemental" \notin Range(f.pf)
      uses == IF One(s, 3, 2) THEN << St(<< "use", "tys", ",", "only", ":", "ty2_t", ",", "ty3_t" >>) >> ELSE << >>
      locs == IF noisy THEN SubSeq(Locals, 1, 7) ELSE << >>
      vs == NFirst(Perm(Mix(s, 4), f.v))
      nhead == IF vs # << >> /\ vs[1].n = "n" THEN << vs[1] >> ELSE << >>
      ds == Group(Mix(s, 5), nhead, TRUE) \o Mingle(Mix(s, 6), Group(Mix(s, 7), SubSeq(vs, Len(nhead) + 1, Len(vs)), f.pure), locs)
      iface == IF One(s, 8, 6) THEN Iface("ext_sub") ELSE << >>
      exec == IF noisy THEN Some(Mix(s, 9), ExecLoc, 3) \o (IF One(s, 10, 2) THEN ExecBlk ELSE << >>) ELSE << >>
      inner == IF ~f.pure /\ "elemental" \notin Range(f.pf) /\ One(s, 11, 4)
               THEN << St(<< "contains" >>) >> \o Inner(Mix(s, 12), "inner_a") \o (IF One(s, 13, 2) THEN Inner(Mix(s, 14), "inner_b") ELSE << >>) ELSE << >>
  IN (IF marked THEN << Mark(f.n) >> ELSE << >>) \o << St(head) >> \o uses \o (IF One(s, 15, 2) THEN << St(<< "implicit", "none" >>) >> ELSE << >>)
     \o ds \o iface \o exec \o inner \o << EndOf(Mix(s, 16), "subroutine", f.n) >>
TypeStmts(s, f) ==
  << Mark(f.n), St(<< "type" >> \o Sel(s, 1, << << >>, << "::" >>, << ",", "public", "::" >>, << ",", "extends", "(", "ty2_t", ")", "::" >> >>) \o << f.n >>) >>
  \o Group(Mix(s, 2), Perm(Mix(s, 3), f.v), TRUE)
  \o (IF One(s, 4, 4) THEN << St(<< "contains" >>), St(<< "procedure", ",", "nopass", "::", "show", "=>", "aside" >>) >> ELSE << >>)
  \o << St(Sel(s, 5, << << "end", "type", f.n >>, << "end", "type" >> >>)) >>
Undoc(s) == << St(<< "type" >> \o Sel(s, 1, << << >>, << "::" >>, << ",", "public", "::" >> >>) \o << "noise_t" >>),
               St(<< "integer", "::", "temp", "(", "3", ")", "=", "[", "1", ",", "2", ",", "3", "]" >>),
               St(<< "procedure", "(", "aside", ")", ",", "pointer", ",", "nopass", "::", "pp", "=>", "null", "(", ")" >>),
               St(<< "class", "(", "*", ")", ",", "pointer", "::", "any" >>),
               St(<< "end", "type", "noise_t" >>) >>
Aside(s) == << St(<< "subroutine", "aside", "(", ")" >>) >>
            \o (IF One(s, 1, 3) THEN << St(<< "contains" >>) >> \o Inner(Mix(s, 12), "deep") ELSE << >>) \o << EndOf(Mix(s, 2), "subroutine", "aside") >>
Func(s) == << St(Sel(s, 1, << << "integer", "function", "twice", "(", "x", ")" >>, << "pure", "real", "(", "kind_phys", ")", "function", "twice", "(", "x", ")" >>,
                              << "function", "twice", "(", "x", ")", "result", "(", "temp", ")" >> >>)) >>
            \o (IF Sel(s, 1, << 0, 0, 1 >>) = 1 THEN << St(<< "integer", "::", "temp" >>) >> ELSE << >>)
            \o << St(<< "integer", ",", "intent", "(", "in", ")", "::", "x" >>) >>
            \o << EndOf(Mix(s, 2), "function", "twice") >>
Consts == << St(<< "integer", ",", "parameter", "::", "np", "=", "4" >>) >>
MiscSpec(s) == IF One(s, 1, 2) THEN << >> ELSE << St(<< "public" >>) >>
UseKinds == St(<< "use", "kinds", ",", "only", ":", "kind_phys", ",", "r4", ",", "i8", ",", "l1" >>)
ModuleStmts(s, m, F) ==
  LET md == IF m = "scheme" THEN "sch" ELSE "hostmod"
      head == << St(<< "module", md >>), UseKinds, St(<< "use", "tys", ",", "only", ":", "ty_t", ",", "ty2_t" >>), St(<< "implicit", "none" >>) >> \o MiscSpec(s) \o Consts
      body == IF m = "scheme"
              THEN (IF One(s, 3, 4) THEN Undoc(Mix(s, 4)) ELSE << >>) \o (IF One(s, 8, 5) THEN Iface("mod_ext") ELSE << >>) \o << St(<< "contains" >>) >>
                   \o (IF One(s, 5, 3) THEN Func(Mix(s, 6)) ELSE << >>)
                   \o Flat([ i \in DOMAIN F |-> RoutineStmts(Mix(s, 20 + i), F[i], TRUE) ])
                   \o Aside(Mix(s, 7))
              ELSE (IF One(s, 3, 4) THEN Undoc(Mix(s, 4)) ELSE << >>) \o (IF One(s, 8, 5) THEN Iface("mod_ext") ELSE << >>)
                   \o Flat([ i \in DOMAIN F |-> IF F[i].kind = "ddt" THEN TypeStmts(Mix(s, 20 + i), F[i])
                                               ELSE << Mark(F[i].n) >> \o Group(Mix(s, 20 + i), Perm(Mix(s, 30), F[i].v), TRUE) ])
                   \o << St(<< "contains" >>) >> \o Aside(Mix(s, 7))
  IN head \o body \o << EndOf(Mix(s, 9), "module", md) >>

(* ------------------------------------------------------------ layout *)
Punct == {"(", ")", ",", "::", "=", ":", "*", "=>", "+", "==", ">", "[", "]", "(/", "/)"}
Fused == {<< "end", "subroutine" >>, << "end", "type" >>, << "end", "module" >>, << "double", "precision" >>, << "in", "out" >>, << "end", "if" >>, << "end", "do" >>}
Comments == << "! a, b :: c", "! it's", "! (open", "! real, intent(in) :: z", "!! end subroutine", "! a; b &", "!&", "! \"" >>
It(k, x, c, b) == [k |-> k, s |-> x, c |-> c, b |-> b]
RECURSIVE Lay(_, _, _)
Lay(s, toks, prev) ==
  IF toks = << >> THEN << >>
  ELSE LET x == Head(toks)
           wordy == prev # "" /\ prev \notin Punct /\ x \notin Punct
           gap == IF wordy THEN (IF << prev, x >> \in Fused /\ One(s, 1, 3) THEN 0 ELSE Num(s, 2, 1, 2)) ELSE Sel(s, 3, << 0, 0, 0, 1, 1, 2 >>)
           brk == IF prev # "" /\ One(s, 4, 14)
                  THEN << It("brk", IF One(s, 5, 3) THEN Sel(s, 6, Comments) ELSE "", Num(s, 7, 0, 1), Sel(s, 8, << 0, 0, 0, 1, 2 >>)) >> ELSE << >>
       IN brk \o << It("tok", x, Sel(s, 9, << 0, 0, 0, 0, 1, 2 >>), gap) >> \o Lay(Mix(s, 11), Tail(toks), x)
RECURSIVE LayOut(_, _, _)
LayOut(s, ss, first) ==
  IF ss = << >> THEN << >>
  ELSE LET x == Head(ss)
           noise == IF One(s, 1, 6) THEN << It("line", Sel(s, 2, << "", "! note", "  !! arguments:", "!", "! end module", "!x" >>), 0, 0) >> ELSE << >>
           last == Len(ss) > 1 /\ ss[2].m = "" /\ x.m = "" /\ ~(ss[2].t[1] \in {"contains"}) /\ ~(x.t[1] \in {"contains"}) /\ One(s, 3, 12)
           stop == IF last THEN << It("sep", ";", 0, Num(s, 4, 0, 1)) >>
                   ELSE << It("eol", IF One(s, 5, 8) THEN Sel(s, 6, Comments) ELSE IF One(s, 8, 60) THEN ";" ELSE "", 0, Num(s, 7, 0, 2)) >>
       IN (IF x.m # "" THEN << It("mark", x.m, Num(s, 9, 0, 2), Num(s, 12, 0, 2)) >>
           ELSE (IF first THEN noise ELSE << >>) \o Lay(Mix(s, 10), x.t, "") \o stop)
          \o LayOut(Mix(s, 11), Tail(ss), x.m # "" \/ ~last)

(* ------------------------------------------------------------ the reader *)
(* r.in: open program units (innermost last), each [u: unit, tab: TRUE if it holds the active table];
   r.act: table announced by the last marker; r.tabs: tables read so far *)
Opens == {"(", "[", "(/"}
Closes == {")", "]", "/)"}
RECURSIVE Depth(_, _)                              \* nesting before token i
Depth(q, i) == IF i = 1 THEN 0 ELSE Depth(q, i - 1) + (IF q[i - 1] \in Opens THEN 1 ELSE IF q[i - 1] \in Closes THEN -1 ELSE 0)
RECURSIVE Split(_, _, _)                           \* at commas outside of parentheses
Split(q, d, acc) ==
  IF q = << >> THEN << acc >>
  ELSE IF Head(q) = "," /\ d = 0 THEN << acc >> \o Split(Tail(q), 0, << >>)
  ELSE Split(Tail(q), d + (IF Head(q) \in Opens THEN 1 ELSE IF Head(q) \in Closes THEN -1 ELSE 0), Append(acc, Head(q)))
Parts(q) == IF q = << >> THEN << >> ELSE Split(q, 0, << >>)
RECURSIVE CloseAt(_, _, _)                         \* the parenthesis that closes the one before token i
CloseAt(q, i, d) == IF q[i] \in Closes /\ d = 0 THEN i
                    ELSE CloseAt(q, i + 1, d + (IF q[i] \in Opens THEN 1 ELSE IF q[i] \in Closes THEN -1 ELSE 0))
Intrinsic == {"integer", "real", "logical", "complex", "character"}
At(q, i) == IF i \in DOMAIN q THEN q[i] ELSE ""
IsDecl(q) == \/ At(q, 1) \in Intrinsic /\ "function" \notin Range(q)
             \/ At(q, 1) = "double" /\ At(q, 2) = "precision" /\ "function" \notin Range(q)
             \/ At(q, 1) \in {"type", "class"} /\ At(q, 2) = "("
Base(q) ==                                         \* [t, k, e]: type, kind, last token of the type
  IF q[1] = "double" THEN [t |-> "double precision", k |-> "", e |-> 2]
  ELSE IF At(q, 2) # "(" THEN [t |-> q[1], k |-> IF q[1] = "character" THEN "len=1" ELSE "", e |-> 1]
  ELSE LET e == CloseAt(q, 3, 0)
           a == SubSeq(q, 3, e - 1)
           z == a[Len(a)]
       IN IF q[1] \in {"type", "class"} THEN [t |-> z, k |-> "", e |-> e]
          ELSE IF q[1] = "character" THEN [t |-> q[1], k |-> "len=" \o z, e |-> e]
          ELSE [t |-> q[1], k |-> z, e |-> e]
ColonAt(q) == IF \E i \in DOMAIN q : q[i] = "::" THEN CHOOSE i \in DOMAIN q : q[i] = "::" /\ \A j \in 1 .. i - 1 : q[j] # "::" ELSE 0
DimsOf(q) == IF q = << >> THEN << >> ELSE Parts(q)
ReadDecl(q) ==                                     \* the variables declared by a statement
  LET b == Base(q)
      c == ColonAt(q)
      as == IF c = 0 THEN << >> ELSE Parts(SubSeq(q, b.e + 2, c - 1))
      es == Parts(SubSeq(q, IF c = 0 THEN b.e + 1 ELSE c + 1, Len(q)))
      it == IF \E i \in DOMAIN as : as[i][1] = "intent" THEN LET a == as[CHOOSE i \in DOMAIN as : as[i][1] = "intent"]
                                                            IN IF Len(a) = 5 THEN "inout" ELSE a[3] ELSE ""
      op == \E i \in DOMAIN as : as[i] = << "optional" >>
      dr == IF \E i \in DOMAIN as : as[i][1] = "dimension" THEN LET a == as[CHOOSE i \in DOMAIN as : as[i][1] = "dimension"]
                                                               IN DimsOf(SubSeq(a, 3, Len(a) - 1)) ELSE << >>
  IN [ i \in DOMAIN es |-> LET d == IF At(es[i], 2) = "(" THEN DimsOf(SubSeq(es[i], 3, CloseAt(es[i], 3, 0) - 1)) ELSE dr
                           IN [n |-> es[i][1], t |-> b.t, k |-> b.k, it |-> it, op |-> op, rk |-> Len(d), dm |-> d] ]
HeaderAt(q, w) == IF \E i \in DOMAIN q : q[i] = w /\ \A j \in 1 .. i - 1 : q[j] # "(" \/ w = "function"
                  THEN CHOOSE i \in DOMAIN q : q[i] = w ELSE 0
PrefixOnly(q, i) == \A j \in 1 .. i - 1 : q[j] \in {"pure", "recursive", "elemental", "impure"}
Unit(u, tab) == [u |-> u, tab |-> tab]
TopU == r.in[Len(r.in)]
Ign == [r EXCEPT !.in = @]
ReadStmt(q) ==
  LET sub == HeaderAt(q, "subroutine")
      fun == HeaderAt(q, "function")
      top == IF r.in = << >> THEN Unit("file", FALSE) ELSE TopU
  IN CASE q[1] = "module" /\ Len(q) = 2 /\ r.in = << >> -> [r EXCEPT !.in = << Unit("module", FALSE) >>, !.mod = q[2]]
       [] q[1] = "end" /\ At(q, 2) \in {"if", "do"} -> r
       [] q[1] = "end" -> [r EXCEPT !.in = SubSeq(@, 1, Len(@) - 1)]
       [] q[1] = "interface" -> [r EXCEPT !.in = Append(@, Unit("interface", FALSE))]
       [] sub > 0 /\ PrefixOnly(q, sub) ->
            IF Len(r.in) = 1 /\ r.act = q[sub + 1] /\ r.act # ""
            THEN [r EXCEPT !.in = Append(@, Unit("sub", TRUE)), !.act = "",
                           !.tabs = Append(@, [kind |-> "scheme", n |-> q[sub + 1],
                                               v |-> LET a == IF At(q, sub + 2) = "(" THEN Parts(SubSeq(q, sub + 3, Len(q) - 1)) ELSE << >>
                                                     IN [ i \in DOMAIN a |-> [n |-> a[i][1], t |-> "?", k |-> "", it |-> "", op |-> FALSE, rk |-> 0, dm |-> << >>] ]])]
            ELSE [r EXCEPT !.in = Append(@, Unit("sub", FALSE))]
       [] fun > 0 -> [r EXCEPT !.in = Append(@, Unit("fun", FALSE))]
       [] q[1] = "type" /\ At(q, 2) # "(" ->
            IF r.act # "" /\ q[Len(q)] = r.act
            THEN [r EXCEPT !.in = Append(@, Unit("type", TRUE)), !.act = "", !.tabs = Append(@, [kind |-> "ddt", n |-> q[Len(q)], v |-> << >>])]
            ELSE [r EXCEPT !.in = Append(@, Unit("type", FALSE))]
       [] IsDecl(q) /\ top.tab /\ top.u = "sub" ->
            LET vs == ReadDecl(q)
                t == r.tabs[Len(r.tabs)]
                new == [ i \in DOMAIN t.v |-> IF \E j \in DOMAIN vs : vs[j].n = t.v[i].n /\ vs[j].it # ""
                                              THEN vs[CHOOSE j \in DOMAIN vs : vs[j].n = t.v[i].n] ELSE t.v[i] ]
            IN [r EXCEPT !.tabs[Len(r.tabs)].v = new]
       [] IsDecl(q) /\ top.tab /\ top.u = "type" -> [r EXCEPT !.tabs[Len(r.tabs)].v = @ \o ReadDecl(q)]
       [] IsDecl(q) /\ top.u = "module" /\ r.act = r.mod /\ r.act # "" ->
            IF \E i \in DOMAIN r.tabs : r.tabs[i].n = r.mod
            THEN [r EXCEPT !.tabs = [ i \in DOMAIN r.tabs |-> IF r.tabs[i].n = r.mod THEN [ r.tabs[i] EXCEPT !.v = @ \o ReadDecl(q) ] ELSE r.tabs[i] ]]
            ELSE [r EXCEPT !.tabs = Append(@, [kind |-> "module", n |-> r.mod, v |-> ReadDecl(q)])]
       [] OTHER -> r

(* ------------------------------------------------------------ comparison *)
Find(tabs, n) == IF \E i \in DOMAIN tabs : tabs[i].n = n THEN CHOOSE i \in DOMAIN tabs : tabs[i].n = n ELSE 0
FindV(vs, n) == IF \E i \in DOMAIN vs : vs[i].n = n THEN CHOOSE i \in DOMAIN vs : vs[i].n = n ELSE 0
KindOf(v) == IF v.t \in {"real", "complex"} /\ v.k = "" THEN "kind_phys" ELSE v.k   \* the default kind on both sides
Alike(a, b) == a.t = b.t /\ KindOf(a) = KindOf(b) /\ a.it = b.it /\ a.op = b.op /\ a.rk = b.rk
(* declaratively: the tables fit *)
TableFits(m, f) ==
  /\ m.kind = f.kind
  /\ IF m.kind = "scheme"
     THEN /\ Len(m.v) <= Len(f.v)
          /\ \A i \in DOMAIN m.v : m.v[i].n = f.v[i].n /\ Alike(m.v[i], f.v[i])
          /\ \A i \in Len(m.v) + 1 .. Len(f.v) : f.v[i].op            \* an optional argument may stay undocumented
     ELSE \A i \in DOMAIN m.v : m.v[i].sec = 1 \/ \E j \in DOMAIN f.v : f.v[j].n = m.v[i].n /\ Alike(m.v[i], f.v[j])
Fits(M, F) == /\ \A i \in DOMAIN M : \E j \in DOMAIN F : F[j].n = M[i].n /\ TableFits(M[i], F[j])
              /\ \A j \in DOMAIN F : F[j].v = << >> \/ \E i \in DOMAIN M : M[i].n = F[j].n

(* ------------------------------------------------------------ the machine *)
Seeds == 0..46336
R(X) == { RandomElement(X) }
Init == /\ stage = "draw" /\ mode = "" /\ decl = << >> /\ meta = << >> /\ items = << >> /\ cur = << >>
        /\ r = [in |-> << >>, mod |-> "", act |-> "", tabs |-> << >>] /\ cmp = [i |-> 1, j |-> 1, bad |-> {}]
Draw == /\ stage = "draw"
        /\ \E m \in R({1, 2, 3}) : mode' = (IF m = 3 THEN "host" ELSE "scheme")
        /\ \E s \in R(Seeds) : \E x \in {DrawDecl(s, mode')} : decl' = x
        /\ stage' = "meta" /\ UNCHANGED <<meta, items, cur, r, cmp>>
Describe == /\ stage = "meta"
            /\ \E s \in R(Seeds) : \E x \in {DrawMeta(s, decl, mode)} : meta' = x
            /\ stage' = "write" /\ UNCHANGED <<mode, decl, items, cur, r, cmp>>
Write == /\ stage = "write"
         /\ \E s \in R(Seeds), z \in R(Seeds) : \E x \in {ModuleStmts(s, mode, decl)} : \E y \in {LayOut(z, x, TRUE)} : items' = y
         /\ stage' = "read" /\ UNCHANGED <<mode, decl, meta, cur, r, cmp>>
\* one statement of the layout: tokens up to the next end of a statement
RECURSIVE EndAt(_)
EndAt(i) == IF items[i].k \in {"eol", "sep"} THEN i ELSE EndAt(i + 1)
At0 == IF cur = << >> THEN 1 ELSE cur[1]
Toks(a, b) == Flat([ i \in 1 .. b - a + 1 |-> IF items[a + i - 1].k = "tok" THEN << items[a + i - 1].s >> ELSE << >> ])
Read == /\ stage = "read"
        /\ IF At0 > Len(items) THEN stage' = "compare" /\ UNCHANGED <<cur, r>>
           ELSE /\ stage' = stage
                /\ CASE items[At0].k = "line" -> cur' = << At0 + 1 >> /\ r' = r
                     [] items[At0].k = "mark" -> cur' = << At0 + 1 >> /\ r' = [r EXCEPT !.act = items[At0].s]
                     [] OTHER -> \E e \in {EndAt(At0)} : \E q \in {Toks(At0, e)} : \E x \in {ReadStmt(q)} : cur' = << e + 1 >> /\ r' = x
        /\ UNCHANGED <<mode, decl, meta, items, cmp>>
Bad(x) == [cmp EXCEPT !.bad = @ \cup {x}, !.j = @ + 1]
Compare ==
  /\ stage = "compare"
  /\ IF cmp.i > Len(meta)
     THEN /\ stage' = "done"
          /\ cmp' = [cmp EXCEPT !.bad = @ \cup { r.tabs[j].n : j \in { j \in DOMAIN r.tabs : r.tabs[j].v # << >> /\ Find(meta, r.tabs[j].n) = 0 } }]
     ELSE /\ stage' = stage
          /\ \E f \in {Find(r.tabs, meta[cmp.i].n)} :
               IF f = 0 THEN cmp' = [cmp EXCEPT !.i = @ + 1, !.j = 1, !.bad = @ \cup {meta[cmp.i].n}]
               ELSE LET m == meta[cmp.i].v
                        fv == r.tabs[f].v
                    IN IF cmp.j > Len(m)
                       THEN cmp' = [cmp EXCEPT !.i = @ + 1, !.j = 1,
                                               !.bad = @ \cup (IF meta[cmp.i].kind = "scheme" THEN { fv[k].n : k \in { k \in Len(m) + 1 .. Len(fv) : ~fv[k].op } } ELSE {})]
                       ELSE LET k == FindV(fv, m[cmp.j].n)
                            IN cmp' = (IF m[cmp.j].sec = 1 THEN [cmp EXCEPT !.j = @ + 1]
                                       ELSE IF k = 0 \/ (meta[cmp.i].kind = "scheme" /\ k # cmp.j) THEN Bad(m[cmp.j].n)
                                       ELSE IF Alike(m[cmp.j], fv[k]) THEN [cmp EXCEPT !.j = @ + 1] ELSE Bad(m[cmp.j].n))
  /\ UNCHANGED <<mode, decl, meta, items, cur, r>>
Next == Draw \/ Describe \/ Write \/ Read \/ Compare

Shown(v) == [n |-> v.n, t |-> v.t, k |-> v.k, it |-> v.it, op |-> v.op, rk |-> v.rk, dm |-> v.dm]
ReadBack == stage \in {"compare", "done"} =>
     /\ r.in = << >>
     /\ Len(r.tabs) = Len(decl)
     /\ \A i \in DOMAIN decl : \E j \in DOMAIN r.tabs :
          /\ r.tabs[j].n = decl[i].n /\ r.tabs[j].kind = decl[i].kind
          /\ IF decl[i].kind = "scheme" THEN r.tabs[j].v = [ k \in DOMAIN decl[i].v |-> Shown(decl[i].v[k]) ]
             ELSE Range(r.tabs[j].v) = { Shown(decl[i].v[k]) : k \in DOMAIN decl[i].v } /\ Len(r.tabs[j].v) = Len(decl[i].v)
Verdict == stage = "done" => ((cmp.bad = {}) <=> Fits(meta, decl))
Emit == stage = "done" => PrintT("@@" \o ToJson([mode |-> mode, fixed |-> (Len(items) % 5) = 0, meta |-> meta, items |-> items, bad |-> cmp.bad, tabs |-> r.tabs]))
=============================================================================
