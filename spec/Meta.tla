--------------------------------- MODULE Meta ---------------------------------
(* Metadata files (C11).  A behaviour draws the tables of a file, writes them as  *)
(* lines (headers, property lines, comments), damages the lines or not (Write),    *)
(* and reads them back one line at a time (Read, Close): each line belongs to the  *)
(* block opened by the last header, and a block is judged when it closes, against  *)
(* what has been read so far.  Invariants: an undamaged file reads back as what     *)
(* was drawn; the verdict of the reader is the declarative one (WellFormed), and     *)
(* comments change nothing.                                                          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

VARIABLES seed, file, lines, cur, r, stage
vars == <<seed, file, lines, cur, r, stage>>

(* ------------------------------------------------------------ drawing (seed-functional) *)
Mix(s, k) == LET a == (((s * 31) % 46337) + (k * 7919) + 101) % 46337
                 b == (a * a + 3 * a + k) % 46337
             IN (b * 211 + a) % 46337
Sel(s, k, q) == q[1 + (Mix(s, k) % Len(q))]
One(s, k, n) == Mix(s, k) % n = 0
Num(s, k, lo, hi) == lo + (Mix(s, k) % (hi - lo + 1))
The(S) == CHOOSE z \in S : TRUE
Range(q) == { q[i] : i \in DOMAIN q }
RECURSIVE Flat(_)
Flat(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Flat(Tail(ss))
Drop(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Ins(q, i, x) == SubSeq(q, 1, i - 1) \o << x >> \o SubSeq(q, i, Len(q))
RECURSIVE Perm(_, _)
Perm(s, q) == IF q = << >> THEN << >>
              ELSE The({ << q[i] >> \o Perm(Mix(s, 7), Drop(q, i)) : i \in {Num(s, 5, 1, Len(q))} })

(* ------------------------------------------------------------ properties and their values *)
(* a property: key, text of the value, value, is the text a value of this property at all, and what else it depends on *)
P(key, x, v, q) == [key |-> key, x |-> x, v |-> v, ok |-> TRUE, q |-> q]
Bad(key, x) == [key |-> key, x |-> x, v |-> << >>, ok |-> FALSE, q |-> << >>]
Txt(key, x) == P(key, x, << x >>, << >>)
(* standard names: as written, what they mean, the long name they imply *)
Std == << << "air_temperature", "air_temperature", "Air temperature" >>,
          << "Surface_Pressure", "surface_pressure", "Surface pressure" >>,
          << "cloud_0p55mu_to_1p5mu", "cloud_0p55mu_to_1p5mu", "Cloud 0.55mu to 1.5mu" >>,
          << "x", "x", "X" >>, << "n2_p4", "n2_p4", "N2 p4" >>, << "TRACER_2", "tracer_2", "Tracer 2" >>,
          << "type", "type", "Type" >>, << "ccpp_error_code", "ccpp_error_code", "Ccpp error code" >>,
          << "standard_name", "standard_name", "Standard name" >>, << "units_of_a", "units_of_a", "Units of a" >>,
          << "scheme_name", "scheme_name", "Scheme name" >>, << "wind_3p0_", "wind_3p0_", "Wind 3.0 " >> >>
StdP(e) == P("standard_name", e[1], << e[2] >>, << e[3] >>)
Units == << "m", "m s-1", "kg kg-1", "W m-2 K-1", "1", "none", "index", "flag", "m2 s-12", "degree_C", "mol" >>
Dims == << << "()", << >> >>, << "(nz)", << "ccpp_constant_one:nz" >> >>, << "( nz )", << "ccpp_constant_one:nz" >> >>,
           << "(horizontal_dimension,vertical_layer_dimension)", << "ccpp_constant_one:horizontal_dimension", "ccpp_constant_one:vertical_layer_dimension" >> >>,
           << "(horizontal_loop_extent, nz)", << "ccpp_constant_one:horizontal_loop_extent", "ccpp_constant_one:nz" >> >>,
           << "(1:n, 0:nz)", << "1:n", "0:nz" >> >>, << "(3)", << "ccpp_constant_one:3" >> >>,
           << "(ccpp_constant_one:n)", << "ccpp_constant_one:n" >> >>, << "(na, nb ,nc)", << "ccpp_constant_one:na", "ccpp_constant_one:nb", "ccpp_constant_one:nc" >> >>,
           << "( ccpp_constant_one : n , 1 : nz )", << "ccpp_constant_one:n", "1:nz" >> >> >>
DimP(e) == P("dimensions", e[1], e[2], << >>)
Truths == << << "True", "T" >>, << "T", "T" >>, << ".true.", "T" >>, << "TRUE", "T" >>, << "t", "T" >>,
             << "False", "F" >>, << "f", "F" >>, << ".FALSE.", "F" >>, << "false", "F" >> >>
Bools == {"state_variable", "protected", "allocatable", "polymorphic", "top_at_one", "optional", "target", "advected", "constituent"}
BoolP(key, e) == P(key, e[1], << e[2] >>, << >>)
Longs == << "a = b (c), d", "it's 50% of x", "the [ y ] of \"z", "x", "# not a comment", "a; b", "type = real" >>
Actives == << ".false.", "(flag_for_x == 1)", "(a .or. b)", "T" >>
Molars == << << "18.0", "18.0" >>, << "29", "29.0" >>, << "0.5", "0.5" >>, << "1e2", "100.0" >>, << "10000", "10000.0" >> >>
Kinds(t) == CASE t = "real" -> << "kind_phys", "kind_phys", "r8", "" >> [] t = "integer" -> << "", "i8" >>
              [] t = "character" -> << "len=16", "len=*", "len=512", "" >> [] t = "logical" -> << "", "l1" >> [] OTHER -> << "" >>
LitKind(t, k) == IF t = "character" THEN "" ELSE k
(* literals: text, type, kind *)
Lits == << << "3.0", "real", "" >>, << "-1.5e-3", "real", "" >>, << "1.5_kind_phys", "real", "kind_phys" >>, << "0.0_r8", "real", "r8" >>,
           << "42", "integer", "" >>, << "-7", "integer", "" >>, << "42_i8", "integer", "i8" >>, << ".true.", "logical", "" >>, << ".FALSE.", "logical", "" >>,
           << ".true._l1", "logical", "l1" >>, << "'abc'", "character", "" >>, << "\"a b\"", "character", "" >>, << "'a_b'", "character", "" >>,
           << "'it''s_'", "character", "" >>, << "(1.0,2.0)", "complex", "" >>, << "1.5", "double precision", "" >> >>
LitP(e) == P("default_value", e[1], << e[1] >>, << e[2], e[3] >>)
LitsOf(t, k) == SelectSeq(Lits, LAMBDA e : e[2] = t /\ e[3] = LitKind(t, k))
DiagA == << "FOO", "foo_${scheme_name}", "${process}_x", "a${process}", "${scheme_name}" >>
Intents == << "in", "out", "inout" >>
Required(ty) == {"standard_name", "units", "dimensions", "type"} \cup (IF ty = "scheme" THEN {"intent"} ELSE {})
VarKeys == {"standard_name", "long_name", "units", "dimensions", "type", "kind", "diagnostic_name", "diagnostic_name_fixed",
            "default_value", "persistence", "active", "intent", "molar_mass"} \cup Bools
TabKeys == {"name", "type", "dependencies", "relative_path"}
SecKeys == {"name", "type", "module", "process"}
TabTypes == {"scheme", "ddt", "module", "host"}
(* texts that are not values of the property *)
Wrong(key) ==
  CASE key = "standard_name" -> << "2x", "a-b", "a b", "", "x(y)" >>
    [] key = "units" -> << "m**2", "m s-", "2", "m/s", "m s+1", "", "m s-0" >>
    [] key = "dimensions" -> << "", "x", "(a,,b)", "(a:b:c:d)", "(3a)", "(a", "(a b)", "(a,b) x", "x (a)", "a)", "(a,)", "(a-b)" >>
    [] key = "type" -> << "foo_t", "char", "type(real)", "", "reals", "type(box_t)" >>
    [] key = "intent" -> << "ino", "", "IN", "in out", "none" >>
    [] key \in Bools -> << "yes", "1", "", "tru", ".true" >>
    [] key = "persistence" -> << "day", "", "Run" >>
    [] key = "molar_mass" -> << "-1", "abc", "20000", "", "1,5" >>
    [] key = "default_value" -> << "abc", "3.x", "'abc", "3.0 + 1", ".maybe." >>
    [] key = "diagnostic_name" -> << "2foo", "foo_${other}", "a b", "${scheme_name}${process}" >>
    [] key = "diagnostic_name_fixed" -> << "2foo", "a b", "a-b", "${process}" >>
    [] OTHER -> << >>

(* ------------------------------------------------------------ drawing a file *)
(* local names: text, without blanks, lower case, rank of an array reference (-1: a name) *)
Nm(x, c, l, rk) == [x |-> x, c |-> c, l |-> l, rk |-> rk]
Names == << Nm("temp", "temp", "temp", -1), Nm("T2", "T2", "t2", -1), Nm("n", "n", "n", -1), Nm("type", "type", "type", -1),
            Nm("units", "units", "units", -1), Nm("a_b_c", "a_b_c", "a_b_c", -1), Nm("ccpp", "ccpp", "ccpp", -1), Nm("x1", "x1", "x1", -1),
            Nm("name", "name", "name", -1) >>
Refs == << Nm("q(:,ind)", "q(:, ind)", "q(:, ind)", 1), Nm("q( : , : , 3 )", "q(:, :, 3)", "q(:, :, 3)", 2), Nm("w(ind)", "w(ind)", "w(ind)", 0),
           Nm("q(:,:)", "q(:, :)", "q(:, :)", 2), Nm("v(1,:,k,:)", "v(1, :, k, :)", "v(1, :, k, :)", 2) >>
Opt(b, q) == IF b THEN << q >> ELSE << >>
DrawVar(s, nm, std, ty, ddts) ==
  LET t == IF ddts # << >> /\ One(s, 1, 4) THEN Sel(s, 2, ddts) ELSE Sel(s, 3, << "real", "real", "integer", "logical", "character", "complex", "double precision" >>)
      ddt == t \in Range(ddts)
      k == Sel(s, 4, Kinds(t))
      dm == IF nm.rk >= 0 THEN SelectSeq(Dims, LAMBDA e : Len(e[2]) = nm.rk) ELSE Dims
      it == Sel(s, 6, Intents)
      ls == LitsOf(t, k)
      lits == IF ddt \/ ls = << >> THEN << >> ELSE Opt(One(s, 8, 2), LitP(Sel(s, 9, ls)))
      fixed == One(s, 10, 8)
      ps == << StdP(std), DimP(Sel(s, 11, dm)), P("type", t, << t >>, IF ddt THEN << "ddt" >> ELSE << >>) >>
            \o Opt(~ddt \/ One(s, 12, 3), Txt("units", Sel(s, 13, Units)))
            \o Opt(ty = "scheme" \/ One(s, 14, 12), Txt("intent", it))
            \o Opt(~ddt /\ k # "" , Txt("kind", k)) \o Opt(~ddt /\ k = "" /\ One(s, 15, 6), Txt("kind", ""))
            \o Opt(One(s, 16, 2), Txt("long_name", Sel(s, 17, Longs))) \o lits
            \o Opt(One(s, 18, 6), Txt("persistence", Sel(s, 19, << "timestep", "run" >>)))
            \o Opt(One(s, 20, 5), Txt("active", Sel(s, 21, Actives)))
            \o Opt(One(s, 22, 8), LET e == Sel(s, 23, Molars) IN P("molar_mass", e[1], << e[2] >>, << >>))
            \o Opt(fixed, Txt("diagnostic_name_fixed", Sel(s, 24, << "FOO", "q2_" >>)))
            \o Opt(~fixed /\ One(s, 25, 6), Txt("diagnostic_name", Sel(s, 26, DiagA)))
            \o Opt(One(s, 27, 6), BoolP("protected", IF it = "in" THEN Sel(s, 28, Truths) ELSE Sel(s, 29, SubSeq(Truths, 6, 9))))
      bs == << "state_variable", "allocatable", "polymorphic", "top_at_one", "optional", "target", "advected", "constituent" >>
      q == ps \o Flat([ i \in DOMAIN bs |-> Opt(One(s, 30 + i, 9), BoolP(bs[i], Sel(s, 50 + i, Truths))) ])
  IN [n |-> nm, ps |-> q]
DrawVars(s, ty, ddts, n) ==
  The({ The({ [ i \in 1 .. n |-> DrawVar(Mix(s, 10 + i), IF i = 1 /\ One(s, 3, 4) THEN Sel(s, 4, Refs) ELSE ns[i], st[i], ty, ddts) ]
            : st \in {Perm(Mix(s, 1), Std)} }) : ns \in {Perm(Mix(s, 2), Names)} })
Phases == << "_register", "_init", "_timestep_init", "_run", "_timestep_final", "_finalize" >>
SecPs(s, nm, ty) == << Txt("name", nm), Txt("type", ty) >> \o Opt(One(s, 1, 5), Txt("module", Sel(s, 2, << "mod_a", "none", "physics" >>)))
                    \o Opt(ty = "scheme" /\ One(s, 3, 4), Txt("process", Sel(s, 4, << "microphysics", "radiation" >>)))
DepPs(s) == IF One(s, 1, 3) THEN << >>
            ELSE IF One(s, 2, 4) THEN << P("dependencies", Sel(s, 3, << "None", "none" >>), << >>, << "none" >>) >>
            ELSE [ i \in 1 .. Num(s, 4, 1, 2) |-> LET e == Sel(s, 4 + i, << << "a.F90", << "a.F90" >> >>, << "b.F90, ../x/c.f90", << "b.F90", "../x/c.f90" >> >>,
                                                                      << "d.F90,e.F90,", << "d.F90", "e.F90" >> >>, << "", << >> >>, << "sub/f.F", << "sub/f.F" >> >> >>)
                                                  IN P("dependencies", e[1], e[2], << "list" >>) ]
DrawTable(s, nm, ty, ddts, sns) ==
  [ps |-> << Txt("name", nm), Txt("type", ty) >> \o DepPs(Mix(s, 1)) \o Opt(One(s, 2, 4), Txt("relative_path", Sel(s, 3, << "sub", "../up", "a/b" >>))),
   secs |-> [ i \in DOMAIN sns |-> [ps |-> SecPs(Mix(s, 20 + i), sns[i], ty), vs |-> DrawVars(Mix(s, 40 + i), ty, ddts, Num(s, 60 + i, IF ty = "scheme" THEN 0 ELSE 1, 4))] ]]
DrawFile(s) ==
  IF One(s, 1, 2)
  THEN [ i \in 1 .. Num(s, 2, 1, 2) |->
           LET nm == << "foo", "bar_run_2" >>[i]
               ph == SubSeq(Perm(Mix(s, 3 + i), Phases), 1, Num(s, 6 + i, 1, 3))
           IN DrawTable(Mix(s, 10 + i), nm, "scheme", << >>,
                 IF nm = "foo" THEN [ j \in DOMAIN ph |-> "foo" \o ph[j] ] ELSE [ j \in DOMAIN ph |-> "bar_run_2" \o ph[j] ]) ]
  ELSE LET nd == Num(s, 2, 0, 2)
           T == [ i \in 1 .. nd |-> LET nm == << "box_t", "tile_type" >>[i]
                                    IN DrawTable(Mix(s, 10 + i), nm, "ddt", SubSeq(<< "box_t", "tile_type" >>, 1, i - 1), << nm >>) ]
           k == Sel(s, 3, << "module", "host" >>)
           M == << DrawTable(Mix(s, 14), "hostmod", k, SubSeq(<< "box_t", "tile_type" >>, 1, nd), << "hostmod" >>) >>
       IN IF nd > 0 /\ One(s, 4, 4) THEN T ELSE T \o M

(* ------------------------------------------------------------ lines *)
(* f: how the line is written (case of the keys, blanks, continuation) *)
Ln(k, n, p, f) == [k |-> k, n |-> n, p |-> p, f |-> f]
NoName == Nm("", "", "", -1)
Note(s) == Ln("note", Nm(Sel(s, 1, << "", "#", "   ", "# note = x", "  ; [ old ]", "##########", "# [ccpp-arg-table]", "; a | b", "  # type = scheme" >>), "", "", -1), << >>, 0)
Notes(s) == IF One(s, 1, 8) THEN IF One(s, 2, 3) THEN << Note(Mix(s, 3)), Note(Mix(s, 4)) >> ELSE << Note(Mix(s, 3)) >> ELSE << >>
RECURSIVE PropLines(_, _)
PropLines(s, ps) ==
  IF ps = << >> THEN << >>
  ELSE LET m == Num(s, 1, 1, 3)
           n == IF Sel(s, 2, << 1, 1, 1, 0 >>) = 1 \/ m > Len(ps) THEN 1 ELSE m
       IN << Ln("prop", NoName, SubSeq(ps, 1, n), Mix(s, 3)) >> \o Notes(Mix(s, 4)) \o PropLines(Mix(s, 5), SubSeq(ps, n + 1, Len(ps)))
Block(s, k, n, ps) == Notes(Mix(s, 1)) \o << Ln(k, n, << >>, Mix(s, 2)) >> \o Notes(Mix(s, 3)) \o PropLines(Mix(s, 4), Perm(Mix(s, 5), ps))
WriteSec(s, x) == Block(s, "sect", NoName, x.ps) \o Flat([ i \in DOMAIN x.vs |-> Block(Mix(s, 10 + i), "var", x.vs[i].n, x.vs[i].ps) ])
WriteTab(s, x) == Block(s, "table", NoName, x.ps) \o Flat([ i \in DOMAIN x.secs |-> WriteSec(Mix(s, 20 + i), x.secs[i]) ])
WriteFile(s, F) == Flat([ i \in DOMAIN F |-> WriteTab(Mix(s, 30 + i), F[i]) ]) \o Notes(Mix(s, 9))

(* ------------------------------------------------------------ damage *)
Junk == << "junk", "subroutine foo()", "[ 2a ]", "[ a b ]", "end type", "[ ]", "[ x(1", "name", "| units = m", "[ccpp-arg-tables]" >>
JunkLn(s) == Ln("junk", Nm(Sel(s, 1, Junk), "", "", -1), << >>, 0)
Some(s, k, S) == IF S = << >> THEN 0 ELSE Sel(s, k, S)            \* one index of a sequence of indices
Where(L, Q(_)) == SelectSeq([ i \in DOMAIN L |-> i ], LAMBDA i : Q(L[i]))
RECURSIVE EndOf(_, _)
EndOf(L, i) == IF i > Len(L) \/ L[i].k \in {"table", "sect", "var"} THEN i - 1 ELSE EndOf(L, i + 1)
SetP(L, i, j, p) == [ L EXCEPT ![i].p[j] = p ]
Damages == << "drop", "drop", "key", "val", "val", "val", "val", "junk", "again", "local", "std", "ref", "name", "type", "none", "pair", "lit", "phase", "head", "known" >>
Damage(s, L, what) ==
  LET props == Where(L, LAMBDA l : l.k = "prop")
      i == Some(s, 1, props)
      j == IF i = 0 THEN 0 ELSE Num(s, 2, 1, Len(L[i].p))
      heads == Where(L, LAMBDA l : l.k \in {"table", "sect", "var"})
      vs == Where(L, LAMBDA l : l.k = "var")
      v == Some(s, 3, vs)
      w == Some(s, 4, vs)
      key(k) == Where(L, LAMBDA l : l.k = "prop" /\ \E m \in DOMAIN l.p : l.p[m].key = k)
      at(x, k) == CHOOSE m \in DOMAIN L[x].p : L[x].p[m].key = k
      put(k, p) == LET x == Some(s, 5, key(k)) IN IF x = 0 THEN L ELSE SetP(L, x, at(x, k), p)
  IN CASE what = "drop" -> Drop(L, Sel(s, 6, props \o heads))
       [] what = "key" -> SetP(L, i, j, [ L[i].p[j] EXCEPT !.key = Sel(s, 7, << "unit", "foo", "len", "local name", "std_name", "dimension", "local_name_", "" >>) ])
       [] what = "val" -> LET k == L[i].p[j].key
                              x == IF L[i].p[j].key \in {"name", "type"} THEN << >> ELSE Wrong(k)
                          IN IF x = << >> THEN L ELSE SetP(L, i, j, Bad(k, Sel(s, 8, x)))
       [] what = "junk" -> Ins(L, Num(s, 9, 1, Len(L) + 1), JunkLn(s))
       [] what = "again" -> IF heads = << >> THEN L ELSE
                            LET h == Sel(s, 10, IF One(s, 11, 3) \/ vs = << >> THEN heads ELSE vs)
                                e == EndOf(L, h + 1)
                            IN SubSeq(L, 1, e) \o SubSeq(L, h, e) \o SubSeq(L, e + 1, Len(L))
       [] what = "local" -> IF v = 0 THEN L ELSE [ L EXCEPT ![v].n = IF One(s, 12, 3) /\ L[w].n.rk < 0 THEN Nm("TEMP", "TEMP", "temp", -1) ELSE L[w].n ]
       [] what = "std" -> put("standard_name", StdP(Sel(s, 13, SubSeq(Std, 1, 4))))
       [] what = "ref" -> IF v = 0 THEN L ELSE [ L EXCEPT ![v].n = Sel(s, 14, Refs) ]
       [] what = "name" -> put("name", Txt("name", Sel(s, 15, << "foo", "foo_run", "bar_run_2", "Foo", "other", "hostmod", "box_t", "" >>)))
       [] what = "type" -> put("type", Sel(s, 16, << Txt("type", "scheme"), Txt("type", "host"), Txt("type", "module"), Txt("type", "ddt"), Txt("type", "schem"),
                                                      Txt("type", "Scheme"), Txt("type", "") >>))
       [] what = "known" -> LET x == Some(s, 19, SelectSeq(key("type"), LAMBDA m : L[m].p[at(m, "type")].x \notin TabTypes))
                            IN IF x = 0 THEN L ELSE SetP(L, x, at(x, "type"), Sel(s, 20, << Bad("type", "foo_t"), P("type", "tile_type", << "tile_type" >>, << "ddt" >>), Bad("type", "char") >>))
       [] what = "none" -> Ins(L, i, Ln("prop", NoName, << P("dependencies", "None", << >>, << "none" >>) >>, 0))
       [] what = "pair" -> IF i = 0 THEN L ELSE [ L EXCEPT ![i].p = Append(@, [key |-> "", x |-> "", v |-> << >>, ok |-> FALSE, q |-> << "bar" >>]) ]
       [] what = "lit" -> put("default_value", LitP(Sel(s, 17, Lits)))
       [] what = "phase" -> put("module", Txt("module", "None"))
       [] what = "head" -> IF v = 0 THEN L ELSE SubSeq(L, 1, v - 1) \o << Ln(Sel(s, 18, << "sect", "table" >>), NoName, << >>, 0) >> \o SubSeq(L, v, Len(L))
       [] OTHER -> L

(* ------------------------------------------------------------ the reader *)
(* r.cur: the open block; r.done: closed blocks, each with what it means; r.bad: indices of the bad ones *)
NoBlock == [k |-> "top", n |-> NoName, ps |-> << >>, junk |-> FALSE, from |-> 0, tab |-> 0, sec |-> 0]
Keys(b) == [ i \in DOMAIN b.ps |-> b.ps[i].key ]
Has(b, k) == \E i \in DOMAIN b.ps : b.ps[i].key = k
Get(b, k) == b.ps[CHOOSE i \in DOMAIN b.ps : b.ps[i].key = k /\ \A j \in i + 1 .. Len(b.ps) : b.ps[j].key # k]
Val(b, k) == IF Has(b, k) THEN Get(b, k).v ELSE << >>
Text(b, k) == IF Has(b, k) THEN Get(b, k).x ELSE "(none)"
(* a key given twice has no meaning (nor has a type with components of its own type, see Close) *)
Twice(b) == \E i, j \in DOMAIN b.ps : i < j /\ b.ps[i].key = b.ps[j].key /\ b.ps[i].key # "dependencies"
Known(b, ks) == \A i \in DOMAIN b.ps : b.ps[i].key \in ks
DepsOK(b) == LET D == SelectSeq(b.ps, LAMBDA p : p.key = "dependencies")
             IN ~\E i, j \in DOMAIN D : D[i].q = << "none" >> /\ D[j].q = << "list" >> /\ (j > i \/ D[j].v # << >>)
Deps(b) == Flat([ i \in DOMAIN b.ps |-> IF b.ps[i].key = "dependencies" THEN b.ps[i].v ELSE << >> ])
Stripped == [ x \in { "foo" \o Phases[i] : i \in DOMAIN Phases } |-> "foo" ] @@ [ x \in { "bar_run_2" \o Phases[i] : i \in DOMAIN Phases } |-> "bar_run_2" ]
NameOf(x, ty) == IF ty = "scheme" /\ x \in DOMAIN Stripped THEN Stripped[x] ELSE x
TabSelf(b) == Known(b, TabKeys) /\ ~b.junk /\ Has(b, "name") /\ Text(b, "name") # "" /\ Text(b, "type") \in TabTypes /\ DepsOK(b)
SecSelf(b) == Known(b, SecKeys) /\ ~b.junk /\ Has(b, "name") /\ Has(b, "type") /\ Text(b, "module") # "None"
SecIn(b, t) == Text(b, "type") = Text(t, "type") /\ NameOf(Text(b, "name"), Text(b, "type")) = Text(t, "name")
               /\ (Has(b, "process") => Text(b, "type") = "scheme")
IsDdt(b) == Has(b, "type") /\ Get(b, "type").q = << "ddt" >>
LitOK(b) == Has(b, "default_value") =>
            LET q == Get(b, "default_value").q
                t == Text(b, "type")
                lt == IF Len(q) = 2 /\ q[1] = "double precision" THEN "real" ELSE IF Len(q) = 2 THEN q[1] ELSE ""
            IN Len(q) = 2 /\ lt = (IF t = "double precision" THEN "real" ELSE t) /\ q[2] = LitKind(t, IF Has(b, "kind") THEN Text(b, "kind") ELSE "")
VarSelf(b, ty, ddts) ==
  /\ Known(b, VarKeys) /\ ~b.junk
  /\ \A i \in DOMAIN b.ps : b.ps[i].ok
  /\ \A k \in Required(ty) : Has(b, k) \/ (k = "units" /\ IsDdt(b))
  /\ IF IsDdt(b) THEN Text(b, "type") \in ddts
     ELSE Text(b, "type") \in {"real", "integer", "logical", "character", "complex", "double precision"}
  /\ (Has(b, "protected") /\ Val(b, "protected") = << "T" >> /\ Has(b, "intent")) => Text(b, "intent") = "in"
  /\ ~(Has(b, "diagnostic_name") /\ Has(b, "diagnostic_name_fixed"))
  /\ LitOK(b)
  /\ b.n.rk >= 0 => Len(Val(b, "dimensions")) = b.n.rk
Defaults == [ k \in VarKeys |-> CASE k \in Bools -> << "F" >> [] k = "persistence" -> << "timestep" >> [] k = "active" -> << ".true." >>
                                  [] k = "molar_mass" -> << "0.0" >> [] k = "intent" -> << "(none)" >> [] OTHER -> << "" >> ]
VarVal(b, k) == IF k = "kind" /\ IsDdt(b) THEN Val(b, "type")
                ELSE IF Has(b, k) THEN Val(b, k)
                ELSE IF k = "long_name" THEN Get(b, "standard_name").q
                ELSE IF k = "kind" /\ Text(b, "type") \in {"real", "complex", "double precision"} THEN << "kind_phys" >>
                ELSE Defaults[k]
VarMeans(b) == [n |-> b.n.c, ps |-> [ k \in VarKeys |-> VarVal(b, k) ]]

Close(R) ==                        \* judge the open block with what has been read
  LET b == R.cur
      t == R.tab                   \* the header of the table, of the section
      x == R.sec
      ok == CASE b.k = "top" -> ~b.junk /\ b.ps = << >>
              [] b.k = "table" -> TabSelf(b) /\ Text(b, "name") \notin R.tabs
              [] b.k = "sect" -> SecSelf(b) /\ t # NoBlock /\ SecIn(b, t) /\ (Text(t, "type") # "scheme" => R.nsec = 0)
              [] OTHER -> /\ x # NoBlock /\ VarSelf(b, Text(x, "type"), R.ddts)
                          /\ Val(b, "standard_name") \notin R.stds /\ b.n.l \notin R.locs
      R1 == [ R EXCEPT !.bad = IF ok THEN @ ELSE @ \cup {Len(R.done) + 1},
                       !.any = @ \/ (b.k # "top" /\ Twice(b)) \/ (b.k = "var" /\ IsDdt(b) /\ Text(b, "type") = Text(t, "name")), !.done = Append(@, b) ]
  IN CASE b.k = "table" -> [ R1 EXCEPT !.tab = b, !.sec = NoBlock, !.nsec = 0, !.tabs = @ \cup {Text(b, "name")},
                                       !.ddts = IF Text(b, "type") = "ddt" THEN @ \cup {Text(b, "name")} ELSE @,
                                       !.out = Append(@, [n |-> Text(b, "name"), t |-> Text(b, "type"), d |-> Deps(b),
                                                          p |-> IF Has(b, "relative_path") THEN Text(b, "relative_path") ELSE "", s |-> << >>]) ]
       [] b.k = "sect" -> [ R1 EXCEPT !.sec = b, !.nsec = @ + 1, !.stds = {}, !.locs = {},
                                      !.out = IF t = NoBlock THEN @ ELSE [ @ EXCEPT ![Len(@)].s = Append(@, [n |-> Text(b, "name"), t |-> Text(b, "type"),
                                                 m |-> IF Has(b, "module") THEN Text(b, "module") ELSE "(file)",
                                                 p |-> IF Has(b, "process") THEN Text(b, "process") ELSE "UNKNOWN", v |-> << >>]) ] ]
       [] b.k = "var" -> [ R1 EXCEPT !.stds = @ \cup {Val(b, "standard_name")}, !.locs = @ \cup {b.n.l},
                                     !.out = IF ok /\ t # NoBlock THEN [ @ EXCEPT ![Len(@)].s[Len(@[Len(@)].s)].v = Append(@, VarMeans(b)) ] ELSE @ ]
       [] OTHER -> R1
Open(R, l, i) == [ R EXCEPT !.cur = [k |-> l.k, n |-> l.n, ps |-> << >>, junk |-> FALSE, from |-> i, tab |-> 0, sec |-> 0] ]
ReadLine(R, l, i) ==
  CASE l.k = "note" -> R
    [] l.k = "junk" -> [ R EXCEPT !.cur.junk = TRUE ]
    [] l.k = "prop" -> [ R EXCEPT !.cur.ps = @ \o SelectSeq(l.p, LAMBDA p : p.q # << "bar" >>), !.cur.junk = @ \/ \E j \in DOMAIN l.p : l.p[j].q = << "bar" >> ]
    [] OTHER -> Open(Close(R), l, i)
R0 == [cur |-> NoBlock, done |-> << >>, bad |-> {}, any |-> FALSE, tab |-> NoBlock, sec |-> NoBlock, nsec |-> 0, tabs |-> {}, ddts |-> {}, stds |-> {}, locs |-> {}, out |-> << >>]

(* ------------------------------------------------------------ behaviour *)
Rnd(n) == {RandomElement(1 .. n)}
Init == seed = 0 /\ file = << >> /\ lines = << >> /\ cur = 1 /\ r = R0 /\ stage = "draw"
Draw == stage = "draw" /\ \E s \in Rnd(46336) : \E F \in {DrawFile(Mix(s, 5))} :
        seed' = s /\ file' = F /\ lines' = WriteFile(Mix(s, 6), F) /\ stage' = "damage" /\ UNCHANGED <<cur, r>>
DamageStep ==
  /\ stage = "damage"
  /\ \E k \in {Sel(seed, 7, << 0, 0, 1, 1, 1, 1, 2 >>)} :
     \E L1 \in {IF k >= 1 THEN Damage(Mix(seed, 11), lines, Sel(seed, 12, Damages)) ELSE lines} :
     \E L2 \in {IF k >= 2 THEN Damage(Mix(seed, 13), L1, Sel(seed, 14, Damages)) ELSE L1} :
        lines' = L2
  /\ stage' = "read" /\ UNCHANGED <<seed, file, cur, r>>
Read == stage = "read" /\ cur <= Len(lines) /\ r' = ReadLine(r, lines[cur], cur) /\ cur' = cur + 1 /\ UNCHANGED <<seed, file, lines, stage>>
End == stage = "read" /\ cur > Len(lines) /\ r' = Close(r) /\ stage' = "done" /\ UNCHANGED <<seed, file, lines, cur>>
Next == Draw \/ DamageStep \/ Read \/ End

(* ------------------------------------------------------------ properties *)
(* the file that was drawn, as it should be read *)
Drawn(F) == [ i \in DOMAIN F |->
   LET tb == [NoBlock EXCEPT !.ps = F[i].ps] IN
   [n |-> Text(tb, "name"), t |-> Text(tb, "type"), d |-> Deps(tb), p |-> IF Has(tb, "relative_path") THEN Text(tb, "relative_path") ELSE "",
    s |-> [ j \in DOMAIN F[i].secs |-> LET sb == [NoBlock EXCEPT !.ps = F[i].secs[j].ps] IN
       [n |-> Text(sb, "name"), t |-> Text(sb, "type"), m |-> IF Has(sb, "module") THEN Text(sb, "module") ELSE "(file)",
        p |-> IF Has(sb, "process") THEN Text(sb, "process") ELSE "UNKNOWN",
        v |-> [ k \in DOMAIN F[i].secs[j].vs |-> VarMeans([NoBlock EXCEPT !.ps = F[i].secs[j].vs[k].ps, !.n = F[i].secs[j].vs[k].n]) ]] ]] ]
Sorted(q) == [ i \in DOMAIN q |-> [ q[i] EXCEPT !.d = Range(@) ] ]     \* properties may come in any order
Undamaged == stage = "done" /\ Sel(seed, 7, << 0, 0, 1, 1, 1, 1, 2 >>) = 0
ReadBack == Undamaged => r.bad = {} /\ ~r.any /\ Sorted(r.out) = Sorted(Drawn(file))
(* well-formedness, of the whole file *)
Blk(i) == r.done[i]
TabAt(i) == { j \in 1 .. i - 1 : Blk(j).k = "table" /\ \A m \in j + 1 .. i - 1 : Blk(m).k # "table" }
SecAt(i) == { j \in 1 .. i - 1 : Blk(j).k = "sect" /\ \A m \in j + 1 .. i - 1 : Blk(m).k \notin {"table", "sect"} }
Siblings(i) == { j \in 1 .. Len(r.done) : j # i /\ Blk(j).k = "var" /\ Blk(i).k = "var" /\ SecAt(i) = SecAt(j) }
WellFormed ==
  \A i \in 1 .. Len(r.done) :
    CASE Blk(i).k = "top" -> ~Blk(i).junk /\ Blk(i).ps = << >>
      [] Blk(i).k = "table" -> TabSelf(Blk(i)) /\ \A j \in 1 .. Len(r.done) : (j # i /\ Blk(j).k = "table") => Text(Blk(j), "name") # Text(Blk(i), "name")
      [] Blk(i).k = "sect" -> SecSelf(Blk(i)) /\ \E t \in TabAt(i) : SecIn(Blk(i), Blk(t))
                                 /\ (Text(Blk(t), "type") # "scheme" => ~\E j \in t + 1 .. i - 1 : Blk(j).k = "sect")
      [] OTHER -> \E x \in SecAt(i) : /\ VarSelf(Blk(i), Text(Blk(x), "type"), { Text(Blk(j), "name") : j \in { m \in 1 .. i : Blk(m).k = "table" /\ Text(Blk(m), "type") = "ddt" } })
                                      /\ \A j \in Siblings(i) : Val(Blk(j), "standard_name") # Val(Blk(i), "standard_name") /\ Blk(j).n.l # Blk(i).n.l
Verdict == stage = "done" => (r.bad = {} <=> WellFormed)
Quiet == [ i \in DOMAIN lines |-> lines[i].k ]
(* the lines where an error may be reported: the block, the header after it; for a section, all of it *)
After(i) == { j \in i + 1 .. Len(r.done) : r.done[i].k = "sect" => r.done[j].k # "var" }
Ranges == { << r.done[i].from, IF After(i) = {} THEN Len(lines) + 1 ELSE r.done[CHOOSE j \in After(i) : \A m \in After(i) : j <= m].from >> : i \in r.bad }
Emit == stage = "done" => PrintT("@@" \o ToJson([lines |-> lines, any |-> r.any, bad |-> Ranges, out |-> IF r.bad = {} THEN r.out ELSE << >>]))
===============================================================================
