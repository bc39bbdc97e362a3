------------------------------ MODULE ConstProp ------------------------------
(* Two constituent property objects and one pointer object over them, with    *)
(* every public operation.  Deterministic; explored by random simulation      *)
(* (argument combinations drawn by RandomElement) and, with small argument    *)
(* sets, exhaustively.                                                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS D  \* length of a behaviour

Nm == {"plain", "vol", "num", "moist", "wet", "volwet", "numvol", "plain2"}
KindOf(n) == IF n \in {"vol", "volwet", "numvol"} THEN "volume"
             ELSE IF n = "num" THEN "number" ELSE "mass"
WetOf(n) == IF n \in {"wet", "volwet"} THEN "wet" ELSE IF n = "moist" THEN "moist" ELSE "dry"
Verts == {"layer", "interface", "2d", "other"}
Lg == {"-", "T", "F"}        \* optional logical argument ("-" absent)
Nv == 0..3                   \* optional value argument (0: absent)
MrTypes == {"-", "wet", "moist", "dry", "bad"}

Blank == [inst |-> FALSE, name |-> "", long |-> 0, units |-> "", vert |-> "", adv |-> FALSE,
          thermo |-> FALSE, water |-> FALSE, kind |-> "", wet |-> "", min |-> 0, mol |-> 0, def |-> 0, idx |-> 0]

VARIABLES o, ptr, hist
vars == <<o, ptr, hist>>

Init == o = [i \in 1..2 |-> Blank] /\ ptr = 0 /\ hist = <<>>

Log(a, r) == hist' = Append(hist, [a |-> a, r |-> r, o |-> o', p |-> ptr'])
Obj == 1..2
R(S) == {RandomElement(S)}

Instantiate ==
  \E i \in R(Obj), n \in R(Nm), lg \in R(1..2), un \in R({"u1", "u2"}), v \in R(Verts), adv \in R(Lg),
     df \in R(Nv), mn \in R(Nv), ml \in R(Nv), wa \in R(Lg), mr \in R(MrTypes) :
    LET a == [op |-> "inst", i |-> i, name |-> n, long |-> lg, units |-> un, vert |-> v, adv |-> adv,
              def |-> df, min |-> mn, mol |-> ml, water |-> wa, mr |-> mr]
    IN IF o[i].inst THEN UNCHANGED <<o, ptr>> /\ Log(a, [err |-> TRUE])
       ELSE IF mr = "bad" THEN UNCHANGED <<o, ptr>> /\ Log(a, [err |-> TRUE])
       ELSE /\ o' = [o EXCEPT ![i] = [inst |-> TRUE, name |-> n, long |-> lg, units |-> un, vert |-> v,
                       adv |-> adv = "T", thermo |-> FALSE, water |-> wa = "T", kind |-> KindOf(n),
                       wet |-> IF mr = "-" THEN WetOf(n) ELSE mr, min |-> mn, mol |-> ml, def |-> df, idx |-> 0]]
            /\ UNCHANGED ptr /\ Log(a, [err |-> FALSE])

Dealloc == \E i \in R(Obj) : o' = [o EXCEPT ![i] = Blank] /\ UNCHANGED ptr
                             /\ Log([op |-> "dealloc", i |-> i], [err |-> FALSE])

Upd(i, rec) == o' = [o EXCEPT ![i] = rec]
\* Setters, directly on the object (via = 0) or through the pointer (via = 1)
Target(via, i) == IF via = 0 THEN i ELSE ptr
Fails(via, i) == (via = 1 /\ ptr = 0) \/ ~o[Target(via, i)].inst
Setter(via, i, name, ok, rec, arg) ==
  LET a == [op |-> name, via |-> via, i |-> i, arg |-> arg] IN
  IF ok THEN o' = [o EXCEPT ![Target(via, i)] = rec] /\ UNCHANGED ptr /\ Log(a, [err |-> FALSE])
        ELSE UNCHANGED <<o, ptr>> /\ Log(a, [err |-> TRUE])

Set == \E via \in R(0..1), i \in R(Obj), k \in R(1..3), b \in R(BOOLEAN), w \in R({"idx", "idx", "thermo", "water", "min", "mol"}) :
   LET f == Fails(via, i)
       t == IF f THEN Blank ELSE o[Target(via, i)]
   IN CASE w = "idx" -> Setter(via, i, "setidx", ~f /\ t.idx = 0, [t EXCEPT !.idx = k], k)
        [] w = "thermo" -> Setter(via, i, "setthermo", ~f, [t EXCEPT !.thermo = b], IF b THEN 1 ELSE 0)
        [] w = "water" -> Setter(via, i, "setwater", ~f, [t EXCEPT !.water = b], IF b THEN 1 ELSE 0)
        [] w = "min" -> Setter(via, i, "setmin", ~f, [t EXCEPT !.min = k], k)
        [] OTHER -> Setter(via, i, "setmol", ~f, [t EXCEPT !.mol = k], k)

Copy == \E i \in R(Obj) : LET j == 3 - i IN
   o[i].inst /\ o' = [o EXCEPT ![j] = o[i]] /\ UNCHANGED ptr
   /\ Log([op |-> "copy", i |-> i, j |-> j], [err |-> FALSE])

\* equal in every descriptive property (the assigned index is not one)
Same(x, y) == x.inst /\ y.inst /\ [x EXCEPT !.idx = 0] = [y EXCEPT !.idx = 0]
Equiv == \E i \in R(Obj) : LET j == 3 - i IN
   UNCHANGED <<o, ptr>>
   /\ Log([op |-> "equiv", i |-> i, j |-> j], [err |-> ~(o[i].inst /\ o[j].inst), eq |-> Same(o[i], o[j])])

\* compatible: agree in advected, thermodynamically active, water species, units
Match == \E i \in R(Obj) : LET j == 3 - i IN
   o[1].inst /\ o[2].inst /\ UNCHANGED <<o, ptr>>
   /\ Log([op |-> "match", i |-> i, j |-> j],
          [eq |-> o[i].adv = o[j].adv /\ o[i].thermo = o[j].thermo /\ o[i].water = o[j].water
                  /\ o[i].units = o[j].units])

\* mutate exactly one descriptive property of a copy: equality must notice
CopyMutate == \E i \in R(Obj), w \in R({"thermo", "water", "min", "mol"}), k \in R(1..3) : LET j == 3 - i IN
   o[i].inst /\ UNCHANGED ptr
   /\ o' = [o EXCEPT ![j] = CASE w = "thermo" -> [o[i] EXCEPT !.thermo = ~@]
                               [] w = "water" -> [o[i] EXCEPT !.water = ~@]
                               [] w = "min" -> [o[i] EXCEPT !.min = k]
                               [] OTHER -> [o[i] EXCEPT !.mol = k]]
   /\ Log([op |-> "copymut", i |-> i, j |-> j, w |-> w, k |-> k,
           b |-> CASE w = "thermo" -> ~o[i].thermo [] w = "water" -> ~o[i].water [] OTHER -> FALSE],
          [eq |-> Same(o'[i], o'[j])])

\* instantiate both objects alike but for one argument, then compare
Twins == \E n \in R(Nm), w \in R({"none", "name", "long", "units", "vert", "adv", "def", "min", "mol", "water", "mr"}), v \in R(Verts),
            df \in R(Nv), mn \in R(Nv), ml \in R(Nv), adv \in R(Lg), wa \in R(Lg), mr \in R(MrTypes \ {"bad"}) :
   LET mk(q) == [inst |-> TRUE,
                 name |-> IF w = "name" /\ q THEN (IF n = "plain" THEN "plain2" ELSE "plain") ELSE n,
                 long |-> IF w = "long" /\ q THEN 2 ELSE 1,
                 units |-> IF w = "units" /\ q THEN "u2" ELSE "u1",
                 vert |-> IF w = "vert" /\ q THEN (IF v = "layer" THEN "2d" ELSE "layer") ELSE v,
                 adv |-> IF w = "adv" /\ q THEN adv # "T" ELSE adv = "T",
                 thermo |-> FALSE,
                 water |-> IF w = "water" /\ q THEN wa # "T" ELSE wa = "T",
                 kind |-> KindOf(IF w = "name" /\ q THEN (IF n = "plain" THEN "plain2" ELSE "plain") ELSE n),
                 wet |-> LET m == IF mr = "-" THEN WetOf(n) ELSE mr IN
                         IF w = "mr" /\ q THEN (IF m = "wet" THEN "dry" ELSE "wet") ELSE m,
                 min |-> IF w = "min" /\ q THEN (mn + 1) % 4 ELSE mn,
                 mol |-> IF w = "mol" /\ q THEN (ml + 1) % 4 ELSE ml,
                 def |-> IF w = "def" /\ q THEN (df + 1) % 4 ELSE df,
                 idx |-> 0]
   IN /\ o' = [i \in Obj |-> mk(i = 2)] /\ UNCHANGED ptr
      /\ Log([op |-> "twins"], [eq |-> Same(o'[1], o'[2]),
              ma |-> o'[1].adv = o'[2].adv /\ o'[1].water = o'[2].water /\ o'[1].units = o'[2].units])

PSet == \E i \in R(Obj), e \in R({0, 1}) :
   LET a == [op |-> "pset", i |-> i, e |-> e] IN
   IF ptr = 0 THEN ptr' = i /\ UNCHANGED o /\ Log(a, [err |-> FALSE])
   ELSE UNCHANGED <<o, ptr>> /\ Log(a, [err |-> e = 1])
\* e = 0: the error argument is not passed
PFree == /\ o' = (IF ptr = 0 THEN o ELSE [o EXCEPT ![ptr] = Blank])
         /\ ptr' = 0 /\ Log([op |-> "pfree", i |-> ptr], [err |-> FALSE])

Next == /\ Len(hist) < D
        /\ \E w \in R({"inst", "inst", "inst", "dealloc", "set", "set", "set", "copy", "equiv", "match",
                       "copymut", "twins", "pset", "pfree"}) :
           CASE w = "inst" -> Instantiate [] w = "dealloc" -> Dealloc [] w = "set" -> Set
             [] w = "copy" -> IF o[1].inst /\ o[2].inst THEN Copy ELSE Instantiate
             [] w = "equiv" -> Equiv
             [] w = "match" -> IF o[1].inst /\ o[2].inst THEN Match ELSE Instantiate
             [] w = "copymut" -> IF o[1].inst /\ o[2].inst THEN CopyMutate ELSE Instantiate
             [] w = "twins" -> Twins [] w = "pset" -> PSet [] OTHER -> PFree

Spec == Init /\ [][Next]_vars

TypeOK == ptr \in 0..2 /\ \A i \in Obj : o[i].inst \in BOOLEAN /\ (~o[i].inst => o[i] = Blank)
KindSound == \A i \in Obj : o[i].inst => o[i].kind \in {"mass", "volume", "number"} /\ o[i].wet \in {"dry", "moist", "wet"}
\* rejected operations change nothing; an index once set stays
ErrSafe == [][(Len(hist') > Len(hist) /\ "err" \in DOMAIN hist'[Len(hist')].r /\ hist'[Len(hist')].r.err) => UNCHANGED <<o, ptr>>]_vars
Emit == Len(hist) < D \/ PrintT("@@" \o ToJson(hist))
=============================================================================
