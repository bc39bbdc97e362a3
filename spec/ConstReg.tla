------------------------------ MODULE ConstReg ------------------------------
(* The model-constituents registry: registration, locking of the properties  *)
(* table, locking of the data, queries, gather (copy_in) / update (copy_out) *)
(* and reset.  The order of indices inside the advected and the non-advected *)
(* block is unspecified (nondeterministic), everything else is determined.   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS CatIds,     \* catalogue entries used in this configuration
          WithData,   \* include gather/update of field data
          Sizes       \* third-dimension sizes of arrays passed to copy_in/out

\* The catalogue of constituent definitions a client may try to register
Cat == [i \in 1..11 |->
  CASE i = 1  -> [n |-> "A", adv |-> TRUE,  thermo |-> FALSE, water |-> FALSE, units |-> "u1", def |-> 1, min |-> 0, layer |-> TRUE]
    [] i = 2  -> [n |-> "A", adv |-> TRUE,  thermo |-> FALSE, water |-> FALSE, units |-> "u1", def |-> 2, min |-> 5, layer |-> TRUE]
    [] i = 3  -> [n |-> "A", adv |-> FALSE, thermo |-> FALSE, water |-> FALSE, units |-> "u1", def |-> 1, min |-> 0, layer |-> TRUE]
    [] i = 4  -> [n |-> "A", adv |-> TRUE,  thermo |-> TRUE,  water |-> FALSE, units |-> "u1", def |-> 1, min |-> 0, layer |-> TRUE]
    [] i = 5  -> [n |-> "A", adv |-> TRUE,  thermo |-> FALSE, water |-> TRUE,  units |-> "u1", def |-> 1, min |-> 0, layer |-> TRUE]
    [] i = 6  -> [n |-> "A", adv |-> TRUE,  thermo |-> FALSE, water |-> FALSE, units |-> "u2", def |-> 1, min |-> 0, layer |-> TRUE]
    [] i = 7  -> [n |-> "B", adv |-> FALSE, thermo |-> FALSE, water |-> FALSE, units |-> "u1", def |-> 3, min |-> 1, layer |-> TRUE]
    [] i = 8  -> [n |-> "C", adv |-> TRUE,  thermo |-> TRUE,  water |-> TRUE,  units |-> "u1", def |-> 4, min |-> 2, layer |-> TRUE]
    [] i = 9  -> [n |-> "D", adv |-> FALSE, thermo |-> FALSE, water |-> TRUE,  units |-> "u1", def |-> 6, min |-> 0, layer |-> TRUE]
    [] i = 10 -> [n |-> "E", adv |-> FALSE, thermo |-> FALSE, water |-> FALSE, units |-> "u1", def |-> 0, min |-> 0, layer |-> FALSE]
    [] OTHER  -> [n |-> "F", adv |-> TRUE,  thermo |-> FALSE, water |-> FALSE, units |-> "u1", def |-> 7, min |-> 0, layer |-> TRUE]]

Names == {Cat[i].n : i \in CatIds}

\* Compatible duplicates are those that agree in the attributes the framework
\* documents for matching; the first registration is kept.
Compatible(i, j) == /\ Cat[i].adv = Cat[j].adv /\ Cat[i].thermo = Cat[j].thermo
                    /\ Cat[i].water = Cat[j].water /\ Cat[i].units = Cat[j].units

VARIABLES
  st,      \* "none" (not initialized) | "open" | "props" | "data"
  reg,     \* [Names -> CatIds \cup {0}]: registered definition
  idx,     \* sequence of names: index order once locked
  val,     \* [Names -> 0 (default) or token of the last update]
  act, res

vars == <<st, reg, idx, val, act, res>>
view == <<st, reg, idx, val>>

None == [n \in Names |-> 0]
Regd == {n \in Names : reg[n] # 0}
P(n) == Cat[reg[n]]

Tri == {"T", "F", "-"}   \* pattern on a flag: required true / false / absent
Pats == {<<"-", "-", "-">>, <<"T", "-", "-">>, <<"F", "-", "-">>, <<"-", "T", "-">>, <<"-", "F", "-">>,
         <<"-", "-", "T">>, <<"-", "-", "F">>, <<"T", "T", "F">>, <<"T", "-", "T">>, <<"F", "F", "F">>}
Fits(flag, t) == t = "-" \/ (t = "T") = flag
Match(n, p) == Fits(P(n).adv, p[1]) /\ Fits(P(n).thermo, p[2]) /\ Fits(P(n).water, p[3])

Perms(S) == {s \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => s[i] # s[j]}
Orders == LET a == {n \in Regd : P(n).adv} IN {x \o y : x \in Perms(a), y \in Perms(Regd \ a)}

Init == st = "none" /\ reg = None /\ idx = <<>> /\ val = None
        /\ act = [op |-> "start"] /\ res = [ok |-> TRUE]

Same == UNCHANGED <<st, reg, idx, val>>

InitTable == /\ act' = [op |-> "init"] /\ res' = [ok |-> TRUE]
             /\ st' = "open" /\ reg' = None /\ idx' = <<>> /\ val' = None

Reset == /\ act' = [op |-> "reset"] /\ res' = [ok |-> TRUE]
         /\ st' = "none" /\ reg' = None /\ idx' = <<>> /\ val' = None

NumLayer == Cardinality({n \in Regd : P(n).layer})
Status == /\ act' = [op |-> "status"]
          /\ res' = [props |-> st \in {"props", "data"}, data |-> st = "data", both |-> st = "data",
                     err |-> st = "none", nlay |-> NumLayer,
                     nadv |-> IF st \in {"props", "data"} THEN Cardinality({n \in Regd : P(n).adv}) ELSE 0,
                     fptr |-> st = "data", aptr |-> st = "data", pptr |-> st \in {"props", "data"}]
          /\ Same

OkAdd == /\ act' = [op |-> "okadd"] /\ res' = [ok |-> st = "open", err |-> st # "open"] /\ Same

Add(i) ==
  /\ act' = [op |-> "add", id |-> i]
  /\ IF st # "open"
     THEN res' = [err |-> TRUE] /\ Same
     ELSE IF reg[Cat[i].n] = 0
     THEN res' = [err |-> FALSE] /\ reg' = [reg EXCEPT ![Cat[i].n] = i] /\ UNCHANGED <<st, idx, val>>
     ELSE res' = [err |-> ~Compatible(reg[Cat[i].n], i)] /\ Same

Lock ==
  /\ act' = [op |-> "lock"]
  /\ IF st # "open" \/ \E n \in Regd : ~P(n).layer
     THEN res' = [err |-> TRUE, order |-> <<>>] /\ Same
     ELSE \E o \in Orders :
          /\ res' = [err |-> FALSE, order |-> o]
          /\ st' = "props" /\ idx' = o /\ UNCHANGED <<reg, val>>

LockData ==
  /\ act' = [op |-> "lockdata"]
  /\ IF st # "props" THEN res' = [err |-> TRUE] /\ Same
     ELSE res' = [err |-> FALSE] /\ st' = "data" /\ val' = None /\ UNCHANGED <<reg, idx>>

Locked == st \in {"props", "data"}

Num(p) == /\ act' = [op |-> "num", pat |-> p]
          /\ res' = [n |-> IF Locked THEN Cardinality({n \in Regd : Match(n, p)}) ELSE 0, err |-> st = "none"]
          /\ Same

Pos(n) == CHOOSE k \in 1..Len(idx) : idx[k] = n
Index(n) == /\ act' = [op |-> "index", name |-> n]
            /\ res' = [i |-> IF Locked /\ reg[n] # 0 THEN Pos(n) ELSE 0, err |-> st = "none"]
            /\ Same

\* metadata query: found definition (catalogue id) with its index
Meta(n) == /\ act' = [op |-> "meta", name |-> n]
           /\ res' = IF Locked /\ reg[n] # 0
                     THEN [err |-> FALSE, id |-> reg[n], i |-> Pos(n)]
                     ELSE [err |-> Locked \/ st = "none", id |-> 0, i |-> 0]
           /\ Same

\* properties and field data by index, through the host pointers
Props == /\ act' = [op |-> "props"]
         /\ res' = [list |-> IF Locked THEN [k \in 1..Len(idx) |-> reg[idx[k]]] ELSE <<>>]
         /\ Same

FVal(n) == IF val[n] = 0 THEN <<"def", P(n).def>> ELSE <<"val", val[n]>>
Fields == /\ act' = [op |-> "fields"]
          /\ res' = [list |-> IF st = "data" THEN [k \in 1..Len(idx) |-> FVal(idx[k])] ELSE <<>>,
                     mins |-> IF st = "data" THEN [k \in 1..Len(idx) |-> P(idx[k]).min] ELSE <<>>]
          /\ Same

Seln(p) == SelectSeq(idx, LAMBDA n : Match(n, p))

\* gather into an array with m slots of which the first ones are filled
CopyIn(p, m, lev) ==
  /\ st \in {"none", "open", "props", "data"}
  /\ act' = [op |-> "in", pat |-> p, m |-> m, lev |-> lev]
  /\ res' = IF st # "data" THEN [err |-> st = "none", list |-> <<>>]
            ELSE IF Seln(p) # <<>> /\ m > 0 /\ ~lev THEN [err |-> TRUE, list |-> <<>>]
            ELSE [err |-> Len(Seln(p)) > m,
                  list |-> [k \in 1..(IF Len(Seln(p)) > m THEN m ELSE Len(Seln(p))) |-> FVal(Seln(p)[k])]]
  /\ Same

\* update from an array whose slot k holds token b + k
CopyOut(p, m, b, lev) ==
  /\ act' = [op |-> "out", pat |-> p, m |-> m, b |-> b, lev |-> lev]
  /\ IF st # "data" THEN res' = [err |-> st = "none"] /\ Same
     ELSE LET s == Seln(p) IN
       IF s # <<>> /\ m > 0 /\ ~lev THEN res' = [err |-> TRUE] /\ Same
       ELSE /\ res' = [err |-> Len(s) > m]
            /\ val' = [n \in Names |->
                 IF \E k \in 1..Len(s) : s[k] = n /\ k <= m
                 THEN b + (CHOOSE k \in 1..Len(s) : s[k] = n) ELSE val[n]]
            /\ UNCHANGED <<st, reg, idx>>

\* host writes one constituent through the data pointer
Poke(n) == /\ st = "data" /\ reg[n] # 0
           /\ act' = [op |-> "poke", i |-> Pos(n)] /\ res' = [ok |-> TRUE]
           /\ val' = [val EXCEPT ![n] = 90] /\ UNCHANGED <<st, reg, idx>>

Next ==
  \/ InitTable \/ Reset \/ Status \/ OkAdd \/ Lock \/ LockData \/ Props
  \/ \E i \in CatIds : Add(i)
  \/ \E p \in Pats : Num(p)
  \/ \E n \in Names : Index(n) \/ Meta(n)
  \/ Fields
  \/ WithData /\ \/ \E p \in Pats, m \in Sizes : CopyIn(p, m, TRUE)
                 \/ \E p \in {<<"-", "-", "-">>, <<"T", "-", "-">>, <<"F", "-", "-">>, <<"-", "-", "T">>}, m \in Sizes :
                       CopyOut(p, m, 10, TRUE)
                 \/ CopyOut(<<"-", "-", "-">>, 4, 20, TRUE)
                 \/ CopyOut(<<"-", "-", "-">>, 4, 20, FALSE)
                 \/ CopyIn(<<"-", "-", "-">>, 4, FALSE)
                 \/ \E n \in Names : Poke(n)

Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ properties
IndexSound ==
  st \in {"props", "data"} =>
    /\ {idx[k] : k \in 1..Len(idx)} = Regd /\ Len(idx) = Cardinality(Regd)
    /\ \A j, k \in 1..Len(idx) : (P(idx[j]).adv /\ ~P(idx[k]).adv) => j < k
OpenHasNoIndex == st \in {"none", "open"} => idx = <<>>
UninitEmpty == st = "none" => Regd = {}
\* locked tables never change except by reset / re-initialization
LockedStable == [][(st \in {"props", "data"} /\ act'.op \notin {"reset", "init"}) => (reg' = reg /\ idx' = idx)]_vars
\* a registered definition is never replaced
FirstWins == [][act'.op \notin {"reset", "init"} => \A n \in Names : reg[n] # 0 => reg'[n] = reg[n]]_vars
ErrNoChange == [][("err" \in DOMAIN res' /\ res'.err /\ act'.op # "out") => UNCHANGED <<st, reg, idx, val>>]_vars
LockOrder == [][(st' = "data" /\ st # "data") => st = "props"]_vars

StR(s, r, i, v) == [st |-> s, reg |-> r, idx |-> i, val |-> v]
Emit == PrintT("@@" \o ToJson([f |-> StR(st, reg, idx, val), a |-> act', r |-> res', t |-> StR(st', reg', idx', val')]))
=============================================================================
