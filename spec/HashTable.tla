------------------------------ MODULE HashTable ------------------------------
(* A map from keys to object identities with the life cycle of the run-time  *)
(* hash table, and an iterator over it.  Iteration order is unspecified: the *)
(* responses of the iterator are nondeterministic choices among the keys not *)
(* yet visited.  The iterator is only usable while the table is unchanged.   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Keys, Ids, ErrAbsent  \* ErrAbsent: operations may omit the error argument

None == 0

VARIABLES
  init,     \* is the table initialized
  map,      \* [Keys -> Ids \cup {None}]
  it,       \* "dead" | "live" | "done": is the iterator usable
  cur,      \* current key of a live iterator (or "none")
  vis,      \* keys already visited by the iterator, cur included
  act, res  \* last input and response (hidden by the VIEW)

vars == <<init, map, it, cur, vis, act, res>>
view == <<init, map, it, cur, vis>>

Present == {k \in Keys : map[k] # None}
Empty == [k \in Keys |-> None]

Init ==
  /\ init = FALSE /\ map = Empty
  /\ it = "dead" /\ cur = "none" /\ vis = {}
  /\ act = [op |-> "start"] /\ res = [ok |-> TRUE]

Kill == it' = "dead" /\ cur' = "none" /\ vis' = {}
KeepIt == UNCHANGED <<it, cur, vis>>
A(o) == act' = [op |-> o]
AK(o, k) == act' = [op |-> o, key |-> k]

Initialize ==
  /\ init' = TRUE /\ map' = Empty /\ Kill
  /\ A("init") /\ res' = [inited |-> TRUE, n |-> 0]

Clear ==
  /\ init' = FALSE /\ map' = Empty /\ Kill
  /\ A("clear") /\ res' = [inited |-> FALSE, n |-> 0]

\* Adding an object: the key must be new and the table initialized
Add(k, i) ==
  /\ act' = [op |-> "add", key |-> k, id |-> i]
  /\ IF init /\ map[k] = None
     THEN map' = [map EXCEPT ![k] = i] /\ Kill /\ res' = [err |-> FALSE]
     ELSE UNCHANGED map /\ KeepIt /\ res' = [err |-> TRUE]
  /\ UNCHANGED init

\* the same without an error argument: a duplicate is silently ignored
AddQ(k, i) ==
  /\ ErrAbsent /\ init
  /\ act' = [op |-> "addq", key |-> k, id |-> i]
  /\ IF map[k] = None
     THEN map' = [map EXCEPT ![k] = i] /\ Kill
     ELSE UNCHANGED map /\ KeepIt
  /\ res' = [err |-> FALSE]
  /\ UNCHANGED init

Lookup(k) ==
  /\ AK("get", k)
  /\ res' = [found |-> map[k] # None, id |-> map[k], err |-> map[k] = None]
  /\ UNCHANGED <<init, map>> /\ KeepIt

LookupQ(k) ==
  /\ ErrAbsent /\ init
  /\ AK("getq", k)
  /\ res' = [found |-> map[k] # None, id |-> map[k], err |-> FALSE]
  /\ UNCHANGED <<init, map>> /\ KeepIt

Num ==
  /\ A("num")
  /\ res' = [inited |-> init, n |-> Cardinality(Present)]
  /\ UNCHANGED <<init, map>> /\ KeepIt

ItInit ==
  /\ A("itinit") /\ UNCHANGED <<init, map>>
  /\ \/ /\ Present = {}
        /\ it' = "done" /\ cur' = "none" /\ vis' = {}
        /\ res' = [valid |-> FALSE, key |-> "", id |-> None]
     \/ \E k \in Present :
        /\ it' = "live" /\ cur' = k /\ vis' = {k}
        /\ res' = [valid |-> TRUE, key |-> k, id |-> map[k]]

ItNext ==
  /\ it # "dead"
  /\ A("itnext") /\ UNCHANGED <<init, map>>
  /\ \/ /\ Present \ vis = {} \/ it = "done"
        /\ it' = "done" /\ cur' = "none" /\ vis' = {}
        /\ res' = [valid |-> FALSE, key |-> "", id |-> None]
     \/ /\ it = "live"
        /\ \E k \in Present \ vis :
           /\ it' = "live" /\ cur' = k /\ vis' = vis \cup {k}
           /\ res' = [valid |-> TRUE, key |-> k, id |-> map[k]]

Next ==
  \/ Initialize \/ Clear \/ Num \/ ItInit \/ ItNext
  \/ \E k \in Keys : Lookup(k) \/ LookupQ(k) \/ \E i \in Ids : Add(k, i) \/ AddQ(k, i)

Spec == Init /\ [][Next]_vars

(* ---- properties of the design ---- *)
TypeOK == /\ init \in BOOLEAN /\ map \in [Keys -> Ids \cup {None}]
          /\ it \in {"dead", "live", "done"} /\ vis \subseteq Keys
UninitIsEmpty == ~init => map = Empty
IterSound == it = "live" => cur \in vis /\ vis \subseteq Present
\* no stored object is ever lost or replaced except by clear / initialize
NoLoss == [][\A k \in Keys : map[k] # None =>
               (map'[k] = map[k] \/ act'.op \in {"init", "clear"})]_vars
\* an erroneous operation changes nothing
ErrNoChange == [][("err" \in DOMAIN res' /\ res'.err) => (map' = map /\ init' = init)]_vars

St(i, m, t, c, v) == [init |-> i, map |-> m, it |-> t, cur |-> c, vis |-> v]
Emit == PrintT("@@" \o ToJson([f |-> St(init, map, it, cur, vis), a |-> act', r |-> res',
                               t |-> St(init', map', it', cur', vis')]))
=============================================================================
