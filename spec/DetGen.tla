------------------------------- MODULE DetGen -------------------------------
(* Why a generation is a function of its inputs (C09).  Two copies of one     *)
(* generator (A and B) read the same files, B possibly in another order, in   *)
(* different environments: the order in which a set is iterated (hash seed)   *)
(* and in which a directory is listed is up to the environment.  Both collect *)
(* names and write one line per name.                                         *)
(* STRATEGY says how the names are kept: "first" (in order of appearance,     *)
(* like dict), "sorted" or "set".                                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS STRATEGY, FILES, NAMES, PERMUTE, GLOB
VARIABLES content, ord, pc, got, out
vars == <<content, ord, pc, got, out>>
Copies == {"A", "B"}
Perms(S) == { p \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : p[i] = p[j] => i = j }
Less(a, b) == a < b
Sorted(S) == CHOOSE p \in Perms(S) : \A i, j \in 1..Cardinality(S) : i < j => Less(p[i], p[j])
Range(s) == { s[i] : i \in 1..Len(s) }
Init == /\ content \in [FILES -> SUBSET NAMES]
        /\ ord = [c \in Copies |-> << >>]
        /\ pc = [c \in Copies |-> "list"] /\ got = [c \in Copies |-> << >>] /\ out = [c \in Copies |-> << >>]
(* GLOB: "no" = the user lists the files; "listing" = a directory is expanded *)
(* in the order the system gives; "sorted" = expanded and sorted              *)
List(c) == /\ pc[c] = "list" /\ (c = "A" \/ pc["A"] # "list")
           /\ \E p \in Perms(FILES) :
                /\ (GLOB = "no" /\ c = "B" /\ ~PERMUTE) => p = ord["A"]
                /\ GLOB = "sorted" => p = Sorted(FILES)
                /\ ord' = [ord EXCEPT ![c] = p]
           /\ pc' = [pc EXCEPT ![c] = "read"] /\ UNCHANGED <<content, got, out>>
RECURSIVE AddAll(_, _)
AddAll(s, new) == IF new = << >> THEN s
                  ELSE AddAll(IF Head(new) \in Range(s) THEN s ELSE Append(s, Head(new)), Tail(new))
Read(c) == /\ pc[c] = "read"
           /\ IF ord[c] = << >> THEN pc' = [pc EXCEPT ![c] = "write"] /\ UNCHANGED <<ord, got>>
              ELSE /\ got' = [got EXCEPT ![c] = AddAll(@, Sorted(content[Head(ord[c])]))]
                   /\ ord' = [ord EXCEPT ![c] = Tail(@)] /\ UNCHANGED pc
           /\ UNCHANGED <<content, out>>
Write(c) == /\ pc[c] = "write" /\ pc' = [pc EXCEPT ![c] = "done"]
            /\ \E p \in Perms(Range(got[c])) :
                 /\ STRATEGY = "sorted" => p = Sorted(Range(got[c]))
                 /\ STRATEGY = "first" => p = got[c]
                 /\ out' = [out EXCEPT ![c] = p]
            /\ UNCHANGED <<content, ord, got>>
Next == \E c \in Copies : List(c) \/ Read(c) \/ Write(c)
Done == \A c \in Copies : pc[c] = "done"
SameBytes == (Done /\ ~PERMUTE) => out["A"] = out["B"]
SameMeaning == Done => Range(out["A"]) = Range(out["B"])
=============================================================================
