------------------------------- MODULE GenDir -------------------------------
(* How the generators maintain their output directory, file operation by file *)
(* operation, with crashes between any two of them (C10, C21).  An input is a *)
(* set of bits; Bits[f] are the bits the content of f depends on.             *)
(* Style[f]: "cmp"   write next to it, compare, remove, rename (prebuild)     *)
(*           "stage" write to a staging area; replaced in one step (capgen)   *)
(*           "always" rewritten in place                                      *)
(* Checked for every history: each command that completes is one that         *)
(* GenDirRel allows, so that in particular a completed run leaves exactly     *)
(* what a fresh run would have written, whatever happened before.             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, GenDirRel

CONSTANTS Order,      \* sequence of files in the order they are written
          Bits, Up, Style, NBITS, STAGING

Files == { Order[i] : i \in 1..Len(Order) }
User == {"readme"}
VARIABLES inp, broken, disk, run, last
vars == <<inp, broken, disk, run, last>>
\* run: [at |-> index of the file, sub |-> step within it, from |-> disk at the start, force]; at = 0: idle
Idle == [at |-> 0, sub |-> 0, from |-> << >>, force |-> FALSE, fail |-> 99]

Content(f) == Bits[f] \cap inp
Fresh == [f \in Files |-> Content(f)]
Always == { f \in Files : Style[f] = "always" }
Put(d, f, c) == [g \in DOMAIN d \cup {f} |-> IF g = f THEN [c |-> c, t |-> TRUE] ELSE d[g]]
Del(d, f) == [g \in DOMAIN d \ {f} |-> d[g]]
Calm(d) == [g \in DOMAIN d |-> [c |-> d[g].c, t |-> FALSE]]

Init == /\ inp \in SUBSET (1..NBITS) /\ broken = FALSE /\ run = Idle /\ last = {}
        /\ disk = [f \in User |-> [c |-> {}, t |-> FALSE]]

Edit == run = Idle /\ \E b \in 1..NBITS : inp' = (inp \ {b}) \cup ({b} \ inp) /\ UNCHANGED <<broken, disk, run, last>>
Break == run = Idle /\ broken' = ~broken /\ UNCHANGED <<inp, disk, run, last>>
Lose == /\ run = Idle /\ \E f \in Files \cap DOMAIN disk : disk' = Del(disk, f)
        /\ last' = {} /\ UNCHANGED <<inp, broken, run>>

Begin == /\ run = Idle
         /\ \E fc \in IF STAGING THEN BOOLEAN ELSE {FALSE} : \E p \in IF broken THEN 1..(IF STAGING THEN 1 ELSE Len(Order)) ELSE {99} :
              run' = [at |-> 1, sub |-> 0, from |-> disk, force |-> fc, fail |-> p]
         /\ disk' = Calm(disk)
         /\ UNCHANGED <<inp, broken, last>>

F == Order[run.at]
Forced == run.force \/ ~Has(disk, F) \/ \E g \in Up[F] : Has(disk, g) /\ disk[g].t
Next1 == [run EXCEPT !.at = @ + 1, !.sub = 0]
WriteStep ==
  /\ run.at \in 1..Len(Order) /\ run.at # run.fail
  /\ \/ /\ run.sub = 0 /\ (Style[F] = "always" \/ (Style[F] = "cmp" /\ Forced))   \* in place: partial ...
        /\ disk' = Put(disk, F, {0}) /\ run' = [run EXCEPT !.sub = 1]
     \/ /\ run.sub = 1                                                          \* ... then complete
        /\ disk' = Put(disk, F, Content(F)) /\ run' = Next1
     \/ /\ run.sub = 0 /\ Style[F] = "cmp" /\ ~Forced                            \* compare
        /\ IF disk[F].c = Content(F) THEN run' = Next1 /\ disk' = disk
           ELSE run' = [run EXCEPT !.sub = 2] /\ disk' = Del(disk, F)            \* different: remove ...
     \/ /\ run.sub = 2                                                          \* ... and rename
        /\ disk' = Put(disk, F, Content(F)) /\ run' = Next1
     \/ /\ run.sub = 0 /\ Style[F] = "stage"
        /\ run' = Next1
        /\ disk' = IF Has(disk, F) /\ disk[F].c = Content(F) /\ ~run.force THEN disk ELSE Put(disk, F, Content(F))
  /\ UNCHANGED <<inp, broken, last>>

Done == /\ run.at = Len(Order) + 1 /\ run' = Idle /\ last' = Files /\ UNCHANGED <<inp, broken, disk>>
Fail == /\ run.at = run.fail /\ run' = Idle /\ last' = (IF STAGING THEN last ELSE {}) /\ UNCHANGED <<inp, broken, disk>>
Kill == /\ run.at > 0 /\ run' = Idle /\ last' = {} /\ UNCHANGED <<inp, broken, disk>>
Clean == /\ run = Idle
         /\ disk' = Calm([f \in DOMAIN disk \ (IF STAGING THEN last ELSE Files) |-> disk[f]])
         /\ last' = {} /\ UNCHANGED <<inp, broken, run>>
Next == Edit \/ Break \/ Lose \/ Begin \/ WriteStep \/ Done \/ Fail \/ Kill \/ Clean
Spec == Init /\ [][Next]_vars

Converges == [][ Done => RunOK(run.from, disk, Fresh, Files, User, Up, Always, run.force) = {} ]_vars
FailsClean == [][ Fail => FailOK(run.from, disk, Fresh, Files, User, STAGING) = {} ]_vars
KillsClean == [][ Kill => KillOK(run.from, disk, Fresh, Files, User, STAGING, Always) = {} ]_vars
Cleans == [][ Clean => CleanOK(disk, disk', IF STAGING THEN last ELSE Files, User) = {} ]_vars
=============================================================================
