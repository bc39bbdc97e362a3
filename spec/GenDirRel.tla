----------------------------- MODULE GenDirRel -----------------------------
(* What a command of a generator may do to the directory it writes to (C10,   *)
(* C21).  A directory is a function from the files that exist to              *)
(* [c |-> content, t |-> touched by the last command].  fresh is what a       *)
(* generation into an empty directory would write: file -> content.           *)
(* gen: files that are or once were generated; user: files of the user.       *)
(* up[f]: files whose rewriting entitles the generator to rewrite f as well;  *)
(* always: files that are written anew every time.                            *)
EXTENDS Naturals, FiniteSets

Has(d, f) == f \in DOMAIN d
SameFile(d, e, f) == Has(d, f) = Has(e, f) /\ (Has(d, f) => d[f].c = e[f].c)
Untouched(d, e, f) == SameFile(d, e, f) /\ (Has(e, f) => ~e[f].t)
UpOf(up, f) == IF f \in DOMAIN up THEN up[f] ELSE {}

\* files of the user and stale generated files stay as they are; only left-overs
\* of interrupted commands may go, and nothing appears that a fresh run lacks
RunOK(d, e, fresh, gen, user, up, always, force) ==
  { f \in DOMAIN fresh :
      \/ ~Has(e, f)
      \/ Has(e, f) /\ e[f].c # fresh[f]
      \/ Has(e, f) /\ e[f].t /\ Has(d, f) /\ d[f].c = fresh[f] /\ ~force /\ f \notin always
         /\ ~\E g \in UpOf(up, f) : Has(e, g) /\ e[g].t }
  \cup { f \in (gen \cup user) \ DOMAIN fresh : ~Untouched(d, e, f) }
  \cup { f \in DOMAIN e \ (DOMAIN fresh \cup gen \cup user) : ~Has(d, f) }

\* a generation that fails: the user's files stay; a staging generator changes nothing it generated before
FailOK(d, e, fresh, gen, user, staging) ==
  { f \in user : ~Untouched(d, e, f) }
  \cup (IF staging THEN { f \in gen : ~Untouched(d, e, f) } ELSE {})

\* a generation that is killed: with staging each file is the old or the new one, whole
KillOK(d, e, fresh, gen, user, staging, always) ==
  { f \in user : ~Untouched(d, e, f) }
  \cup (IF staging THEN { f \in (gen \cup DOMAIN fresh) \ always :
                           ~(SameFile(d, e, f) \/ (f \in DOMAIN fresh /\ Has(e, f) /\ e[f].c = fresh[f])) }
        ELSE {})

\* cleaning: every file of the last complete generation goes, the user's files stay, nothing appears
CleanOK(d, e, last, user) ==
  { f \in user : ~Untouched(d, e, f) }
  \cup { f \in last : Has(e, f) }
  \cup { f \in DOMAIN e : ~Has(d, f) \/ d[f].c # e[f].c }
=============================================================================
