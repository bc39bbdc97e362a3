----------------------------- MODULE BuildLists -----------------------------
(* What prebuild tells build systems and readers (C28).  A behaviour draws    *)
(* host modules (types and kinds they define, variables, files they depend    *)
(* on), a pool of scheme files (one or two schemes each, with dependencies    *)
(* and arguments per entry point), suites, and which of them are wanted; then *)
(* it works through host modules, scheme files and the calls of the wanted    *)
(* suites one by one and collects the files to compile, the modules with      *)
(* types and kinds, the caps and the rows of the variable tables.  Invariant  *)
(* Declared: what has been collected is what a declarative definition says.   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

VARIABLES stage, hosts, pool, suites, opt, k, acc
vars == <<stage, hosts, pool, suites, opt, k, acc>>

R(S) == IF S = {} THEN {} ELSE { RandomElement(S) }
P(n) == RandomElement(1..100) <= n               \* true in n out of 100 draws
Some(S, n) == { x \in S : P(n) }

HNames == << "hd", "Mod_B", "third" >>
SNames == << "sc_a", "sc_b", "sc_run", "Sc_d", "sc_e", "sc_f" >>
Phases == { "init", "timestep_init", "run", "timestep_finalize", "finalize" }
Extra  == { "dep:a", "dep:b", "dep:c", "dep:d", "dep:e" }
Names  == { "v_one", "v_two", "air_temperature_of_x", "v_three", "w_of_y", "z2" }
Longs  == { "", "plain text", "ratio of a_b & c", "50% level", "x<y>z", "number (# kg-1)", "cost in $" }
Units  == { "1", "K", "m s-1", "kg kg-1", "count" }

HostFile(h) == "host:" \o h
PoolFile(f) == "file:" \o ToString(f)
VarDraw(n) == [n |-> n, l |-> RandomElement(Longs), u |-> RandomElement(Units), r |-> RandomElement(0..2),
               t |-> RandomElement({"real", "real", "integer", "logical", "character"}), d |-> P(40)]

Init == /\ stage = "host" /\ hosts = << >> /\ pool = << >> /\ suites = << >> /\ k = << >>
        /\ opt = [ns |-> "", named |-> TRUE, want |-> {}, flaw |-> ""]
        /\ acc = [files |-> {}, mods |-> {}, rows |-> {}, reqs |-> {}, sch |-> {}, used |-> {}, caps |-> {}]

Given == UNION { { v.n : v \in hosts[i].vars } : i \in DOMAIN hosts }
DrawHost ==
  /\ stage = "host"
  /\ IF hosts # << >> /\ (Len(hosts) = 3 \/ P(30)) THEN stage' = "pool" /\ UNCHANGED hosts
     ELSE /\ hosts' = Append(hosts,
               [m |-> HNames[Len(hosts) + 1], sub |-> P(40), ty |-> P(50), kd |-> RandomElement({"no", "no", "kind", "kind", "count", "real"}),
                rel |-> P(40), dep |-> Some(Extra, 15),
                vars |-> { VarDraw(n) : n \in Some(Names \ Given, 50) }])
          /\ UNCHANGED stage
  /\ UNCHANGED <<pool, suites, opt, k, acc>>

Drawn == UNION { { pool[f].s[j].c : j \in DOMAIN pool[f].s } : f \in DOMAIN pool }
One(c) == [c |-> c, dep |-> Some(Extra, 20) \cup { HostFile(hosts[i].m) : i \in Some(DOMAIN hosts, 15) }
                            \cup { PoolFile(f) : f \in Some(1..4, 10) },
           ent |-> LET Q == { e \in Some(Phases, 40) : c \o "_" \o e \notin Range(SNames) }
                   IN [ e \in IF Q = {} THEN {"run"} ELSE Q |-> Some(Given, 40) ]]
DrawFile ==
  /\ stage = "pool"
  /\ LET n == Cardinality(Drawn)
     IN IF n >= Len(SNames) - 1 \/ Len(pool) = 4 \/ (Len(pool) >= 2 /\ P(25)) THEN stage' = "suite" /\ UNCHANGED pool
        ELSE \E two \in R({TRUE, FALSE}) :
             /\ pool' = Append(pool, [sub |-> P(40), rel |-> P(40),
                     s |-> IF two THEN << One(SNames[n + 1]), One(SNames[n + 2]) >> ELSE << One(SNames[n + 1]) >>])
             /\ UNCHANGED stage
  /\ UNCHANGED <<hosts, suites, opt, k, acc>>

UNames == << "s1", "s_two", "S3" >>
GNames == << "phys", "rad_b" >>
DrawSuite ==
  /\ stage = "suite"
  /\ IF suites # << >> /\ (Len(suites) = 3 \/ P(40)) THEN stage' = "opt" /\ UNCHANGED suites
     ELSE /\ \E ng \in R(1..2) :
               LET some == IF P(50) THEN Drawn ELSE { RandomElement(Drawn), RandomElement(Drawn) }
               IN suites' = Append(suites, [n |-> UNames[Len(suites) + 1],
                     g |-> [ g \in 1..ng |-> [n |-> GNames[g], z |-> [ j \in 1 .. RandomElement(1..3) |-> RandomElement(some) ]]]])
          /\ UNCHANGED stage
  /\ UNCHANGED <<hosts, pool, opt, k, acc>>

CallsOf(u) == UNION { Range(suites[u].g[g].z) : g \in DOMAIN suites[u].g }
(* dependencies on files of the pool that do not exist are dropped; a flaw is *)
(* a dependency of a host module or of a scheme of a wanted suite on nothing  *)
Clean(d) == d \ { PoolFile(f) : f \in (1..4) \ DOMAIN pool }
DrawOpt ==
  /\ stage = "opt"
  /\ \E ns \in R({"", "", "ns1"}), w \in R((SUBSET DOMAIN suites) \ {{}}), nm \in R({TRUE, TRUE, FALSE}) :
       LET want == IF nm THEN w ELSE DOMAIN suites
           use  == UNION { CallsOf(u) : u \in want }
       IN \E f \in R({"", "", "", "", "", "host", "scheme"}), c \in R(use), h \in R(DOMAIN hosts) :
          /\ opt' = [ns |-> ns, named |-> nm, want |-> want, flaw |-> f]
          /\ pool' = [ x \in DOMAIN pool |-> [pool[x] EXCEPT !.s =
                [ j \in DOMAIN pool[x].s |-> [pool[x].s[j] EXCEPT !.dep =
                     Clean(@) \cup IF f = "scheme" /\ pool[x].s[j].c = c THEN {"dep:none"} ELSE {}]]]]
          /\ hosts' = IF f = "host" THEN [hosts EXCEPT ![h].dep = @ \cup {"dep:none"}] ELSE hosts
  /\ stage' = "h" /\ k' = << 1, 1, 1, 1 >>
  /\ UNCHANGED <<suites, acc>>

(* ---- the walk ---- *)
ReadHost ==
  /\ stage = "h"
  /\ IF k[1] > Len(hosts) THEN stage' = "p" /\ k' = << 1, 1, 1, 1 >> /\ UNCHANGED acc
     ELSE LET h == hosts[k[1]]
          IN /\ acc' = [acc EXCEPT !.files = @ \cup {HostFile(h.m)} \cup h.dep,
                                   !.mods = @ \cup IF h.ty \/ h.kd = "kind" THEN {h.m} ELSE {},
                                   !.rows = @ \cup { [v |-> v, m |-> h.m] : v \in h.vars }]
             /\ k' = [k EXCEPT ![1] = @ + 1] /\ UNCHANGED stage
  /\ UNCHANGED <<hosts, pool, suites, opt>>
ReadScheme ==
  /\ stage = "p"
  /\ IF k[1] > Len(pool) THEN stage' = "u" /\ k' = << 1, 1, 1, 1 >> /\ UNCHANGED acc
     ELSE IF k[2] > Len(pool[k[1]].s) THEN k' = << k[1] + 1, 1, 1, 1 >> /\ UNCHANGED <<stage, acc>>
     ELSE LET s == pool[k[1]].s[k[2]]
          IN /\ acc' = [acc EXCEPT !.sch = @ \cup { <<s.c, x>> : x \in s.dep \cup {PoolFile(k[1])} },
                                   !.reqs = @ \cup UNION { { <<n, s.c, e>> : n \in s.ent[e] } : e \in DOMAIN s.ent }]
             /\ k' = [k EXCEPT ![2] = @ + 1] /\ UNCHANGED stage
  /\ UNCHANGED <<hosts, pool, suites, opt>>
Call ==
  /\ stage = "u"
  /\ IF k[1] > Len(suites) THEN stage' = "end" /\ UNCHANGED <<k, acc>>
     ELSE LET u == suites[k[1]]
          IN IF k[1] \notin opt.want \/ k[2] > Len(u.g)
             THEN /\ k' = << k[1] + 1, 1, 1, 1 >>
                  /\ acc' = IF k[1] \in opt.want THEN [acc EXCEPT !.caps = @ \cup {"ccpp_" \o u.n \o "_cap"}] ELSE acc
                  /\ UNCHANGED stage
             ELSE IF k[3] > Len(u.g[k[2]].z)
             THEN /\ k' = << k[1], k[2] + 1, 1, 1 >>
                  /\ acc' = [acc EXCEPT !.caps = @ \cup {"ccpp_" \o u.n \o "_" \o u.g[k[2]].n \o "_cap"}]
                  /\ UNCHANGED stage
             ELSE /\ acc' = [acc EXCEPT !.used = @ \cup {u.g[k[2]].z[k[3]]}]
                  /\ k' = [k EXCEPT ![3] = @ + 1] /\ UNCHANGED stage
  /\ UNCHANGED <<hosts, pool, suites, opt>>
Finish ==
  /\ stage = "end" /\ stage' = "done"
  /\ acc' = [acc EXCEPT !.files = @ \cup { p[2] : p \in { q \in acc.sch : q[1] \in acc.used } },
                        !.reqs = { r \in @ : r[2] \in acc.used }]
  /\ UNCHANGED <<hosts, pool, suites, opt, k>>

Next == DrawHost \/ DrawFile \/ DrawSuite \/ DrawOpt \/ ReadHost \/ ReadScheme \/ Call \/ Finish
Spec == Init /\ [][Next]_vars

(* ---- declaratively ---- *)
WUse == UNION { CallsOf(u) : u \in opt.want }
Schemes == UNION { { <<f, j>> : j \in DOMAIN pool[f].s } : f \in DOMAIN pool }
DFiles == { HostFile(hosts[i].m) : i \in DOMAIN hosts } \cup UNION { hosts[i].dep : i \in DOMAIN hosts }
          \cup UNION { {PoolFile(p[1])} \cup pool[p[1]].s[p[2]].dep : p \in { q \in Schemes : pool[q[1]].s[q[2]].c \in WUse } }
DMods == { hosts[i].m : i \in { x \in DOMAIN hosts : hosts[x].ty \/ hosts[x].kd = "kind" } }
DCaps == UNION { {"ccpp_" \o suites[u].n \o "_cap"} \cup { "ccpp_" \o suites[u].n \o "_" \o suites[u].g[g].n \o "_cap" : g \in DOMAIN suites[u].g } : u \in opt.want }
DReqs == UNION { LET s == pool[p[1]].s[p[2]] IN IF s.c \notin WUse THEN {} ELSE UNION { { <<n, s.c, e>> : n \in s.ent[e] } : e \in DOMAIN s.ent } : p \in Schemes }
Declared ==
  stage = "done" => /\ acc.files = DFiles /\ acc.mods = DMods /\ acc.caps = DCaps /\ acc.reqs = DReqs
                    /\ { r.v.n : r \in acc.rows } = Given
                    /\ (opt.flaw # "" <=> "dep:none" \in acc.files)
                    /\ \A r \in acc.reqs : r[1] \in Given

Emit == stage = "done" =>
  PrintT("@@" \o ToJson([hosts |-> hosts, pool |-> pool, suites |-> suites, opt |-> opt, files |-> acc.files, mods |-> acc.mods,
                         rows |-> acc.rows, reqs |-> acc.reqs, caps |-> acc.caps, used |-> acc.used]))
=============================================================================
