--------------------------- MODULE ParallelSearch ---------------------------
(* The search for the best refinement, parallelized across features: threads  *)
(* take features in order, each feature is searched with a private comparator *)
(* (a copy of the one passed in), and the private comparators are merged in   *)
(* the order of the features after all threads have finished. For every       *)
(* schedule, and all qualities including ties, the outcome is that of a       *)
(* sequential search. `sched` records the thread that makes each step, such   *)
(* that schedules can be replayed into the implementation (Generate = TRUE).  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS N,          \* number of features
          T,          \* number of threads
          Qualities,  \* possible qualities of candidates; 0 = no candidate
          Initial,    \* the quality a refinement must exceed
          Generate    \* print complete schedules

VARIABLES q, next, holds, priv, ended, sched, merged, best
vars == <<q, next, holds, priv, ended, sched, merged, best>>

None == 0
Threads == 0..(T - 1)
\* Each feature offers two candidates, evaluated in order
Candidates == Qualities \X Qualities

Init == /\ q \in [1..N -> Candidates]
        /\ next = 1 /\ holds = [t \in Threads |-> None] /\ ended = {}
        /\ priv = [f \in 1..N |-> <<>>]
        /\ sched = <<>> /\ merged = 0 /\ best = <<Initial, 0, 0>>

\* A comparator: <<quality, feature, candidate>>; candidates replace it only if they are strictly better
Better(cmp, new) == IF new[1] > cmp[1] THEN new ELSE cmp
Search(cmp, f) == Better(Better(cmp, <<q[f][1], f, 1>>), <<q[f][2], f, 2>>)

Log(t) == sched' = IF Generate THEN Append(sched, t) ELSE sched

Take(t) == /\ t \notin ended /\ holds[t] = None
           /\ IF next <= N
              THEN holds' = [holds EXCEPT ![t] = next] /\ next' = next + 1 /\ UNCHANGED ended
              ELSE ended' = ended \cup {t} /\ UNCHANGED <<holds, next>>
           /\ Log(t)
           /\ UNCHANGED <<q, priv, merged, best>>
Run(t) == /\ holds[t] # None
          /\ priv' = [priv EXCEPT ![holds[t]] = Search(<<Initial, 0, 0>>, holds[t])]
          /\ holds' = [holds EXCEPT ![t] = None]
          /\ Log(t)
          /\ UNCHANGED <<q, next, ended, merged, best>>
Merge == /\ ended = Threads /\ merged < N
         /\ best' = Better(best, priv[merged + 1])
         /\ merged' = merged + 1
         /\ (Generate /\ merged' = N) => PrintT(<<"GEN", N, T, sched>>)
         /\ UNCHANGED <<q, next, holds, priv, ended, sched>>
Next == (\E t \in Threads : Take(t) \/ Run(t)) \/ Merge
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

RECURSIVE Sequential(_, _)
Sequential(cmp, f) == IF f > N THEN cmp ELSE Sequential(Search(cmp, f), f + 1)

\* The outcome does not depend on the schedule
Deterministic == merged = N => best = Sequential(<<Initial, 0, 0>>, 1)
\* No feature is searched by two threads
Exclusive == \A t, u \in Threads : t # u /\ holds[t] # None => holds[t] # holds[u]
Complete == <>(merged = N)
=============================================================================
