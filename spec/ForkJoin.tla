------------------------------ MODULE ForkJoin ------------------------------
(***************************************************************************)
(* What a user of the thread pool relies on: a call with n tasks runs each *)
(* task exactly once, task 0 on the caller and the others on n-1 distinct  *)
(* other threads, and returns after all have ended.  Pools come and go;    *)
(* destroying one leaves none of its threads behind.                       *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

CONSTANTS Threads,      \* thread identities; 0 is the caller
          MaxTasks

VARIABLES n,            \* 0 when no call is in progress
          begun,        \* tasks that have begun
          done,         \* tasks that have ended
          runner        \* runner[i]: thread that runs task i, -1 if none

fjvars == <<n, begun, done, runner>>

Tasks == 0..(MaxTasks - 1)

FJInit == n = 0 /\ begun = {} /\ done = {} /\ runner = [i \in Tasks |-> -1]

Call(k) == /\ n = 0
           /\ k \in 1..MaxTasks
           /\ n' = k
           /\ begun' = {} /\ done' = {}
           /\ runner' = [i \in Tasks |-> -1]

Begin(i, th) == /\ i < n
                /\ i \notin begun
                /\ (i = 0) <=> (th = 0)
                /\ \A j \in begun : runner[j] # th
                /\ begun' = begun \cup {i}
                /\ runner' = [runner EXCEPT ![i] = th]
                /\ UNCHANGED <<n, done>>

End(i, th) == /\ i \in begun \ done
              /\ runner[i] = th
              /\ done' = done \cup {i}
              /\ UNCHANGED <<n, begun, runner>>

Return == /\ n > 0
          /\ done = 0..(n - 1)
          /\ n' = 0
          /\ begun' = {} /\ done' = {}
          /\ runner' = [i \in Tasks |-> -1]

FJNext == \/ \E k \in 1..MaxTasks : Call(k)
          \/ \E i \in Tasks, th \in Threads : Begin(i, th) \/ End(i, th)
          \/ Return

FJSpec == FJInit /\ [][FJNext]_fjvars

FJTypeOK == /\ n \in 0..MaxTasks
            /\ begun \subseteq Tasks /\ done \subseteq begun
            /\ runner \in [Tasks -> Threads \cup {-1}]

(* The promise itself, as invariants of the abstract machine. *)
NoTaskOutsideCall == n = 0 => begun = {}
DistinctRunners == \A i, j \in begun : i # j => runner[i] # runner[j]
=============================================================================
