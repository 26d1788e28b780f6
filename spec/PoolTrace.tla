----------------------------- MODULE PoolTrace ------------------------------
(***************************************************************************)
(* Validates recorded executions of the thread pool against ForkJoin, with *)
(* the happens-before of HB computed from the recorded synchronisation     *)
(* operations.  Each trace line is one event; every event must be a step   *)
(* allowed here, otherwise the trace is rejected at that line.             *)
(***************************************************************************)
EXTENDS SyncTrace

VARIABLES n, begun, done, runner, aux

FJ == INSTANCE ForkJoin WITH Threads <- 0..1599, MaxTasks <- 160

appvars == <<n, begun, done, runner, aux>>
vars == <<l, hb, cells, thr, n, begun, done, runner, aux>>

(* aux: argsClk  - clock of the caller when it made the call               *)
(*      endClk   - clock of each task when it ended                        *)
(*      pool     - a pool exists                                           *)
NoAux == [argsClk |-> <<>>, endClk |-> [i \in 0..159 |-> <<>>], pool |-> FALSE]

Init == SyncInit /\ FJ!FJInit /\ aux = NoAux

Begin == /\ SyncBegin
         /\ n' = 0 /\ begun' = {} /\ done' = {} /\ runner' = [i \in 0..159 |-> -1]
         /\ aux' = NoAux

PoolNew == /\ E.k = "pnew"
           /\ ~aux.pool
           /\ aux' = [aux EXCEPT !.pool = TRUE]
           /\ UNCHANGED <<hb, cells, thr, n, begun, done, runner>>
PoolDel == /\ E.k = "pdel"
           /\ aux.pool /\ n = 0
           /\ UNCHANGED syncvars /\ UNCHANGED appvars
(* The pool's destruction has returned: every thread it created is gone.   *)
PoolGone == /\ E.k = "pgone"
            /\ thr.spawned = thr.exited
            /\ E.b = 0
            /\ aux' = [aux EXCEPT !.pool = FALSE]
            /\ UNCHANGED <<hb, cells, thr, n, begun, done, runner>>

AppCall == /\ E.k = "call"
           /\ aux.pool
           /\ FJ!Call(E.b)
           /\ aux' = [aux EXCEPT !.argsClk = Me]
           /\ hb' = Tick(hb, T)
           /\ UNCHANGED <<cells, thr>>
AppBegin == /\ E.k = "tb"
            /\ FJ!Begin(E.b, E.t)
            /\ IF Leq(aux.argsClk, Me) THEN TRUE ELSE FALSE   \* the submitted task is visible
            /\ UNCHANGED <<hb, cells, thr, aux>>
AppEnd == /\ E.k = "te"
          /\ FJ!End(E.b, E.t)
          /\ aux' = [aux EXCEPT !.endClk[E.b] = Me]
          /\ hb' = Tick(hb, T)
          /\ UNCHANGED <<cells, thr>>
AppReturn == /\ E.k = "ret"
             /\ E.t = 0
             /\ E.b = n
             /\ IF \A i \in 0..(n - 1) : i \in done /\ Leq(aux.endClk[i], Me) THEN TRUE ELSE FALSE
             /\ FJ!Return
             /\ UNCHANGED <<hb, cells, thr, aux>>
AppSee == /\ E.k = "see"
          /\ E.c = E.d                           \* the task's effect is there
          /\ UNCHANGED syncvars /\ UNCHANGED appvars

Finish == SyncEnd /\ n = 0 /\ UNCHANGED appvars

Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ \/ SyncStep /\ UNCHANGED appvars
           \/ Begin \/ PoolNew \/ PoolDel \/ PoolGone
           \/ AppCall \/ AppBegin \/ AppEnd \/ AppReturn \/ AppSee \/ Finish

Spec == Init /\ [][Next]_vars
=============================================================================
