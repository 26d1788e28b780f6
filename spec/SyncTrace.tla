----------------------------- MODULE SyncTrace ------------------------------
(***************************************************************************)
(* Common part of every validation of a recorded execution: the memory     *)
(* model (HB) driven by the recorded synchronisation operations, the plain *)
(* accesses to shared memory, and thread creation, exit and joining.       *)
(* A module that validates a particular component extends this one with    *)
(* its own variables and events.                                           *)
(*                                                                         *)
(* A trace file holds many executions, each from a "begin" to an "end"     *)
(* line; l is the next line.                                               *)
(***************************************************************************)
EXTENDS HB, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,          \* next line
          hb, cells,  \* memory model
          thr         \* [spawned, exited, joined]: sets of threads

syncvars == <<hb, cells, thr>>

E == Trace[l]
T == E.t + 1        \* clocks are indexed from 1
Me == hb.C[T]       \* clock of the thread that made this event

NoThreads == [spawned |-> {}, exited |-> {}, joined |-> {}]

SyncInit == /\ l = 1
            /\ hb = InitHB(1, 1)
            /\ cells = InitCells(1, 1)
            /\ thr = NoThreads

SyncBegin == /\ E.k = "begin"
             /\ hb' = InitHB(E.threads, E.objs + 1)
             /\ cells' = InitCells(E.threads, E.cells + 1)
             /\ thr' = NoThreads

SyncAtomic == /\ E.k = "at"
              /\ AtomicOk(hb, cells, T, E.cell)
              /\ hb' = Atomic(hb, T, E.o + 1, E.m, E.q, E.r)
              /\ cells' = AfterAtomic(hb, cells, T, E.cell)
              /\ UNCHANGED thr
SyncLock == /\ E.k \in {"lock", "cvwake"}
            /\ hb' = Lock(hb, T, E.o + 1)
            /\ UNCHANGED <<cells, thr>>
SyncUnlock == /\ E.k \in {"unlock", "cvwait"}
              /\ hb' = Unlock(hb, T, E.o + 1)
              /\ UNCHANGED <<cells, thr>>
SyncFence == /\ E.k = "fence"
             /\ hb' = Fence(hb, T, E.q, E.r)
             /\ UNCHANGED <<cells, thr>>
SyncOther == /\ E.k \in {"signal", "start", "sleep"}
             /\ UNCHANGED syncvars
SyncSpawn == /\ E.k = "spawn"
             /\ hb' = Spawn(hb, T, E.o + 1)
             /\ thr' = [thr EXCEPT !.spawned = @ \cup {E.o}]
             /\ UNCHANGED cells
SyncExit == /\ E.k = "exit"
            /\ thr' = [thr EXCEPT !.exited = @ \cup {E.t}]
            /\ UNCHANGED <<hb, cells>>
SyncJoin == /\ E.k = "join"
            /\ hb' = JoinThread(hb, T, E.o + 1)
            /\ thr' = [thr EXCEPT !.joined = @ \cup {E.o}]
            /\ UNCHANGED cells
(* Plain accesses: no two of them race.                                    *)
SyncAccess == /\ E.k = "acc"
              /\ IF RaceFreeAccess(hb, cells, T, E.rd, E.wr) THEN TRUE ELSE FALSE
              /\ cells' = AfterAccess(hb, cells, T, E.rd, E.wr)
              /\ UNCHANGED <<hb, thr>>

SyncStep == \/ SyncAtomic \/ SyncLock \/ SyncUnlock \/ SyncFence \/ SyncOther
            \/ SyncSpawn \/ SyncExit \/ SyncJoin \/ SyncAccess

SyncKinds == {"at", "lock", "cvwake", "unlock", "cvwait", "fence", "signal",
              "start", "spawn", "exit", "join", "acc"}

(* The execution ended by itself: no deadlock, livelock, crash or misuse   *)
(* of memory, and no thread is left behind.                                *)
SyncEnd == /\ E.k = "end"
           /\ E.out = "ok"
           /\ E.alive = 1
           /\ thr.spawned = thr.exited
           /\ UNCHANGED syncvars

View == l

Accepted == LET d == TLCGet("stats").diameter - 1 IN
            IF d = Len(Trace) THEN TRUE
            ELSE /\ PrintT(<<"REJECTED", d + 1>>)
                 /\ PrintT(Trace[d + 1])
                 /\ FALSE
=============================================================================
