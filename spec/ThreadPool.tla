----------------------------- MODULE ThreadPool -----------------------------
(***************************************************************************)
(* The thread pool's algorithm, one action per synchronisation operation:  *)
(* worker state words, the busy counter, their mutexes and condition       *)
(* variables, spin-then-block waiting, thread creation and destruction.    *)
(*                                                                         *)
(* Thread 0 is the main thread; 1..MaxWorkers are workers.  Memory         *)
(* visibility is tracked with sets of facts: a release operation publishes *)
(* what its thread knows, an acquire operation learns it.  Facts: "args"   *)
(* (the tasks of the current call are written), <<"task", w>> (the task    *)
(* pointer of w is written), <<"null", w>> (worker w has cleared it),      *)
(* <<"done", i>> (task i has ended).                                       *)
(*                                                                         *)
(* TLC checks that this refines ForkJoin, never deadlocks, terminates, and *)
(* that plain accesses are ordered by knowledge.  Behaviours generated     *)
(* from it are replayed as schedules of the real thread pool.              *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC

CONSTANTS MaxWorkers,      \* bound on pool size
          MaxCalls,        \* bound on the number of Execute calls
          Spurious,        \* BOOLEAN: model spurious wake-ups
          Spins,           \* number of failed checks before blocking
          \* design switches; all TRUE for the design as built. Setting one to
          \* FALSE yields a mutant that TLC must reject.
          NotifyLocks,     \* the notifier holds the mutex while notifying
          RecheckLocked,   \* the waiter rechecks under the mutex
          CountReleases,   \* the decrement has release+acquire order
          StateReleases    \* handing over work has release/acquire order

\* Further faulty designs, selected by overriding this definition:
\*   "decfirst"  a worker counts down before it is ready again
\*   "short"     the counter is reset to one less than the tasks handed over
\*   "noreset"   the counter is not reset before new threads start
\*   "eager"     destruction does not wait for the threads
Faulty == "none"
Decfirst == "decfirst"
Short == "short"
Noreset == "noreset"
Eager == "eager"

Workers == 1..MaxWorkers
Threads == 0..MaxWorkers
MaxTasks == MaxWorkers + 1

VARIABLES pc,        \* pc[t]
          state,     \* state[w] in {"none","Startup","Ready","HasWork","Exit"}
          task,      \* task[w]: task index handed over, -1 = null
          count,     \* busy counter
          mw,        \* mw[w]: owner of w's mutex, -1 = free
          mc,        \* owner of the counter's mutex
          ncall,     \* calls made
          size,      \* tasks of the current call (0 = none)
          i,         \* main's loop variable
          created,   \* workers created
          spin,      \* spin[t]
          after,     \* where main goes after waiting for the counter
          know, msgS, msgC, msgMW, msgMC,
          n, begun, done, runner    \* ForkJoin's variables (ghosts)

FJ == INSTANCE ForkJoin

poolvars == <<pc, state, task, count, mw, mc, ncall, size, i, created, spin, after>>
memvars == <<know, msgS, msgC, msgMW, msgMC>>
ghosts == <<n, begun, done, runner>>
vars == <<pc, state, task, count, mw, mc, ncall, size, i, created, spin, after,
          know, msgS, msgC, msgMW, msgMC, n, begun, done, runner>>

Init == /\ pc = [t \in Threads |-> IF t = 0 THEN "idle" ELSE "unborn"]
        /\ state = [w \in Workers |-> "none"]
        /\ task = [w \in Workers |-> -1]
        /\ count = 0
        /\ mw = [w \in Workers |-> -1]
        /\ mc = -1
        /\ ncall = 0 /\ size = 0 /\ i = 0 /\ created = 0
        /\ spin = [t \in Threads |-> 0]
        /\ after = "none"
        /\ know = [t \in Threads |-> {<<"null", w>> : w \in Workers}]
        /\ msgS = [w \in Workers |-> {}]
        /\ msgC = {}
        /\ msgMW = [w \in Workers |-> {}]
        /\ msgMC = {}
        /\ FJ!FJInit

Go(t, l) == pc' = [pc EXCEPT ![t] = l]

(* ------------------------------ main thread ---------------------------- *)
StartCall ==
  /\ pc[0] = "idle" /\ ncall < MaxCalls
  /\ \E k \in 1..MaxTasks :
       /\ FJ!Call(k)
       /\ size' = k
       \* writing the tasks: everything about earlier calls is forgotten
       /\ know' = [t \in Threads |->
                     IF t = 0 THEN {<<"args", 0>>} \cup {f \in know[0] : f[1] = "null"}
                     ELSE {f \in know[t] \ {<<"args", 0>>} : f[1] = "null"}]
       /\ msgS' = [w \in Workers |-> {f \in msgS[w] \ {<<"args", 0>>} : f[1] = "null"}]
       /\ msgC' = {f \in msgC \ {<<"args", 0>>} : f[1] = "null"}
       /\ msgMW' = [w \in Workers |-> {f \in msgMW[w] \ {<<"args", 0>>} : f[1] = "null"}]
       /\ msgMC' = {f \in msgMC \ {<<"args", 0>>} : f[1] = "null"}
       /\ ncall' = ncall + 1
       /\ Go(0, IF k = 1 THEN "run0" ELSE IF created < k - 1 THEN "createReset" ELSE "reset")
  /\ UNCHANGED <<state, task, count, mw, mc, i, created, spin, after>>

\* Task 0 on the caller's thread.
Run0 == /\ pc[0] = "run0"
        /\ FJ!Begin(0, 0)
        /\ Go(0, "run0end")
        /\ UNCHANGED <<state, task, count, mw, mc, ncall, size, i, created, spin, after>> /\ UNCHANGED memvars
Run0End == /\ pc[0] = "run0end"
           /\ FJ!End(0, 0)
           /\ know' = [know EXCEPT ![0] = @ \cup {<<"done", 0>>}]
           /\ Go(0, IF size = 1 THEN "return" ELSE "wcheck")
           /\ after' = "return"
           /\ UNCHANGED <<state, task, count, mw, mc, ncall, size, i, created, spin, msgS, msgC, msgMW, msgMC>>
Return == /\ pc[0] = "return"
          /\ FJ!Return
          /\ size' = 0
          /\ Go(0, "idle")
          /\ UNCHANGED <<state, task, count, mw, mc, ncall, i, created, spin, after>> /\ UNCHANGED memvars

\* Growing the pool.
CreateReset == /\ pc[0] = "createReset"
               /\ count' = IF Faulty = "noreset" THEN count ELSE size - 1 - created
               /\ msgC' = know[0]
               /\ Go(0, "spawn")
               /\ UNCHANGED <<state, task, mw, mc, ncall, size, i, created, spin, after, know, msgS, msgMW, msgMC>> /\ UNCHANGED ghosts
SpawnOne == /\ pc[0] = "spawn"
            /\ LET w == created + 1 IN
                 /\ created' = w
                 /\ state' = [state EXCEPT ![w] = "Startup"]
                 /\ know' = [know EXCEPT ![w] = know[0]]
                 /\ pc' = [pc EXCEPT ![w] = "wready", ![0] = IF w < size - 1 THEN "spawn" ELSE "wcheck"]
            /\ after' = "reset"
            /\ UNCHANGED <<task, count, mw, mc, ncall, size, i, spin, msgS, msgC, msgMW, msgMC>> /\ UNCHANGED ghosts

Reset == /\ pc[0] = "reset"
         /\ count' = IF Faulty = "short" THEN size - 2 ELSE size - 1
         /\ msgC' = know[0]
         /\ i' = 1
         /\ Go(0, "hand")
         /\ UNCHANGED <<state, task, mw, mc, ncall, size, created, spin, after, know, msgS, msgMW, msgMC>> /\ UNCHANGED ghosts

\* Hand task i to worker i: plain write of the pointer, then the state word.
Hand == /\ pc[0] = "hand"
        /\ <<"null", i>> \in know[0]                     \* plain write is ordered
        /\ task' = [task EXCEPT ![i] = i]
        /\ know' = [know EXCEPT ![0] = (@ \ {<<"null", i>>}) \cup {<<"task", i>>}]
        /\ state' = [state EXCEPT ![i] = "HasWork"]
        /\ msgS' = [msgS EXCEPT ![i] = IF StateReleases THEN know'[0] ELSE {}]
        /\ Go(0, IF NotifyLocks THEN "hlock" ELSE "hnotify")
        /\ UNCHANGED <<count, mw, mc, ncall, size, i, created, spin, after, msgC, msgMW, msgMC>> /\ UNCHANGED ghosts
HLock == /\ pc[0] = "hlock" /\ mw[i] = -1
         /\ mw' = [mw EXCEPT ![i] = 0]
         /\ know' = [know EXCEPT ![0] = @ \cup msgMW[i]]
         /\ Go(0, "hnotify")
         /\ UNCHANGED <<state, task, count, mc, ncall, size, i, created, spin, after, msgS, msgC, msgMW, msgMC>> /\ UNCHANGED ghosts
\* notify_one: the only possible waiter is worker i.
HNotify == /\ pc[0] = "hnotify"
           /\ pc' = [pc EXCEPT ![0] = IF NotifyLocks THEN "hunlock" ELSE "hnext",
                               ![i] = IF @ = "wblocked" THEN "wrelock" ELSE @]
           /\ UNCHANGED <<state, task, count, mw, mc, ncall, size, i, created, spin, after>> /\ UNCHANGED memvars /\ UNCHANGED ghosts
HUnlock == /\ pc[0] = "hunlock"
           /\ mw' = [mw EXCEPT ![i] = -1]
           /\ msgMW' = [msgMW EXCEPT ![i] = @ \cup know[0]]
           /\ Go(0, "hnext")
           /\ UNCHANGED <<state, task, count, mc, ncall, size, i, created, spin, after, know, msgS, msgC, msgMC>> /\ UNCHANGED ghosts
HNext == /\ pc[0] = "hnext"
         /\ i' = i + 1
         /\ Go(0, IF size = 0 THEN (IF i < created THEN "exit" ELSE "join")
                  ELSE IF i < size - 1 THEN "hand" ELSE "run0")
         /\ UNCHANGED <<state, task, count, mw, mc, ncall, size, created, spin, after>> /\ UNCHANGED memvars /\ UNCHANGED ghosts

\* Waiting for the counter: spin, then block.
WCheck == /\ pc[0] = "wcheck"
          /\ know' = [know EXCEPT ![0] = IF CountReleases THEN @ \cup msgC ELSE @]
          /\ IF count = 0
             THEN Go(0, after) /\ UNCHANGED spin
             ELSE IF spin[0] < Spins
             THEN Go(0, "wcheck") /\ spin' = [spin EXCEPT ![0] = @ + 1]
             ELSE Go(0, IF RecheckLocked THEN "wlock" ELSE "wlock2") /\ UNCHANGED spin
          /\ UNCHANGED <<state, task, count, mw, mc, ncall, size, i, created, after, msgS, msgC, msgMW, msgMC>> /\ UNCHANGED ghosts
WLock == /\ pc[0] \in {"wlock", "wlock2", "wrelock"} /\ mc = -1
         /\ mc' = 0
         /\ know' = [know EXCEPT ![0] = @ \cup msgMC]
         /\ Go(0, IF pc[0] = "wlock2" THEN "wsleep" ELSE "wlocked")
         /\ UNCHANGED <<state, task, count, mw, ncall, size, i, created, spin, after, msgS, msgC, msgMW, msgMC>> /\ UNCHANGED ghosts
WLocked == /\ pc[0] = "wlocked"
           /\ know' = [know EXCEPT ![0] = IF CountReleases THEN @ \cup msgC ELSE @]
           /\ Go(0, IF count = 0 THEN "wunlock" ELSE "wsleep")
           /\ UNCHANGED <<state, task, count, mw, mc, ncall, size, i, created, spin, after, msgS, msgC, msgMW, msgMC>> /\ UNCHANGED ghosts
WSleep == /\ pc[0] = "wsleep"
          /\ mc' = -1
          /\ msgMC' = msgMC \cup know[0]
          /\ Go(0, "wblocked")
          /\ UNCHANGED <<state, task, count, mw, ncall, size, i, created, spin, after, know, msgS, msgC, msgMW>> /\ UNCHANGED ghosts
WUnlock == /\ pc[0] = "wunlock"
           /\ mc' = -1
           /\ msgMC' = msgMC \cup know[0]
           /\ spin' = [spin EXCEPT ![0] = 0]
           /\ Go(0, after)
           /\ UNCHANGED <<state, task, count, mw, ncall, size, i, created, after, know, msgS, msgC, msgMW>> /\ UNCHANGED ghosts

\* Destroying the pool.
Destroy == /\ pc[0] = "idle"
           /\ i' = 1
           /\ Go(0, IF created = 0 THEN "gone" ELSE "exit")
           /\ UNCHANGED <<state, task, count, mw, mc, ncall, size, created, spin, after>> /\ UNCHANGED memvars /\ UNCHANGED ghosts
ExitOne == /\ pc[0] = "exit"
           /\ state' = [state EXCEPT ![i] = "Exit"]
           /\ msgS' = [msgS EXCEPT ![i] = know[0]]
           /\ Go(0, IF NotifyLocks THEN "hlock" ELSE "hnotify")
           /\ UNCHANGED <<task, count, mw, mc, ncall, size, i, created, spin, after, know, msgC, msgMW, msgMC>> /\ UNCHANGED ghosts
JoinAll == /\ pc[0] = "join"
           /\ \A w \in 1..created : pc[w] = "exited" \/ Faulty = "eager"
           /\ Go(0, "gone")
           /\ UNCHANGED <<state, task, count, mw, mc, ncall, size, i, created, spin, after>> /\ UNCHANGED memvars /\ UNCHANGED ghosts

(* ------------------------------ worker threads ------------------------- *)
\* Store Ready (relaxed): starts a new, empty release sequence.
WorkerReady(w) ==
  /\ pc[w] = "wready"
  /\ state' = [state EXCEPT ![w] = "Ready"]
  /\ msgS' = [msgS EXCEPT ![w] = {}]
  /\ spin' = [spin EXCEPT ![w] = 0]
  /\ Go(w, IF Faulty = "decfirst" /\ state[w] # "Startup" THEN "wstate" ELSE "wdec")
  /\ UNCHANGED <<task, count, mw, mc, ncall, size, i, created, after, know, msgC, msgMW, msgMC>> /\ UNCHANGED ghosts
AfterDec(w) == IF Faulty = "decfirst" /\ state[w] # "Ready" THEN "wready" ELSE "wstate"
WorkerDec(w) ==
  /\ pc[w] = "wdec"
  /\ count' = count - 1
  /\ IF CountReleases
     THEN /\ know' = [know EXCEPT ![w] = @ \cup msgC]
          /\ msgC' = msgC \cup know'[w]
     ELSE UNCHANGED <<know, msgC>>
  /\ Go(w, IF count = 1 THEN (IF NotifyLocks THEN "dlock" ELSE "dnotify") ELSE AfterDec(w))
  /\ UNCHANGED <<state, task, mw, mc, ncall, size, i, created, spin, after, msgS, msgMW, msgMC>> /\ UNCHANGED ghosts
DLock(w) == /\ pc[w] = "dlock" /\ mc = -1
            /\ mc' = w
            /\ know' = [know EXCEPT ![w] = @ \cup msgMC]
            /\ Go(w, "dnotify")
            /\ UNCHANGED <<state, task, count, mw, ncall, size, i, created, spin, after, msgS, msgC, msgMW, msgMC>> /\ UNCHANGED ghosts
DNotify(w) == /\ pc[w] = "dnotify"
              /\ pc' = [pc EXCEPT ![w] = IF NotifyLocks THEN "dunlock" ELSE AfterDec(w),
                                  ![0] = IF @ = "wblocked" THEN "wrelock" ELSE @]
              /\ UNCHANGED <<state, task, count, mw, mc, ncall, size, i, created, spin, after>> /\ UNCHANGED memvars /\ UNCHANGED ghosts
DUnlock(w) == /\ pc[w] = "dunlock"
              /\ mc' = -1
              /\ msgMC' = msgMC \cup know[w]
              /\ Go(w, AfterDec(w))
              /\ UNCHANGED <<state, task, count, mw, ncall, size, i, created, spin, after, know, msgS, msgC, msgMW>> /\ UNCHANGED ghosts

\* Waiting for a state other than Ready.
Learn(w) == know' = [know EXCEPT ![w] = IF StateReleases THEN @ \cup msgS[w] ELSE @]
Leave(w) == IF state[w] = "HasWork" THEN "wbegin" ELSE "wexit"
WorkerCheck(w) ==
  /\ pc[w] = "wstate"
  /\ Learn(w)
  /\ IF state[w] # "Ready"
     THEN Go(w, Leave(w)) /\ UNCHANGED spin
     ELSE IF spin[w] < Spins
     THEN Go(w, "wstate") /\ spin' = [spin EXCEPT ![w] = @ + 1]
     ELSE Go(w, IF RecheckLocked THEN "wlock" ELSE "wlock2") /\ UNCHANGED spin
  /\ UNCHANGED <<state, task, count, mw, mc, ncall, size, i, created, after, msgS, msgC, msgMW, msgMC>> /\ UNCHANGED ghosts
WorkerLock(w) ==
  /\ pc[w] \in {"wlock", "wlock2", "wrelock"} /\ mw[w] = -1
  /\ mw' = [mw EXCEPT ![w] = w]
  /\ know' = [know EXCEPT ![w] = @ \cup msgMW[w]]
  /\ Go(w, IF pc[w] = "wlock2" THEN "wsleep" ELSE "wlocked")
  /\ UNCHANGED <<state, task, count, mc, ncall, size, i, created, spin, after, msgS, msgC, msgMW, msgMC>> /\ UNCHANGED ghosts
WorkerLocked(w) ==
  /\ pc[w] = "wlocked"
  /\ Learn(w)
  /\ Go(w, IF state[w] # "Ready" THEN "wunlock" ELSE "wsleep")
  /\ UNCHANGED <<state, task, count, mw, mc, ncall, size, i, created, spin, after, msgS, msgC, msgMW, msgMC>> /\ UNCHANGED ghosts
WorkerSleep(w) ==
  /\ pc[w] = "wsleep"
  /\ mw' = [mw EXCEPT ![w] = -1]
  /\ msgMW' = [msgMW EXCEPT ![w] = @ \cup know[w]]
  /\ Go(w, "wblocked")
  /\ UNCHANGED <<state, task, count, mc, ncall, size, i, created, spin, after, know, msgS, msgC, msgMC>> /\ UNCHANGED ghosts
WorkerUnlock(w) ==
  /\ pc[w] = "wunlock"
  /\ mw' = [mw EXCEPT ![w] = -1]
  /\ msgMW' = [msgMW EXCEPT ![w] = @ \cup know[w]]
  /\ Go(w, Leave(w))
  /\ UNCHANGED <<state, task, count, mc, ncall, size, i, created, spin, after, know, msgS, msgC, msgMC>> /\ UNCHANGED ghosts

WorkerBegin(w) ==
  /\ pc[w] = "wbegin"
  /\ FJ!Begin(task[w], w)
  /\ Go(w, "wend")
  /\ UNCHANGED <<state, task, count, mw, mc, ncall, size, i, created, spin, after>> /\ UNCHANGED memvars
WorkerEnd(w) ==
  /\ pc[w] = "wend"
  /\ FJ!End(task[w], w)
  /\ task' = [task EXCEPT ![w] = -1]
  /\ know' = [know EXCEPT ![w] = (@ \ {<<"task", w>>}) \cup {<<"done", task[w]>>, <<"null", w>>}]
  /\ Go(w, IF Faulty = "decfirst" THEN "wdec" ELSE "wready")
  /\ UNCHANGED <<state, count, mw, mc, ncall, size, i, created, spin, after, msgS, msgC, msgMW, msgMC>>
WorkerExit(w) ==
  /\ pc[w] = "wexit"
  /\ Go(w, "exited")
  /\ UNCHANGED <<state, task, count, mw, mc, ncall, size, i, created, spin, after>> /\ UNCHANGED memvars /\ UNCHANGED ghosts

SpuriousWake == /\ Spurious
                /\ \E t \in Threads : /\ pc[t] = "wblocked"
                                      /\ Go(t, "wrelock")
                /\ UNCHANGED <<state, task, count, mw, mc, ncall, size, i, created, spin, after>> /\ UNCHANGED memvars /\ UNCHANGED ghosts

MainStep == \/ StartCall \/ Run0 \/ Run0End \/ Return \/ CreateReset \/ SpawnOne \/ Reset
            \/ Hand \/ HLock \/ HNotify \/ HUnlock \/ HNext
            \/ WCheck \/ WLock \/ WLocked \/ WSleep \/ WUnlock
            \/ Destroy \/ ExitOne \/ JoinAll
WorkerStep(w) == \/ WorkerReady(w) \/ WorkerDec(w) \/ DLock(w) \/ DNotify(w) \/ DUnlock(w)
                 \/ WorkerCheck(w) \/ WorkerLock(w) \/ WorkerLocked(w) \/ WorkerSleep(w)
                 \/ WorkerUnlock(w) \/ WorkerBegin(w) \/ WorkerEnd(w) \/ WorkerExit(w)

Done == pc[0] = "gone" /\ UNCHANGED vars

Next == MainStep \/ (\E w \in Workers : WorkerStep(w)) \/ SpuriousWake \/ Done

Spec == Init /\ [][Next]_vars
FairSpec == /\ Spec
            /\ WF_vars(MainStep)
            /\ \A w \in Workers : WF_vars(WorkerStep(w))
(* With spurious wake-ups mutexes must also be granted eventually.         *)
StrongFairSpec == /\ FairSpec
                  /\ SF_vars(HLock) /\ SF_vars(WLock)
                  /\ \A w \in Workers : SF_vars(DLock(w)) /\ SF_vars(WorkerLock(w))

(* ------------------------------ properties ----------------------------- *)
TypeOK == /\ count \in 0..MaxWorkers
          /\ created \in 0..MaxWorkers
          /\ FJ!FJTypeOK
(* A worker that is about to run knows the task pointer and the task.      *)
WorkerInformed == \A w \in Workers :
   pc[w] \in {"wbegin", "wend"} => /\ <<"task", w>> \in know[w] /\ <<"args", 0>> \in know[w]
                                   /\ task[w] # -1
(* A caller about to return knows that all tasks are done.                 *)
CallerInformed == pc[0] = "return" => \A k \in 0..(size - 1) : <<"done", k>> \in know[0]
(* Handing over work never races with the worker clearing the pointer.     *)
HandOrdered == pc[0] = "hand" => <<"null", i>> \in know[0] /\ task[i] = -1
NoneLeft == pc[0] = "gone" => \A w \in Workers : pc[w] \in {"unborn", "exited"}
NoDeadlock == ENABLED Next

Refines == FJ!FJSpec
(* Every call returns; destruction finishes.                               *)
CallsReturn == (n > 0) ~> (n = 0)
Terminates == (pc[0] = "exit") ~> (pc[0] = "gone")
=============================================================================
