-------------------------------- MODULE TrMul -------------------------------
(***************************************************************************)
(* The multi-threaded multiplication algorithm, one action per             *)
(* synchronisation operation.  Threads reserve blocks through a shared     *)
(* counter, pack the strips their block needs unless another thread does,  *)
(* pack ahead while they wait, and compute.  Every strip has a status word *)
(* (NotStarted, InProgress, Finished).                                     *)
(*                                                                         *)
(* Facts <<s, b>> in know[t] say that thread t sees strip b of operand s   *)
(* as packed; release operations publish and acquire operations learn.     *)
(* TLC checks refinement of BlockCompute, that no thread computes from a   *)
(* strip it does not see as packed, and termination.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NThreads, LogL, LogR,     \* 2^LogL x 2^LogR blocks
          Pre1, Pre2,               \* operands packed beforehand
          PackAhead,
          \* design switches, all TRUE as built
          FinishReleases, CheckAcquires, CasAtomic

\* Further faulty designs, selected by overriding this definition:
\*   "aheadmarks"  a strip found in progress while packing ahead counts as packed
\*   "early"       a strip is announced before it is packed
\*   "start"       the shared counter starts at 0 although thread t begins with t
\*   "skip"        a thread that cannot pack leaves its block undone
Faulty == "none"
Aheadmarks == "aheadmarks"
Early == "early"
Start == "start"
Skip == "skip"

L == 2^LogL
R == 2^LogR
NB == L * R
T == 0..(NThreads - 1)
S == {1, 2}
Grid == <<L, R>>
Pre == <<Pre1, Pre2>>

\* Linear traversal; any bijection would do.
Block(id) == <<id % L, id \div L>>

VARIABLES pc, next, id, nid,
          status,      \* status[s][b] in 0..2
          local,       \* local[t][s]: strips t knows to be packed
          side,        \* side[t]: operand t is trying to pack (1, 2)
          both,        \* both[t]: all sides packed so far in this iteration
          ahead,       \* ahead[t][s]: next strip to pack ahead
          aside,       \* aside[t]: next operand to pack ahead
          mode,        \* mode[t]: "need" or "ahead": what the TryPack is for
          know, msg,   \* visibility of packed strips
          packing, packed, working, worked, returned

vars == <<pc, next, id, nid, status, local, side, both, ahead, aside, mode, know, msg,
          packing, packed, working, worked, returned>>
BC == INSTANCE BlockCompute WITH Dim <- Grid
bc == <<packing, packed, working, worked, returned>>

Init == /\ pc = [t \in T |-> "loop"]
        /\ next = IF Faulty = "start" THEN 0 ELSE NThreads
        /\ id = [t \in T |-> t] /\ nid = [t \in T |-> 0]
        /\ status = [s \in S |-> [b \in 0..(Grid[s] - 1) |-> 0]]
        /\ local = [t \in T |-> [s \in S |-> {}]]
        /\ side = [t \in T |-> 1] /\ both = [t \in T |-> TRUE]
        /\ ahead = [t \in T |-> <<0, 0>>] /\ aside = [t \in T |-> 1]
        /\ mode = [t \in T |-> "need"]
        /\ know = [t \in T |-> {}]
        /\ msg = [s \in S |-> [b \in 0..(Grid[s] - 1) |-> {}]]
        /\ BC!BCInit

Go(t, x) == pc' = [pc EXCEPT ![t] = x]
B(t, s) == Block(id[t])[s]
\* the strip thread t is trying to pack
Strip(t) == IF mode[t] = "need" THEN B(t, side[t]) ELSE ahead[t][side[t]]

(* Reserve the next block, then work on the current one.                   *)
Loop(t) ==
  /\ pc[t] = "loop"
  /\ IF id[t] < NB
     THEN /\ nid' = [nid EXCEPT ![t] = next]
          /\ next' = next + 1
          /\ ahead' = [ahead EXCEPT ![t] = <<Block(id[t])[1] + 1, Block(id[t])[2] + 1>>]
          /\ aside' = [aside EXCEPT ![t] = 1]
          /\ side' = [side EXCEPT ![t] = 1]
          /\ both' = [both EXCEPT ![t] = TRUE]
          /\ mode' = [mode EXCEPT ![t] = "need"]
          /\ Go(t, "try")
     ELSE /\ Go(t, "done")
          /\ UNCHANGED <<nid, next, ahead, aside, side, both, mode>>
  /\ UNCHANGED <<id, status, local, know, msg>> /\ UNCHANGED bc

(* The next step after a TryPack that returned ok.                         *)
AfterTry(t, ok) ==
  IF mode[t] = "need"
  THEN IF side[t] = 1
       THEN /\ both' = [both EXCEPT ![t] = ok]
            /\ side' = [side EXCEPT ![t] = 2]
            /\ Go(t, "try")
            /\ UNCHANGED <<ahead, aside, mode>>
       ELSE IF both[t] /\ ok
       THEN /\ Go(t, "compute")
            /\ UNCHANGED <<both, side, ahead, aside, mode>>
       ELSE IF Faulty = "skip"
       THEN /\ Go(t, "skip")
            /\ UNCHANGED <<both, side, ahead, aside, mode>>
       ELSE IF ~PackAhead
       THEN /\ Go(t, "try") /\ side' = [side EXCEPT ![t] = 1] /\ both' = [both EXCEPT ![t] = TRUE]
            /\ UNCHANGED <<ahead, aside, mode>>
       ELSE /\ aside' = [aside EXCEPT ![t] = 3 - @]
            /\ IF ahead[t][aside[t]] >= Grid[aside[t]]
               THEN \* nothing left to pack ahead on that side: retry
                    /\ side' = [side EXCEPT ![t] = 1]
                    /\ UNCHANGED mode
               ELSE /\ side' = [side EXCEPT ![t] = aside[t]]
                    /\ mode' = [mode EXCEPT ![t] = "ahead"]
            /\ both' = [both EXCEPT ![t] = TRUE]
            /\ Go(t, "try")
            /\ UNCHANGED ahead
  ELSE /\ ahead' = [ahead EXCEPT ![t][side[t]] = @ + 1]
       /\ mode' = [mode EXCEPT ![t] = "need"]
       /\ side' = [side EXCEPT ![t] = 1]
       /\ both' = [both EXCEPT ![t] = TRUE]
       /\ Go(t, "try")
       /\ UNCHANGED aside

(* TryPack: decide from local knowledge, else compare-and-swap the status. *)
Try(t) ==
  /\ pc[t] = "try"
  /\ LET s == side[t]
         b == Strip(t)
     IN IF Pre[s] \/ b \in local[t][s]
        THEN /\ AfterTry(t, TRUE)
             /\ UNCHANGED <<status, local, know, msg>> /\ UNCHANGED bc
        ELSE IF status[s][b] = 0
        THEN \* won: NotStarted -> InProgress
             /\ IF CasAtomic
                THEN /\ status' = [status EXCEPT ![s][b] = IF Faulty = "early" THEN 2 ELSE 1]
                     /\ know' = [know EXCEPT ![t] = @ \cup msg[s][b]]
                     /\ msg' = [msg EXCEPT ![s][b] = @ \cup know'[t]]
                     /\ BC!PackBegin(s, b, b + 1, t)
                     /\ Go(t, "packing")
                ELSE /\ Go(t, "claim") /\ UNCHANGED <<status, know, msg>> /\ UNCHANGED bc
             /\ UNCHANGED <<local, side, both, ahead, aside, mode>>
        ELSE IF status[s][b] = 1
        THEN \* another thread is packing it
             /\ AfterTry(t, FALSE)
             /\ know' = [know EXCEPT ![t] = IF CheckAcquires THEN @ \cup msg[s][b] ELSE @]
             /\ local' = [local EXCEPT ![t][s] = IF Faulty = "aheadmarks" /\ mode[t] = "ahead"
                                                THEN @ \cup {b} ELSE @]
             /\ UNCHANGED <<status, msg>> /\ UNCHANGED bc
        ELSE \* another thread has packed it
             /\ AfterTry(t, TRUE)
             /\ know' = [know EXCEPT ![t] = IF CheckAcquires THEN @ \cup msg[s][b] ELSE @]
             /\ local' = [local EXCEPT ![t][s] = @ \cup {b}]
             /\ UNCHANGED <<status, msg>> /\ UNCHANGED bc
  /\ UNCHANGED <<next, id, nid>>

(* Only in the mutant where claiming is not atomic.                        *)
Claim(t) ==
  /\ pc[t] = "claim"
  /\ status' = [status EXCEPT ![side[t]][Strip(t)] = 1]
  /\ BC!PackBegin(side[t], Strip(t), Strip(t) + 1, t)
  /\ Go(t, "packing")
  /\ UNCHANGED <<next, id, nid, local, side, both, ahead, aside, mode, know, msg>>

PackDone(t) ==
  /\ pc[t] = "packing"
  /\ LET s == side[t]
         b == Strip(t)
     IN /\ BC!PackEnd(s, b, b + 1, t)
        /\ know' = [know EXCEPT ![t] = @ \cup {<<s, b>>}]
  /\ Go(t, "publish")
  /\ UNCHANGED <<next, id, nid, status, local, side, both, ahead, aside, mode, msg>>

Publish(t) ==
  /\ pc[t] = "publish"
  /\ LET s == side[t]
         b == Strip(t)
     IN /\ status' = [status EXCEPT ![s][b] = 2]
        /\ msg' = [msg EXCEPT ![s][b] = IF FinishReleases THEN know[t] ELSE {}]
        /\ local' = [local EXCEPT ![t][s] = @ \cup {b}]
  /\ AfterTry(t, TRUE)
  /\ UNCHANGED <<next, id, nid, know>> /\ UNCHANGED bc

Compute(t) ==
  /\ pc[t] = "compute"
  /\ BC!ComputeBegin(B(t, 1), B(t, 1) + 1, B(t, 2), B(t, 2) + 1, t)
  /\ Go(t, "computing")
  /\ UNCHANGED <<next, id, nid, status, local, side, both, ahead, aside, mode, know, msg>>

\* Only in the faulty design that leaves blocks undone.
Skipped(t) ==
  /\ pc[t] = "skip"
  /\ id' = [id EXCEPT ![t] = nid[t]]
  /\ Go(t, "loop")
  /\ UNCHANGED <<next, nid, status, local, side, both, ahead, aside, mode, know, msg>> /\ UNCHANGED bc

Computed(t) ==
  /\ pc[t] = "computing"
  /\ BC!ComputeEnd(B(t, 1), B(t, 1) + 1, B(t, 2), B(t, 2) + 1, t)
  /\ id' = [id EXCEPT ![t] = nid[t]]
  /\ Go(t, "loop")
  /\ UNCHANGED <<next, nid, status, local, side, both, ahead, aside, mode, know, msg>>

(* All tasks have ended: the fork-join of ThreadPool returns.              *)
AllDone == /\ \A t \in T : pc[t] = "done"
           /\ BC!BCReturn
           /\ UNCHANGED <<pc, next, id, nid, status, local, side, both, ahead, aside, mode, know, msg>>

Step(t) == Loop(t) \/ Try(t) \/ Claim(t) \/ PackDone(t) \/ Publish(t) \/ Compute(t) \/ Skipped(t) \/ Computed(t)
Stop == returned /\ UNCHANGED vars
Next == (\E t \in T : Step(t)) \/ AllDone \/ Stop

Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ (\A t \in T : WF_vars(Step(t))) /\ WF_vars(AllDone)

(* A thread that computes sees both its strips as packed.                  *)
ComputeInformed == \A t \in T : pc[t] \in {"compute", "computing"} =>
   \A s \in S : Pre[s] \/ <<s, B(t, s)>> \in know[t]
(* A thread about to compute can do so: no block is given out twice, no    *)
(* strip is missing (the action is never blocked by the abstract contract) *)
NeverRefused == \A t \in T :
   /\ pc[t] = "compute" => ENABLED Compute(t)
   /\ pc[t] = "packing" => \E p \in packing : p.th = t
   /\ pc[t] = "claim" => ENABLED Claim(t)
ReturnPossible == (\A t \in T : pc[t] = "done") /\ ~returned => ENABLED AllDone
StatusOK == \A s \in S : \A b \in 0..(Grid[s] - 1) :
   status[s][b] = 2 => \E p \in packed : p.s = s /\ p.a = b
Terminates == <>returned
=============================================================================
