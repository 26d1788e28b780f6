--------------------------- MODULE CountdownDesign --------------------------
(***************************************************************************)
(* How the countdown is built: a counter word, a mutex and a condition     *)
(* variable.  A decrement subtracts; the one that reaches zero takes the   *)
(* mutex and notifies.  The waiter looks, looks again while it spins, and  *)
(* finally looks under the mutex before it sleeps.  Rounds follow one      *)
(* another on the same object.  TLC checks that this refines Countdown,    *)
(* does not deadlock and that every wait ends.                             *)
(*                                                                         *)
(* Faulty selects a design that TLC must reject:                           *)
(*   "split"      the subtraction is a load followed by a store            *)
(*   "nolock"     the notifier does not take the mutex                     *)
(*   "nocheck"    the waiter does not look again under the mutex           *)
(*   "nonotify"   nobody notifies                                          *)
(*   "first"      the decrement that starts the round reports the end      *)
(*   "one"        the waiter is released when one decrement is left        *)
(*   "once"       a woken waiter returns without looking again             *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

CONSTANTS MaxCount, MaxRounds, Spins, Spurious, Faulty

T == 1..MaxCount           \* threads that decrement; 0 resets and waits

VARIABLES pc, word, seen, mutex, spin, round,
          left, inDec, last, waiting, size

C == INSTANCE Countdown
dvars == <<pc, word, seen, mutex, spin, round>>
vars == <<pc, word, seen, mutex, spin, round, left, inDec, last, waiting, size>>

Init == /\ pc = [t \in 0..MaxCount |-> IF t = 0 THEN "reset" ELSE "off"]
        /\ word = 0 /\ seen = [t \in T |-> 0] /\ mutex = -1 /\ spin = 0 /\ round = 0
        /\ C!CDInit

Go(t, l) == pc' = [pc EXCEPT ![t] = l]
Zero == IF Faulty = "one" THEN word <= 1 ELSE word = 0

\* The owner starts a round: each of the threads 1..c decrements once.
Reset == /\ pc[0] = "reset" /\ round < MaxRounds
         /\ \A t \in T : pc[t] = "off"
         /\ \E c \in 0..MaxCount :
              /\ word' = c
              /\ left' = c /\ inDec' = 0 /\ last' = FALSE /\ size' = c
              /\ pc' = [t \in 0..MaxCount |-> IF t = 0 THEN "wait" ELSE IF t <= c THEN "dec" ELSE "off"]
         /\ round' = round + 1
         /\ UNCHANGED <<seen, mutex, spin, waiting>>
Wait == /\ pc[0] = "wait" /\ waiting' = TRUE /\ spin' = 0 /\ Go(0, "look")
        /\ UNCHANGED <<word, seen, mutex, round, left, inDec, last, size>>
Look == /\ pc[0] = "look"
        /\ IF Zero THEN Go(0, "return") /\ UNCHANGED spin
           ELSE IF spin < Spins THEN spin' = spin + 1 /\ Go(0, "look")
           ELSE Go(0, "lock") /\ UNCHANGED spin
        /\ UNCHANGED <<word, seen, mutex, round, left, inDec, last, waiting, size>>
Lock == /\ pc[0] \in {"lock", "relock"} /\ mutex = -1 /\ mutex' = 0
        /\ Go(0, IF pc[0] = "lock" /\ Faulty = "nocheck" THEN "sleep"
                 ELSE IF pc[0] = "relock" /\ Faulty = "once" THEN "unlock" ELSE "check")
        /\ UNCHANGED <<word, seen, spin, round, left, inDec, last, waiting, size>>
Check == /\ pc[0] = "check" /\ Go(0, IF Zero THEN "unlock" ELSE "sleep")
         /\ UNCHANGED <<word, seen, mutex, spin, round, left, inDec, last, waiting, size>>
Sleep == /\ pc[0] = "sleep" /\ mutex' = -1 /\ Go(0, "blocked")
         /\ UNCHANGED <<word, seen, spin, round, left, inDec, last, waiting, size>>
Unlock == /\ pc[0] = "unlock" /\ mutex' = -1 /\ Go(0, "return")
          /\ UNCHANGED <<word, seen, spin, round, left, inDec, last, waiting, size>>
\* The owner knows that the round is over only because the wait has returned.
Return == /\ pc[0] = "return" /\ waiting' = FALSE /\ Go(0, "reset")
          /\ UNCHANGED <<word, seen, mutex, spin, round, left, inDec, last, size>>
Wake == /\ Spurious /\ pc[0] = "blocked" /\ Go(0, "relock")
        /\ UNCHANGED <<word, seen, mutex, spin, round, left, inDec, last, waiting, size>>

Dec(t) == /\ pc[t] = "dec" /\ left' = left - 1 /\ inDec' = inDec + 1
          /\ Go(t, IF Faulty = "split" THEN "load" ELSE "sub")
          /\ UNCHANGED <<word, seen, mutex, spin, round, last, waiting, size>>
Sub(t) == /\ pc[t] = "sub" /\ word' = word - 1 /\ seen' = [seen EXCEPT ![t] = word - 1]
          /\ Go(t, IF word # 1 \/ Faulty = "nonotify" THEN "end"
                   ELSE IF Faulty = "nolock" THEN "notify" ELSE "nlock")
          /\ UNCHANGED <<mutex, spin, round, left, inDec, last, waiting, size>>
Load(t) == /\ pc[t] = "load" /\ seen' = [seen EXCEPT ![t] = word - 1] /\ Go(t, "store")
           /\ UNCHANGED <<word, mutex, spin, round, left, inDec, last, waiting, size>>
Store(t) == /\ pc[t] = "store" /\ word' = seen[t]
            /\ Go(t, IF seen[t] # 0 THEN "end" ELSE "nlock")
            /\ UNCHANGED <<seen, mutex, spin, round, left, inDec, last, waiting, size>>
NLock(t) == /\ pc[t] = "nlock" /\ mutex = -1 /\ mutex' = t /\ Go(t, "notify")
            /\ UNCHANGED <<word, seen, spin, round, left, inDec, last, waiting, size>>
Notify(t) == /\ pc[t] = "notify"
             /\ pc' = [pc EXCEPT ![t] = IF mutex = t THEN "nunlock" ELSE "end",
                                 ![0] = IF @ = "blocked" THEN "relock" ELSE @]
             /\ UNCHANGED <<word, seen, mutex, spin, round, left, inDec, last, waiting, size>>
NUnlock(t) == /\ pc[t] = "nunlock" /\ mutex' = -1 /\ Go(t, "end")
              /\ UNCHANGED <<word, seen, spin, round, left, inDec, last, waiting, size>>
End(t) == /\ pc[t] = "end" /\ inDec' = inDec - 1
          /\ last' = (last \/ (IF Faulty = "first" THEN seen[t] = size - 1 ELSE seen[t] = 0))
          /\ Go(t, "off")
          /\ UNCHANGED <<word, seen, mutex, spin, round, left, waiting, size>>

Main == Reset \/ Wait \/ Look \/ Lock \/ Check \/ Sleep \/ Unlock \/ Return
Step(t) == Dec(t) \/ Sub(t) \/ Load(t) \/ Store(t) \/ NLock(t) \/ Notify(t) \/ NUnlock(t) \/ End(t)
Done == /\ pc[0] = "reset" /\ round = MaxRounds /\ (\A t \in T : pc[t] = "off") /\ UNCHANGED vars
Next == Main \/ (\E t \in T : Step(t)) \/ Wake \/ Done
Spec == /\ Init /\ [][Next]_vars
        /\ WF_vars(Main) /\ SF_vars(Lock)
        /\ \A t \in T : WF_vars(Step(t)) /\ SF_vars(NLock(t))

TypeOK == C!CDTypeOK /\ word \in 0..MaxCount
Exact == C!LastReported
Refines == C!CDSpec
Ends == waiting ~> ~waiting
=============================================================================
