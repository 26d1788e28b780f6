------------------------------ MODULE Countdown -----------------------------
(***************************************************************************)
(* What a user of the countdown and of condition waiting relies on.        *)
(* A countdown of c is reset, decremented c times by any threads, and      *)
(* releases its waiter exactly when it has been decremented c times; the   *)
(* decrement that reaches zero - and only it - reports so.                 *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

CONSTANT MaxCount

VARIABLES left,      \* decrements that have not begun; -1 before any reset
          inDec,     \* decrements begun and not ended
          last,      \* a decrement of this round has reported "last"
          waiting,   \* the waiter is inside its wait
          size       \* size of this round

cdvars == <<left, inDec, last, waiting, size>>

CDInit == left = -1 /\ inDec = 0 /\ last = FALSE /\ waiting = FALSE /\ size = 0

\* No decrement may be in progress when it is reset.
CReset(c) == /\ left <= 0 /\ inDec = 0 /\ ~waiting
             /\ left' = c /\ inDec' = 0 /\ last' = FALSE /\ size' = c
             /\ UNCHANGED waiting
CDec == /\ left > 0
        /\ left' = left - 1 /\ inDec' = inDec + 1
        /\ UNCHANGED <<last, waiting, size>>
\* A decrement that reports "not last" leaves at least one other decrement that
\* may still report it.
CDecd(isLast) == /\ inDec > 0
                 /\ inDec' = inDec - 1
                 /\ IF isLast THEN ~last /\ left = 0 ELSE left + inDec > 1 \/ last
                 /\ last' = (last \/ isLast)
                 /\ UNCHANGED <<left, waiting, size>>
CWait == /\ left >= 0 /\ ~waiting /\ waiting' = TRUE
         /\ UNCHANGED <<left, inDec, last, size>>
CReturn == /\ waiting /\ left = 0
           /\ waiting' = FALSE
           /\ UNCHANGED <<left, inDec, last, size>>

CDNext == \/ \E c \in 0..MaxCount : CReset(c)
          \/ CDec \/ (\E b \in BOOLEAN : CDecd(b)) \/ CWait \/ CReturn

CDSpec == CDInit /\ [][CDNext]_cdvars
CDTypeOK == left \in -1..MaxCount /\ inDec \in 0..MaxCount
(* When all decrements of a round have ended, exactly one reported last.   *)
LastReported == (size > 0 /\ left = 0 /\ inDec = 0) => last
=============================================================================
