----------------------------- MODULE TrMulHints -----------------------------
(* Random behaviours of TrMul, printed as the thread of each step.         *)
EXTENDS TrMul

VARIABLE who

HintInit == Init /\ who = <<>>
HintNext == /\ ~returned
            /\ \/ \E t \in T : Step(t) /\ who' = Append(who, t)
               \/ AllDone /\ who' = who
            /\ IF returned' THEN PrintT("HINT " \o ToString(who')) ELSE TRUE
HSpec == HintInit /\ [][HintNext]_<<vars, who>>
=============================================================================
