--------------------------- MODULE ThreadPoolHints --------------------------
(***************************************************************************)
(* Random behaviours of ThreadPool, printed as the thread of each step and *)
(* the size of each call, to be replayed as schedules of the real pool.    *)
(***************************************************************************)
EXTENDS ThreadPool

VARIABLES who, calls

HintInit == Init /\ who = <<>> /\ calls = <<>>

HintNext ==
  /\ pc[0] # "gone"
  /\ \/ MainStep /\ who' = Append(who, 0)
     \/ \E w \in Workers : WorkerStep(w) /\ who' = Append(who, w)
  /\ calls' = IF ncall' > ncall THEN Append(calls, size') ELSE calls
  /\ IF pc'[0] = "gone" THEN PrintT("HINT " \o ToString(calls') \o " " \o ToString(who')) ELSE TRUE

HSpec == HintInit /\ [][HintNext]_<<vars, who, calls>>
=============================================================================
