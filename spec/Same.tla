-------------------------------- MODULE Same --------------------------------
(***************************************************************************)
(* A multiplication is a function of its problem (operands, parameters)    *)
(* and the path it runs on: whatever else was set or done before, the      *)
(* result is the one obtained the first time.                              *)
(*   data  problem p is created       ctx   a fresh context                *)
(*   path  the one path enabled       set   any other setting              *)
(*   run   problem p is computed, with digest h of the destination         *)
(***************************************************************************)
EXTENDS Replay

VARIABLES path,   \* enabled path, 0 if left to detection
          seen    \* seen[<<p, path>>]: result
vars == <<l, path, seen>>

Start == E.k = "S" /\ path' = 0 /\ seen' = <<>>
Data == E.k = "data" /\ UNCHANGED <<path, seen>>
Ctx == E.k = "ctx" /\ path' = 0 /\ UNCHANGED seen
Path == E.k = "path" /\ path' = E.x /\ UNCHANGED seen
Set == E.k = "set" /\ UNCHANGED <<path, seen>>
Run == /\ E.k = "run"
       /\ LET key == <<E.p, path>> IN
          /\ Must("same", key \in DOMAIN seen => seen[key] = E.h)
          /\ seen' = Put(seen, key, E.h)
       /\ UNCHANGED path

Init == l = 1 /\ path = 0 /\ seen = <<>>
Next == Step /\ (Start \/ Data \/ Ctx \/ Path \/ Set \/ Run)
Spec == Init /\ [][Next]_vars
View == l
=============================================================================
