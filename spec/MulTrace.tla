------------------------------ MODULE MulTrace ------------------------------
(***************************************************************************)
(* Validates recorded executions of whole multiplications, on one or       *)
(* several contexts used concurrently by different threads: free of data   *)
(* races, never deadlocking, and with results that depend only on the      *)
(* problem, not on threads, schedule, cache or other contexts.             *)
(***************************************************************************)
EXTENDS SyncTrace

VARIABLES ref,     \* ref[p]: result of problem p, computed by one thread
          busy,    \* contexts in the middle of a multiplication, with problem
          known    \* <<scenario, problem, result>> over all executions so far

appvars == <<ref, busy, known>>
vars == <<l, hb, cells, thr, ref, busy, known>>

Init == SyncInit /\ ref = <<>> /\ busy = {} /\ known = [spec |-> "", ref |-> <<>>]

Begin == /\ SyncBegin
         /\ ref' = <<>> /\ busy' = {}
         /\ known' = IF known.spec = E.spec
                     THEN [known EXCEPT !.ref = IF Len(ref) > 0 THEN ref ELSE @]
                     ELSE [spec |-> E.spec, ref |-> <<>>]
(* Reference results are the same in every execution of a scenario.        *)
Ref == /\ E.k = "ref"
       /\ E.a = Len(ref) + 1
       /\ IF E.a <= Len(known.ref) THEN known.ref[E.a] = <<E.b, E.c>> ELSE TRUE
       /\ ref' = Append(ref, <<E.b, E.c>>)
       /\ UNCHANGED syncvars /\ UNCHANGED <<busy, known>>
MulBegin == /\ E.k = "mb"
            /\ \A x \in busy : x[1] # E.a
            /\ busy' = busy \cup {<<E.a, E.b>>}
            /\ UNCHANGED syncvars /\ UNCHANGED <<ref, known>>
MulEnd == /\ E.k = "me"
          /\ <<E.a, E.b>> \in busy
          /\ ref[E.b] = <<E.c, E.d>>
          /\ busy' = busy \ {<<E.a, E.b>>}
          /\ UNCHANGED syncvars /\ UNCHANGED <<ref, known>>
CtxGone == /\ E.k = "cx"
           /\ \A x \in busy : x[1] # E.a
           /\ UNCHANGED syncvars /\ UNCHANGED appvars
Finish == SyncEnd /\ busy = {} /\ UNCHANGED appvars

Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ \/ SyncStep /\ UNCHANGED appvars
           \/ Begin \/ Ref \/ MulBegin \/ MulEnd \/ CtxGone \/ Finish

Spec == Init /\ [][Next]_vars
=============================================================================
