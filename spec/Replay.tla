------------------------------- MODULE Replay -------------------------------
(***************************************************************************)
(* Common part of the specifications that validate recorded histories:     *)
(* events are consumed one after the other, a history is accepted if every *)
(* event is explained.                                                     *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLE l   \* next event

Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]

(* Names the clause that rejects an event.  Clauses that belong to other   *)
(* properties than the one being checked can be switched off.              *)
Must(name, cond) == IF ("NO_" \o name) \in DOMAIN IOEnv THEN TRUE
                    ELSE IF cond THEN TRUE ELSE PrintT(<<"WHY", name, l>>) /\ FALSE

Step == l <= Len(Trace) /\ l' = l + 1

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

Accepted == LET d == TLCGet("stats").diameter - 1 IN
            IF d = Len(Trace) THEN TRUE
            ELSE PrintT(<<"REJECTED", d + 1>>) /\ FALSE
=============================================================================
