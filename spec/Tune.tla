-------------------------------- MODULE Tune --------------------------------
(***************************************************************************)
(* Which tuning is used.  Events in order of (simulated) time, in ms:      *)
(*   resolver  a resolver or context is created                            *)
(*   explicit  the tuning is chosen (0: automatic)                         *)
(*   core      the program moves to a core of another kind                 *)
(*   init      whether the description of the processor is available       *)
(*   use       tunings used by one resolution or multiplication; whether   *)
(*             the core was queried (q); by a single thread (one)          *)
(***************************************************************************)
EXTENDS Replay

VARIABLES exp, hist, lastq, known
vars == <<l, exp, hist, lastq, known>>

Generic == 1
A55ish == 2
X1 == 3
TuningOf(kind) == CASE kind \in {1, 2, 3} -> A55ish [] kind = 4 -> X1 [] OTHER -> Generic
Stale == 250   \* ms

(* Kinds of core the program was on at some time since `now - Stale`.      *)
Recent(now) == {hist[i].kind : i \in {i \in DOMAIN hist : i = Len(hist) \/ hist[i+1].t >= now - Stale}}

Resolver == E.k = "resolver" /\ exp' = 0 /\ lastq' = -1 /\ UNCHANGED <<hist, known>>
Explicit == E.k = "explicit" /\ exp' = E.t /\ UNCHANGED <<hist, lastq, known>>
Core == E.k = "core" /\ hist' = Append(hist, [t |-> E.now, kind |-> E.kind]) /\ UNCHANGED <<exp, lastq, known>>
Avail == E.k = "init" /\ known' = (E.ok = 1) /\ UNCHANGED <<exp, hist, lastq>>

Use == /\ E.k = "use"
       /\ \A i \in DOMAIN E.used :
            IF exp # 0 THEN Must("explicit", E.used[i] = exp)
            ELSE IF ~known THEN Must("unknown", E.used[i] = Generic)
            ELSE Must("stale", \E k \in Recent(E.now) : E.used[i] = TuningOf(k))
       /\ Must("some", Len(E.used) >= 1)
       (* by a single thread (others keep their own time): queried at most every quarter second (the     *)
       (* clock may have run on by a little)                                *)
       /\ Must("often", E.one = 1 /\ E.q = 1 /\ lastq >= 0 => E.now - lastq >= Stale - 1)
       /\ lastq' = IF E.one = 0 THEN -1 ELSE IF E.q = 1 THEN E.now ELSE lastq
       /\ UNCHANGED <<exp, hist, known>>

Start == E.k = "S" /\ exp' = 0 /\ hist' = <<[t |-> 0, kind |-> 0]>> /\ lastq' = -1 /\ known' = TRUE

Init == l = 1 /\ exp = 0 /\ hist = <<>> /\ lastq = -1 /\ known = TRUE
Next == Step /\ (Start \/ Resolver \/ Explicit \/ Core \/ Avail \/ Use)
Spec == Init /\ [][Next]_vars
View == l
=============================================================================
