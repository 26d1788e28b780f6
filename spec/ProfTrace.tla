----------------------------- MODULE ProfTrace ------------------------------
(***************************************************************************)
(* Validates recorded executions of profiled threads and the sampling      *)
(* thread: free of data races and of accesses to threads that have ended,  *)
(* and every sample in the resulting profile is a nesting its thread was   *)
(* in at that moment.                                                      *)
(*                                                                         *)
(* The sampling thread looks once between two of its sleeps, so the time   *)
(* of a profile falls into windows separated by them.  In a window a       *)
(* thread gives at most one sample, of a nesting it had in that window; if *)
(* it had the same one all along, it gives exactly that one.               *)
(* Events: in/in2, out/out2 around entering (label b) and leaving a scope  *)
(* (thread a); pb, pf, pe, pd: profile begins, is being finished, has      *)
(* ended, has been reported; smp: thread a, nesting b (0: none), c samples.*)
(***************************************************************************)
EXTENDS SyncTrace

VARIABLES cur,    \* nestings each thread can be in now: one, or two in transition
          poss,   \* ... in the present window
          wins,   \* earlier windows of the present profile
          prof,   \* running, sampling thread
          got     \* samples reported

appvars == <<cur, poss, wins, prof, got>>
vars == <<l, hb, cells, thr, cur, poss, wins, prof, got>>

Tags == 0..8
None == [t \in Tags |-> {0}]
Idle == [on |-> FALSE, s |-> -1, ended |-> FALSE]

Init == SyncInit /\ cur = None /\ poss = None /\ wins = <<>> /\ prof = Idle /\ got = [t \in Tags |-> <<>>]
Begin == /\ SyncBegin
         /\ cur' = None /\ poss' = None /\ wins' = <<>> /\ prof' = Idle /\ got' = [t \in Tags |-> <<>>]

The(S) == CHOOSE x \in S : TRUE
To(t, S) == cur' = [cur EXCEPT ![t] = S] /\ poss' = [poss EXCEPT ![t] = @ \cup S] /\ UNCHANGED <<wins, prof, got>>
(* In transition, the nesting left and the one entered are both possible.  *)
In == E.k = "in" /\ To(E.a, LET s == The(cur[E.a]) IN {s, s * 8 + E.b}) /\ UNCHANGED syncvars
In2 == E.k = "in2" /\ To(E.a, {The({s \in cur[E.a] : \A u \in cur[E.a] : u <= s})}) /\ UNCHANGED syncvars
Out == E.k = "out" /\ To(E.a, LET s == The(cur[E.a]) IN {s, s \div 8}) /\ UNCHANGED syncvars
Out2 == E.k = "out2" /\ To(E.a, {The({s \in cur[E.a] : \A u \in cur[E.a] : u >= s})}) /\ UNCHANGED syncvars

PBegin == /\ E.k = "pb" /\ ~prof.on
          /\ prof' = [on |-> TRUE, s |-> -1, ended |-> FALSE]
          /\ poss' = cur /\ wins' = <<>> /\ got' = [t \in Tags |-> <<>>]
          /\ UNCHANGED cur /\ UNCHANGED syncvars
(* The sampling thread wakes up: a new window.  There is one such thread,  *)
(* and only while a profile runs.                                          *)
Sleep == /\ E.k = "sleep"
         /\ prof.on /\ ~prof.ended
         /\ prof.s \in {-1, E.t}
         /\ prof' = [prof EXCEPT !.s = E.t]
         /\ wins' = Append(wins, poss) /\ poss' = cur
         /\ UNCHANGED <<cur, got>> /\ UNCHANGED syncvars
PFinish == E.k = "pf" /\ prof.on /\ UNCHANGED syncvars /\ UNCHANGED appvars
PEnd == /\ E.k = "pe" /\ prof.on
        /\ prof.s # -1 => prof.s \in thr.exited
        /\ prof' = [prof EXCEPT !.ended = TRUE]
        /\ wins' = Append(wins, poss)
        /\ UNCHANGED <<cur, poss, got>> /\ UNCHANGED syncvars

CanBe(t, s) == Cardinality({i \in DOMAIN wins : s \in wins[i][t]})
MustBe(t, s) == Cardinality({i \in DOMAIN wins : i > 1 /\ i < Len(wins) /\ wins[i][t] = {s}})
Sample == /\ E.k = "smp" /\ prof.ended
          /\ E.a \in Tags /\ E.b > 0 /\ E.c > 0
          /\ E.c <= CanBe(E.a, E.b)
          /\ E.b \notin DOMAIN got[E.a]
          /\ got' = [got EXCEPT ![E.a] = [s \in DOMAIN @ \cup {E.b} |-> IF s = E.b THEN E.c ELSE @[s]]]
          /\ UNCHANGED <<cur, poss, wins, prof>> /\ UNCHANGED syncvars
RECURSIVE Total(_, _)
Total(f, D) == IF D = {} THEN 0 ELSE LET x == The(D) IN f[x] + Total(f, D \ {x})
Nestings(t) == UNION {wins[i][t] : i \in DOMAIN wins} \ {0}
PDone == /\ E.k = "pd" /\ prof.ended
         /\ \A t \in Tags : /\ Total(got[t], DOMAIN got[t]) <= Len(wins)
                            /\ \A s \in Nestings(t) : MustBe(t, s) <= (IF s \in DOMAIN got[t] THEN got[t][s] ELSE 0)
         /\ prof' = Idle
         /\ UNCHANGED <<cur, poss, wins, got>> /\ UNCHANGED syncvars

Finish == SyncEnd /\ ~prof.on /\ UNCHANGED appvars

Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ \/ E.k # "sleep" /\ SyncStep /\ UNCHANGED appvars
           \/ Begin \/ In \/ In2 \/ Out \/ Out2 \/ PBegin \/ Sleep \/ PFinish \/ PEnd \/ Sample \/ PDone \/ Finish

Spec == Init /\ [][Next]_vars
=============================================================================
