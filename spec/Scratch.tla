------------------------------- MODULE Scratch -------------------------------
(***************************************************************************)
(* Design of the scratch allocator: one buffer handed out front to back, a *)
(* separate block for each request that does not fit, and consolidation at *)
(* the bulk release.  Any system request may fail.                         *)
(* Bug selects a faulty design, for validating the specification itself:   *)
(*   "keepsize"  the failed consolidation keeps the intended size          *)
(*   "nofailcheck" a failed request is recorded as if it had succeeded     *)
(*   "norewind"  the release forgets to rewind when there are no fallbacks *)
(*   "leak"      consolidation does not free the old buffer                *)
(*   "exact"     consolidation only counts the fallback blocks             *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences

CONSTANTS Sizes, MaxPerRound, MaxRounds, Bug

VARIABLES ptr,      \* block number of the buffer, 0 if none
          current, size,
          fallback, \* fallback blocks
          ftotal,   \* their total size
          system,   \* live system blocks: id -> size
          next,     \* next block number
          live,     \* live allocations: [b, o, n]
          hist,     \* requests of finished rounds and the current one
          faults    \* rounds in which a system request failed
vars == <<ptr, current, size, fallback, ftotal, system, next, live, hist, faults>>

Round == Len(hist)
Add(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, s) == [x \in DOMAIN f \ s |-> f[x]]

Init == /\ ptr = 0 /\ current = 0 /\ size = 0 /\ fallback = {} /\ ftotal = 0
        /\ system = <<>> /\ next = 1 /\ live = {} /\ hist = <<<<>>>> /\ faults = {}

Request(n) == /\ Len(hist[Round]) < MaxPerRound
              /\ hist' = [hist EXCEPT ![Round] = Append(@, n)]

Fast(n) == /\ Request(n)
           /\ current + n <= size
           /\ live' = live \cup {[b |-> ptr, o |-> current, n |-> n]}
           /\ current' = current + n
           /\ UNCHANGED <<ptr, size, fallback, ftotal, system, next, faults>>

Slow(n) == /\ Request(n)
           /\ current + n > size
           /\ system' = Add(system, next, n)
           /\ fallback' = fallback \cup {next}
           /\ ftotal' = ftotal + n
           /\ live' = live \cup {[b |-> next, o |-> 0, n |-> n]}
           /\ next' = next + 1
           /\ UNCHANGED <<ptr, current, size, faults>>

SlowFails(n) ==
  /\ Request(n)
  /\ current + n > size
  /\ faults' = faults \cup {Round}
  /\ IF Bug = "nofailcheck" THEN ftotal' = ftotal + n /\ fallback' = fallback \cup {0}
     ELSE UNCHANGED <<ftotal, fallback>>
  /\ UNCHANGED <<ptr, current, size, system, next, live>>

Rewind == IF Bug = "norewind" /\ fallback = {} THEN current ELSE 0

Release ==
  /\ Round < MaxRounds
  /\ hist' = Append(hist, <<>>)
  /\ live' = {}
  /\ current' = Rewind
  /\ IF fallback = {} THEN UNCHANGED <<ptr, size, fallback, ftotal, system, next, faults>>
     ELSE LET want == IF Bug = "exact" THEN ftotal ELSE size + ftotal
              rest == Without(system, fallback \cup (IF Bug = "leak" THEN {} ELSE {ptr})) IN
          /\ fallback' = {} /\ ftotal' = 0
          /\ \/ /\ system' = Add(rest, next, want)
                /\ ptr' = next /\ size' = want /\ next' = next + 1
                /\ faults' = faults
             \/ /\ system' = rest
                /\ ptr' = 0 /\ size' = (IF Bug = "keepsize" THEN want ELSE 0)
                /\ faults' = faults \cup {Round}
                /\ next' = next

Next == (\E n \in Sizes : Fast(n) \/ Slow(n) \/ SlowFails(n)) \/ Release
Spec == Init /\ [][Next]_vars

(* Contract *)
There == \A a \in live : a.b \in DOMAIN system /\ a.o + a.n <= system[a.b]
Disjoint == \A a, b \in live : a # b => a.b # b.b \/ a.o + a.n <= b.o \/ b.o + b.n <= a.o
NoLeak == DOMAIN system = fallback \cup (IF ptr = 0 THEN {} ELSE {ptr})
(* Round k of h is so far a repetition of the two rounds before it. *)
Repeats(h, k) == /\ k > 2
                 /\ h[k-1] = h[k-2]
                 /\ {k, k-1, k-2} \cap faults' = {}
                 /\ Len(h[k]) <= Len(h[k-1])
                 /\ \A i \in 1..Len(h[k]) : h[k][i] = h[k-1][i]
(* Neither requests nor the release of a repeated round take system memory. *)
Steady == [][/\ Len(hist') = Round /\ Repeats(hist', Round) => system' = system
             /\ Len(hist') > Round /\ Repeats(hist, Round) /\ hist[Round] = hist[Round-1]
                  => system' = system]_vars
=============================================================================
