--------------------------------- MODULE HB ---------------------------------
(***************************************************************************)
(* Happens-before of the C++ memory model, as vector clocks.               *)
(*                                                                         *)
(* An execution is a sequence of synchronisation operations (atomic loads, *)
(* stores and read-modify-writes with their memory orders, mutex and       *)
(* condition-variable operations, thread creation and joining, fences) and *)
(* plain memory accesses, executed one at a time.  The operators below     *)
(* compute the clock of each thread and object, and decide whether two     *)
(* accesses are ordered.  A thread's clock is a tuple indexed by thread    *)
(* number + 1.                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences

Max(a, b) == IF a > b THEN a ELSE b
Join(u, v) == [i \in DOMAIN u |-> IF u[i] > v[i] THEN u[i] ELSE v[i]]
Zero(n) == [i \in 1..n |-> 0]
(* u happens-before-or-equals v, as clocks *)
Leq(u, v) == \A i \in DOMAIN u : u[i] <= v[i]

(* State of the memory model for n threads and m synchronisation objects.  *)
(*   C : clock of each thread           L : clock published by each object *)
(*   FA: what a later acquire fence will learn                             *)
(*   FR: what was published by the last release fence                      *)
InitHB(n, m) ==
  [C  |-> [t \in 1..n |-> [i \in 1..n |-> IF i = t THEN 1 ELSE 0]],
   L  |-> [o \in 1..m |-> Zero(n)],
   FA |-> [t \in 1..n |-> Zero(n)],
   FR |-> [t \in 1..n |-> Zero(n)]]

Tick(h, t) == [h EXCEPT !.C[t][t] = @ + 1]

Acquire(h, t, o) == [h EXCEPT !.C[t] = Join(@, h.L[o])]

(* Atomic operation by thread t on object o.                               *)
(* m = 0 load, 1 store, 2 read-modify-write; q acquire, r release.         *)
(* A store starts a new release sequence; a read-modify-write continues    *)
(* the one it reads from.                                                  *)
Atomic(h, t, o, m, q, r) ==
  LET h1 == IF m = 1 THEN h
            ELSE IF q = 1 THEN Acquire(h, t, o)
            ELSE [h EXCEPT !.FA[t] = Join(@, h.L[o])]
      pub == IF r = 1 THEN h1.C[t] ELSE h1.FR[t]
      h2 == CASE m = 0 -> h1
              [] m = 1 -> [h1 EXCEPT !.L[o] = pub]
              [] OTHER -> [h1 EXCEPT !.L[o] = Join(@, pub)]
  IN IF m # 0 THEN Tick(h2, t) ELSE h2

Lock(h, t, o) == Acquire(h, t, o)
Unlock(h, t, o) == Tick([h EXCEPT !.L[o] = Join(@, h.C[t])], t)

Spawn(h, t, u) == Tick([h EXCEPT !.C[u] = Join(@, h.C[t])], t)
JoinThread(h, t, u) == [h EXCEPT !.C[t] = Join(@, h.C[u])]

Fence(h, t, q, r) ==
  LET h1 == IF q = 1 THEN [h EXCEPT !.C[t] = Join(@, h.FA[t])] ELSE h
  IN IF r = 1 THEN Tick([h1 EXCEPT !.FR[t] = h1.C[t]], t) ELSE h1

(* Shared memory cells.  W: last plain write as <<thread, clock>>;         *)
(* R: clock of the last plain read by each thread; A: last atomic access.  *)
InitCells(n, k) ==
  [W |-> [c \in 1..k |-> <<0, 0>>],
   R |-> [c \in 1..k |-> Zero(n)],
   A |-> [c \in 1..k |-> Zero(n)]]

WriteSeen(h, x, t, c) == LET w == x.W[c] IN IF w[1] = 0 THEN TRUE ELSE w[2] <= h.C[t][w[1]]

(* A plain read is racy iff some unordered write preceded it, and so on.   *)
ReadOk(h, x, t, c)   == WriteSeen(h, x, t, c)
WriteOk(h, x, t, c)  == WriteSeen(h, x, t, c) /\ Leq(x.R[c], h.C[t]) /\ Leq(x.A[c], h.C[t])
AtomicOk(h, x, t, c) == IF c = 0 THEN TRUE ELSE WriteSeen(h, x, t, c)

RaceFreeAccess(h, x, t, rd, wr) ==
  /\ \A i \in DOMAIN rd : ReadOk(h, x, t, rd[i])
  /\ \A i \in DOMAIN wr : WriteOk(h, x, t, wr[i])

Range(s) == {s[i] : i \in DOMAIN s}

AfterAccess(h, x, t, rd, wr) ==
  LET rs == Range(rd)
      ws == Range(wr)
  IN [x EXCEPT !.R = [c \in DOMAIN x.R |-> IF c \in rs THEN [x.R[c] EXCEPT ![t] = h.C[t][t]] ELSE x.R[c]],
               !.W = [c \in DOMAIN x.W |-> IF c \in ws THEN <<t, h.C[t][t]>> ELSE x.W[c]]]

AfterAtomic(h, x, t, c) ==
  IF c = 0 THEN x ELSE [x EXCEPT !.A[c][t] = h.C[t][t]]
=============================================================================
