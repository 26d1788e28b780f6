---------------------------- MODULE BlockCompute ----------------------------
(***************************************************************************)
(* What a multiplication does to its destination, whatever its block       *)
(* layout and schedule.  The destination is a grid of L x R cells (kernel  *)
(* sized).  Operand 1 is packed in L strips, operand 2 in R strips, each   *)
(* strip exactly once unless it came packed; a rectangle of cells is       *)
(* computed by one thread after all strips it consumes are packed; every   *)
(* cell is computed exactly once before the multiplication returns.        *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

VARIABLES Dim,       \* <<L, R>>, fixed during a multiplication
          Pre,       \* <<pre1, pre2>>: BOOLEAN, operand packed beforehand
          packing,   \* {[s, a, b, th]}: strips a..b-1 of operand s being packed
          packed,    \* {[s, a, b]}
          working,   \* {[a1, b1, a2, b2, th]}: rectangles being computed
          worked,    \* {[a1, b1, a2, b2]}
          returned

bcvars == <<packing, packed, working, worked, returned>>

Strips(r) == r.a..(r.b - 1)
Overlap(a, b, c, d) == a < d /\ c < b

BCInit == packing = {} /\ packed = {} /\ working = {} /\ worked = {} /\ returned = FALSE

PackBegin(s, a, b, th) ==
  /\ ~returned
  /\ ~Pre[s]
  /\ 0 <= a /\ a < b /\ b <= Dim[s]
  /\ \A p \in packing \cup packed : p.s = s => ~Overlap(a, b, p.a, p.b)
  /\ \A p \in packing : p.th # th
  /\ packing' = packing \cup {[s |-> s, a |-> a, b |-> b, th |-> th]}
  /\ UNCHANGED <<packed, working, worked, returned>>

PackEnd(s, a, b, th) ==
  /\ [s |-> s, a |-> a, b |-> b, th |-> th] \in packing
  /\ packing' = packing \ {[s |-> s, a |-> a, b |-> b, th |-> th]}
  /\ packed' = packed \cup {[s |-> s, a |-> a, b |-> b, th |-> -1]}
  /\ UNCHANGED <<working, worked, returned>>

\* Strips a..b-1 of operand s are packed.
Packed(s, a, b) ==
  IF Pre[s] THEN TRUE
  ELSE \A i \in a..(b - 1) : \E p \in packed : p.s = s /\ p.a <= i /\ i < p.b

ComputeBegin(a1, b1, a2, b2, th) ==
  /\ ~returned
  /\ 0 <= a1 /\ a1 < b1 /\ b1 <= Dim[1]
  /\ 0 <= a2 /\ a2 < b2 /\ b2 <= Dim[2]
  /\ Packed(1, a1, b1) /\ Packed(2, a2, b2)
  /\ \A w \in working \cup worked : ~(Overlap(a1, b1, w.a1, w.b1) /\ Overlap(a2, b2, w.a2, w.b2))
  /\ \A w \in working : w.th # th
  /\ working' = working \cup {[a1 |-> a1, b1 |-> b1, a2 |-> a2, b2 |-> b2, th |-> th]}
  /\ UNCHANGED <<packing, packed, worked, returned>>

ComputeEnd(a1, b1, a2, b2, th) ==
  /\ [a1 |-> a1, b1 |-> b1, a2 |-> a2, b2 |-> b2, th |-> th] \in working
  /\ working' = working \ {[a1 |-> a1, b1 |-> b1, a2 |-> a2, b2 |-> b2, th |-> th]}
  /\ worked' = worked \cup {[a1 |-> a1, b1 |-> b1, a2 |-> a2, b2 |-> b2, th |-> -1]}
  /\ UNCHANGED <<packing, packed, returned>>

RECURSIVE SumArea(_)
SumArea(S) == IF S = {} THEN 0
              ELSE LET w == CHOOSE x \in S : TRUE
                   IN (w.b1 - w.a1) * (w.b2 - w.a2) + SumArea(S \ {w})
RECURSIVE SumLen(_)
SumLen(S) == IF S = {} THEN 0
             ELSE LET p == CHOOSE x \in S : TRUE IN (p.b - p.a) + SumLen(S \ {p})

\* Disjoint rectangles inside the grid whose areas add up to it cover it.
Finished == /\ working = {} /\ packing = {}
            /\ SumArea(worked) = Dim[1] * Dim[2]
            /\ \A s \in {1, 2} : ~Pre[s] => SumLen({p \in packed : p.s = s}) = Dim[s]

BCReturn == /\ ~returned /\ Finished
            /\ returned' = TRUE
            /\ UNCHANGED <<packing, packed, working, worked>>
=============================================================================
