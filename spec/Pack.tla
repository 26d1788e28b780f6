-------------------------------- MODULE Pack --------------------------------
(***************************************************************************)
(* Packing: what the packed form of an operand must contain.               *)
(*   problem  the multiplication, with both operands as the caller gave    *)
(*            them                                                         *)
(*   layout   shape, tiling and padding value of the packed form of a side *)
(*   pack     a column range was packed; the whole packed buffer and sums  *)
(*            afterwards                                                   *)
(* Columns never packed must still hold what they held before.  Columns    *)
(* beyond the operand's may hold anything once packed: nobody looks at what *)
(* is computed from them.                                                  *)
(***************************************************************************)
EXTENDS Replay

VARIABLES prob, lay, done
vars == <<l, prob, lay, done>>

At(m, i, j) == m.v[1 + (IF m.ord = 1 THEN i * m.st + j ELSE j * m.st + i)]

(* The side holding the left operand: a row-major destination is computed  *)
(* as the transposed problem.                                              *)
IsLeft(side) == (side = 0) = (prob.dord = 0)
Operand(side) == IF IsLeft(side) THEN prob.l ELSE prob.r
Cols(side) == IF IsLeft(side) THEN prob.rows ELSE prob.cols
(* Entry at depth k of column c of the side. *)
Source(side, k, c) == IF IsLeft(side) THEN At(prob.l, c, k) ELSE At(prob.r, k, c)

(* Unsigned values are re-centred when stored as signed ones. *)
Centre(side) == IF Operand(side).sig = 0 /\ lay[side].sig = 1 THEN 128 ELSE 0
Padding(side) == Operand(side).zp - Centre(side)
Stored(side, k, c) == IF k < prob.depth THEN Source(side, k, c) - Centre(side) ELSE Padding(side)

(* Tiles of kr x kc entries, columns of tiles one after the other. *)
Place(y, k, c) ==
  LET ki == k % y.kr
      ci == c % y.kc IN
  (c - ci) * y.st + (k - ki) * y.kc + (IF y.ko = 1 THEN ki * y.kc + ci ELSE ci * y.kr + ki)

(* Sum of the entries of a column at depths from a to before b. *)
RECURSIVE SumOf(_, _, _, _)
SumOf(side, c, a, b) ==
  IF a = b THEN 0
  ELSE IF a + 1 = b THEN Stored(side, a, c)
  ELSE LET m == (a + b) \div 2 IN SumOf(side, c, a, m) + SumOf(side, c, m, b)
Sum(side, c, k) == SumOf(side, c, 0, k)

RoundUp(n, k) == ((n + k - 1) \div k) * k

Problem == /\ E.k = "problem"
           /\ prob' = E
           /\ lay' = <<>>
           /\ done' = [s \in 0..1 |-> {}]

Layout == /\ E.k = "layout"
          /\ lay' = Put(lay, E.side, E)
          /\ Must("layout", /\ E.ord = 0 /\ E.st >= E.rows
                            /\ E.rows = RoundUp(prob.depth, E.kr) /\ E.cols = RoundUp(Cols(E.side), E.kc)
                            /\ E.n >= E.st * E.cols)
          /\ Must("zeropoint", E.zp = Operand(E.side).zp - (IF Operand(E.side).sig = 0 /\ E.sig = 1 THEN 128 ELSE 0))
          /\ UNCHANGED <<prob, done>>

Pack == /\ E.k = "pack"
        /\ LET s == E.side
               y == lay[s]
               d == done[s] \cup (E.a .. E.b - 1) IN
           /\ done' = [done EXCEPT ![s] = d]
           /\ Must("confined", E.red = 1)
           /\ \A c \in 0..y.cols-1 :
                IF c \in d /\ c >= Cols(s) THEN TRUE
                ELSE IF c \in d
                THEN /\ Must("stored", \A k \in 0..prob.depth-1 : E.data[1 + Place(y, k, c)] = Stored(s, k, c))
                     /\ Must("padding", \A k \in prob.depth..y.rows-1 : E.data[1 + Place(y, k, c)] = Stored(s, k, c))
                     /\ Must("sums", y.hs = 1 => E.sums[1 + c] = Sum(s, c, y.rows))
                ELSE /\ Must("confined", \A k \in 0..y.rows-1 : E.data[1 + Place(y, k, c)] = prob.sent)
                     /\ Must("confined", y.hs = 1 => E.sums[1 + c] = prob.ssent)
        /\ UNCHANGED <<prob, lay>>

Init == l = 1 /\ prob = <<>> /\ lay = <<>> /\ done = <<>>
Next == Step /\ (Problem \/ Layout \/ Pack \/ (E.k = "S" /\ UNCHANGED <<prob, lay, done>>))
Spec == Init /\ [][Next]_vars
View == l
=============================================================================
