------------------------------ MODULE Accuracy ------------------------------
(***************************************************************************)
(* How close floating-point products are to the exact ones.  All numbers   *)
(* are integers (times a common power of two), given by their digits in    *)
(* base 2^10, least significant first, every digit with the sign of the    *)
(* number.  Numbers grow beyond TLC's integers, so sums and comparisons    *)
(* are done on digits.                                                     *)
(*                                                                         *)
(* prod: entries s of a product of type ty: float, double, float operands  *)
(* with double accumulators and destination, and the same with float       *)
(* destination.  Of an entry: l and r are the operands' row and column     *)
(* (digit by digit), b the bias and v the computed value; lo and hi are    *)
(* clamping bounds, if min and max say so.                                 *)
(***************************************************************************)
EXTENDS Replay

Base == 1024
Size == 26   \* digits of the numbers compared

RECURSIVE SumProd(_, _, _), SumAbs(_, _, _)
SumProd(x, y, k) == IF k = 0 THEN 0 ELSE SumProd(x, y, k - 1) + x[k] * y[k]
Mag(x) == IF x < 0 THEN -x ELSE x
SumAbs(x, y, k) == IF k = 0 THEN 0 ELSE SumAbs(x, y, k - 1) + Mag(x[k] * y[k])

RECURSIVE Over(_, _, _, _)
(* Sum of T(i, p - i) for i in i..to *)
Over(T(_, _), p, i, to) == IF i > to THEN 0 ELSE T(i, p - i) + Over(T, p, i + 1, to)

(* Digits of SUM_k l[k] * r[k] before carrying. *)
Conv(T(_, _), planes) ==
  [q \in 1..Size |-> LET p == q + 1
                         from == IF p > planes THEN p - planes ELSE 1
                         to == IF p - 1 < planes THEN p - 1 ELSE planes
                     IN Over(T, p, from, to)]
At(d, q) == IF q \in DOMAIN d THEN d[q] ELSE 0

(* Digits in 0..Base-1, and what is carried out of the last one.           *)
RECURSIVE Carry(_, _, _, _)
Carry(d, q, c, done) == IF q > Size THEN [d |-> done, top |-> c]
                        ELSE LET v == d[q] + c IN Carry(d, q + 1, v \div Base, Append(done, v % Base))
Carried(d) == Carry(d, 1, 0, <<>>)
(* Sign and magnitude. *)
Number(d) == LET x == Carried(d) IN
             IF x.top >= 0 THEN [neg |-> FALSE, d |-> x.d]
             ELSE [neg |-> TRUE, d |-> Carried([q \in 1..Size |-> -d[q]]).d]
(* d * 1024^by * m for carried digits d *)
Times(d, by, m) == Carried([q \in 1..Size |-> IF q <= by THEN 0 ELSE d[q - by] * m]).d
Plus(d, e) == Carried([q \in 1..Size |-> d[q] + e[q]]).d

RECURSIVE LeqFrom(_, _, _)
LeqFrom(x, y, q) == IF q = 0 THEN TRUE
                    ELSE IF x[q] # y[q] THEN x[q] < y[q] ELSE LeqFrom(x, y, q - 1)
Leq(x, y) == LeqFrom(x, y, Size)

NotZero(x, k) == \E i \in DOMAIN x : x[i][k] # 0
Terms(x) == Cardinality({k \in DOMAIN x.l[1] : NotZero(x.l, k) /\ NotZero(x.r, k)})
            + (IF \E q \in DOMAIN x.b : x.b[q] # 0 THEN 1 ELSE 0)

(* v is no further from the exact sum than the roundings of n operations    *)
(* can bring it, where n counts the terms other than zero:                  *)
(*   |exact - v| <= n u (1 + n u) SUM |terms|,  u = 2^-24 or 2^-53;         *)
(* a narrower destination adds one rounding of the value itself.  Both      *)
(* sides are multiplied by 2^12/u.                                          *)
Entry(x, ty) ==
  LET depth == Len(x.l[1])
      planes == Len(x.l)
      P(i, j) == SumProd(x.l[i], x.r[j], depth)
      A(i, j) == SumAbs(x.l[i], x.r[j], depth)
  IN \E prod \in {Conv(P, planes)}, mag \in {Conv(A, planes)} :
     \E diff \in {Number([q \in 1..Size |-> prod[q] + At(x.b, q) - At(x.v, q)])},
        terms \in {Carried([q \in 1..Size |-> mag[q] + Mag(At(x.b, q))]).d},
        value \in {Number([q \in 1..Size |-> At(x.v, q)]).d} :
     \E n \in {Terms(x)} :
     \E off \in {IF ty \in {0, 3} THEN Times(diff.d, 3, 64) ELSE Times(diff.d, 6, 32)},
        may \in {IF ty = 3 THEN Plus(Times(value, 0, 4098), Times(terms, 0, 4))
                 ELSE Times(terms, 0, 4096 * n + (n * n) \div 4096 + 1)} :
        IF Leq(off, may) THEN TRUE
        \* clamped: the exact value is further out
        ELSE IF diff.neg THEN E.min = 1 /\ x.v = E.lo
        ELSE E.max = 1 /\ x.v = E.hi

Sub(x, y) == Number([q \in 1..Size |-> At(x, q) - At(y, q)])
Within(x) == /\ E.min = 1 => ~Sub(x.v, E.lo).neg
             /\ E.max = 1 => ~Sub(E.hi, x.v).neg

Prod == /\ E.k = "prod"
        /\ Must("value", E.odd = 0)
        /\ Must("clamp", \A i \in DOMAIN E.s : Within(E.s[i]))
        /\ Must("accuracy", \A i \in DOMAIN E.s : Entry(E.s[i], E.ty))

Init == l = 1
Next == Step /\ (E.k = "S" \/ Prod)
Spec == Init /\ [][Next]_l
View == l
=============================================================================
