------------------------------ MODULE MulArith ------------------------------
(***************************************************************************)
(* What a multiplication computes: exact integer arithmetic.  TLC's        *)
(* integers have 32 bits, so the 64-bit products of the fixed-point        *)
(* rescaling are computed with digits in base 2^11.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences

Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048>>
P2(n) == Pow2[n + 1]                     \* 0 <= n <= 11

(* floor(x * m * 2^(e-31) + 1/2) for 0 <= m < 2^31, -31 <= e <= 7, when the *)
(* result fits in 32 bits.                                                 *)
Rescale(x, m, e) ==
  LET ts == 31 - e
      x0 == x % 2048
      x1 == (x \div 2048) % 2048
      x2 == x \div 4194304
      m0 == m % 2048
      m1 == (m \div 2048) % 2048
      m2 == m \div 4194304
      \* the digit holding 2^(ts-1)
      rq == (ts - 1) \div 11
      rv == P2((ts - 1) % 11)
      R(i) == IF i = rq THEN rv ELSE 0
      a0 == x0 * m0 + R(0)
      a1 == x0 * m1 + x1 * m0 + R(1) + (a0 \div 2048)
      a2 == x0 * m2 + x1 * m1 + x2 * m0 + R(2) + (a1 \div 2048)
      a3 == x1 * m2 + x2 * m1 + R(3) + (a2 \div 2048)
      a4 == x2 * m2 + R(4) + (a3 \div 2048)
      a5 == R(5) + (a4 \div 2048)
      d == <<a0 % 2048, a1 % 2048, a2 % 2048, a3 % 2048, a4 % 2048, a5>>
      q == ts \div 11
      r == ts % 11
      \* sum of the digits above q, as a number in units of digit q+1
      hi == CASE q = 2 -> ((d[6] * 2048 + d[5]) * 2048 + d[4])
              [] q = 3 -> (d[6] * 2048 + d[5])
              [] q = 4 -> d[6]
              [] OTHER -> 0
  IN IF q = 5 THEN d[6] \div P2(r)
     ELSE hi * P2(11 - r) + (d[q + 1] \div P2(r))

(* The same rescaling rounded twice: to an integer before the right shift,  *)
(* and again after it.  Needs |x| * 2^max(e, 0) to fit in 32 bits.         *)
RescaleTwice(x, m, e) ==
  IF e >= 0 THEN Rescale(x * P2(e), m, 0)
  ELSE LET y == Rescale(x, m, 0)
       IN ((y \div 2^(-e - 1)) + 1) \div 2

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
Clamp(x, lo, hi) == Min2(Max2(x, lo), hi)

(* Entry (i, j), counted from 0, of matrix view a over contents v.         *)
At(v, a, i, j) == v[1 + a.off + (IF a.ord = 1 THEN i * a.st + j ELSE j * a.st + i)]

(* Values below the smallest normal one count as zero.                      *)
Flush(x, dz) == IF x < dz /\ -x < dz THEN 0 ELSE x

RECURSIVE Dot(_, _, _, _, _, _, _)
Dot(lv, la, rv, ra, i, j, k) ==
  IF k = 0 THEN 0
  ELSE Dot(lv, la, rv, ra, i, j, k - 1)
       + Flush(At(lv, la, i, k - 1) - la.zp, la.dz) * Flush(At(rv, ra, k - 1, j) - ra.zp, ra.dz)

RECURSIVE SumFrom(_, _, _)
SumFrom(f, a, b) == IF a > b THEN 0 ELSE IF a = b THEN f[a]
                    ELSE LET m == (a + b) \div 2 IN SumFrom(f, a, m) + SumFrom(f, m + 1, b)
SumOf(f, n) == SumFrom(f, 1, n)

(* Large operands are given as vectors: entry (i, j) is a[i] + c[j].  Then  *)
(* every entry of the product follows from three sums over the depth:       *)
(*   SUM_k (x + p[k]) * (q[k] + y) = x SUM q + n x y + SUM p q + y SUM p    *)
(* with zero points taken off p and q.                                      *)
SumsOver(a, la, b, ra) ==
  LET n == la.cols
      p == [k \in 1..n |-> a.c[k] - la.zp]
      q == [k \in 1..n |-> b.a[k] - ra.zp]
  IN [p |-> SumOf(p, n), q |-> SumOf(q, n), pq |-> SumOf([k \in 1..n |-> p[k] * q[k]], n), n |-> n]
SumDot(s, x, y) == x * s.q + s.n * x * y + s.pq + y * s.p

(* The x86 kernels may round twice (recorded finding about M05); no other  *)
(* deviation from exact rescaling is allowed.                              *)
MayRoundTwice(e) == e.path >= 16

(* Destination entry (i, j) of multiplication e, from the scalar product   *)
(* and contents of bias, multiplier and exponent buffers, is v.            *)
EntryIs(v, e, dot, bv, mv, ev, i, j, strict) ==
  LET c == 1 + (IF e.ch = 0 THEN i ELSE j)
      acc == dot + (IF e.bias >= 0 THEN bv[c] ELSE 0)
  IN CASE e.td = 3 -> v = acc
       [] e.td > 3 -> v = Clamp(acc, e.cmin, e.cmax)
       [] OTHER ->
            LET m == IF e.mode = 2 THEN mv[c] ELSE e.m
                x == IF e.mode = 2 THEN ev[c] ELSE e.e
            IN IF v = Clamp(Rescale(acc, m, x) + e.d.zp, e.cmin, e.cmax) THEN TRUE
               ELSE IF ~strict /\ MayRoundTwice(e)
               THEN v = Clamp(RescaleTwice(acc, m, x) + e.d.zp, e.cmin, e.cmax)
               ELSE FALSE

(* The destination buffer: entries are as computed.                        *)
DstIs(out, e, D(_, _), bv, mv, ev, strict) ==
     \A p \in 1..Len(out) :
       LET q == p - 1 - e.d.off
           major == q \div e.d.st
           minor == q % e.d.st
           i == IF e.d.ord = 1 THEN major ELSE minor
           j == IF e.d.ord = 1 THEN minor ELSE major
       IN IF q >= 0 /\ i < e.d.rows /\ j < e.d.cols
          THEN EntryIs(out[p], e, D(i, j), bv, mv, ev, i, j, strict)
          ELSE TRUE

(* Everything between the entries is as it was in contents dv.             *)
GapsAre(out, e, dv) ==
  /\ Len(out) = Len(dv)
  /\ \A p \in 1..Len(out) :
       LET q == p - 1 - e.d.off
           major == q \div e.d.st
           minor == q % e.d.st
       IN IF q >= 0 /\ major < (IF e.d.ord = 1 THEN e.d.rows ELSE e.d.cols)
                    /\ minor < (IF e.d.ord = 1 THEN e.d.cols ELSE e.d.rows)
          THEN TRUE ELSE out[p] = dv[p]

RoundUp(n, to) == ((n + to - 1) \div to) * to
=============================================================================
