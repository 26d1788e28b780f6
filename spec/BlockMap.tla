------------------------------ MODULE BlockMap ------------------------------
(***************************************************************************)
(* How a destination is cut into blocks and in which order blocks are      *)
(* visited, as far as anybody depends on it.  Recorded maps are validated. *)
(*   map    rows, cols, kernel sizes kr, kc, requested threads req; threads *)
(*          chosen tc, number of blocks n = nl * nr, extents of blocks     *)
(*          along the two sides (windows wl, wr), the order of visit (bl, br) if full,   *)
(*          and whether the order had been announced as linear (lin)       *)
(*   curve  a grid of nl x nr blocks in some traversal order               *)
(*   huge   the same for a grid too large to be listed: number of distinct *)
(*          blocks of the grid visited, and of visits outside of it        *)
(***************************************************************************)
EXTENDS Replay

(* Consecutive, non-empty, aligned, from 0 to the extent.  ws: windows of  *)
(* consecutive blocks, the first and last blocks among them.               *)
Tiles(ws, n, kernel, extent) ==
  /\ n >= 1
  /\ ws[1].from = 0 /\ ws[1].s[1] = 0
  /\ \A k \in DOMAIN ws :
       LET s == ws[k].s
           e == ws[k].e
           m == Len(s) IN
       /\ Len(e) = m
       /\ \A i \in 1..m : s[i] < e[i] /\ s[i] % kernel = 0 /\ s[i] < extent
       /\ \A i \in 1..m-1 : e[i] = s[i+1]
  /\ LET w == ws[Len(ws)] IN
     /\ w.from + Len(w.s) = n
     /\ w.e[Len(w.e)] >= extent /\ w.e[Len(w.e)] - extent < kernel
  /\ \A k \in 1..Len(ws)-1 : ws[k].e[Len(ws[k].e)] <= ws[k+1].s[1]

(* Every block of the grid exactly once. *)
Bijective(bl, br, nl, nr) ==
  /\ Len(bl) = nl * nr /\ Len(br) = nl * nr
  /\ \A i \in DOMAIN bl : bl[i] \in 0..nl-1 /\ br[i] \in 0..nr-1
  /\ {bl[i] * nr + br[i] : i \in DOMAIN bl} = 0..nl*nr-1

(* Row by row or column by column inside each square of blocks, one square *)
(* after the other.                                                        *)
Linear(bl, br, nl, nr) ==
  LET s == IF nl < nr THEN nl ELSE nr
      Sq(i) == i \div (s * s)
      Fast(i) == (i % (s * s)) % s
      Slow(i) == (i % (s * s)) \div s
      L(i) == IF nl > nr THEN Sq(i) * s ELSE 0
      R(i) == IF nr > nl THEN Sq(i) * s ELSE 0 IN
  \/ \A i \in DOMAIN bl : bl[i] = L(i-1) + Fast(i-1) /\ br[i] = R(i-1) + Slow(i-1)
  \/ \A i \in DOMAIN bl : bl[i] = L(i-1) + Slow(i-1) /\ br[i] = R(i-1) + Fast(i-1)

Map == /\ E.k = "map"
       /\ Must("tiles", Tiles(E.wl, E.nl, E.kr, E.rows) /\ Tiles(E.wr, E.nr, E.kc, E.cols))
       /\ Must("count", E.n = E.nl * E.nr)
       /\ Must("threads", E.tc >= 1 /\ E.tc <= E.req /\ E.tc <= E.n)
       /\ Must("bijection", E.full = 1 => Bijective(E.bl, E.br, E.nl, E.nr))
       /\ Must("linear", E.full = 1 /\ E.lin = 1 => Linear(E.bl, E.br, E.nl, E.nr))

Curve == /\ E.k = "curve"
         /\ Must("count", E.n = E.nl * E.nr)
         /\ Must("bijection", Bijective(E.bl, E.br, E.nl, E.nr))
         /\ Must("linear", E.lin = 1 => Linear(E.bl, E.br, E.nl, E.nr))

Huge == /\ E.k = "huge"
        /\ Must("count", E.n = E.nl * E.nr)
        /\ Must("bijection", E.distinct = E.nl * E.nr /\ E.outside = 0)

Init == l = 1
Next == Step /\ (E.k = "S" \/ Map \/ Curve \/ Huge)
Spec == Init /\ [][Next]_l
View == l
=============================================================================
