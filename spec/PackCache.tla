------------------------------ MODULE PackCache ------------------------------
(***************************************************************************)
(* Design of the cache of packed matrices: entries stamped at every use, a *)
(* running total of bytes, and ejection of the oldest until the new entry  *)
(* fits.  It refines the abstract least-recently-used list kept alongside. *)
(* Integer entries have a second buffer (sums), floating-point ones do not.*)
(* Bug: "nosums"   ejection forgets the sums' bytes                        *)
(*      "allsums"  ejection subtracts sums that float entries do not have  *)
(*      "hitstamp" a hit does not renew the stamp                          *)
(*      "ge"       ejects although the new entry just fits                 *)
(*      "one"      ejects at most one entry                                *)
(*      "after"    makes room without counting the new entry               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Keys, Budget, MaxOps, Bug
VARIABLES entry,   \* key -> [stamp]
          total, clock,
          lru      \* abstract: keys in order of last use
vars == <<entry, total, clock, lru>>

(* Key k: data of k units, and sums of one unit for even keys. *)
Data(k) == k
Sums(k) == IF k % 2 = 0 THEN 1 ELSE 0
Size(k) == Data(k) + Sums(k)
Charged(k) == CASE Bug = "nosums" -> Data(k) [] Bug = "allsums" -> Data(k) + 1 [] OTHER -> Size(k)

Init == entry = <<>> /\ total = 0 /\ clock = 0 /\ lru = <<>>

RECURSIVE SizeOf(_)
SizeOf(q) == IF q = <<>> THEN 0 ELSE Size(Head(q)) + SizeOf(Tail(q))

Tick == clock < MaxOps /\ clock' = clock + 1

Stamped(e, k) == [x \in DOMAIN e \cup {k} |-> IF x = k THEN clock ELSE e[x]]

(* Ejection as a loop. *)
RECURSIVE Eject(_, _, _)
Full(t, k) == CASE Bug = "ge" -> t + Size(k) >= Budget
                [] Bug = "after" -> t > Budget
                [] OTHER -> t + Size(k) > Budget
Eject(e, t, k) ==
  IF DOMAIN e = {} \/ ~Full(t, k) THEN <<e, t>>
  ELSE LET o == CHOOSE x \in DOMAIN e : \A y \in DOMAIN e : e[x] <= e[y]
           e2 == [x \in DOMAIN e \ {o} |-> e[x]]
           t2 == IF t >= Charged(o) THEN t - Charged(o) ELSE 0 IN
       IF Bug = "one" THEN <<e2, t2>> ELSE Eject(e2, t2, k)

Hit(k) == /\ k \in DOMAIN entry /\ Tick
          /\ entry' = IF Bug = "hitstamp" THEN entry ELSE Stamped(entry, k)
          /\ total' = total
          /\ lru' = Append(SelectSeq(lru, LAMBDA x : x # k), k)

(* The abstract list loses the shortest prefix that makes room. *)
Drop(q, k) == LET ok == {n \in 0..Len(q) : SizeOf(SubSeq(q, n + 1, Len(q))) + Size(k) <= Budget \/ n = Len(q)}
                  n == CHOOSE m \in ok : \A j \in ok : m <= j IN
              SubSeq(q, n + 1, Len(q))

Miss(k) == /\ k \notin DOMAIN entry /\ Tick
           /\ LET r == Eject(entry, total, k) IN
              /\ entry' = Stamped(r[1], k)
              /\ total' = r[2] + Size(k)
           /\ lru' = Append(Drop(lru, k), k)

Clear == /\ Tick /\ entry' = <<>> /\ total' = 0 /\ lru' = <<>>

Next == (\E k \in Keys : Hit(k) \/ Miss(k)) \/ Clear
Spec == Init /\ [][Next]_vars

Exact == total = SizeOf(lru)
Within == total <= Budget \/ Cardinality(DOMAIN entry) = 1
Same == DOMAIN entry = {lru[i] : i \in DOMAIN lru}
Order == \A i, j \in DOMAIN lru : i < j => entry[lru[i]] < entry[lru[j]]
=============================================================================
