------------------------------- MODULE Detect -------------------------------
(***************************************************************************)
(* What is concluded from a description of the processor.                  *)
(* detect: result of initialising the description (ok), extensions (feats, *)
(* bits avx avx2 fma3 avx512f dq cd bw vl vnni sse4.2), caches (size in     *)
(* bytes, first processor, number of processors; 0 if not known),          *)
(* processors (their core; index of the first, second, third level cache   *)
(* or -1), how many processors can be looked up (vis; -1 for all).         *)
(***************************************************************************)
EXTENDS Replay

Bit(n, b) == (n \div (2 ^ b)) % 2 = 1
All(n, bs) == \A b \in bs : Bit(n, b)
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y

Seen(i) == i < Len(E.procs) /\ (E.vis < 0 \/ i < E.vis)
Cache(i) == E.caches[i + 1]
(* Levels of a processor about which enough is known. *)
Levels(p) == {v \in 1..3 : p.c[v] >= 0 /\ Cache(p.c[v]).count > 0 /\ Seen(Cache(p.c[v]).start)
                           /\ Seen(Cache(p.c[v]).start + Cache(p.c[v]).count - 1)}
Local(c) == E.procs[c.start + 1].core = E.procs[c.start + c.count].core
LastOf(p) == Cache(p.c[Max(Levels(p))]).size
LocalOf(p) == LET ls == {v \in Levels(p) : Local(Cache(p.c[v]))} IN
              IF ls = {} THEN LastOf(p) ELSE Cache(p.c[Max(ls)]).size
Known == E.ok = 1 /\ \A i \in DOMAIN E.procs : Levels(E.procs[i]) # {} /\ LastOf(E.procs[i]) > 0 /\ LocalOf(E.procs[i]) > 0

WantLocal == IF Known THEN Min({LocalOf(E.procs[i]) : i \in DOMAIN E.procs}) ELSE 32768
WantLast == IF Known THEN Min({LastOf(E.procs[i]) : i \in DOMAIN E.procs}) ELSE 524288

Avx == 16
Avx2 == 32
Avx512 == 64
Has(path) == Bit(E.paths, CASE path = Avx -> 4 [] path = Avx2 -> 5 [] path = Avx512 -> 6)

Detected == /\ E.k = "detect"
            /\ Must("paths", /\ Bit(E.paths, 0)
                             /\ Has(Avx) = (Known /\ All(E.feats, {0}))
                             /\ Has(Avx2) = (Known /\ All(E.feats, {1, 2}))
                             /\ Has(Avx512) = (Known /\ All(E.feats, {3, 4, 5, 6, 7}))
                             /\ E.paths < 128 /\ E.again = E.paths)
            /\ Must("others", E.vnni = (IF Known /\ Bit(E.feats, 8) THEN 1 ELSE 0)
                              /\ E.sse = (IF Known /\ Bit(E.feats, 9) THEN 1 ELSE 0))
            /\ Must("caches", E.local = WantLocal /\ E.last = WantLast /\ E.localagain = E.local)
            /\ Must("once", E.inits <= 1 /\ E.deinits <= E.inits * E.ok)

Init == l = 1
Next == Step /\ (E.k = "S" \/ Detected)
Spec == Init /\ [][Next]_l
View == l
=============================================================================
