----------------------------- MODULE AllocTrace -----------------------------
(***************************************************************************)
(* Contract of the scratch allocator, against recorded histories.  Events: *)
(*   alloc    request of c units of 64 bytes, the last with r bytes used,  *)
(*            hint (modulo 1024, or -1); result null, or at unit o of the  *)
(*            system block b, al/res its address modulo 64 and 1024        *)
(*   release  bulk release;  destroy  end of the allocator                 *)
(* Each carries what was asked of the system meanwhile (sys).              *)
(***************************************************************************)
EXTENDS Replay

VARIABLES blocks,  \* live system blocks: id -> [c, r]
          live,    \* live allocations: set of [b, o, c]
          rounds   \* requests since the last release, and of the two rounds before
vars == <<l, blocks, live, rounds>>

NoRound == [req |-> <<>>, failed |-> TRUE]
Fresh == [req |-> <<>>, failed |-> FALSE]
Init == l = 1 /\ blocks = <<>> /\ live = {} /\ rounds = <<NoRound, NoRound, Fresh>>

(* The system's side *)
RECURSIVE SysRun(_, _)
SysRun(bs, sys) ==
  IF sys = <<>> THEN bs
  ELSE LET s == Head(sys) IN
       SysRun(CASE s.o = "alloc" -> Put(bs, s.b, [c |-> s.c, r |-> s.r])
                [] s.o = "free" -> [x \in DOMAIN bs \ {s.b} |-> bs[x]]
                [] OTHER -> bs, Tail(sys))
Freed == {E.sys[i].b : i \in {j \in 1..Len(E.sys) : E.sys[j].o = "free"}}
FreedOnce == \A i \in 1..Len(E.sys) : E.sys[i].o = "free" => E.sys[i].c = 1
Failed == \E i \in 1..Len(E.sys) : E.sys[i].o = "fail"
Asked == \E i \in 1..Len(E.sys) : E.sys[i].o # "free"

Fits(bs) == /\ E.b \in DOMAIN bs
            /\ \/ E.o + E.c < bs[E.b].c
               \/ E.o + E.c = bs[E.b].c /\ E.r <= bs[E.b].r
Overlaps(x, y) == x.b = y.b /\ x.o < y.o + y.c /\ y.o < x.o + x.c

(* The two previous rounds were the same, without failures, and the current *)
(* one repeats them so far.                                                *)
Repeating(req) ==
  /\ rounds[1] = rounds[2] /\ ~rounds[1].failed /\ ~rounds[3].failed
  /\ Len(req) <= Len(rounds[1].req)
  /\ \A i \in 1..Len(req) : req[i] = rounds[1].req[i]

Alloc ==
  LET bs == SysRun(blocks, E.sys)
      a == [b |-> E.b, o |-> E.o, c |-> E.c]
      req == Append(rounds[3].req, <<E.c, E.r, IF E.hint >= 0 THEN 1 ELSE 0>>) IN
  /\ E.k = "alloc"
  /\ IF E.null = 1 THEN /\ Must("null", E.c = 0 \/ Failed)
                        /\ live' = live
     ELSE /\ Must("there", E.c = 0 \/ Fits(bs))
          /\ Must("aligned", E.al = 0)
          /\ Must("disjoint", \A x \in live : ~Overlaps(x, a))
          /\ Must("aliasing", E.hint >= 0 /\ E.c > 0 =>
                                LET d == (E.res - E.hint + 1024) % 1024 IN d >= 256 /\ d <= 768)
          /\ live' = live \cup {a}
  /\ Must("freed", FreedOnce)
  /\ Must("kept", \A x \in live : x.b \notin Freed)
  /\ Must("steady", Repeating(req) => ~Asked)
  /\ blocks' = bs
  /\ rounds' = [rounds EXCEPT ![3] = [req |-> req, failed |-> @.failed \/ Failed]]

ReleaseAll ==
  /\ E.k = "release"
  /\ Must("intact", E.intact = 1)
  /\ Must("freed", FreedOnce)
  /\ Must("steady", Repeating(rounds[3].req) /\ Len(rounds[3].req) = Len(rounds[1].req) => ~Asked)
  /\ blocks' = SysRun(blocks, E.sys)
  /\ live' = {}
  /\ rounds' = <<rounds[2], [rounds[3] EXCEPT !.failed = @ \/ Failed], Fresh>>

Destroy ==
  /\ E.k = "destroy"
  /\ Must("intact", E.intact = 1)
  /\ Must("freed", FreedOnce)
  /\ blocks' = SysRun(blocks, E.sys)
  /\ Must("leak", blocks' = <<>>)
  /\ live' = {} /\ rounds' = rounds

Start == E.k = "S" /\ blocks' = <<>> /\ live' = {} /\ rounds' = <<NoRound, NoRound, Fresh>>

Next == Step /\ (Start \/ Alloc \/ ReleaseAll \/ Destroy)
Spec == Init /\ [][Next]_vars
View == l
=============================================================================
