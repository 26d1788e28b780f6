----------------------------- MODULE CacheTrace -----------------------------
(***************************************************************************)
(* Contract of the cache of packed matrices, against recorded histories.   *)
(*   get    lookup of key: whether an entry was inserted (new), its blocks *)
(*          d (data) and s (sums, 0 if none), their size together, whether *)
(*          they are large enough (fit) and still hold what was stored in  *)
(*          them (same), also when looked up again at once; the reported   *)
(*          size and count afterwards                                      *)
(*   clear, destroy                                                        *)
(* sys: blocks obtained and given back during the event.                   *)
(***************************************************************************)
EXTENDS Replay

VARIABLES lru,     \* entries, least recently used first: [key, d, s, size]
          held,    \* live blocks
          budget
vars == <<l, lru, held, budget>>

Init == l = 1 /\ lru = <<>> /\ held = {} /\ budget = 0

Sys(o) == {E.sys[i].b : i \in {j \in 1..Len(E.sys) : E.sys[j].o = o}}
FreedOnce == \A i \in 1..Len(E.sys) : E.sys[i].o = "free" => E.sys[i].c = 1

RECURSIVE Total(_)
Total(q) == IF q = <<>> THEN 0 ELSE Head(q).size + Total(Tail(q))
Without(q, key) == SelectSeq(q, LAMBDA x : x.key # key)
Blocks(q) == UNION {{q[i].d, q[i].s} \ {0} : i \in DOMAIN q}

Counts(q) == Must("count", E.count = Len(q)) /\ Must("bytes", E.bytes = Total(q))
Releases(q) == /\ Must("released", FreedOnce /\ held' = Blocks(q))

Known == {i \in DOMAIN lru : lru[i].key = E.key}

Hit == LET i == CHOOSE j \in Known : TRUE
           q == Append(Without(lru, E.key), lru[i]) IN
       /\ Known # {}
       /\ Must("found", E.new = 0)
       /\ Must("content", E.d = lru[i].d /\ E.s = lru[i].s /\ E.fit = 1 /\ E.same = 1)
       /\ Must("kept", Sys("free") = {})
       /\ lru' = q
       /\ held' = (held \cup Sys("alloc")) \ Sys("free")
       /\ Releases(q) /\ Counts(q)

(* Entries that left: those whose data was given back. *)
Left == {i \in DOMAIN lru : lru[i].d \in Sys("free")}

Miss == LET e == [key |-> E.key, d |-> E.d, s |-> E.s, size |-> E.size]
            stay == SelectSeq(lru, LAMBDA x : x.d \notin Sys("free"))
            q == Append(stay, e)
            n == Cardinality(Left)
            Room(k) == Total(SubSeq(lru, k + 1, Len(lru))) + E.size <= budget IN
        /\ Known = {}
        /\ Must("inserted", E.new = 1)
        /\ Must("room", E.fit = 1)
        /\ Must("found", E.same = 1)
        /\ Must("fresh", E.d \in Sys("alloc") /\ (E.s # 0 => E.s \in Sys("alloc")))
        /\ Must("lru", Left = 1..n)
        /\ Must("necessary", n = 0 \/ ~Room(n - 1))
        /\ Must("budget", Room(n) \/ stay = <<>>)
        /\ lru' = q
        /\ held' = (held \cup Sys("alloc")) \ Sys("free")
        /\ Releases(q) /\ Counts(q)

Get == E.k = "get" /\ budget' = budget /\ (Hit \/ Miss)

Clear == /\ E.k \in {"clear", "destroy"}
         /\ lru' = <<>> /\ budget' = budget
         /\ held' = (held \cup Sys("alloc")) \ Sys("free")
         /\ Releases(<<>>) /\ Counts(<<>>)

Start == E.k = "S" /\ lru' = <<>> /\ held' = {} /\ budget' = E.budget

Next == Step /\ (Start \/ Get \/ Clear)
Spec == Init /\ [][Next]_vars
View == l
=============================================================================
