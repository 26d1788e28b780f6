------------------------------ MODULE Profile -------------------------------
(***************************************************************************)
(* Profiles.  Threads enter and leave labelled scopes; while a profile     *)
(* runs, samples of the nesting of every thread are taken; at its end the  *)
(* samples are given as one tree per thread.  A label has an unformatted   *)
(* (f) and a formatted (s) text.  Nodes: f, s, weight w, children c.       *)
(***************************************************************************)
EXTENDS Replay

VARIABLES stack,   \* thread -> nesting of labels, outermost first
          count,   \* <<thread incarnation, nesting>> -> samples
          born,    \* thread -> incarnation
          on,      \* a profile is running
          roots,   \* trees of the last profile written to each view
          view     \* view in use
vars == <<l, stack, count, born, on, roots, view>>

Sum(f) == LET RECURSIVE S(_)
              S(D) == IF D = {} THEN 0 ELSE LET x == CHOOSE x \in D : TRUE IN f[x] + S(D \ {x})
          IN S(DOMAIN f)
SumSeq(s) == LET RECURSIVE S(_)
                 S(i) == IF i > Len(s) THEN 0 ELSE s[i] + S(i + 1)
             IN S(1)

Busy == {t \in DOMAIN stack : stack[t] # <<>>}
(* n more samples of every thread as it is now *)
Sampled(n) == LET now == {<<<<t, born[t]>>, stack[t]>> : t \in IF n = 0 THEN {} ELSE Busy} IN
              [x \in DOMAIN count \cup now |-> (IF x \in DOMAIN count THEN count[x] ELSE 0) + (IF x \in now THEN n ELSE 0)]

(* The tree below a node describes exactly the samples G, a function from  *)
(* nestings to numbers, from level d on.                                   *)
RECURSIVE Describes(_, _, _)
Describes(node, G, d) ==
  LET deeper == {g \in DOMAIN G : Len(g) > d}
      labels == {g[d + 1] : g \in deeper}
      total == Sum(G)
      self == total - Sum([g \in deeper |-> G[g]])
      other == labels # {} /\ self > 0
      kids == node.c
  IN /\ node.w = total
     /\ Len(kids) = Cardinality(labels) + (IF other THEN 1 ELSE 0)
     /\ \A x \in labels : \E i \in DOMAIN kids :
          /\ kids[i].f = x.f /\ kids[i].s = x.s
          /\ Describes(kids[i], [g \in {g \in deeper : g[d + 1] = x} |-> G[g]], d + 1)
     /\ other => \E i \in DOMAIN kids : kids[i].s = "[other]" /\ kids[i].w = self /\ kids[i].c = <<>>
     /\ \A i \in DOMAIN kids : i < Len(kids) => kids[i].w >= kids[i + 1].w   \* heaviest first

(* One tree per thread that was sampled.                                   *)
Trees(rs, cnt) ==
  LET who == {x[1] : x \in DOMAIN cnt}
      G(t) == [g \in {x[2] : x \in {x \in DOMAIN cnt : x[1] = t}} |-> cnt[<<t, g>>]]
      RECURSIVE Assign(_, _)
      Assign(i, left) == IF i > Len(rs) THEN left = {}
                         ELSE \E t \in left : Describes(rs[i], G(t), 0) /\ Assign(i + 1, left \ {t})
  IN Len(rs) = Cardinality(who) /\ Assign(1, who)

Weight(rs) == SumSeq([i \in DOMAIN rs |-> rs[i].w])
(* The sampling thread may look a few more times when the profile ends.    *)
Ends(rs) == LET extra == Weight(rs) - Sum(count)
                n == IF Busy = {} THEN 0 ELSE extra \div Cardinality(Busy)
            IN extra = n * Cardinality(Busy) /\ n \in 0..8 /\ Trees(rs, Sampled(n))

Matches(node, by, x) == IF by = "u" THEN node.f = x ELSE node.s = x
RECURSIVE WeightOf(_, _, _)
WeightOf(node, by, x) == (IF Matches(node, by, x) THEN node.w ELSE 0)
                         + SumSeq([i \in DOMAIN node.c |-> WeightOf(node.c[i], by, x)])
RECURSIVE Depth(_)
Depth(node) == LET D == {Depth(node.c[i]) : i \in DOMAIN node.c}
               IN IF D = {} THEN 0 ELSE 1 + (CHOOSE d \in D : \A e \in D : d >= e)

RECURSIVE Cut(_, _)
Cut(node, d) == [node EXCEPT !.c = IF d = 0 THEN <<>> ELSE [i \in DOMAIN @ |-> Cut(@[i], d - 1)]]
RECURSIVE Collapsed(_, _, _, _)
Collapsed(node, d, by, x) ==
  IF Matches(node, by, x) THEN Cut(node, d)
  ELSE [node EXCEPT !.c = [i \in DOMAIN @ |-> Collapsed(@[i], d, by, x)]]
(* Same tree, whatever the order of children of equal weight.              *)
RECURSIVE Same(_, _)
Same(a, b) == /\ a.f = b.f /\ a.s = b.s /\ a.w = b.w /\ Len(a.c) = Len(b.c)
              /\ \A i \in DOMAIN a.c : \E j \in DOMAIN b.c : Same(a.c[i], b.c[j])
SameAll(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Same(a[i], b[i])

(* Lines printed for a tree: level, label and share of the root.           *)
RECURSIVE Lines(_, _, _)
Lines(node, lev, root) ==
  LET RECURSIVE Cat(_)
      Cat(i) == IF i > Len(node.c) THEN <<>> ELSE Lines(node.c[i], lev + 1, root) \o Cat(i + 1)
  IN (IF lev = 0 THEN <<>> ELSE <<[lev |-> lev, s |-> node.s, w |-> node.w, of |-> root]>>) \o Cat(1)
AllLines(rs) == LET RECURSIVE Cat(_)
                    Cat(i) == IF i > Len(rs) THEN <<>> ELSE Lines(rs[i], 0, rs[i].w) \o Cat(i + 1)
                IN Cat(1)
Abs(x) == IF x < 0 THEN -x ELSE x

Start == E.k = "S" /\ stack' = [t \in {0} |-> <<>>] /\ born' = [t \in {0} |-> 1] /\ count' = <<>> /\ on' = FALSE
         /\ roots' = [v \in 0..2 |-> <<>>] /\ view' = 0
Thread == E.k = "thread" /\ stack' = Put(stack, E.t, <<>>)
          /\ born' = Put(born, E.t, IF E.t \in DOMAIN born THEN born[E.t] + 1 ELSE 1) /\ UNCHANGED <<count, on, roots, view>>
Exit == E.k = "exit" /\ UNCHANGED <<stack, count, born, on, roots, view>>
Enter == E.k = "enter" /\ stack' = [stack EXCEPT ![E.t] = Append(@, [f |-> E.f, s |-> E.s])]
         /\ UNCHANGED <<count, born, on, roots, view>>
Leave == E.k = "leave" /\ stack' = [stack EXCEPT ![E.t] = SubSeq(@, 1, Len(@) - 1)] /\ UNCHANGED <<count, born, on, roots, view>>
Begin == E.k = "begin" /\ on' = (E.on = 1) /\ count' = <<>> /\ view' = E.v /\ UNCHANGED <<stack, born, roots>>
Sample == E.k = "sample" /\ count' = Sampled(E.n) /\ UNCHANGED <<stack, born, on, roots, view>>
Done == /\ E.k = "done"
        /\ Must("tree", IF on THEN Ends(E.roots) ELSE E.roots = roots[view])
        /\ roots' = [roots EXCEPT ![view] = E.roots] /\ on' = FALSE
        /\ UNCHANGED <<stack, count, born, view>>
Query == /\ E.k = "query"
         /\ Must("query", LET rs == roots[view] IN
                          /\ Len(E.w) = Len(rs) /\ Len(E.d) = Len(rs)
                          /\ \A i \in DOMAIN rs : E.w[i] = WeightOf(rs[i], E.by, E.x) /\ E.d[i] = Depth(rs[i]))
         /\ UNCHANGED <<stack, count, born, on, roots, view>>
Collapse == /\ E.k = "collapse"
            /\ Must("collapse", LET rs == roots[view] IN
                                /\ SameAll(E.orig, rs)
                                /\ SameAll(E.roots, [i \in DOMAIN rs |-> Collapsed(rs[i], E.depth, E.by, E.x)]))
            /\ UNCHANGED <<stack, count, born, on, roots, view>>
Printed == /\ E.k = "print"
         /\ Must("print", LET ls == AllLines(roots[view]) IN
                          /\ Len(E.lines) = Len(ls)
                          /\ \A i \in DOMAIN ls : /\ E.lines[i].lev = ls[i].lev /\ E.lines[i].s = ls[i].s
                                                  /\ Abs(E.lines[i].p * ls[i].of - 10000 * ls[i].w) <= ls[i].of)
         /\ UNCHANGED <<stack, count, born, on, roots, view>>

Init == l = 1 /\ stack = <<>> /\ count = <<>> /\ born = <<>> /\ on = FALSE /\ roots = <<>> /\ view = 0
Next == Step /\ (Start \/ Thread \/ Exit \/ Enter \/ Leave \/ Begin \/ Sample \/ Done \/ Query \/ Collapse \/ Printed)
Spec == Init /\ [][Next]_vars
View == l
=============================================================================
