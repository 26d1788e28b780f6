------------------------------- MODULE Tracing ------------------------------
(***************************************************************************)
(* What a trace tells is what happened.  A program's multiplications are   *)
(* known; the trace it leaves, one section per thread, must account for    *)
(* each of them: scopes nest, the operands are described as they were      *)
(* given, the best enabled path is taken, caching follows the policies,    *)
(* every column of an operand is packed once and before it is used, the    *)
(* blocks of all threads together tile the destination exactly.            *)
(*   S       start                     call  a multiplication and its result *)
(*   thr     a thread's section        open, close, ...  lines of the trace  *)
(*   end     the trace ends                                                *)
(* Sides are 1 and 2 of the problem brought to column-major destination:   *)
(* operands are seen with the summed dimension first.                      *)
(***************************************************************************)
EXTENDS Replay, Bitwise

VARIABLES calls,    \* the multiplications, in order
          log,      \* log[c]: what the trace tells about call c
          cur,      \* the call current lines belong to
          thread, stack, ready, panels, block, pend, ran,
          own,      \* the context whose worker this section is from
          used      \* the sections seen
vars == <<l, calls, log, cur, thread, stack, ready, panels, block, pend, ran, own, used>>

PathBits == {1, 2, 4, 8, 16, 32, 64}
Names == [b \in PathBits |-> CASE b = 1 -> "kStandardCpp" [] b = 2 -> "kInternalStandardCppVariant1"
   [] b = 4 -> "kInternalStandardCppVariant2" [] b = 8 -> "kInternalStandardCppVariant3"
   [] b = 16 -> "kAvx" [] b = 32 -> "kAvx2Fma" [] b = 64 -> "kAvx512"]
Best(set) == CHOOSE b \in PathBits : (set & b) # 0 /\ \A o \in PathBits : (set & o) # 0 => o <= b

Flip(o) == IF o = "row-major" THEN "column-major" ELSE "row-major"
Transposed(m) == [m EXCEPT !.rows = m.cols, !.cols = m.rows, !.ord = Flip(m.ord)]
Src(c, s) == IF c.d.ord = "column-major"
             THEN IF s = 1 THEN Transposed(c.l) ELSE c.r
             ELSE IF s = 1 THEN c.r ELSE Transposed(c.l)
Dst(c) == IF c.d.ord = "column-major" THEN c.d ELSE Transposed(c.d)
Inner(m) == IF m.ord = "row-major" THEN m.cols ELSE m.rows
Match(m, w) == /\ m.rows = w.rows /\ m.cols = w.cols /\ m.ord = w.ord /\ m.zp = w.zp /\ m.cp = w.cp
               /\ IF m.st = -1 THEN w.st = Inner(w) ELSE m.st = w.st /\ w.st # Inner(w)
Short(t) == CASE t = "float" -> "f32" [] t = "double" -> "f64" [] t = "int8_t" -> "i8" [] t = "uint8_t" -> "u8"
              [] t = "int16_t" -> "i16" [] t = "int32_t" -> "i32"

Blank == [told |-> {}, path |-> "", pre |-> {}, hits |-> {}, sent |-> {}, count |-> 0, packs |-> {}, tiles |-> {},
          mine |-> {}, wanted |-> {}, how |-> "", grid |-> <<>>, large |-> <<>>, kernel |-> <<>>]

Start == /\ E.k = "S" /\ calls' = <<>> /\ log' = <<>> /\ cur' = 0 /\ thread' = -2 /\ stack' = <<>>
         /\ ready' = {} /\ panels' = {} /\ block' = <<>> /\ pend' = <<>> /\ ran' = 0
         /\ own' = 0 /\ used' = {}
Call == /\ E.k = "call"
        /\ Must("result", E.lo = E.hi /\ E.lo = (E.x[1] - E.l.zp) * (E.x[2] - E.r.zp) * E.l.cols + E.d.zp)
        /\ calls' = Append(calls, E) /\ log' = Append(log, Blank)
        /\ UNCHANGED <<cur, thread, stack, ready, panels, block, pend, ran, own, used>>

\* The sections of the trace, in the order of the threads' numbers; the first
\* is that of the thread that called.  Threads of different contexts may have
\* the same number; which is which the trace does not tell.
Work(id, o) == {c \in DOMAIN log : id \in log[c].sent /\ calls[c].ctx = o}
Done == Must("worked", thread <= 0 \/ ran = Cardinality(Work(thread, own)))
Thr == /\ E.k = "thr"
       /\ Must("order", E.id >= thread)
       /\ Must("closed", stack = <<>>)
       /\ Must("first", thread = -2 \/ E.id > 0)
       /\ Done
       /\ thread' = E.id /\ ran' = 0
       /\ IF E.id <= 0 THEN own' = 0 /\ used' = used
          ELSE /\ Must("section", \E c \in DOMAIN log : E.id \in log[c].sent /\ <<E.id, calls[c].ctx>> \notin used)
               /\ \E o \in {calls[c].ctx : c \in DOMAIN log} :
                  /\ Work(E.id, o) # {} /\ <<E.id, o>> \notin used
                  /\ own' = o /\ used' = used \cup {<<E.id, o>>}
       /\ cur' = 0 /\ ready' = {} /\ panels' = {} /\ block' = <<>> /\ pend' = <<>>
       /\ UNCHANGED <<calls, log, stack>>
Main == thread <= 0

Open == /\ E.k = "open"
        /\ Must("indent", E.ind = Len(stack))
        /\ stack' = Append(stack, E.name)
        /\ IF E.name = "TrMulTask::Run" /\ ~Main
           THEN /\ ran' = ran + 1
                /\ LET mine == Work(thread, own) IN
                   /\ Must("sent", ran < Cardinality(mine))
                   /\ cur' = CHOOSE c \in mine : Cardinality({d \in mine : d < c}) = ran
                /\ ready' = {} /\ panels' = {}
           ELSE UNCHANGED <<ran, cur, ready, panels>>
        /\ block' = IF E.name = "Main loop iteration" THEN <<>> ELSE block
        /\ UNCHANGED <<calls, log, thread, pend, own, used>>
Close == /\ E.k = "close"
         /\ Must("nesting", stack # <<>> /\ stack[Len(stack)] = E.name)
         /\ Must("indent", E.ind = Len(stack) - 1)
         /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
         /\ block' = IF E.name = "Main loop iteration" THEN <<>> ELSE block
         /\ UNCHANGED <<calls, log, cur, thread, ready, panels, pend, ran, own, used>>

\* Lines inside scopes.
In == Must("indent", E.ind = Len(stack)) /\ UNCHANGED <<calls, thread, stack, ran, own, used>>
Keep == UNCHANGED <<cur, ready, panels, block, pend>>
C == calls[cur]
L == log[cur]
Tell(f) == log' = [log EXCEPT ![cur] = f]

Other == E.k = "other" /\ In /\ Keep /\ UNCHANGED log
Begin == /\ E.k = "compiled" /\ In
         /\ Must("calls", Main /\ cur < Len(calls))
         /\ cur' = cur + 1
         /\ ready' = {} /\ panels' = {} /\ block' = <<>> /\ pend' = <<>>
         /\ UNCHANGED log
Operand == /\ E.k = "matrix" /\ In /\ Keep
           /\ LET w == CASE E.who = "LHS" -> C.l [] E.who = "RHS" -> C.r [] OTHER -> C.d IN
              /\ Must("operand", Match(E, w) /\ E.ty = w.ty)
           /\ Tell([L EXCEPT !.told = @ \cup {E.who}])
Erased == /\ E.k = "emat" /\ In /\ Keep /\ UNCHANGED log
          /\ LET w == CASE E.who = "LHS" -> Src(C, 1) [] E.who = "RHS" -> Src(C, 2) [] OTHER -> Dst(C) IN
             Must("canonical", Match(E, w) /\ E.ty = Short(w.ty))
Selected == /\ E.k = "selected" /\ In /\ Keep
            /\ Must("selected", E.path = Names[Best(C.en)])
            /\ Tell([L EXCEPT !.path = E.path])
\* Types without a kernel of their own run on the portable path.
Fallback == C.l.ty \in {"double", "int16_t"}
Path == /\ E.k = "path" /\ In /\ Keep /\ UNCHANGED log
        /\ Must("path", E.path = L.path \/ (Fallback /\ E.path = "kStandardCpp"))

Forced == /\ E.k = "forced" /\ In /\ Keep /\ UNCHANGED log
          /\ Must("forced", \A b \in PathBits : (C.en & b) # 0 <=> b = 1 \/ Names[b] \in {E.paths[i] : i \in DOMAIN E.paths})
Depth == E.k = "depth" /\ In /\ Keep /\ UNCHANGED log /\ Must("depth", E.n = C.l.cols)
Chosen == /\ E.k = "chosen" /\ In /\ Keep
          /\ Must("chosen", L.how = "" /\ L.tiles = {})
          /\ Tell([L EXCEPT !.how = E.how])

\* Policies: 0 never, 3 always; the others depend on the shape.
Seen(s, exact) == \E c \in 1..(cur - 1) : calls[c].age = C.age /\ \E t \in {1, 2} :
   /\ t \in log[c].pre
   /\ LET a == Src(calls[c], t)
          b == Src(C, s)
      IN a.b = b.b /\ (exact => t = s /\ log[c].path = L.path /\ a = b)
Caching == /\ E.k = "caching" /\ In /\ Keep
           /\ LET m == Src(C, E.s) IN
              /\ Must("policy", m.cp # 0)
              /\ Must("cached", IF E.hit THEN Seen(E.s, FALSE) ELSE ~Seen(E.s, TRUE))
           /\ Tell([L EXCEPT !.pre = @ \cup {E.s}, !.hits = IF E.hit THEN @ \cup {E.s} ELSE @])
NotCaching == /\ E.k = "notcaching" /\ In /\ Keep /\ UNCHANGED log
              /\ Must("policy", Src(C, E.s).cp # 3)

\* Distribution.
Grid == E.k = "grid" /\ In /\ Keep /\ Tell([L EXCEPT !.grid = E.n])
Large == E.k = "large" /\ In /\ Keep /\ Tell([L EXCEPT !.large = Append(@, E.x)])
Count == /\ E.k = "count" /\ In /\ Keep
         /\ Must("threads", 1 <= E.n /\ E.n <= C.max)
         /\ Tell([L EXCEPT !.count = E.n])
Sending == /\ E.k = "send" /\ In /\ Keep
           /\ Must("send", E.n = Cardinality(L.sent) + 1 /\ E.n < L.count)
           /\ Tell([L EXCEPT !.sent = @ \cup {E.n}])

\* The current block: position p in the grid, rows and columns.
Shape == /\ E.k = "shape" /\ In
         /\ block' = [a |-> E.at[1], b |-> E.at[1] + E.sh[1], c |-> E.at[2], d |-> E.at[2] + E.sh[2], id |-> E.id, p |-> <<>>]
         /\ UNCHANGED <<cur, ready, panels, pend, log>>
Depends == /\ E.k = "depends" /\ In
           /\ Must("depends", block # <<>> /\ block.id = E.id)
           /\ block' = [block EXCEPT !.p = E.p]
           /\ UNCHANGED <<cur, ready, panels, pend, log>>

\* Packing.
Announce == /\ E.k = "packing" /\ In
            /\ Must("twice", <<E.s, E.p>> \notin L.mine)
            /\ pend' = <<E.s, E.p>>
            /\ Tell([L EXCEPT !.mine = @ \cup {<<E.s, E.p>>}])
            /\ UNCHANGED <<cur, ready, panels, block>>
Had == /\ E.k = "had" /\ In /\ Keep
       /\ Must("had", <<E.s, E.p>> \in panels \/ (block # <<>> /\ <<E.s, IF E.s = 1 THEN block.a ELSE block.c>> \in
                          {<<x[1], x[2]>> : x \in ready}))
       /\ UNCHANGED log
Just == /\ E.k = "just" /\ In
        /\ panels' = panels \cup {<<E.s, E.p>>}
        /\ Tell([L EXCEPT !.wanted = @ \cup {<<thread, E.s, E.p>>}])
        /\ UNCHANGED <<cur, ready, block, pend>>
Busy == E.k = "busy" /\ In /\ Keep /\ Must("busy", L.count > 1) /\ UNCHANGED log
Sides(m) == {s \in {1, 2} : Match(m, Src(C, s)) /\ m.ty = Short(Src(C, s).ty)}
Source == /\ E.k = "source" /\ In
          /\ LET may == IF pend # <<>> THEN Sides(E) \cap {pend[1]} ELSE Sides(E) IN
             /\ Must("source", may # {})
             /\ LET s == CHOOSE x \in may : \A y \in may : x <= y IN
                /\ Must("range", 0 <= E.a /\ E.a < E.b)
                /\ Must("again", s \notin L.hits /\ \A p \in L.packs : p[1] = s => E.b <= p[2] \/ p[3] <= E.a)
                /\ ready' = ready \cup {<<s, E.a, E.b>>}
                /\ panels' = IF pend # <<>> THEN panels \cup {pend} ELSE panels
                /\ Tell([L EXCEPT !.packs = @ \cup {<<s, E.a, E.b>>}])
          /\ pend' = <<>>
          /\ UNCHANGED <<cur, block>>

\* Computing.
Usable(s, a, b) == \/ s \in L.pre
                   \/ <<s, a, b>> \in ready
                   \/ block # <<>> /\ block.p # <<>> /\ <<s, block.p[s]>> \in panels
Kernel == /\ E.k = "kernel" /\ In /\ Keep
          /\ Must("target", Match(E, Dst(C)))
          /\ Must("block", block = <<>> \/ <<E.a, E.b, E.c, E.d>> = <<block.a, block.b, block.c, block.d>>)
          /\ Must("packed", Usable(1, E.a, E.b) /\ Usable(2, E.c, E.d))
          /\ Must("overlap", \A t \in L.tiles : E.b <= t[1] \/ t[2] <= E.a \/ E.d <= t[3] \/ t[4] <= E.c)
          /\ Tell([L EXCEPT !.tiles = @ \cup {<<E.a, E.b, E.c, E.d>>}])
Loops == /\ E.k = "loops" /\ In /\ Keep
         /\ Must("loops", \E t \in L.tiles : t[2] - t[1] = E.kr * E.m /\ t[4] - t[3] = E.kc * E.n)
         /\ Tell([L EXCEPT !.kernel = <<E.kr, E.kc>>])

(* At the end every call is accounted for.                                 *)
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN x[1] + Sum(S \ {x})
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Complete(c) ==
  LET g == log[c]
      d == Dst(calls[c])
      R == Max({t[2] : t \in g.tiles})
      W == Max({t[4] : t \in g.tiles})
      len == <<R, W>>
  IN /\ Must("told", g.told = {"LHS", "RHS", "Destination"})
     /\ Must("computed", g.tiles # {} /\ g.kernel # <<>>)
     /\ Must("rounded", /\ d.rows <= R /\ R < d.rows + g.kernel[1] /\ R % g.kernel[1] = 0
                        /\ d.cols <= W /\ W < d.cols + g.kernel[2] /\ W % g.kernel[2] = 0)
     /\ Must("tiled", Sum({<<(t[2] - t[1]) * (t[4] - t[3]), t>> : t \in g.tiles}) = R * W)
     /\ Must("allpacked", \A s \in {1, 2} : s \in g.hits \/
                          Sum({<<p[3] - p[2], p>> : p \in {q \in g.packs : q[1] = s}}) = len[s])
     /\ Must("tasks", g.sent = IF g.count = 0 THEN {} ELSE 1..(g.count - 1))
     /\ Must("loop", (g.how = "simple") <=> (g.count = 0))
     /\ Must("others", \A w \in g.wanted : <<w[2], w[3]>> \in g.mine)
     /\ Must("grid", g.grid # <<>> =>
                /\ Cardinality(g.tiles) = g.grid[1] * g.grid[2]
                /\ Len(g.large) = 2
                /\ \A s \in {1, 2} : LET x == g.large[s] IN x[1] * x[2] + (g.grid[s] - x[1]) * x[3] = len[s])
End == /\ E.k = "end"
       /\ Must("exit", E.rc = 0)
       /\ Must("closed", stack = <<>>)
       /\ Done
       /\ Must("sections", \A c \in DOMAIN log : \A w \in log[c].sent : <<w, calls[c].ctx>> \in used)
       /\ \A c \in DOMAIN calls : Complete(c)
       /\ UNCHANGED <<calls, log, cur, thread, stack, ready, panels, block, pend, ran, own, used>>

Init == /\ l = 1 /\ calls = <<>> /\ log = <<>> /\ cur = 0 /\ thread = -2 /\ stack = <<>> /\ ready = {} /\ panels = {}
        /\ block = <<>> /\ pend = <<>> /\ ran = 0 /\ own = 0 /\ used = {}
Next == Step /\ (\/ Start \/ Call \/ Thr \/ Open \/ Close \/ Other \/ Begin \/ Operand \/ Erased \/ Selected \/ Path
                 \/ Forced \/ Depth \/ Chosen
                 \/ Caching \/ NotCaching \/ Grid \/ Large \/ Count \/ Sending \/ Shape \/ Depends
                 \/ Announce \/ Had \/ Just \/ Busy \/ Source \/ Kernel \/ Loops \/ End)
Spec == Init /\ [][Next]_vars
View == <<l, own, used>>
=============================================================================
