------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* A user's session: data buffers, contexts with their settings and their  *)
(* cache of packed operands, and multiplications.  Events of a recorded    *)
(* session are validated one after the other.                              *)
(*                                                                         *)
(*   buf   contents of a data buffer are (re)written by the user           *)
(*   sum   the same for a large matrix, entry (i, j) being a[i] + c[j]     *)
(*   fill  the same for a large destination, all entries being x           *)
(*   ctx, del, thr, path, clr   context created, destroyed, thread limit,  *)
(*         enabled paths, cache cleared                                    *)
(*   env   environment override of the paths                               *)
(*   mul   a multiplication, with everything observed afterwards           *)
(*   big   a multiplication of large constant matrices                     *)
(*   use   resources in use                                                *)
(***************************************************************************)
EXTENDS MulArith, FiniteSets, TLC, Json, IOUtils, Bitwise

CONSTANT Strict   \* no path may deviate from the exact rescaling

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,      \* next event
          cur,    \* cur[b]: event that holds buffer b's current contents
          ctxs,   \* ctxs[c]: settings of context c
          cache,  \* cache[c]: packed operands context c retains
          env,    \* environment override of the paths, 0 if none
          held    \* resources in use: without contexts, and when last looked at
vars == <<l, cur, ctxs, cache, env, held>>

E == Trace[l]

(* Names the clause that rejects an event.  Clauses that belong to other   *)
(* properties than the one being checked can be switched off.              *)
Must(name, cond) == IF ("NO_" \o name) \in DOMAIN IOEnv THEN TRUE
                    ELSE IF cond THEN TRUE ELSE PrintT(<<"WHY", name, l>>) /\ FALSE

Nobody == [blocks |-> -1, bytes |-> -1]
NoUse == [none |-> Nobody, last |-> Nobody]
Init == l = 1 /\ cur = <<>> /\ ctxs = <<>> /\ cache = <<>> /\ env = 0 /\ held = NoUse

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

Contents(line) == CASE Trace[line].k = "buf" -> Trace[line].v
                    [] Trace[line].k = "fill" -> [p \in 1..Trace[line].n |-> Trace[line].x]
                    [] OTHER -> Trace[line].out
Cur(b) == IF b < 0 THEN <<>> ELSE Contents(cur[b])

---------------------------------------------------------------------------
(* Paths *)

PathBits == {1, 2, 4, 8, 16, 32, 64}
PublicPaths == 1 + 16 + 32 + 64      \* the others exist for tests only
Has(set, bit) == (set \div bit) % 2 = 1
Best(set) == CHOOSE b \in PathBits : /\ Has(set, b)
                                     /\ \A o \in PathBits : Has(set, o) => o <= b
(* Explicit setting, else the environment, else what was detected; the     *)
(* portable path is always enabled.                                        *)
EnabledOk(c, rp) ==
  /\ Has(rp, 1)
  /\ IF ctxs[c].ex # 0 THEN rp = (ctxs[c].ex | 1)
     ELSE IF ctxs[c].env # 0 THEN rp = (ctxs[c].env | 1)
     ELSE ctxs[c].det \in {0, rp}
AfterQuery(c, rp) == IF ctxs[c].ex = 0 /\ ctxs[c].env = 0 THEN [ctxs[c] EXCEPT !.det = rp] ELSE ctxs[c]

---------------------------------------------------------------------------
(* Caching of packed operands.  kw is the kernel width along that operand, *)
(* ow and okw the other operand's width and kernel width.                  *)

Retained(pol, ow, okw) == CASE pol = 0 -> FALSE
                            [] pol = 1 -> ow <= okw
                            [] pol = 2 -> ow <= 4 * okw
                            [] OTHER -> TRUE

KernelL(e) == IF e.d.ord = 1 THEN e.rw ELSE e.lw
KernelR(e) == IF e.d.ord = 1 THEN e.lw ELSE e.rw
RetL(e) == Retained(e.l.pol, e.d.cols, KernelR(e))
RetR(e) == Retained(e.r.pol, e.d.rows, KernelL(e))

(* How the implementation-independent view of an operand is identified:    *)
(* which data, seen as a stack of columns along the depth.                 *)
KeyL(e) == <<e.l.b, e.l.off, e.l.cols, e.l.rows, e.l.st, 1 - e.l.ord, e.l.zp, e.tl, KernelL(e), e.path>>
KeyR(e) == <<e.r.b, e.r.off, e.r.rows, e.r.cols, e.r.st, e.r.ord, e.r.zp, e.tr, KernelR(e), e.path>>

Hit(c, key) == {x \in cache[c] : x.key = key}
(* The event holding the contents a retained or fresh operand has.         *)
Source(c, ret, key, b) == IF ret /\ Hit(c, key) # {} THEN (CHOOSE x \in Hit(c, key) : TRUE).line ELSE cur[b]

---------------------------------------------------------------------------
(* Multiplication *)

NeedsCopy(e) == LET n == IF e.ch = 0 THEN e.d.rows ELSE e.d.cols
                    kw == IF e.ch = 0 THEN KernelL(e) ELSE KernelR(e)
                IN /\ e.bias >= 0 \/ e.mode = 2
                   /\ RoundUp(n, kw) > RoundUp(n, e.rnd)

Mul ==
  LET c == E.c
      retl == RetL(E)
      retr == RetR(E)
      lsrc == Source(c, retl, KeyL(E), E.l.b)
      rsrc == Source(c, retr, KeyR(E), E.r.b)
      lv == Contents(lsrc)
      rv == Contents(rsrc)
      large == Trace[lsrc].k = "sum"
      Small(i, j) == Dot(lv, E.l, rv, E.r, i, j, E.l.cols)
      Check(D(_, _)) == DstIs(E.out, E, D, Cur(E.bias), Cur(E.mb), Cur(E.eb), Strict)
      new == (IF retl /\ Hit(c, KeyL(E)) = {} THEN {[key |-> KeyL(E), line |-> lsrc]} ELSE {})
             \cup (IF retr /\ Hit(c, KeyR(E)) = {} THEN {[key |-> KeyR(E), line |-> rsrc]} ELSE {})
  IN /\ E.k = "mul"
     /\ Must("paths", EnabledOk(c, E.rp))
     /\ Must("path", E.path = Best((E.rp & E.cp) | 1))
     /\ Must("intact", E.intact = 1)
     /\ Must("fpmode", E.mx1 \div 64 = E.mx0 \div 64)
     \* exact arithmetic: no invalid operation, division by zero or overflow
     /\ Must("fpexcept", \A bit \in {1, 4, 8} : Has(E.mx1, bit) => Has(E.mx0, bit))
     /\ Must("advisory", (E.adv = 1) <=> NeedsCopy(E))
     /\ Must("result", /\ E.odd = 0
                       /\ IF large
                          THEN \E sums \in {SumsOver(Trace[lsrc], E.l, Trace[rsrc], E.r)} :  \* evaluated once
                                 LET Large(i, j) == SumDot(sums, Trace[lsrc].a[i + 1], Trace[rsrc].c[j + 1])
                                 IN Check(Large)
                          ELSE Check(Small))
     /\ Must("gaps", GapsAre(E.out, E, Cur(E.d.b)))
     /\ cache' = [cache EXCEPT ![c] = @ \cup new]
     /\ Must("retained", ((E.cn = 0) <=> (cache'[c] = {})) /\ E.cn <= Cardinality(cache'[c]))
     /\ cur' = [cur EXCEPT ![E.d.b] = l]
     /\ ctxs' = [ctxs EXCEPT ![c] = AfterQuery(c, E.rp)]
     /\ UNCHANGED env

---------------------------------------------------------------------------
Fresh == [ex |-> 0, env |-> env, det |-> 0, thr |-> 1]

Start == E.k = "S" /\ cur' = <<>> /\ ctxs' = <<>> /\ cache' = <<>> /\ env' = 0
Buf == E.k \in {"buf", "sum", "fill"} /\ cur' = Put(cur, E.b, l) /\ UNCHANGED <<ctxs, cache, env>>
New == /\ E.k = "ctx" /\ ctxs' = Put(ctxs, E.c, Fresh) /\ cache' = Put(cache, E.c, {})
       /\ UNCHANGED <<cur, env>>
Del == /\ E.k = "del" /\ ctxs' = Drop(ctxs, E.c) /\ cache' = Drop(cache, E.c)
       /\ UNCHANGED <<cur, env>>
Thr == /\ E.k = "thr" /\ ctxs' = [ctxs EXCEPT ![E.c].thr = E.n]
       /\ UNCHANGED <<cur, cache, env>>
SetPath == /\ E.k = "path"
           /\ ctxs' = [ctxs EXCEPT ![E.c] = IF E.p = 0 THEN [@ EXCEPT !.ex = 0, !.env = env]
                                            ELSE [@ EXCEPT !.ex = E.p]]
           /\ UNCHANGED <<cur, cache, env>>
Clr == E.k = "clr" /\ cache' = [cache EXCEPT ![E.c] = {}] /\ UNCHANGED <<cur, ctxs, env>>
Env == E.k = "env" /\ env' = E.p /\ UNCHANGED <<cur, ctxs, cache>>
(* Once every context is gone, so are all threads and memory they acquired, *)
(* up to what the first ones left behind in the system libraries; and work  *)
(* that only repeats earlier work does not need more memory.                *)
Use == LET now == [blocks |-> E.blocks, bytes |-> E.bytes] IN
       /\ E.k = "use"
       /\ IF E.c >= 0 THEN /\ Must("paths", EnabledOk(E.c, E.rp) /\ E.pub = (E.rp & PublicPaths))
                           /\ Must("maxthreads", E.mt = ctxs[E.c].thr)
                           /\ ctxs' = [ctxs EXCEPT ![E.c] = AfterQuery(E.c, E.rp)]
          ELSE ctxs' = ctxs
       /\ IF DOMAIN ctxs = {} THEN Must("threads", E.threads = 1) ELSE TRUE
       /\ IF DOMAIN ctxs = {} /\ held.none # Nobody THEN Must("leak", now = held.none) ELSE TRUE
       /\ IF E.same = 1 THEN Must("growth", now = held.last) ELSE TRUE
       /\ held' = [none |-> IF DOMAIN ctxs = {} THEN now ELSE held.none, last |-> now]
       /\ UNCHANGED <<cur, cache, env>>

Big == /\ E.k = "big"
       /\ Must("result", Len(E.out) = E.n /\ \A i \in 1..E.n : E.out[i] = IF i > E.n - E.tail THEN E.wtail ELSE E.want)
       /\ UNCHANGED <<cur, ctxs, cache, env>>

Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ \/ Use
           \/ /\ \/ Start \/ Buf \/ New \/ Del \/ Thr \/ SetPath \/ Clr \/ Env \/ Mul \/ Big
              /\ held' = IF E.k = "S" THEN NoUse ELSE held

Spec == Init /\ [][Next]_vars

View == l

Accepted == LET d == TLCGet("stats").diameter - 1 IN
            IF d = Len(Trace) THEN TRUE
            ELSE PrintT(<<"REJECTED", d + 1>>) /\ FALSE
=============================================================================
