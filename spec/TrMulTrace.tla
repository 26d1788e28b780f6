----------------------------- MODULE TrMulTrace -----------------------------
(***************************************************************************)
(* Validates recorded multiplications (middle-end with recording packing   *)
(* and kernel functions) against BlockCompute, with happens-before.        *)
(***************************************************************************)
EXTENDS SyncTrace

VARIABLES mul,       \* parameters of the current multiplication
          packing, packed, working, worked, returned,
          packClk,   \* clocks at the end of packing, per packed range
          threadsOk  \* largest number of threads any multiplication so far may use

BC == INSTANCE BlockCompute WITH Dim <- mul.dim, Pre <- mul.pre

bcv == <<packing, packed, working, worked, returned>>
appvars == <<mul, packing, packed, working, worked, returned, packClk, threadsOk>>
vars == <<l, hb, cells, thr, mul, packing, packed, working, worked, returned, packClk, threadsOk>>

NoMul == [dim |-> <<0, 0>>, ker |-> <<1, 1>>, pre |-> <<FALSE, FALSE>>, max |-> 0, strat |-> 0, on |-> FALSE]

Init == /\ SyncInit /\ mul = NoMul /\ BC!BCInit /\ packClk = {} /\ threadsOk = 1

Fresh == /\ packing' = {} /\ packed' = {} /\ working' = {} /\ worked' = {} /\ returned' = FALSE
         /\ packClk' = {}

Begin == SyncBegin /\ mul' = NoMul /\ Fresh /\ threadsOk' = 1

Start == /\ E.k = "tm"
         /\ ~mul.on
         /\ mul' = [NoMul EXCEPT !.dim = <<E.a, E.b>>, !.ker = <<E.c, E.d>>]
         /\ Fresh
         /\ UNCHANGED syncvars /\ UNCHANGED threadsOk
Params == /\ E.k = "tmp"
          /\ mul' = [mul EXCEPT !.pre = <<E.a = 1, E.b = 1>>, !.max = E.c, !.strat = E.d, !.on = TRUE]
          /\ UNCHANGED syncvars /\ UNCHANGED <<packing, packed, working, worked, returned, packClk, threadsOk>>

Aligned(x, k) == x % k = 0

PackBegin == /\ E.k = "pb"
             /\ mul.on
             /\ LET k == mul.ker[E.a] IN
                  /\ Aligned(E.b, k) /\ Aligned(E.c, k)
                  /\ BC!PackBegin(E.a, E.b \div k, E.c \div k, E.t)
             /\ UNCHANGED syncvars /\ UNCHANGED <<mul, packClk, threadsOk>>
PackEnd == /\ E.k = "pe"
           /\ LET k == mul.ker[E.a] IN
                /\ BC!PackEnd(E.a, E.b \div k, E.c \div k, E.t)
                /\ packClk' = packClk \cup {[s |-> E.a, a |-> E.b \div k, b |-> E.c \div k, clk |-> Me]}
           /\ hb' = Tick(hb, T)
           /\ UNCHANGED <<cells, thr, mul, threadsOk>>

(* The packing of strips a..b-1 of operand s is visible to this thread.    *)
Visible(s, a, b) == \A p \in packClk : p.s = s /\ p.a < b /\ a < p.b => Leq(p.clk, Me)

KernelBegin == /\ E.k = "kb"
               /\ mul.on
               /\ LET r == mul.ker[1]
                      c == mul.ker[2] IN
                    /\ Aligned(E.a, r) /\ Aligned(E.b, r) /\ Aligned(E.c, c) /\ Aligned(E.d, c)
                    /\ BC!ComputeBegin(E.a \div r, E.b \div r, E.c \div c, E.d \div c, E.t)
                    /\ Visible(1, E.a \div r, E.b \div r)
                    /\ Visible(2, E.c \div c, E.d \div c)
               /\ UNCHANGED syncvars /\ UNCHANGED <<mul, packClk, threadsOk>>
(* The kernel found the packed data complete.                              *)
KernelData == /\ E.k = "kd"
              /\ E.a = 0
              /\ UNCHANGED syncvars /\ UNCHANGED appvars
KernelEnd == /\ E.k = "ke"
             /\ LET r == mul.ker[1]
                    c == mul.ker[2] IN
                  BC!ComputeEnd(E.a \div r, E.b \div r, E.c \div c, E.d \div c, E.t)
             /\ UNCHANGED syncvars /\ UNCHANGED <<mul, packClk, threadsOk>>

Min(a, b) == IF a < b THEN a ELSE b
(* Threads a multiplication uses, counting the caller: as many as its     *)
(* strategy asks for (mul.strat: -1 forces the maximum, otherwise one per  *)
(* 32768 scalar products), up to the maximum and the number of blocks.     *)
Uses == LET most == Min(mul.max, Cardinality(worked))
        IN IF mul.strat < 0 THEN most ELSE Min(Max(1, mul.strat), most)

Return == /\ E.k = "tmret"
          /\ E.t = 0
          /\ mul.on
          /\ BC!BCReturn
          /\ threadsOk' = Max(threadsOk, Uses)
          /\ LET have == Cardinality(thr.spawned) + 1 IN have <= threadsOk' /\ have >= Uses
          /\ mul' = [mul EXCEPT !.on = FALSE]
          /\ UNCHANGED syncvars /\ UNCHANGED packClk
See == /\ E.k = "tmsee"
       /\ E.a = 0
       /\ UNCHANGED syncvars /\ UNCHANGED appvars
CtxDel == /\ E.k = "cdel"
          /\ ~mul.on
          /\ UNCHANGED syncvars /\ UNCHANGED appvars
CtxGone == /\ E.k = "cgone"
           /\ thr.spawned = thr.exited
           /\ E.a = 0
           /\ UNCHANGED syncvars /\ UNCHANGED appvars

Finish == SyncEnd /\ ~mul.on /\ UNCHANGED appvars

Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ \/ SyncStep /\ UNCHANGED appvars
           \/ Begin \/ Start \/ Params \/ PackBegin \/ PackEnd \/ KernelBegin \/ KernelData
           \/ KernelEnd \/ Return \/ See \/ CtxDel \/ CtxGone \/ Finish

Spec == Init /\ [][Next]_vars
=============================================================================
