------------------------------ MODULE Sampler -------------------------------
(***************************************************************************)
(* Design of the profiler: threads register a stack of labels, push and    *)
(* pop labels, unregister and end; one sampling thread copies the stacks   *)
(* of all registered threads again and again until told to finish.         *)
(*                                                                         *)
(* A label consists of two words, written and copied one at a time, so     *)
(* that a copy can be torn.  G protects the registry, M[t] the stack of t. *)
(* The constants name design decisions; switching one off must break       *)
(* Genuine or Alive (see the Sampler_*.cfg).                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Threads, Depth, Pushes, Rounds,
          LockPush, LockPop,   \* the owner locks its stack
          LockSample,          \* the sampler locks a stack while copying it
          HoldRegistry,        \* ... and the registry during a whole round
          Unregister,          \* a thread unregisters before it ends: "once", in one
                               \* step; "split", looking up its place first; "no"
          Fill                 \* "before": a label is written before it counts

VARIABLES pc,      \* of each thread and of the sampler (0)
          G, M,    \* holders of the locks, -1 if free
          reg,     \* registered threads, in order
          pos,     \* place in the registry found
          size, f, a,   \* stacks: number of labels, first and second words
          left,    \* pushes left
          lab,     \* label being pushed
          todo, cp,     \* sampler: threads left in this round; copy in progress
          seen,    \* nestings the thread being copied had since the copying began
          finishing, rounds,
          bad      \* a copy was not genuine, or a stack of an ended thread was touched

vars == <<pc, G, M, reg, pos, size, f, a, left, lab, todo, cp, seen, finishing, rounds, bad>>

Range(s) == {s[i] : i \in DOMAIN s}
Nest(t) == [i \in 1..size[t] |-> <<f[t][i], a[t][i]>>]
NoCopy == [t |-> -1, n |-> 0, i |-> 1, w |-> 0, s |-> <<>>]

Init == /\ pc = [t \in Threads \cup {0} |-> IF t = 0 THEN "check" ELSE "new"]
        /\ G = -1 /\ M = [t \in Threads |-> -1]
        /\ reg = <<>> /\ pos = [t \in Threads |-> 0]
        /\ size = [t \in Threads |-> 0]
        /\ f = [t \in Threads |-> [i \in 1..Depth |-> 0]]
        /\ a = [t \in Threads |-> [i \in 1..Depth |-> 0]]
        /\ left = [t \in Threads |-> Pushes]
        /\ lab = [t \in Threads |-> 0]
        /\ todo = {} /\ cp = NoCopy /\ seen = {} /\ finishing = FALSE /\ rounds = 0 /\ bad = {}

Go(t, p) == pc' = [pc EXCEPT ![t] = p]
(* What the thread being copied looks like is remembered.                  *)
Watch == seen' = IF cp.t = -1 THEN {} ELSE seen \cup {[i \in 1..size'[cp.t] |-> <<f'[cp.t][i], a'[cp.t][i]>>]}
Owner(t) == UNCHANGED <<todo, cp, finishing, rounds, bad>>

Lock(t) == M[t] = -1 /\ M' = [M EXCEPT ![t] = t]

Register(t) == /\ pc[t] = "new" /\ G = -1
               /\ reg' = Append(reg, t) /\ Go(t, "idle")
               /\ UNCHANGED <<G, M, size, f, a, left, lab, seen>> /\ Owner(t) /\ UNCHANGED pos
StartPush(t) == /\ pc[t] = "idle" /\ left[t] > 0 /\ size[t] < Depth
                /\ (IF LockPush THEN Lock(t) ELSE UNCHANGED M)
                /\ left' = [left EXCEPT ![t] = @ - 1]
                /\ lab' = [lab EXCEPT ![t] = t * 10 + left[t]]
                /\ Go(t, IF Fill = "before" THEN "w1" ELSE "grow")
                /\ UNCHANGED <<G, reg, size, f, a, seen>> /\ Owner(t) /\ UNCHANGED pos
(* A label is in the nesting from the moment it counts.                    *)
Write1(t) == /\ pc[t] = "w1"
             /\ f' = [f EXCEPT ![t][size[t] + (IF Fill = "before" THEN 1 ELSE 0)] = lab[t]]
             /\ Go(t, "w2") /\ UNCHANGED <<G, M, reg, size, a, left, lab>> /\ Owner(t) /\ UNCHANGED pos /\ UNCHANGED seen
Write2(t) == /\ pc[t] = "w2"
             /\ a' = [a EXCEPT ![t][size[t] + (IF Fill = "before" THEN 1 ELSE 0)] = lab[t]]
             /\ Go(t, IF Fill = "before" THEN "grow" ELSE "pushed")
             /\ UNCHANGED <<G, M, reg, size, f, left, lab>> /\ Owner(t) /\ UNCHANGED pos
             /\ (IF Fill = "before" THEN UNCHANGED seen ELSE Watch)
Grow(t) == /\ pc[t] = "grow"
           /\ size' = [size EXCEPT ![t] = @ + 1]
           /\ Go(t, IF Fill = "before" THEN "pushed" ELSE "w1")
           /\ UNCHANGED <<G, M, reg, f, a, left, lab>> /\ Owner(t) /\ UNCHANGED pos
           /\ (IF Fill = "before" THEN Watch ELSE UNCHANGED seen)
Pushed(t) == /\ pc[t] = "pushed"
             /\ M' = (IF LockPush THEN [M EXCEPT ![t] = -1] ELSE M) /\ Go(t, "idle")
             /\ UNCHANGED <<G, reg, size, f, a, left, lab, seen>> /\ Owner(t) /\ UNCHANGED pos
Pop(t) == /\ pc[t] = "idle" /\ size[t] > 0
          /\ LockPop => M[t] = -1
          /\ size' = [size EXCEPT ![t] = @ - 1]
          /\ UNCHANGED <<pc, G, M, reg, f, a, left, lab>> /\ Owner(t) /\ UNCHANGED pos /\ Watch
Without(s, i) == [k \in 1..Len(s) - 1 |-> IF k < i THEN s[k] ELSE s[k + 1]]
Place(t) == CHOOSE i \in DOMAIN reg : reg[i] = t
Find(t) == /\ Unregister = "split"
           /\ pc[t] = "idle" /\ size[t] = 0 /\ G = -1
           /\ t \in Range(reg)
           /\ pos' = [pos EXCEPT ![t] = Place(t)] /\ Go(t, "found")
           /\ UNCHANGED <<G, M, reg, size, f, a, left, lab, seen>> /\ Owner(t)
End(t) == /\ pc[t] = (IF Unregister = "split" THEN "found" ELSE "idle") /\ size[t] = 0
          /\ Unregister # "no" => G = -1
          /\ reg' = CASE Unregister = "once" -> Without(reg, Place(t))
                      [] Unregister = "split" -> (IF pos[t] \in DOMAIN reg THEN Without(reg, pos[t]) ELSE reg)
                      [] OTHER -> reg
          /\ Go(t, "ended")
          /\ UNCHANGED <<G, M, pos, size, f, a, left, lab, seen>> /\ Owner(t)

Sampler == UNCHANGED <<pos, size, f, a, left, lab>>
Dead(t) == IF pc[t] = "ended" THEN {"ended"} ELSE {}

Stop == ~finishing /\ finishing' = TRUE /\ UNCHANGED <<pc, G, M, reg, pos, size, f, a, left, lab, todo, cp, seen, rounds, bad>>
Check == /\ pc[0] = "check"
         /\ IF finishing \/ rounds = Rounds THEN finishing /\ Go(0, "gone") /\ UNCHANGED <<G, todo, rounds>>
            ELSE /\ G = -1
                 /\ G' = (IF HoldRegistry THEN 0 ELSE G)
                 /\ todo' = Range(reg) /\ rounds' = rounds + 1 /\ Go(0, "next")
         /\ UNCHANGED <<M, reg, cp, seen, finishing, bad>> /\ Sampler
NextStack == /\ pc[0] = "next"
             /\ IF todo = {} THEN /\ G' = (IF HoldRegistry THEN -1 ELSE G) /\ Go(0, "check")
                                  /\ UNCHANGED <<M, todo, cp, seen, bad>>
                ELSE \E t \in todo :
                       /\ LockSample => M[t] = -1
                       /\ M' = (IF LockSample THEN [M EXCEPT ![t] = 0] ELSE M)
                       /\ todo' = todo \ {t}
                       /\ cp' = [t |-> t, n |-> size[t], i |-> 1, w |-> 0, s |-> <<>>]
                       /\ seen' = {Nest(t)}
                       /\ bad' = bad \cup Dead(t)
                       /\ Go(0, "copy") /\ UNCHANGED G
             /\ UNCHANGED <<reg, finishing, rounds>> /\ Sampler
Copy == /\ pc[0] = "copy"
        /\ IF cp.i > cp.n
           THEN /\ bad' = bad \cup (IF cp.s \in seen THEN {} ELSE {"torn"}) \cup Dead(cp.t)
                /\ M' = (IF LockSample THEN [M EXCEPT ![cp.t] = -1] ELSE M)
                /\ cp' = NoCopy /\ seen' = {} /\ Go(0, "next")
           ELSE /\ IF cp.w = 0 THEN cp' = [cp EXCEPT !.w = f[cp.t][cp.i]]
                   ELSE cp' = [cp EXCEPT !.i = @ + 1, !.w = 0, !.s = Append(@, <<cp.w, a[cp.t][cp.i]>>)]
                /\ bad' = bad \cup Dead(cp.t)
                /\ UNCHANGED <<M, seen, pc>>
        /\ UNCHANGED <<G, reg, todo, finishing, rounds>> /\ Sampler

Own(t) == Register(t) \/ StartPush(t) \/ Write1(t) \/ Write2(t) \/ Grow(t) \/ Pushed(t) \/ Pop(t) \/ Find(t) \/ End(t)
Next == (\E t \in Threads : Own(t)) \/ Stop \/ Check \/ NextStack \/ Copy
Spec == Init /\ [][Next]_vars
(* Finishing is a request that may come at any time, and does come.        *)
Live == Spec /\ WF_vars(Stop) /\ WF_vars(Check \/ NextStack \/ Copy) /\ \A t \in Threads : SF_vars(Own(t)) /\ WF_vars(Own(t))

Genuine == bad = {}
Alive == \A t \in Range(reg) : pc[t] # "ended"
Known == \A t \in Threads : pc[t] \in {"new", "ended"} \/ t \in Range(reg)
Exclusive == \A t \in Threads : (pc[t] \in {"w1", "w2", "grow", "pushed"} /\ LockPush) => M[t] = t
Stops == finishing ~> pc[0] = "gone"
Ends == \A t \in Threads : (<>(pc[t] = "ended"))
=============================================================================
