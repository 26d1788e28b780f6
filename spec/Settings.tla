------------------------------ MODULE Settings ------------------------------
(***************************************************************************)
(* Contexts side by side.  Each has its own settings and its own record of *)
(* the last multiplication; whatever happens to one context, the others    *)
(* report what they reported before.                                       *)
(*   S      det: what a fresh context detects                              *)
(*   new, del, clear   context created, destroyed, cache cleared           *)
(*   set    a setting                                                      *)
(*   mul    n channels, with bias or without                               *)
(*   see    what a context reports                                         *)
(***************************************************************************)
EXTENDS Replay, Bitwise

VARIABLES det, ctx
vars == <<l, det, ctx>>

Public == 1 + 16 + 32 + 64
Variants == 2 + 4 + 8         \* enabled like the portable path, never shown
PathBits == {1, 2, 4, 8, 16, 32, 64}
Best(set) == CHOOSE b \in PathBits : (set & b) # 0 /\ \A o \in PathBits : (set & o) # 0 => o <= b

Fresh == [tuning |-> 0, threads |-> 1, strategy |-> 0, spin |-> 8, paths |-> 0, last |-> 0, advice |-> {0}]
Enabled(c) == IF ctx[c].paths # 0 THEN ctx[c].paths | 1 ELSE det | Variants

(* The only kernels that take channels one by one are the portable ones.   *)
Copied(path, n, bias) == IF bias = 0 \/ n % 16 = 0 THEN {0}
                         ELSE IF path >= 16 THEN {1}
                         ELSE IF path = 1 THEN {0} ELSE {0, 1}

Start == E.k = "S" /\ det' = E.det /\ Must("portable", E.det % 2 = 1) /\ ctx' = <<>>
New == E.k = "new" /\ ctx' = Put(ctx, E.c, Fresh) /\ UNCHANGED det
Del == E.k = "del" /\ ctx' = [c \in DOMAIN ctx \ {E.c} |-> ctx[c]] /\ UNCHANGED det
Clear == E.k = "clear" /\ UNCHANGED <<det, ctx>>
Set == /\ E.k = "set"
       /\ ctx' = [ctx EXCEPT ![E.c] = [f \in DOMAIN @ |-> IF f = E.what THEN E.x ELSE @[f]]]
       /\ UNCHANGED det
Mul == /\ E.k = "mul"
       /\ LET path == Best(Enabled(E.c)) IN
          ctx' = [ctx EXCEPT ![E.c].last = path, ![E.c].advice = Copied(path, E.n, E.bias)]
       /\ UNCHANGED det
See == /\ E.k = "see"
       /\ Must(E.what, CASE E.what = "paths" -> E.x = (Enabled(E.c) & Public)
                         [] E.what = "advice" -> E.x \in ctx[E.c].advice
                         [] OTHER -> E.x = ctx[E.c][E.what])
       /\ UNCHANGED <<det, ctx>>

Init == l = 1 /\ det = 1 /\ ctx = <<>>
Next == Step /\ (Start \/ New \/ Del \/ Clear \/ Set \/ Mul \/ See)
Spec == Init /\ [][Next]_vars
View == l
=============================================================================
