---------------------------- MODULE CounterTrace ----------------------------
(***************************************************************************)
(* Validates recorded executions of countdowns (reset, decrement, wait)    *)
(* and of condition waits.                                                 *)
(***************************************************************************)
EXTENDS SyncTrace

VARIABLES left, inDec, last, waiting, size, aux

CD == INSTANCE Countdown WITH MaxCount <- 1000

appvars == <<left, inDec, last, waiting, size, aux>>
vars == <<l, hb, cells, thr, left, inDec, last, waiting, size, aux>>

(* aux: decClk   - clocks at the beginning of each decrement of this round *)
(*      set      - rounds whose condition has been made true, with clocks  *)
(*      obs      - result of the latest evaluation of the condition        *)
NoAux == [decClk |-> {}, set |-> <<>>, obs |-> FALSE, lasts |-> 0]

Init == SyncInit /\ CD!CDInit /\ aux = NoAux

Begin == /\ SyncBegin
         /\ left' = -1 /\ inDec' = 0 /\ last' = FALSE /\ waiting' = FALSE /\ size' = 0
         /\ aux' = NoAux

Reset == /\ E.k = "creset"
         /\ CD!CReset(E.b)
         /\ aux' = [aux EXCEPT !.decClk = {}, !.lasts = 0]
         /\ UNCHANGED syncvars
Dec == /\ E.k = "cdec"
       /\ CD!CDec
       /\ aux' = [aux EXCEPT !.decClk = @ \cup {Me}]
       /\ hb' = Tick(hb, T)
       /\ UNCHANGED <<cells, thr>>
Decd == /\ E.k = "cdecd"
        /\ CD!CDecd(E.c = 1)
        /\ aux' = [aux EXCEPT !.lasts = @ + E.c]
        /\ UNCHANGED syncvars
WaitCall == /\ E.k = "cwait"
            /\ CD!CWait
            /\ UNCHANGED syncvars /\ UNCHANGED aux
WaitReturn == /\ E.k = "cret"
              /\ CD!CReturn
              /\ Cardinality(aux.decClk) = size
              /\ IF \A c \in aux.decClk : Leq(c, Me) THEN TRUE ELSE FALSE   \* all is visible
              /\ UNCHANGED syncvars /\ UNCHANGED aux
See == /\ E.k = "csee"
       /\ E.b = E.c
       /\ UNCHANGED syncvars /\ UNCHANGED appvars
Joined == /\ E.k = "cjoined"
          /\ inDec = 0 /\ left = 0
          /\ aux.lasts = IF size > 0 THEN 1 ELSE 0
          /\ UNCHANGED syncvars /\ UNCHANGED appvars

(* Waiting on an arbitrary condition.                                      *)
CondSet == /\ E.k = "wset"
           /\ aux' = [aux EXCEPT !.set = Append(@, Me)]
           /\ hb' = Tick(hb, T)
           /\ UNCHANGED <<cells, thr, left, inDec, last, waiting, size>>
CondCall == /\ E.k = "wcall"
            /\ aux' = [aux EXCEPT !.obs = FALSE]
            /\ UNCHANGED syncvars /\ UNCHANGED <<left, inDec, last, waiting, size>>
CondEval == /\ E.k = "wev"
            /\ aux' = [aux EXCEPT !.obs = (E.b = 1)]
            /\ UNCHANGED syncvars /\ UNCHANGED <<left, inDec, last, waiting, size>>
(* Returning: the latest evaluation was true, and what was done before the *)
(* condition was made true is visible.                                     *)
CondReturn == /\ E.k = "wret"
              /\ aux.obs /\ E.b = 1
              /\ Len(aux.set) >= E.a /\ Leq(aux.set[E.a], Me)
              /\ E.c = E.a
              /\ UNCHANGED syncvars /\ UNCHANGED appvars

Finish == SyncEnd /\ ~waiting /\ UNCHANGED appvars

Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ \/ SyncStep /\ UNCHANGED appvars
           \/ Begin \/ Reset \/ Dec \/ Decd \/ WaitCall \/ WaitReturn \/ See
           \/ Joined \/ CondSet \/ CondCall \/ CondEval \/ CondReturn \/ Finish

Spec == Init /\ [][Next]_vars
=============================================================================
