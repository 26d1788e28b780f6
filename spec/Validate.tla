------------------------------ MODULE Validate ------------------------------
(***************************************************************************)
(* What a checked build refuses.                                           *)
(*   zp   multiplications with one left and destination zero point and a   *)
(*        range of right ones: which were carried out (ok), which wrote to  *)
(*        the destination (touched); cd: destination data given as const   *)
(*   set  a setter of the parameters object; what its getters then report  *)
(* Zero points are in halves, so that floats can have fractional ones.     *)
(***************************************************************************)
EXTENDS Replay

VARIABLES dst, par
vars == <<l, dst, par>>

Types == <<"i8,i8", "i8,i8", "u8,u8", "u8,u8", "i8,u8", "u8,i8", "i8,i16", "i16,i8", "i16,i16", "u8,i16", "i16,u8",
           "f,f", "f,f", "f,f", "u8,u8", "i8,i8">>
Float(t) == t = "f,f"
Has16(t) == t \in {"i8,i16", "i16,i8", "i16,i16", "u8,i16", "i16,u8"}
LowL(t) == IF t \in {"i8,i8", "i8,u8", "i8,i16"} THEN -128 ELSE 0
LowR(t) == IF t \in {"i8,i8", "u8,i8", "i16,i8"} THEN -128 ELSE 0

(* In halves. *)
Supported(t, zl, zr, zd) ==
  IF Float(t) THEN zl = 0 /\ zr = 0 /\ zd = 0
  ELSE IF Has16(t) THEN zl = 0 /\ zr = 0 /\ zd = 0
  ELSE t = "u8,u8" \/ ~(zl = 2 * LowL(t) /\ zr = 2 * LowR(t))

Zp == /\ E.k = "zp"
      /\ LET t == Types[E.types + 1] IN
         \A i \in DOMAIN E.ok :
           LET s == E.cd = 0 /\ Supported(t, E.zl, E.from + (i - 1) * E.step, E.zd) IN
           /\ Must("refused", s \/ E.ok[i] = 0)
           /\ Must("accepted", ~s \/ E.ok[i] = 1)
           /\ Must("untouched", E.ok[i] = 1 \/ E.touched[i] = 0)
      /\ UNCHANGED <<dst, par>>

Lo(d) == IF d = 0 THEN -128 ELSE IF d = 1 THEN 0 ELSE -32768
Hi(d) == IF d = 0 THEN 127 ELSE IF d = 1 THEN 255 ELSE 32767

(* One multiplier for all channels, or one per channel: setting either     *)
(* kind while a value of the other is set is refused.                      *)
Fresh(d) == [per |-> FALSE, mf |-> 0, me |-> 0, pf |-> 0, pe |-> 0, bias |-> 0, lo |-> Lo(d), hi |-> Hi(d), ch |-> 0, cap |-> 1]
Pots == {1, 2, 4, 8, 16, 32, 64, 128, 256, 1024, 65536, 1073741824}
Allowed == CASE E.f \in {"mf", "me"} -> ~par.per \/ (par.pf = 0 /\ par.pe = 0)
             [] E.f \in {"pf", "pe"} -> par.per \/ (par.mf = 0 /\ par.me = 0)
             [] E.f = "cap" -> E.v \in Pots
             [] OTHER -> TRUE
After == CASE E.f \in {"mf", "me"} -> [par EXCEPT ![E.f] = E.v, !.per = FALSE]
           [] E.f \in {"pf", "pe"} -> [par EXCEPT ![E.f] = E.v, !.per = TRUE]
           [] E.f = "copy" -> par
           [] E.f = "reset" -> Fresh(dst)
           [] OTHER -> [par EXCEPT ![E.f] = E.v]

Set == /\ E.k = "set"
       /\ Must("refused", Allowed \/ E.ok = 0)
       /\ Must("accepted", ~Allowed \/ E.ok = 1)
       /\ par' = IF Allowed THEN After ELSE par
       /\ Must("getters", /\ E.mf = (IF par'.per THEN 0 ELSE par'.mf) /\ E.me = (IF par'.per THEN 0 ELSE par'.me)
                          /\ E.pf = (IF par'.per THEN par'.pf ELSE 0) /\ E.pe = (IF par'.per THEN par'.pe ELSE 0)
                          /\ E.bias = par'.bias /\ E.lo = par'.lo /\ E.hi = par'.hi /\ E.ch = par'.ch /\ E.cap = par'.cap)
       /\ UNCHANGED dst

Start == E.k = "S" /\ dst' = E.dst /\ par' = Fresh(E.dst)

Init == l = 1 /\ dst = 0 /\ par = Fresh(0)
Next == Step /\ (Start \/ Zp \/ Set)
Spec == Init /\ [][Next]_vars
View == l
=============================================================================
