------------------------------ MODULE ExtTest ------------------------------
(* Run with and without the overrides of java/Ext.java: both have to pass. *)
EXTENDS Ext
VARIABLE x
Vs == {-48, -5, 0, 3, 16, 40, NaN, PInf, NInf, Off}
Init == x \in {<<a, b, c, d>> : a \in Vs, b \in Vs, c \in {0, -16, 5, NInf}, d \in {16, 24, NaN}}
Next == UNCHANGED x
\* multiplication by enumeration of what it has to satisfy
MulOk(a, b, p) ==
  IF a = NaN \/ b = NaN THEN p = NaN
  ELSE IF Fin(a) /\ Fin(b) THEN IF (a * b) % 16 = 0 THEN p * 16 = a * b ELSE p = Off
  ELSE IF a = Off \/ b = Off THEN p = Off
  ELSE p = InfOf(Sgn(a) * Sgn(b))
Ok ==
  /\ MulOk(x[1], x[2], XMul(x[1], x[2]))
  /\ XDot(<<x[1], x[2]>>, <<x[3], x[4]>>) = XAdd(XMul(x[1], x[3]), XMul(x[2], x[4]))
  /\ XTransp(<<<<x[1], x[2]>>, <<x[3], x[4]>>>>) = <<<<x[1], x[3]>>, <<x[2], x[4]>>>>
  /\ XMatMul(<<<<x[1], x[2]>>, <<x[3], x[4]>>>>, <<<<x[2]>>, <<x[3]>>>>)
       = <<<<XAdd(XMul(x[1], x[2]), XMul(x[2], x[3]))>>, <<XAdd(XMul(x[3], x[2]), XMul(x[4], x[3]))>>>>
=============================================================================
