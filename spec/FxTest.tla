------------------------------- MODULE FxTest -------------------------------
(* The definitions of Fx against the Java class that speeds them up: FxDot *)
(* is the fast one when the class is on the path, Slow the definition.     *)
EXTENDS Fx, TLC, FiniteSets
Slow(u, v) ==
  IF \E i \in 1..Len(u) : ~IsFx(u[i]) \/ ~IsFx(v[i]) THEN Bad ELSE ZFx(ZDot(u, v))
H == {-TwoTo30, -1073741823, -77777777, -1024, -1, 0, 1, 3, 1024, 5000000, TwoTo30 - 1}
L == {0, 1, 1023, 1024, 123456789, TwoTo30 - 1}
S == {<<h, l>> : h \in H, l \in L}
Mid == {<<h, l>> : h \in {-1024, -1, 0, 1, 5000}, l \in {0, 1, 123456789, TwoTo30 - 1}}
VARIABLE x, y
Init == x \in S \cup {Bad} /\ y \in S \cup {Bad}
Next == UNCHANGED <<x, y>>
SameProduct == FxDot(<<x>>, <<y>>) = Slow(<<x>>, <<y>>)
SameDot == x \in Mid /\ y \in Mid =>
  LET u == <<x, y, One, x>>  v == <<y, FxNeg(x), x, x>> IN FxDot(u, v) = Slow(u, v)
SlowT(A) == [j \in 1..FxCols(A) |-> [i \in 1..Len(A) |-> A[i][j]]]
SlowMul(A, B) == LET Bt == SlowT(B) IN [i \in 1..Len(A) |-> [j \in 1..Len(Bt) |-> Slow(A[i], Bt[j])]]
SlowNear(A, B, tol) ==
  /\ Len(A) = Len(B) /\ FxCols(A) = FxCols(B)
  /\ \A i \in 1..Len(A) : \A j \in 1..Len(A[i]) : FxNear(A[i][j], B[i][j], tol)
Mats == IF ~(x \in Mid \cup {Bad} /\ y \in Mid \cup {Bad}) THEN TRUE ELSE
  LET A == <<<<x, y, One>>, <<y, Zero, FxInt(-3)>>>>
      B == <<<<y, x>>, <<One, FxInt(7)>>, <<x, x>>>>
      D == <<<<y, x, One>>, <<x, FxEps(5), FxInt(-3)>>>>
  IN /\ FxMatMul(A, B) = SlowMul(A, B) /\ FxMatMul(B, A) = SlowMul(B, A)
     /\ FxT(A) = SlowT(A) /\ FxOfInts(<<<<-5, 3>>, <<0, 900000>>>>) = <<<<FxInt(-5), FxInt(3)>>, <<Zero, FxInt(900000)>>>>
     /\ \A t \in {Zero, FxEps(5), One, x, Bad, <<TwoTo30 - 1, TwoTo30 - 1>>} :
          FxMatNear(A, D, t) = SlowNear(A, D, t) /\ FxMatNear(A, A, t) = SlowNear(A, A, t) /\ ~FxMatNear(A, B, t)
AddSub == IsFx(x) /\ IsFx(y) => LET s == FxAdd(x, y) IN IsFx(s) /\ IsFx(FxNeg(y)) => FxSub(s, y) = x
Ring == x \in Mid /\ y \in Mid => FxMul(x, y) = FxMul(y, x) /\ FxMul(x, One) = x /\ FxNeg(FxMul(x, y)) = FxMul(FxNeg(x), y)
=============================================================================
