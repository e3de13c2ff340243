-------------------------------- MODULE Ext --------------------------------
(***************************************************************************)
(* Extended numbers for the exact part of the specification.               *)
(*                                                                         *)
(* A finite number is an integer count of sixteenths.  NaN and the         *)
(* infinities are large sentinels; so are TPos and TNeg, two numbers next  *)
(* to zero, and OneUp, the number that follows one: with these no          *)
(* calculation is made.  Off marks a value off this                        *)
(* lattice (drivers are built so that it does not arise from correct code).*)
(* -0 is not distinguished from 0.                                         *)
(* The class java/Ext.java computes XMul, XDot, XTransp and XMatMul faster; *)
(* module ExtTest compares the two.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Off == 999999937
TPos == 999999938
TNeg == 999999939
OneUp == 999999940
NaN == 1000000001
PInf == 1000000002
NInf == 1000000003
Unit == 16

Fin(a) == a < Off
Odd(a) == a >= Off /\ a <= OneUp
Neg(a) == CASE Fin(a) -> -a [] a = PInf -> NInf [] a = NInf -> PInf [] OTHER -> a
Abs(a) == CASE Fin(a) -> IF a < 0 THEN -a ELSE a [] a = NInf -> PInf [] OTHER -> a
XAdd(a, b) ==
  IF Fin(a) /\ Fin(b) THEN a + b
  ELSE IF a = NaN \/ b = NaN THEN NaN
  ELSE IF Odd(a) \/ Odd(b) THEN Off
  ELSE IF Fin(a) THEN b
  ELSE IF Fin(b) \/ a = b THEN a
  ELSE NaN
XSub(a, b) == XAdd(a, Neg(b))
Sgn(a) == CASE a = PInf -> 1 [] a = NInf -> -1 [] a > 0 -> 1 [] a < 0 -> -1 [] OTHER -> 0
InfOf(s) == IF s > 0 THEN PInf ELSE IF s < 0 THEN NInf ELSE NaN
\* Exact on the lattice, Off otherwise.
XMul(a, b) ==
  IF a = NaN \/ b = NaN THEN NaN
  ELSE IF Odd(a) \/ Odd(b) THEN Off
  ELSE IF Fin(a) /\ Fin(b) THEN (IF (a * b) % 16 = 0 THEN (a * b) \div 16 ELSE Off)
  ELSE InfOf(Sgn(a) * Sgn(b))
XDiv(a, b) ==
  IF a = NaN \/ b = NaN THEN NaN
  ELSE IF Odd(a) \/ Odd(b) THEN Off
  ELSE IF Fin(a) /\ Fin(b)
       THEN IF b = 0 THEN InfOf(Sgn(a))
            ELSE LET n == IF b < 0 THEN -16 * a ELSE 16 * a
                     d == Abs(b)
                 IN IF n % d = 0 THEN n \div d ELSE Off
  ELSE IF Fin(a) THEN 0
  ELSE IF ~Fin(b) THEN NaN
  ELSE InfOf(Sgn(a) * (IF b < 0 THEN -1 ELSE 1))
\* IEEE comparison
XLeq(a, b) ==
  /\ a # NaN /\ b # NaN
  /\ (a = NInf \/ b = PInf \/ (Fin(a) /\ Fin(b) /\ a <= b))
XEq(a, b) == a # NaN /\ b # NaN /\ a = b
XMax(a, b) == IF a = NaN \/ b = NaN THEN NaN ELSE IF XLeq(a, b) THEN b ELSE a

(* Folds, because TLC evaluates their steps in order, whereas it evaluates *)
(* an operator's argument anew at every mention.                           *)
XSum(s) == FoldLeft(XAdd, 0, s)
\* Sum of u[i] * v[i]
XDot(u, v) == XSum([i \in 1..Len(u) |-> XMul(u[i], v[i])])
(* Matrices are sequences of rows (at least one, of equal length).         *)
XTransp(M) == [j \in 1..Len(M[1]) |-> [i \in 1..Len(M) |-> M[i][j]]]
XMatMul(A, B) == LET Bt == XTransp(B) IN [i \in 1..Len(A) |-> [j \in 1..Len(Bt) |-> XDot(A[i], Bt[j])]]
=============================================================================
