--------------------------------- MODULE Fx ---------------------------------
(***************************************************************************)
(* Fixed-point reals for the decomposition specification.                  *)
(*                                                                         *)
(* A number is a pair <<h, l>> with -2^30 <= h < 2^30 and 0 <= l < 2^30;   *)
(* it stands for (h * 2^30 + l) / 2^40.  (TLC integers have 32 bits, which *)
(* is why a number is a pair.)  Bad stands for anything that has no such   *)
(* representation (NaN, infinities, magnitudes of 2^20 and above); it is   *)
(* near nothing and below nothing.                                         *)
(*                                                                         *)
(* FxDot and IDot are defined here by schoolbook arithmetic on base-1024   *)
(* digits.  The class java/Fx.java computes the same functions with Java   *)
(* integers when it is on TLC's class path; module FxTest compares the two.*)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

TwoTo30 == 1073741824
Bad == <<TwoTo30, 0>>
IsFx(x) == x[1] < TwoTo30
Zero == <<0, 0>>
One == <<1024, 0>>
\* The number k, for an integer -2^20 < k < 2^20, and k * 2^-10.
FxInt(k) == <<k * 1024, 0>>
FxMilli(k) == <<k, 0>>
\* k * 2^-40 and k * 2^-20, for 0 <= k < 2^30 (2^10).
FxEps(k) == <<0, k>>
FxMicro(k) == <<0, k * 1048576>>

InRange(h) == h >= -TwoTo30 /\ h < TwoTo30
FxAdd(a, b) ==
  IF ~IsFx(a) \/ ~IsFx(b) THEN Bad
  ELSE LET l == a[2] + b[2]
           \* h is at most 2^31 - 2 before the carry, hence the split
           c == IF l >= TwoTo30 \/ l < 0 THEN 1 ELSE 0
           h == IF c = 1 THEN (a[1] + 1) + b[1] ELSE a[1] + b[1]
       IN IF InRange(h) THEN <<h, IF c = 1 THEN (a[2] - TwoTo30) + b[2] ELSE l>> ELSE Bad
FxNeg(a) ==
  IF ~IsFx(a) THEN Bad
  ELSE IF a[2] = 0 THEN (IF a[1] = -TwoTo30 THEN Bad ELSE <<-a[1], 0>>)
  ELSE <<-1 - a[1], TwoTo30 - a[2]>>
FxSub(a, b) == FxAdd(a, FxNeg(b))
FxLeq(a, b) == IsFx(a) /\ IsFx(b) /\ (a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2]))
FxLt(a, b) == FxLeq(a, b) /\ a # b
FxAbs(a) == IF a[1] < 0 THEN FxNeg(a) ELSE a
FxMax(a, b) == IF FxLeq(a, b) THEN b ELSE a
\* |a - b| <= tol
FxNear(a, b, tol) == FxLeq(FxAbs(FxSub(a, b)), tol)

(***************************************************************************)
(* Natural numbers as little-endian sequences of digits base 1024.         *)
(***************************************************************************)
RECURSIVE NatAddC(_, _, _), NatSubB(_, _, _), NatCmp(_, _), NatTrim(_), NatSum(_)
Digit(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
NatTrim(a) == IF Len(a) = 0 THEN a ELSE IF a[Len(a)] = 0 THEN NatTrim(SubSeq(a, 1, Len(a) - 1)) ELSE a
NatAddC(a, b, c) ==
  IF a = <<>> /\ b = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == Digit(a, 1) + Digit(b, 1) + c
       IN <<s % 1024>> \o NatAddC(IF a = <<>> THEN a ELSE Tail(a), IF b = <<>> THEN b ELSE Tail(b), s \div 1024)
\* a - b - c for a >= b + c
NatSubB(a, b, c) ==
  IF a = <<>> THEN <<>>
  ELSE LET s == a[1] - Digit(b, 1) - c
       IN <<(s + 1024) % 1024>> \o NatSubB(Tail(a), IF b = <<>> THEN b ELSE Tail(b), IF s < 0 THEN 1 ELSE 0)
\* a >= b, on trimmed numbers
NatCmp(a, b) ==
  IF Len(a) # Len(b) THEN Len(a) > Len(b)
  ELSE IF a = <<>> THEN TRUE
  ELSE IF a[Len(a)] # b[Len(b)] THEN a[Len(a)] > b[Len(b)]
  ELSE NatCmp(SubSeq(a, 1, Len(a) - 1), SubSeq(b, 1, Len(b) - 1))
NatScale(a, d, sh) ==
  LET RECURSIVE Go(_, _)
      Go(x, c) == IF x = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                  ELSE LET s == x[1] * d + c IN <<s % 1024>> \o Go(Tail(x), s \div 1024)
  IN [i \in 1..sh |-> 0] \o Go(a, 0)
NatSum(s) == IF s = <<>> THEN <<>> ELSE NatAddC(s[1], NatSum(Tail(s)), 0)
NatMul(a, b) == NatTrim(NatSum([i \in 1..Len(b) |-> NatScale(a, b[i], i - 1)]))

(* Integers as sign and magnitude. *)
ZOf(x) ==
  LET neg == x[1] < 0
      h == IF ~neg THEN x[1] ELSE IF x[2] = 0 THEN -x[1] ELSE -1 - x[1]
      l == IF ~neg \/ x[2] = 0 THEN x[2] ELSE TwoTo30 - x[2]
  IN [s |-> neg, m |-> NatTrim(<<l % 1024, (l \div 1024) % 1024, l \div 1048576,
                                 h % 1024, (h \div 1024) % 1024, h \div 1048576>>)]
ZMul(a, b) == [s |-> a.s # b.s, m |-> NatMul(a.m, b.m)]
ZAdd(a, b) ==
  IF a.s = b.s THEN [s |-> a.s, m |-> NatTrim(NatAddC(a.m, b.m, 0))]
  ELSE IF NatCmp(a.m, b.m) THEN [s |-> a.s, m |-> NatTrim(NatSubB(a.m, b.m, 0))]
  ELSE [s |-> b.s, m |-> NatTrim(NatSubB(b.m, a.m, 0))]
\* Divide by 2^40, towards zero, back to a pair.
ZFx(a) ==
  LET m == IF Len(a.m) <= 4 THEN <<>> ELSE SubSeq(a.m, 5, Len(a.m))
      h == Digit(m, 4) + 1024 * Digit(m, 5) + 1048576 * Digit(m, 6)
      l == Digit(m, 1) + 1024 * Digit(m, 2) + 1048576 * Digit(m, 3)
  IN IF Len(m) > 6 THEN Bad
     ELSE IF a.s THEN FxNeg(<<h, l>>) ELSE <<h, l>>

\* x / 2^s for 0 <= s <= 30, truncated downwards.
FxShr(x, s) == IF ~IsFx(x) THEN Bad
               ELSE <<x[1] \div 2^s, (x[1] % 2^s) * 2^(30 - s) + x[2] \div 2^s>>

ZDot(u, v) == FoldLeft(ZAdd, [s |-> FALSE, m |-> <<>>], [i \in 1..Len(u) |-> ZMul(ZOf(u[i]), ZOf(v[i]))])
\* Sum of u[i] * v[i], truncated to the grid.
FxDot(u, v) ==
  IF \E i \in 1..Len(u) : ~IsFx(u[i]) \/ ~IsFx(v[i]) THEN Bad ELSE ZFx(ZDot(u, v))
FxMul(a, b) == FxDot(<<a>>, <<b>>)

(***************************************************************************)
(* Matrices are sequences of rows.                                         *)
(***************************************************************************)
FxRows(A) == Len(A)
FxCols(A) == IF Len(A) = 0 THEN 0 ELSE Len(A[1])
FxT(A) == [j \in 1..FxCols(A) |-> [i \in 1..Len(A) |-> A[i][j]]]
FxMatMul(A, B) == LET Bt == FxT(B) IN [i \in 1..Len(A) |-> [j \in 1..Len(Bt) |-> FxDot(A[i], Bt[j])]]
FxMatNear(A, B, tol) ==
  /\ Len(A) = Len(B) /\ FxCols(A) = FxCols(B)
  /\ \A i \in 1..Len(A) : \A j \in 1..Len(A[i]) : FxNear(A[i][j], B[i][j], tol)
FxIdentity(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN One ELSE Zero]]
FxOfInts(A) == [i \in 1..Len(A) |-> [j \in 1..Len(A[i]) |-> FxInt(A[i][j])]]
FxVec(v) == [i \in 1..Len(v) |-> FxInt(v[i])]
FxSum(v) == FoldLeft(FxAdd, Zero, v)
=============================================================================
