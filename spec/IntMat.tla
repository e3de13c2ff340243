------------------------------- MODULE IntMat -------------------------------
(***************************************************************************)
(* Exact facts about integer matrices (sequences of rows of integers):     *)
(* determinant, rank, products.  TLC integers have 32 bits, so elimination *)
(* is done modulo two primes P1, P2 below 2^15.  The determinant follows   *)
(* from its two residues when Hadamard's inequality bounds it by 2^29.     *)
(* A rank modulo a prime never exceeds the rank; when all minors are       *)
(* bounded by 2^29 < P1 * P2 the larger of the two is the rank.            *)
(*                                                                         *)
(* java/IntMat.java overrides ElimMod and IMul; module IntMatTest compares.*)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

P1 == 32749
P2 == 32719
TwoTo29 == 536870912
IAbs(x) == IF x < 0 THEN -x ELSE x
IMax(a, b) == IF a > b THEN a ELSE b
IMin(a, b) == IF a < b THEN a ELSE b
Rows(A) == Len(A)
Cols(A) == IF Len(A) = 0 THEN 0 ELSE Len(A[1])
IT(A) == [j \in 1..Cols(A) |-> [i \in 1..Len(A) |-> A[i][j]]]
MaxAbs(A) == FoldLeft(LAMBDA m, r : IMax(m, FoldLeft(LAMBDA k, x : IMax(k, IAbs(x)), 0, r)), 0, A)

IDot(u, v) == FoldLeft(LAMBDA s, i : s + u[i] * v[i], 0, [i \in 1..Len(u) |-> i])
IMul(A, B) == LET Bt == IT(B) IN [i \in 1..Len(A) |-> [j \in 1..Len(Bt) |-> IDot(A[i], Bt[j])]]
ISymmetric(A) == Rows(A) = Cols(A) /\ \A i \in 1..Len(A) : \A j \in 1..Len(A) : A[i][j] = A[j][i]

---------------------------------------------------------------------------
(* Elimination modulo the prime p: <<rank, determinant>> (the determinant  *)
(* of a matrix that is not square is given as 0).                          *)
PowMod(b, e, p) ==
  FoldLeft(LAMBDA s, k : <<(s[1] * (IF (e \div 2^k) % 2 = 1 THEN s[2] ELSE 1)) % p, (s[2] * s[2]) % p>>,
           <<1, b>>, [k \in 1..15 |-> k - 1])[1]
InvMod(b, p) == PowMod(b, p - 2, p)
ElimStep(s, j, p) ==
  \* s: [m, r, d] - matrix, rows already reduced, determinant so far; j: column
  LET piv == {i \in s.r + 1..Len(s.m) : s.m[i][j] # 0}
  IN IF piv = {} THEN [s EXCEPT !.d = 0]
     ELSE LET q == CHOOSE i \in piv : \A k \in piv : i <= k
              sw == TLCEval([i \in 1..Len(s.m) |-> IF i = s.r + 1 THEN s.m[q] ELSE IF i = q THEN s.m[s.r + 1] ELSE s.m[i]])
              pr == sw[s.r + 1]
              inv == InvMod(pr[j], p)
          IN [m |-> TLCEval([i \in 1..Len(sw) |->
                      IF i <= s.r + 1 \/ sw[i][j] = 0 THEN sw[i]
                      ELSE LET f == (sw[i][j] * inv) % p
                           IN [c \in 1..Len(pr) |-> (sw[i][c] + (p - f) * pr[c]) % p]]),
              r |-> s.r + 1,
              d |-> (s.d * (IF q = s.r + 1 THEN pr[j] ELSE p - pr[j])) % p]
ElimMod(A, p) ==
  LET f == FoldLeft(LAMBDA s, j : TLCEval(ElimStep(s, j, p)),
                    [m |-> TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(A[i]) |-> A[i][j] % p]]), r |-> 0, d |-> 1],
                    [j \in 1..Cols(A) |-> j])
  IN <<f.r, IF Rows(A) # Cols(A) THEN 0 ELSE f.d>>

---------------------------------------------------------------------------
(* Hadamard: the product of the lengths of the rows (those above one)      *)
(* bounds every minor.  Saturates at 2^29.                                 *)
SqrtUp(n) == FoldLeft(LAMBDA r, k : LET c == r - 2^k IN IF c >= 0 /\ c * c >= n THEN c ELSE r, 32768, [k \in 1..15 |-> 15 - k])
RowLen(r) == LET s == FoldLeft(LAMBDA t, x : IF IAbs(x) > 5000 \/ t >= TwoTo29 THEN TwoTo29 ELSE IMin(TwoTo29, t + x * x), 0, r)
             IN IF s >= TwoTo29 THEN TwoTo29 ELSE IMax(1, SqrtUp(s))
SatMul(a, b) == IF a > TwoTo29 \div b THEN TwoTo29 ELSE a * b
MinorBound(A) == IMin(FoldLeft(LAMBDA b, r : SatMul(b, RowLen(r)), 1, A),
                      FoldLeft(LAMBDA b, r : SatMul(b, RowLen(r)), 1, IT(A)))
Bounded(A) == MinorBound(A) < TwoTo29

\* the determinant of a bounded square matrix
Crt(x, y) == LET n == P1 * P2
                 t == (((y - x) % P2) * InvMod(P1 % P2, P2)) % P2
                 d == x + P1 * t
             IN IF d > n \div 2 THEN d - n ELSE d
Det(A) == Crt(ElimMod(A, P1)[2], ElimMod(A, P2)[2])
RankBelow(A) == IMax(ElimMod(A, P1)[1], ElimMod(A, P2)[1])

(* <<lower, upper>> bounds of the rank of A.  W is <<>> or a pair B, C     *)
(* claimed to satisfy A = B C.                                             *)
Factors(A, W) == Len(W) = 2 /\ Len(W[1]) = Rows(A) /\ Cols(W[2]) = Cols(A) /\ Cols(W[1]) = Len(W[2])
                 /\ IMul(W[1], W[2]) = A
RankBounds(A, W) ==
  LET lo == RankBelow(A)
      hi == IF Bounded(A) THEN lo
            ELSE IMin(IMin(Rows(A), Cols(A)), IF Factors(A, W) THEN Cols(W[1]) ELSE Cols(A))
  IN <<lo, hi>>

(* The eigenvalues of A are pairwise different iff the Hankel matrix of    *)
(* the traces of A^0, .., A^(2n-2) is regular; regular modulo P1 suffices. *)
MulMod(A, B, p) == LET Bt == TLCEval(IT(B))
                   IN TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(Bt) |->
                        FoldLeft(LAMBDA s, k : (s + A[i][k] * Bt[j][k]) % p, 0, [k \in 1..Len(Bt[j]) |-> k])]])
TraceMod(A, p) == FoldLeft(LAMBDA s, i : (s + A[i][i]) % p, 0, [i \in 1..Len(A) |-> i])
DistinctSpectrum(A) ==
  LET n == Len(A)
      B == TLCEval([i \in 1..n |-> [j \in 1..n |-> A[i][j] % P1]])
      one == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]]
      tr == FoldLeft(LAMBDA s, k : TLCEval(<<Append(s[1], TraceMod(s[2], P1)), MulMod(s[2], B, P1)>>),
                     <<<<>>, one>>, [k \in 1..2 * n - 1 |-> k])[1]
  IN ElimMod([i \in 1..n |-> [j \in 1..n |-> tr[i + j - 1]]], P1)[1] = n
Leading(A, k) == [i \in 1..k |-> SubSeq(A[i], 1, k)]
=============================================================================
