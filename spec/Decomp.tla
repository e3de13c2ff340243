------------------------------- MODULE Decomp -------------------------------
(***************************************************************************)
(* Decompositions as objects.  A decomposition is built from a matrix and  *)
(* from then on depends on nothing but the contents the matrix had at that *)
(* moment (its snapshot a).  It is asked for quantities, which it may work *)
(* out when first asked; what it has answered so far is `seen'.  The       *)
(* answers have to stay the same, have to agree with those of another      *)
(* decomposition of the same kind of an equal matrix, and together have to *)
(* satisfy the relations that define the decomposition.  A relation is     *)
(* checked when the last of the quantities it speaks about is seen.        *)
(*                                                                         *)
(* Matrices are integers times a power of two, which is left out here:     *)
(* quantities are reported relative to it, on the grid of module Fx.       *)
(***************************************************************************)
EXTENDS IntMat, Fx, FiniteSets

\* errors of the library itself
Typed == {-1} \cup 1..19
EMAXIT == 2   \* no convergence

VARIABLES mats,   \* matrix id -> contents (integers)
          decs    \* decomposition id -> [k, a, thr, w, seen]

---------------------------------------------------------------------------
(* Sizes and tolerances.                                                   *)
Sz(A) == IMax(Rows(A), Cols(A))
Ulp == FxEps(32)                                        \* 2^-35
TolOrth(A) == FxMul(FxInt(Sz(A)), Ulp)
TolA(A) == FxMul(FxInt(Sz(A) * IMax(1, MaxAbs(A))), Ulp)
FMax(v) == FoldLeft(LAMBDA m, x : FxMax(m, FxAbs(x)), Zero, v)
FMaxAbs(M) == FoldLeft(LAMBDA m, r : FxMax(m, FMax(r)), Zero, M)
TolX(A, M) == FxMul(TolA(A), FxAdd(One, FMaxAbs(M)))
Near(M, N, tol) == FxMatNear(M, N, tol)
Small(x, tol) == FxLeq(FxAbs(x), tol)
IsShape(M, r, c) == Len(M) = r /\ \A i \in 1..r : Len(M[i]) = c
Orthonormal(M, tol) == Near(FxMatMul(FxT(M), M), FxIdentity(FxCols(M)), tol)
F(A) == FxOfInts(A)
ZeroBelow(M, k, tol) == \A i \in 1..Len(M) : \A j \in 1..Len(M[i]) : i > j + k => Small(M[i][j], tol)
ZeroAbove(M, k, tol) == \A i \in 1..Len(M) : \A j \in 1..Len(M[i]) : j > i + k => Small(M[i][j], tol)
IsDiagonal(M, tol) == ZeroBelow(M, 0, tol) /\ ZeroAbove(M, 0, tol)
SymNear(M, tol) == Near(M, FxT(M), tol)
Sc(x) == x.v[1][1]

(* Permutations: p[i] counts from 0.                                       *)
IsPerm(p, n) == Len(p) = n /\ {p[i] : i \in 1..n} = 0..n - 1
Odd(p) == Cardinality({<<i, j>> \in (1..Len(p)) \X (1..Len(p)) : i < j /\ p[i] > p[j]}) % 2 = 1
PermMat(p) == [i \in 1..Len(p) |-> [j \in 1..Len(p) |-> IF p[i] = j - 1 THEN One ELSE Zero]]
IsPermMat(M, n) == /\ IsShape(M, n, n)
                   /\ \A i \in 1..n : \A j \in 1..n : M[i][j] \in {Zero, One}
                   /\ \A i \in 1..n : Cardinality({j \in 1..n : M[i][j] = One}) = 1
                   /\ \A j \in 1..n : Cardinality({i \in 1..n : M[i][j] = One}) = 1

(* Determinants are reported as <<x, e>>: x * 2^e with 1 <= |x| < 1024 and  *)
(* e a multiple of 10, or x = 0.                                           *)
FxShl10(x) == <<x[1] * 1024 + x[2] \div 1048576, (x[2] % 1048576) * 1024>>
RECURSIVE Norm10(_, _)
Norm10(x, e) ==
  IF ~IsFx(x) \/ x = Zero \/ e < -400 THEN <<x, 0>>
  ELSE IF ~FxLt(FxAbs(x), FxInt(1024)) THEN Norm10(FxShr(x, 10), e + 10)
  ELSE IF FxLt(FxAbs(x), One) THEN Norm10(FxShl10(x), e - 10)
  ELSE <<x, e>>
MantOf(k) == IF IAbs(k) < 1048576 THEN Norm10(FxInt(k), 0)
             ELSE Norm10(<<k, 0>>, 10)
MantProd(v) == FoldLeft(LAMBDA s, x : IF x = Zero \/ s[1] = Zero THEN <<Zero, 0>>
                                      ELSE LET y == Norm10(x, 0) IN Norm10(FxMul(s[1], y[1]), s[2] + y[2]), <<One, 0>>, v)
MantNear(a, b) ==   \* relative 2^-20; also across the boundary of the normal form
  LET near(x, y) == FxNear(x, y, FxMul(FxAdd(One, FxAbs(x)), FxMicro(1)))
  IN CASE a[2] = b[2] -> near(a[1], b[1])
       [] a[2] = b[2] + 10 -> near(FxShl10(a[1]), b[1])
       [] b[2] = a[2] + 10 -> near(FxShl10(b[1]), a[1])
       [] OTHER -> FALSE
MantNeg(a) == <<FxNeg(a[1]), a[2]>>
DetOf(x) == <<Sc(x), x.e>>

---------------------------------------------------------------------------
(* What exact arithmetic says of the matrix.                               *)
Square(A) == Rows(A) = Cols(A)
\* The pivots of LU (the largest entry of the column, by quotients of minors)
\* against a large threshold; open where two rows or a pivot and the threshold tie.
Coarse(d) == d.thr # <<>> /\ FxLt(FxMilli(1), d.thr[1])
RECURSIVE PivotsReach(_, _, _, _)
PivotsReach(S, k, prev, thr) ==
  IF k > Len(S) THEN "yes"
  ELSE LET n == Len(S)
           mx == FoldLeft(LAMBDA m, i : IMax(m, IAbs(S[i][k])), 0, [i \in 1..n - k + 1 |-> i + k - 1])
           best == {i \in k..n : IAbs(S[i][k]) = mx}
           c == FxMul(thr, FxInt(IAbs(prev)))
       IN IF FxNear(FxInt(mx), c, FxMul(FxAdd(FxInt(1), c), FxMicro(1))) THEN "any"
          ELSE IF FxLt(FxInt(mx), c) THEN "no"
          ELSE IF Cardinality(best) > 1 THEN "any"
          ELSE LET p == CHOOSE i \in best : TRUE
                   T == TLCEval([i \in 1..n |-> IF i = k THEN S[p] ELSE IF i = p THEN S[k] ELSE S[i]])
                   N == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i <= k \/ j <= k THEN T[i][j]
                                   ELSE (T[k][k] * T[i][j] - T[i][k] * T[k][j]) \div prev]])
               IN PivotsReach(N, k + 1, T[k][k], thr)
NonSingular(d) == IF ~Square(d.a) THEN "no" ELSE
  IF d.k = "LU" /\ Coarse(d) THEN (IF MinorBound(d.a) < 32768 THEN PivotsReach(d.a, 1, 1, d.thr[1]) ELSE "any") ELSE
  IF d.rk[1] = Rows(d.a) THEN "yes" ELSE IF d.rk[2] < Rows(d.a) THEN "no" ELSE "any"
FullColumnRank(d) == IF d.rk[1] = Cols(d.a) THEN "yes" ELSE IF d.rk[2] < Cols(d.a) THEN "no" ELSE "any"

\* the symmetric matrix with the upper part of A, which is the part Cholesky reads
Sym(A) == [i \in 1..Len(A) |-> [j \in 1..Len(A) |-> IF i <= j THEN A[i][j] ELSE A[j][i]]]
TooAsymmetric(A, rel) ==
  \E i \in 1..Len(A) : \E j \in i + 1..Len(A) :
    A[i][j] # A[j][i] /\ ~FxLeq(FxInt(IAbs(A[i][j] - A[j][i])), FxMul(rel, FxInt(IMax(IAbs(A[i][j]), IAbs(A[j][i])))))
\* The k-th pivot is the quotient of the leading minors of order k and k - 1.
Pivots(S, pos) ==
  IF ~Bounded(S) THEN "any"
  ELSE LET mn == TLCEval([k \in 0..Len(S) |-> IF k = 0 THEN 1 ELSE Det(Leading(S, k))])
           fine(k) == mn[k] > 0 /\ (IAbs(mn[k]) >= 1048576 \/ ~FxLeq(FxInt(mn[k]), FxMul(pos, FxInt(mn[k - 1]))))
           bad == {k \in 1..Len(S) : ~fine(k)}
       IN IF \E k \in 1..Len(S) : IAbs(mn[k]) >= 1048576 THEN (IF pos[1] = 0 /\ bad = {} THEN "ok" ELSE "any")
          ELSE IF bad = {} THEN "ok" ELSE "no"
\* A witness B with A = B B^T shows A positive semidefinite, and definite if
\* B has full row rank.
Gram(A, W) == Len(W) = 2 /\ W[2] = IT(W[1]) /\ Factors(A, W)

\* for a triangular B the pivots of B B^T are the squares of its diagonal
LowerRegular(B) == IsShape(B, Len(B), Len(B)) /\ \A i \in 1..Len(B) : (B[i][i] # 0 /\ \A j \in i + 1..Len(B) : B[i][j] = 0)

\* Elimination with the largest diagonal entry first (in whole numbers, by
\* Bareiss; any of several largest): does a negative diagonal entry remain?
RECURSIVE Unsound(_, _, _)
Unsound(S, rem, prev) ==
  IF rem = {} THEN FALSE
  ELSE LET mx == CHOOSE x \in {S[i][i] : i \in rem} : \A i \in rem : S[i][i] <= x
       IN IF mx <= 0 THEN \E i \in rem : S[i][i] < 0
          ELSE \A p \in {i \in rem : S[i][i] = mx} :
                 Unsound(TLCEval([i \in 1..Len(S) |-> [j \in 1..Len(S) |->
                           IF {i, j} \subseteq rem \ {p} THEN (mx * S[i][j] - S[i][p] * S[p][j]) \div prev ELSE 0]]), rem \ {p}, mx)
\* A diagonal entry only falls while the others are eliminated.
NegativePart(A, thr) ==
  \/ \E i \in 1..Len(A) : FxLt(FxInt(A[i][i]), FxNeg(thr))
  \/ /\ Len(A) <= 4 /\ MaxAbs(A) <= 3 /\ ISymmetric(A)
     /\ FxLt(Zero, thr) /\ FxLt(thr, FxMicro(1))
     /\ Unsound(A, 1..Len(A), 1)

\* The rank of S if it is positive semidefinite, otherwise -1 (in whole
\* numbers, by Bareiss, with the largest diagonal entry first).
RECURSIVE PsdRank(_, _, _)
PsdRank(S, rem, prev) ==
  IF rem = {} THEN 0
  ELSE LET p == CHOOSE i \in rem : \A j \in rem : S[j][j] <= S[i][i]
           mx == S[p][p]
       IN IF mx <= 0 THEN (IF \A i \in rem : \A j \in rem : S[i][j] = 0 THEN 0 ELSE -1)
          ELSE IF \E i \in rem : S[i][i] < 0 THEN -1
          ELSE LET r == PsdRank(TLCEval([i \in 1..Len(S) |-> [j \in 1..Len(S) |->
                           IF {i, j} \subseteq rem \ {p} THEN (mx * S[i][j] - S[i][p] * S[p][j]) \div prev ELSE 0]]), rem \ {p}, mx)
               IN IF r = -1 THEN -1 ELSE r + 1
\* The rank of the semidefinite matrix of d, where it is known to be one
\* (a threshold above rounding and below the pivots of small whole numbers);
\* otherwise -1.
SemiRank(d) ==
  IF ISymmetric(d.a) /\ MinorBound(d.a) < 32768 /\ FxLt(Zero, d.thr[1]) /\ FxLt(d.thr[1], FxEps(524288))
  THEN PsdRank(d.a, 1..Len(d.a), 1) ELSE -1

\* A diagonal matrix is its own pivots, whatever the threshold.
Flat(A) == \A i \in 1..Len(A) : \A j \in 1..Len(A) : i = j \/ A[i][j] = 0
FlatOk(d) == Flat(d.a) /\ \A i \in 1..Len(d.a) : FxLeq(FxNeg(d.thr[1]), FxInt(d.a[i][i]))

(* Whether a decomposition is built, or refused with a typed error.        *)
Outcome(d) ==
  LET A == d.a IN
  CASE d.k \in {"QR", "RRQR", "SVD", "Bi"} -> "ok"
    [] d.k \in {"LU", "Hess", "Tri"} -> IF Square(A) THEN "ok" ELSE "no"
         \* with multiple eigenvalues the iteration may fail to converge
    [] d.k \in {"Schur", "Eigen"} -> IF ~Square(A) THEN "no" ELSE IF d.k = "Eigen" /\ ISymmetric(A) THEN "ok" ELSE "ok unless multiple"
    [] d.k = "Chol" ->
         IF ~Square(A) \/ TooAsymmetric(A, d.thr[1]) THEN "no"
         ELSE IF Gram(A, d.w) /\ d.thr[2][1] = 0
              THEN (IF LowerRegular(d.w[1]) THEN "ok"
                    ELSE IF d.rk[2] < Rows(A) THEN "no" ELSE IF d.rk[1] = Rows(A) /\ MaxAbs(d.w[1]) <= 8 /\ Sz(A) <= 4 THEN "ok"
                    ELSE Pivots(Sym(A), d.thr[2]))
              ELSE Pivots(Sym(A), d.thr[2])
    [] d.k = "RChol" ->
         IF ~Square(A) THEN "no"
         ELSE IF \A i \in 1..Len(A) : FxLeq(FxInt(A[i][i]), d.thr[1]) THEN "no"
         ELSE IF Gram(A, d.w) \/ SemiRank(d) >= 0 \/ FlatOk(d) THEN "ok"
         ELSE IF NegativePart(A, d.thr[1]) THEN "no" ELSE "any"
    [] d.k = "EigenTri" -> "ok"

---------------------------------------------------------------------------
(* Quantities and relations.  s[q] is [err, v, n, e].                      *)
Rel(k) ==
  CASE k = "LU" -> {<<"P", {"P", "Pivot", "NS"}>>, <<"L", {"L", "NS"}>>, <<"U", {"U", "NS"}>>,
                    <<"PALU", {"L", "U", "Pivot"}>>, <<"Pivot", {"Pivot"}>>,
                    <<"Det", {"Det"}>>, <<"DetU", {"Det", "U", "Pivot"}>>, <<"NS", {"NS"}>>}
    [] k = "Chol" -> {<<"L", {"L"}>>, <<"LLT", {"L"}>>, <<"LT", {"L", "LT"}>>, <<"Det", {"Det"}>>, <<"DetL", {"Det", "L"}>>, <<"NS", {"NS"}>>}
    [] k = "RChol" -> {<<"Root", {"Root"}>>, <<"RootRank", {"Root", "Rank"}>>, <<"Rank", {"Rank"}>>}
    [] k = "QR" -> {<<"Q", {"Q"}>>, <<"QT", {"Q", "QT"}>>, <<"R", {"R"}>>, <<"QR", {"Q", "R"}>>, <<"NSR", {"NS", "R"}>>, <<"NSA", {"NS"}>>,
                    <<"H", {"H", "R"}>>, <<"HQ", {"H", "Q", "R"}>>}
    [] k = "RRQR" -> {<<"Q", {"Q"}>>, <<"QT", {"Q", "QT"}>>, <<"R", {"R"}>>, <<"P", {"P"}>>, <<"APQR", {"P", "Q", "R"}>>,
                      <<"Falls", {"R"}>>, <<"Rank", {"Rank"}>>, <<"Drop", {"Rank", "R"}>>, <<"NSR", {"NS", "R"}>>, <<"NSA", {"NS"}>>,
                      <<"H", {"H", "R"}>>, <<"HQ", {"H", "Q", "R"}>>}
    [] k = "SVD" -> {<<"U", {"U"}>>, <<"V", {"V"}>>, <<"UT", {"U", "UT"}>>, <<"VT", {"V", "VT"}>>, <<"S", {"S"}>>,
                     <<"SV", {"S", "SV"}>>, <<"USVT", {"U", "S", "V"}>>, <<"Norm", {"Norm", "SV"}>>,
                     <<"Cond", {"Cond", "SV"}>>, <<"ICond", {"ICond", "SV"}>>, <<"Rank", {"Rank"}>>, <<"RankSV", {"Rank", "SV"}>>,
                     <<"NS", {"NS"}>>, <<"Cov", {"Cov", "SV", "V"}>>}
    [] k \in {"Eigen", "EigenTri"} ->
         {<<"D", {"D", "Re", "Im"}>>, <<"AVVD", {"V", "D"}>>, <<"V", {"V"}>>, <<"VT", {"V", "VT"}>>, <<"Cols", {"V", "Im"}>>,
          <<"Spectrum", {"Re", "Im"}>>, <<"Pairs", {"Re", "Im"}>>, <<"HasC", {"HasC", "Im"}>>, <<"Det", {"Det"}>>, <<"DetL", {"Det", "Re", "Im"}>>,
          <<"Vec", {"V", "Vec"}>>, <<"At", {"Re", "Im", "At"}>>, <<"Sqrt", {"Sqrt", "Re"}>>, <<"NS", {"NS", "HasC"}>>, <<"NSRe", {"NS", "HasC", "Re"}>>}
    [] k = "Hess" -> {<<"P", {"P"}>>, <<"PT", {"P", "PT"}>>, <<"H", {"H"}>>, <<"APHPT", {"P", "H"}>>}
    [] k = "Schur" -> {<<"P", {"P"}>>, <<"PT", {"P", "PT"}>>, <<"T", {"T"}>>, <<"APTPT", {"P", "T"}>>}
    [] k = "Tri" -> {<<"Q", {"Q"}>>, <<"QT", {"Q", "QT"}>>, <<"T", {"T"}>>, <<"AQTQT", {"Q", "T"}>>, <<"Diags", {"T", "Main", "Sec"}>>}
    [] k = "Bi" -> {<<"U", {"U"}>>, <<"V", {"V"}>>, <<"B", {"B"}>>, <<"AUBVT", {"U", "B", "V"}>>, <<"Diags", {"B", "Main", "Sec"}>>, <<"Upper", {"Upper"}>>}

Fine(x) == x.err = 0
Nil(x) == x.err = 0 /\ x.v = <<>>
YesNo(x, b) == Fine(x) /\ x.n = <<IF b THEN 1 ELSE 0>>
Agrees(x, y) == y = "any" \/ YesNo(x, y = "yes")
\* M = P N P^T
Similar(M, P, N, tol) == Near(M, FxMatMul(FxMatMul(P, N), FxT(P)), tol)
Wide(A) == Rows(A) < Cols(A)
Lesser2(A) == IMin(Rows(A), Cols(A))

(* Singular values at or above the cut-off c; with x.n = <<i>> the cut-off  *)
(* is the very number reported as the i-th singular value.                 *)
CovOk(d, s) ==
  LET sv == s["SV"].v[1]  V == s["V"].v  c == s["Cov"].cut
      p == Len(sv)
      x == s["Cov"]
      at == IF x.n = <<>> THEN 0 ELSE x.n[1]
      sel == {i \in 1..p : i <= at \/ FxLeq(c, sv[i])}
      close == \E i \in 1..p : i > at /\ FxNear(sv[i], c, TolA(d.a))
      \* small singular values have inverses that are off the grid
      low == FxLt(c, FxEps(2048))
      C == x.v
      n == Cols(d.a)
      big == FMaxAbs(C)
      tol == FxMul(TolA(d.a), FxAdd(One, big))
      CV == FxMatMul(C, V)
  IN IF close \/ low THEN TRUE
     ELSE IF sel = {} THEN x.err # 0
     ELSE /\ Fine(x) /\ IsShape(C, n, n)
          /\ SymNear(C, tol)
          /\ Near(FxMatMul(CV, FxT(V)), C, tol)
          /\ \A i \in 1..n : \A j \in 1..p :
               IF j \in sel
               THEN FxNear(FxMul(FxMul(CV[i][j], sv[j]), sv[j]), V[i][j], FxMul(FxMul(tol, FxAdd(One, sv[j])), FxAdd(One, sv[j])))
               ELSE Small(CV[i][j], tol)

(* Where the norm of what is left of R, relative to what was left before,   *)
(* first falls below the threshold c (both relative to the norm of R); -1   *)
(* where that is too close to tell.                                         *)
RankByDrop(Rm, c) ==
  LET p == IMin(FxRows(Rm), FxCols(Rm))
      sq(k) == FxSum([i \in 1..FxRows(Rm) - k |-> FxDot(SubSeq(Rm[i + k], k + 1, FxCols(Rm)), SubSeq(Rm[i + k], k + 1, FxCols(Rm)))])
      N == TLCEval([k \in 0..p - 1 |-> sq(k)])
      c2 == FxMul(c, c)
      step(t, k) ==
        IF t[2] THEN t
        ELSE LET x == FxMul(FxShr(N[k], 8), N[0])
                 y == FxMul(FxShr(N[k - 1], 8), c2)
                 tol == FxMul(FxAdd(FxAdd(x, y), FxMicro(1)), FxMicro(1))
             IN IF FxLt(FxAdd(x, tol), y) THEN <<k, TRUE>>
                ELSE IF FxLt(FxAdd(y, tol), x) THEN <<k + 1, FALSE>> ELSE <<-1, TRUE>>
  IN IF ~FxLt(N[0], FxInt(8000)) \/ ~FxLt(c, FxInt(64)) \/ FxLeq(c, FxMilli(1)) THEN -1
     ELSE IF N[0] = Zero THEN 0
     ELSE FoldLeft(step, <<1, FALSE>>, [k \in 1..p - 1 |-> k])[1]

(* Reflectors: the columns h of H, of squared length 2 h_jj; Q is the       *)
(* product of the reflections I - h h^T / h_jj.  A column that is zero when *)
(* its turn comes has no reflector.                                        *)
Reflects(R, j) == FxLt(FxMicro(1), FxAbs(R[j][j]))
Column(M, j) == [i \in 1..Len(M) |-> M[i][j]]
\* the reciprocal of a number between one and two
FxRecip(x) == FoldLeft(LAMBDA r, i : FxMul(r, FxSub(FxInt(2), FxMul(x, r))), FxMilli(768), [i \in 1..7 |-> i])
Reflected(M, h, r) ==
  LET u == FxMatMul(M, [i \in 1..Len(h) |-> <<h[i]>>])
      w == TLCEval([i \in 1..Len(h) |-> FxMul(h[i], r)])
      P == TLCEval(FxMatMul(u, <<w>>))
  IN TLCEval([i \in 1..Len(M) |-> [j \in 1..Len(h) |-> FxSub(M[i][j], P[i][j])]])
Reflections(H, p) == FoldLeft(LAMBDA M, j : Reflected(M, Column(H, j), FxRecip(H[j][j])), FxIdentity(Len(H)), [j \in 1..p |-> j])

(* The power sums of the eigenvalues are the traces of the powers.         *)
CMul(x, y) == <<FxSub(FxMul(x[1], y[1]), FxMul(x[2], y[2])), FxAdd(FxMul(x[1], y[2]), FxMul(x[2], y[1]))>>
RowSum(A) == FoldLeft(LAMBDA m, r : IMax(m, FoldLeft(LAMBDA t, x : t + IAbs(x), 0, r)), 0, A)
SpectrumOk(A, re, im) ==
  LET n == Len(A)
      b == IMax(1, RowSum(A))
      \* the powers that stay small enough
      kmax == FoldLeft(LAMBDA s, k : IF s[2] <= 250000 \div (b * n) THEN <<k, s[2] * b>> ELSE <<s[1], 1000000>>, <<0, 1>>, [k \in 1..IMin(n, 12) |-> k])[1]
      step(s, k) ==
        IF ~s.ok THEN s
        ELSE LET pw == TLCEval(IMul(A, s.pw))
                 ev == TLCEval([i \in 1..n |-> CMul(s.ev[i], <<re[i], im[i]>>)])
                 tr == FoldLeft(LAMBDA t, i : t + pw[i][i], 0, [i \in 1..n |-> i])
                 tol == FxMul(FxInt(IMin(500000, n * k * s.b * b)), FxEps(256))
             IN [pw |-> pw, ev |-> ev, b |-> s.b * b,
                 ok |-> /\ FxNear(FxSum([i \in 1..n |-> ev[i][1]]), FxInt(tr), tol)
                        /\ FxNear(FxSum([i \in 1..n |-> ev[i][2]]), Zero, tol)]
      one == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]]
  IN FoldLeft(LAMBDA s, k : TLCEval(step(s, k)),
              [pw |-> one, ev |-> [i \in 1..n |-> <<One, Zero>>], b |-> 1, ok |-> TRUE],
              [k \in 1..kmax |-> k]).ok
\* imaginary parts at or below 10^-12 are taken for zero
Tiny == FxEps(2)
IsReal(y) == FxLeq(FxAbs(y), Tiny)
\* 2x2 layout of a spectrum
LayD(re, im) == [i \in 1..Len(re) |-> [j \in 1..Len(re) |->
    IF i = j THEN re[i]
    ELSE IF j = i + 1 /\ FxLt(Zero, im[i]) THEN im[i]
    ELSE IF j = i - 1 /\ FxLt(im[i], Zero) THEN im[i]
    ELSE Zero]]
\* Columns of V are reported scaled by powers of two, the two columns of a
\* conjugate pair alike, so that their largest entry is between 1/2 and 1.
\* With them come the signs of the imaginary parts.
Half == <<511, 0>>
Big(V, j) == \E i \in 1..Len(V) : FxLeq(Half, FxAbs(V[i][j]))
NoZeroColumn(V, sg) ==
  \A j \in 1..Len(V) :
    CASE sg[j] = 0 -> Big(V, j)
      [] sg[j] = 1 -> Big(V, j) \/ (j < Len(V) /\ Big(V, j + 1))
      [] OTHER -> Big(V, j) \/ (j > 1 /\ Big(V, j - 1))

Holds(r, d, s) ==
  LET A == d.a  k == d.k  m == Rows(A)  n == Cols(A)  p == Lesser2(A)
  IN CASE
     \* LU
        k = "LU" /\ r = "NS" -> Agrees(s["NS"], NonSingular(d))
     [] k = "LU" /\ r = "Pivot" -> Fine(s["Pivot"]) /\ IsPerm(s["Pivot"].n, n)
     [] k = "LU" /\ r = "P" -> IF s["NS"].n = <<0>> THEN Nil(s["P"])
                               ELSE Fine(s["P"]) /\ s["P"].v = PermMat(s["Pivot"].n)
     [] k = "LU" /\ r = "L" -> IF s["NS"].n = <<0>> THEN Nil(s["L"])
                               ELSE LET L == s["L"].v IN
                                    /\ Fine(s["L"]) /\ IsShape(L, n, n) /\ ZeroAbove(L, 0, Zero)
                                    /\ \A i \in 1..n : L[i][i] = One /\ \A j \in 1..i : FxLeq(FxAbs(L[i][j]), FxAdd(One, Ulp))
     [] k = "LU" /\ r = "U" -> IF s["NS"].n = <<0>> THEN Nil(s["U"])
                               ELSE Fine(s["U"]) /\ IsShape(s["U"].v, n, n) /\ ZeroBelow(s["U"].v, 0, Zero)
     [] k = "LU" /\ r = "PALU" ->
          s["L"].v = <<>> \/ LET pv == s["Pivot"].n  B == [i \in 1..n |-> F(A)[pv[i] + 1]]
                             IN Near(B, FxMatMul(s["L"].v, s["U"].v), TolX(A, s["U"].v))
     [] k \in {"LU", "Chol", "Eigen", "EigenTri"} /\ r = "Det" ->
          IF k = "LU" /\ Coarse(d) THEN TRUE   \* see DetU
          ELSE IF ~Bounded(A) \/ ~Bounded(Sym(A)) THEN (d.rk[2] < n /\ k = "LU" => Sc(s["Det"]) = Zero)
          ELSE LET D == Det(IF k = "Chol" THEN Sym(A) ELSE A) IN
            IF D = 0 THEN (IF k = "LU" THEN Sc(s["Det"]) = Zero ELSE Sc(s["Det"]) = Zero \/ s["Det"].e <= -10)
            ELSE MantNear(DetOf(s["Det"]), MantOf(D))
     [] k = "LU" /\ r = "DetU" ->
          IF s["U"].v = <<>> THEN Sc(s["Det"]) = Zero
          ELSE LET x == MantProd([i \in 1..n |-> s["U"].v[i][i]])
               IN MantNear(DetOf(s["Det"]), IF Odd(s["Pivot"].n) THEN MantNeg(x) ELSE x)
     \* Cholesky
     [] k = "Chol" /\ r = "NS" -> YesNo(s["NS"], TRUE)
     [] k = "Chol" /\ r = "L" -> /\ Fine(s["L"]) /\ IsShape(s["L"].v, n, n) /\ ZeroAbove(s["L"].v, 0, Zero)
                                 /\ \A i \in 1..n : FxLt(Zero, s["L"].v[i][i])
     [] k = "Chol" /\ r = "LLT" -> Near(F(Sym(A)), FxMatMul(s["L"].v, FxT(s["L"].v)), TolA(A))
     [] k = "Chol" /\ r = "LT" -> Fine(s["LT"]) /\ s["LT"].v = FxT(s["L"].v)
     [] k = "Chol" /\ r = "DetL" ->
          LET x == MantProd([i \in 1..n |-> s["L"].v[i][i]])
              y == MantProd(<<x[1], x[1]>>)
          IN MantNear(DetOf(s["Det"]), <<y[1], y[2] + 2 * x[2]>>)
     \* rectangular Cholesky
     \* (what a threshold leaves out is at most the threshold in size)
     [] k = "RChol" /\ r = "Rank" -> /\ Gram(A, d.w) => /\ s["Rank"].n[1] <= d.rk[2]
                                                        /\ FxLt(d.thr[1], FxEps(524288)) => s["Rank"].n[1] >= d.rk[1]
                                     /\ FlatOk(d) => s["Rank"].n[1] = Cardinality({i \in 1..n : FxLt(d.thr[1], FxInt(A[i][i]))})
                                     /\ \E t \in {SemiRank(d)} : t # -1 => s["Rank"].n[1] = t
     [] k = "RChol" /\ r = "RootRank" -> FxCols(s["Root"].v) = s["Rank"].n[1]
     [] k = "RChol" /\ r = "Root" -> Gram(A, d.w) \/ SemiRank(d) >= 0 \/ FlatOk(d) => /\ Fine(s["Root"]) /\ Len(s["Root"].v) = n
                                     /\ Near(F(A), FxMatMul(s["Root"].v, FxT(s["Root"].v)), FxAdd(TolA(A), d.thr[1]))
     \* QR
     [] k \in {"QR", "RRQR"} /\ r = "Q" -> Fine(s["Q"]) /\ IsShape(s["Q"].v, m, m) /\ Orthonormal(s["Q"].v, TolOrth(A))
     [] k \in {"QR", "RRQR", "Tri"} /\ r = "QT" -> Fine(s["QT"]) /\ s["QT"].v = FxT(s["Q"].v)
     [] k \in {"QR", "RRQR"} /\ r = "R" -> Fine(s["R"]) /\ IsShape(s["R"].v, m, n) /\ ZeroBelow(s["R"].v, 0, TolA(A))
     [] k = "QR" /\ r = "QR" -> Near(F(A), FxMatMul(s["Q"].v, s["R"].v), TolA(A))
     [] k \in {"QR", "RRQR"} /\ r = "H" -> LET H == s["H"].v IN
          /\ Fine(s["H"]) /\ IsShape(H, m, n) /\ ZeroAbove(H, 0, Zero)
          /\ \A j \in 1..p : Reflects(s["R"].v, j) =>
               /\ FxLeq(FxSub(One, TolOrth(A)), H[j][j]) /\ FxLeq(H[j][j], FxAdd(FxInt(2), TolOrth(A)))
               /\ FxNear(FxDot(Column(H, j), Column(H, j)), FxAdd(H[j][j], H[j][j]), TolOrth(A))
     [] k \in {"QR", "RRQR"} /\ r = "HQ" ->
          m > 20 \/ (\E j \in 1..p : ~Reflects(s["R"].v, j)) \/ Near(s["Q"].v, Reflections(s["H"].v, p), TolOrth(A))
     [] k = "RRQR" /\ r = "P" -> Fine(s["P"]) /\ IsPermMat(s["P"].v, n)
     [] k = "RRQR" /\ r = "APQR" -> Near(FxMatMul(F(A), s["P"].v), FxMatMul(s["Q"].v, s["R"].v), TolA(A))
     [] k = "RRQR" /\ r = "Falls" -> \A i \in 1..p - 1 : FxLeq(FxAbs(s["R"].v[i + 1][i + 1]), FxAdd(FxAbs(s["R"].v[i][i]), TolA(A)))
     [] k = "RRQR" /\ r = "Rank" -> Fine(s["Rank"]) /\ (FxLt(FxMicro(1), s["Rank"].cut) \/ (s["Rank"].n[1] >= d.rk[1] /\ s["Rank"].n[1] <= d.rk[2]))
     [] k = "RRQR" /\ r = "Drop" -> LET t == RankByDrop(s["R"].v, s["Rank"].cut) IN t = -1 \/ s["Rank"].n = <<t>>
     [] k \in {"QR", "RRQR"} /\ r = "NSR" ->
          LET c == d.thr[1]
              dg == [i \in 1..p |-> FxAbs(s["R"].v[i][i])]
          IN (\E i \in 1..p : FxNear(dg[i], c, FxEps(16))) \/ YesNo(s["NS"], \A i \in 1..p : FxLt(c, dg[i]))
     [] k \in {"QR", "RRQR"} /\ r = "NSA" ->
          \* with a threshold between rounding and the smallest pivot
          d.thr[1] = Zero \/ Wide(A) \/ FxLt(FxMilli(1), d.thr[1]) \/ Agrees(s["NS"], FullColumnRank(d))
     \* singular values
     [] k = "SVD" /\ r = "U" -> Fine(s["U"]) /\ IsShape(s["U"].v, m, p) /\ Orthonormal(s["U"].v, TolOrth(A))
     [] k = "SVD" /\ r = "V" -> Fine(s["V"]) /\ IsShape(s["V"].v, n, p) /\ Orthonormal(s["V"].v, TolOrth(A))
     [] k = "SVD" /\ r = "UT" -> Fine(s["UT"]) /\ s["UT"].v = FxT(s["U"].v)
     [] k \in {"SVD", "Eigen", "EigenTri"} /\ r = "VT" -> Fine(s["VT"]) /\ s["VT"].v = FxT(s["V"].v)
     [] k = "SVD" /\ r = "S" -> LET S == s["S"].v IN
          /\ Fine(s["S"]) /\ IsShape(S, p, p) /\ IsDiagonal(S, Zero)
          /\ \A i \in 1..p : FxLeq(Zero, S[i][i]) /\ (i > 1 => FxLeq(S[i][i], S[i - 1][i - 1]))
     [] k = "SVD" /\ r = "SV" -> Fine(s["SV"]) /\ s["SV"].v = <<[i \in 1..p |-> s["S"].v[i][i]]>>
     [] k = "SVD" /\ r = "USVT" -> Near(F(A), FxMatMul(FxMatMul(s["U"].v, s["S"].v), FxT(s["V"].v)), TolA(A))
     [] k = "SVD" /\ r = "Norm" -> Fine(s["Norm"]) /\ Sc(s["Norm"]) = s["SV"].v[1][1]
     [] k = "SVD" /\ r = "Cond" ->
          LET hi == s["SV"].v[1][1]  lo == s["SV"].v[1][p]  c == Sc(s["Cond"])
          IN IF IsFx(c) THEN FxNear(FxMul(c, lo), hi, FxAdd(TolA(A), FxMul(c, Ulp))) ELSE FxLeq(FxMul(lo, FxInt(500000)), FxAdd(hi, FxMilli(1)))
     [] k = "SVD" /\ r = "ICond" ->
          LET hi == s["SV"].v[1][1]  lo == s["SV"].v[1][p]
          IN hi = Zero \/ FxNear(FxMul(Sc(s["ICond"]), hi), lo, TolA(A))
     [] k = "SVD" /\ r = "Rank" -> Fine(s["Rank"]) /\ s["Rank"].n[1] >= d.rk[1] /\ s["Rank"].n[1] <= d.rk[2]
     \* whatever is above 2^-20 of the largest counts
     [] k = "SVD" /\ r = "RankSV" ->
          Cardinality({i \in 1..p : FxLt(FxAdd(FxShr(s["SV"].v[1][1], 20), TolA(A)), s["SV"].v[1][i])}) <= s["Rank"].n[1]
     [] k = "SVD" /\ r = "NS" -> Fine(s["NS"]) /\ Agrees(s["NS"], NonSingular(d))
     [] k = "SVD" /\ r = "Cov" -> CovOk(d, s)
     \* eigenvalues
     [] k \in {"Eigen", "EigenTri"} /\ r = "D" ->
          /\ Fine(s["D"])
          /\ Near(s["D"].v, LayD(s["Re"].v[1], s["Im"].v[1]), Tiny)
     [] k \in {"Eigen", "EigenTri"} /\ r = "V" ->
          /\ Fine(s["V"]) /\ IsShape(s["V"].v, n, n)
          /\ (ISymmetric(A) => Orthonormal(s["V"].v, TolOrth(A)))
     [] k \in {"Eigen", "EigenTri"} /\ r = "Cols" ->
          LET im == s["Im"].v[1]  sg == s["V"].n IN
          IF ISymmetric(A) THEN \A j \in 1..n : sg[j] = 0
          ELSE (/\ NoZeroColumn(s["V"].v, sg)
                            /\ \A j \in 1..n : (im[j] # Zero => sg[j] = (IF FxLt(Zero, im[j]) THEN 1 ELSE -1)))
     [] k \in {"Eigen", "EigenTri"} /\ r = "AVVD" ->
          Near(FxMatMul(F(A), s["V"].v), FxMatMul(s["V"].v, s["D"].v), TolA(A))
     [] k \in {"Eigen", "EigenTri"} /\ r = "Spectrum" ->
          /\ Fine(s["Re"]) /\ Fine(s["Im"]) /\ Len(s["Re"].v[1]) = n /\ Len(s["Im"].v[1]) = n
          /\ SpectrumOk(A, s["Re"].v[1], s["Im"].v[1])
     [] k \in {"Eigen", "EigenTri"} /\ r = "Pairs" ->
          LET re == s["Re"].v[1]  im == s["Im"].v[1] IN
          IF ISymmetric(A)
          THEN \A i \in 1..n : im[i] = Zero /\ (i > 1 => FxLeq(re[i], re[i - 1]))
          ELSE \A i \in 1..n :
            /\ FxLt(Zero, im[i]) => i < n /\ re[i + 1] = re[i] /\ FxAdd(im[i + 1], im[i]) = Zero
            /\ FxLt(im[i], Zero) => i > 1 /\ re[i - 1] = re[i] /\ FxAdd(im[i - 1], im[i]) = Zero
     [] k \in {"Eigen", "EigenTri"} /\ r = "HasC" ->
          LET im == s["Im"].v[1] IN
          (\E i \in 1..n : im[i] # Zero /\ FxNear(FxAbs(im[i]), FxEps(1), Tiny)) \/ YesNo(s["HasC"], \E i \in 1..n : ~IsReal(im[i]))
     [] k \in {"Eigen", "EigenTri"} /\ r = "DetL" ->
          LET re == s["Re"].v[1]  im == s["Im"].v[1]
              \* a conjugate pair contributes the square of its modulus
              f(i) == IF FxLt(Zero, im[i]) THEN FxAdd(FxMul(re[i], re[i]), FxMul(im[i], im[i]))
                      ELSE IF FxLt(im[i], Zero) THEN One ELSE re[i]
              sm == \E i \in 1..n : FxLt(FxAbs(f(i)), FxMilli(1))
          IN sm \/ MantNear(DetOf(s["Det"]), MantProd([i \in 1..n |-> f(i)]))
     [] k \in {"Eigen", "EigenTri"} /\ r = "Vec" -> Fine(s["Vec"]) /\ s["Vec"].v = FxT(s["V"].v)
     [] k \in {"Eigen", "EigenTri"} /\ r = "At" -> Fine(s["At"]) /\ s["At"].v = <<s["Re"].v[1], s["Im"].v[1]>>
     [] k \in {"Eigen", "EigenTri"} /\ r = "Sqrt" ->
          IF ~ISymmetric(A) THEN s["Sqrt"].err # 0
          ELSE LET lo == s["Re"].v[1][n] IN
            IF FxLeq(lo, FxNeg(TolA(A))) THEN s["Sqrt"].err # 0
            ELSE IF FxLeq(lo, TolA(A)) /\ s["Sqrt"].err # 0 THEN TRUE
            ELSE LET R == s["Sqrt"].v IN
                 /\ Fine(s["Sqrt"]) /\ IsShape(R, n, n) /\ SymNear(R, TolA(A))
                 /\ Near(F(A), FxMatMul(R, R), TolA(A))
     [] k \in {"Eigen", "EigenTri"} /\ r = "NS" ->
          IF s["HasC"].n = <<1>> THEN s["NS"].err # 0
          ELSE Fine(s["NS"]) /\ (ISymmetric(A) \/ DistinctSpectrum(A) => Agrees(s["NS"], NonSingular(d)))
     \* no eigenvalue is small against the largest
     [] k \in {"Eigen", "EigenTri"} /\ r = "NSRe" ->
          LET re == s["Re"].v[1]
              hi == FMaxAbs(<<re>>)
              lo == FxAdd(FxShr(hi, 20), TolA(A))
          IN s["HasC"].n = <<1>> \/ (\E i \in 1..n : FxLeq(FxAbs(re[i]), lo)) \/ YesNo(s["NS"], TRUE)
     \* reductions
     [] k \in {"Hess", "Schur"} /\ r = "P" -> Fine(s["P"]) /\ IsShape(s["P"].v, n, n) /\ Orthonormal(s["P"].v, TolOrth(A))
     [] k \in {"Hess", "Schur"} /\ r = "PT" -> Fine(s["PT"]) /\ s["PT"].v = FxT(s["P"].v)
     [] k = "Hess" /\ r = "H" -> Fine(s["H"]) /\ IsShape(s["H"].v, n, n) /\ ZeroBelow(s["H"].v, 1, TolA(A))
     [] k = "Hess" /\ r = "APHPT" -> Similar(F(A), s["P"].v, s["H"].v, TolA(A))
     [] k = "Schur" /\ r = "T" -> LET T == s["T"].v  tol == TolA(A) IN
          /\ Fine(s["T"]) /\ IsShape(T, n, n) /\ ZeroBelow(T, 1, tol)
          /\ \A i \in 1..n - 2 : Small(T[i + 1][i], tol) \/ Small(T[i + 2][i + 1], tol)
     [] k = "Schur" /\ r = "APTPT" -> Similar(F(A), s["P"].v, s["T"].v, TolA(A))
     [] k = "Tri" /\ r = "Q" -> Fine(s["Q"]) /\ IsShape(s["Q"].v, n, n) /\ Orthonormal(s["Q"].v, TolOrth(A))
     [] k = "Tri" /\ r = "T" -> Fine(s["T"]) /\ IsShape(s["T"].v, n, n) /\ ZeroBelow(s["T"].v, 1, Zero) /\ SymNear(s["T"].v, Zero)
     [] k = "Tri" /\ r = "AQTQT" -> Similar(F(A), s["Q"].v, s["T"].v, TolA(A))
     [] k = "Tri" /\ r = "Diags" -> LET T == s["T"].v IN
          /\ s["Main"].v = <<[i \in 1..n |-> T[i][i]]>>
          /\ s["Sec"].v = <<[i \in 1..n - 1 |-> T[i][i + 1]]>>
     [] k = "Bi" /\ r = "U" -> Fine(s["U"]) /\ IsShape(s["U"].v, m, m) /\ Orthonormal(s["U"].v, TolOrth(A))
     [] k = "Bi" /\ r = "V" -> Fine(s["V"]) /\ IsShape(s["V"].v, n, n) /\ Orthonormal(s["V"].v, TolOrth(A))
     [] k = "Bi" /\ r = "B" -> LET B == s["B"].v IN
          /\ Fine(s["B"]) /\ IsShape(B, m, n)
          /\ IF Wide(A) THEN ZeroAbove(B, 0, Zero) /\ ZeroBelow(B, 1, Zero) ELSE ZeroBelow(B, 0, Zero) /\ ZeroAbove(B, 1, Zero)
     [] k = "Bi" /\ r = "AUBVT" -> Near(F(A), FxMatMul(FxMatMul(s["U"].v, s["B"].v), FxT(s["V"].v)), TolA(A))
     [] k = "Bi" /\ r = "Diags" -> LET B == s["B"].v IN
          /\ s["Main"].v = <<[i \in 1..p |-> B[i][i]]>>
          /\ s["Sec"].v = <<[i \in 1..p - 1 |-> IF Wide(A) THEN B[i + 1][i] ELSE B[i][i + 1]]>>
     [] k = "Bi" /\ r = "Upper" -> YesNo(s["Upper"], ~Wide(A))

(* The form of an answer: how many rows and columns of numbers, or <<-1, k>>  *)
(* for k whole numbers (any number of them if k < 0).                      *)
Form(d, q) ==
  LET m == Rows(d.a)  n == Cols(d.a)  p == Lesser2(d.a)  k == d.k
  IN CASE q \in {"NS", "HasC", "Upper", "Rank"} -> <<-1, 1>>
       [] q = "Pivot" -> <<-1, n>>
       [] q \in {"Det", "Norm", "Cond", "ICond"} -> <<1, 1>>
       [] q \in {"Re", "Im"} -> <<1, n>>
       [] q = "At" -> <<2, n>>
       [] q \in {"SV", "Main"} -> <<1, p>>
       [] q = "Sec" -> <<1, p - 1>>
       [] q = "Root" -> <<n, -1>>
       [] k \in {"QR", "RRQR"} /\ q \in {"Q", "QT"} -> <<m, m>>
       [] k \in {"QR", "RRQR"} /\ q \in {"R", "H"} -> <<m, n>>
       [] k = "SVD" /\ q = "U" -> <<m, p>>
       [] k = "SVD" /\ q = "UT" -> <<p, m>>
       [] k = "SVD" /\ q = "V" -> <<n, p>>
       [] k = "SVD" /\ q = "VT" -> <<p, n>>
       [] k = "SVD" /\ q = "S" -> <<p, p>>
       [] k = "Bi" /\ q = "U" -> <<m, m>>
       [] k = "Bi" /\ q = "B" -> <<m, n>>
       [] OTHER -> <<n, n>>
\* Only these may be refused.
MayRefuse(k) == IF k = "SVD" THEN {"Cov"} ELSE IF k \in {"Eigen", "EigenTri"} THEN {"Sqrt", "NS"} ELSE {}
Answered(d, q, x) ==
  IF x.err # 0 THEN q \in MayRefuse(d.k)
  ELSE IF d.k = "LU" /\ q \in {"L", "U", "P"} /\ x.v = <<>> THEN TRUE
  ELSE LET f == Form(d, q)
       IN IF f[1] = -1 THEN Len(x.n) = f[2]
          ELSE /\ Len(x.v) = f[1]
               /\ \A i \in 1..f[1] : Len(x.v[i]) = IF f[2] = -1 THEN Len(x.v[1]) ELSE f[2]

\* All relations that the answer q completes hold.
Complete(d, q, s) == \A r \in Rel(d.k) : q \in r[2] /\ r[2] \subseteq DOMAIN s => Holds(r[1], d, s)

\* What stays what it was even when someone writes to a factor that was
\* handed out (the factors themselves are handed out by reference).
Own(k) ==
  CASE k = "LU" -> {"Pivot", "Det", "NS"}
    [] k = "Chol" -> {"Det", "NS"}
    [] k \in {"QR", "RRQR"} -> {"NS"}
    [] k = "SVD" -> {"SV", "Norm", "Cond", "ICond", "Rank", "NS"}
    [] k = "Eigen" -> {"Re", "Im", "At", "HasC", "Det", "Vec", "NS"}
    [] OTHER -> {}
OwnSolution(k) == k \in {"LU", "Chol", "QR", "RRQR"}

(* The same question to two decompositions of equal matrices.              *)
SameAs(x, y, tol) == x.err = y.err /\ x.n = y.n /\ x.e = y.e /\
                     (x.v = y.v \/ Near(x.v, y.v, tol))
Twins(d, c) == d.k = c.k /\ d.thr = c.thr /\ d.a = c.a

---------------------------------------------------------------------------
(* Solving.  b is an integer matrix, x what came back (relative to the     *)
(* inverse power of two).                                                  *)
Residual(A, X, B, tol) == Near(FxMatMul(A, X), B, tol)
\* the pseudo-inverse is characterised by Penrose's conditions
Penrose(A, X, tol) ==
  LET AX == FxMatMul(A, X)  XA == FxMatMul(X, A)
  IN Near(FxMatMul(AX, A), A, tol) /\ Near(FxMatMul(XA, X), X, tol) /\ SymNear(AX, tol) /\ SymNear(XA, tol)
IdInt(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]]
\* without column exchanges the first columns have to be independent
LeadingRegular(A) == LET B == [i \in 1..Rows(A) |-> [j \in 1..Rows(A) |-> A[i][j]]] IN Bounded(B) /\ Det(B) # 0
\* "solves", "least" (squares), "basic" (some solution), "pseudo", "no" (refused), or any
Promise(d) ==
  LET A == d.a IN
  CASE d.k \in {"Eigen", "EigenTri"} /\ ~ISymmetric(A) /\ ("HasC" \notin DOMAIN d.seen \/ d.seen["HasC"].n = <<1>>) ->
         IF "HasC" \in DOMAIN d.seen THEN "no" ELSE "any"
    \* without a basis of eigenvectors there may be no solution by them
    [] d.k = "Eigen" /\ ~ISymmetric(A) /\ ~DistinctSpectrum(A) -> "any"
    [] d.k = "LU" -> (CASE NonSingular(d) = "yes" -> "solves" [] NonSingular(d) = "no" -> "no" [] OTHER -> "any")
    [] d.k = "Chol" -> "solves"
    [] d.k \in {"QR", "RRQR"} ->
         IF Coarse(d) THEN (IF Wide(A) \/ "NS" \notin DOMAIN d.seen THEN "any" ELSE IF d.seen["NS"].n = <<1>> THEN "least" ELSE "no")
         ELSE IF Wide(A) THEN (IF (d.k = "RRQR" /\ d.rk[1] = Rows(A)) \/ (d.k = "QR" /\ LeadingRegular(A)) THEN "basic" ELSE "any")
         ELSE (CASE FullColumnRank(d) = "yes" -> "least" [] FullColumnRank(d) = "no" -> "no" [] OTHER -> "any")
    [] d.k = "SVD" -> "pseudo"
    [] d.k \in {"Eigen", "EigenTri"} -> (CASE NonSingular(d) = "yes" -> "solves" [] NonSingular(d) = "no" -> "no" [] OTHER -> "any")
SolveOk(d, q, b, err, X) ==
  LET A == d.a
      P == Promise(d)
      B == IF q = "inv" THEN IdInt(Rows(A)) ELSE b
      FA == F(A)
      FB == F(B)
      tol == FxMul(TolX(A, X), FxAdd(One, FMaxAbs(FB)))
      \* a least-squares solution makes the residual orthogonal to the columns of A
      normal == LET AX == FxMatMul(FA, X)
                    D == [i \in 1..Len(AX) |-> [j \in 1..Len(AX[i]) |-> FxSub(AX[i][j], FB[i][j])]]
                IN Near(FxMatMul(FxT(FA), D), [i \in 1..Cols(A) |-> [j \in 1..Cols(B) |-> Zero]], FxMul(tol, FxInt(Sz(A) * IMax(1, MaxAbs(A)))))
  IN IF Len(B) # Rows(A) THEN err # 0
     ELSE CASE P = "no" -> err # 0
            [] P = "any" -> TRUE
            [] OTHER ->
                 /\ err = 0
                 /\ IsShape(X, Cols(A), Cols(B))
                 /\ P \notin {"solves", "basic"} /\ Square(A) /\ d.rk[1] = Rows(A) => Residual(FA, X, FB, tol)
                 /\ CASE P \in {"solves", "basic"} -> Residual(FA, X, FB, tol)
                      [] P = "least" -> normal
                      [] P = "pseudo" ->
                           IF q = "inv" THEN Penrose(FA, X, FxMul(FxMul(tol, FxAdd(One, FMaxAbs(X))), FxInt(Sz(A) * IMax(1, MaxAbs(A)))))
                           ELSE /\ normal
                                /\ "inv" \in DOMAIN d.seen =>
                                     Near(X, FxMatMul(d.seen["inv"].v, FB), FxMul(tol, FxAdd(One, FMaxAbs(d.seen["inv"].v))))
=============================================================================
