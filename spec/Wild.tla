-------------------------------- MODULE Wild --------------------------------
(***************************************************************************)
(* Decompositions of matrices of any floating-point numbers whatever: NaN, *)
(* infinities, numbers at the ends of the range, numbers that differ by    *)
(* hundreds of orders of magnitude.  Rounding, overflow and NaN leave open *)
(* what the answers are worth, but not that they come back, with a typed   *)
(* error or in the promised shape, are the same whenever asked, and that   *)
(* the forms in which an answer is given belong together, exactly: a       *)
(* factor and its transpose, a diagonal and its entries, a permutation and *)
(* its matrix, a report and the refusals it announces.                     *)
(*                                                                         *)
(* A number is the pair of the halves of its bits, as signed integers; all *)
(* NaNs are one, and so are both zeros.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES mats,   \* matrix id -> contents
          decs    \* decomposition id -> [k, a, thr, e, seen, sols]: kind, matrix, threshold
          \* (and as given), answers, solutions

Typed == {-1} \cup 1..19

Zero == <<0, 0>>
One == <<1072693248, 0>>
NaN == <<2146959360, 0>>
Negative(x) == x[1] < 0
\* the same number with the other sign
Flip(x) == IF x \in {Zero, NaN} THEN x
           ELSE <<IF x[1] < 0 THEN (x[1] + 2147483647) + 1 ELSE (x[1] - 2147483647) - 1, x[2]>>
\* order of the magnitudes of two numbers of the same sign, both not NaN
LowLess(a, b) == IF (a < 0) = (b < 0) THEN a < b ELSE b < 0
MagLess(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ LowLess(x[2], y[2]))
Less(x, y) ==
  IF Negative(x) THEN ~Negative(y) \/ MagLess(Flip(y), Flip(x))
  ELSE ~Negative(y) /\ MagLess(x, y)

Abs(x) == IF Negative(x) THEN Flip(x) ELSE x
NotAbove(x, y) == x # NaN /\ y # NaN /\ ~Less(y, x)     \* x <= y
Below(x, y) == x # NaN /\ y # NaN /\ Less(x, y)         \* x < y

Rows(A) == Len(A)
Cols(A) == Len(A[1])
Min(a, b) == IF a < b THEN a ELSE b
IsShape(M, r, c) == Len(M) = r /\ \A i \in 1..r : Len(M[i]) = c
Transpose(M, r, c) == [j \in 1..c |-> [i \in 1..r |-> M[i][j]]]
Square(A) == Rows(A) = Cols(A)
Symmetric(A) == Square(A) /\ \A i \in 1..Rows(A) : \A j \in 1..i : A[i][j] = A[j][i]
ZeroBelow(M, k) == \A i \in 1..Len(M) : \A j \in 1..Len(M[i]) : i > j + k => M[i][j] = Zero
ZeroAbove(M, k) == \A i \in 1..Len(M) : \A j \in 1..Len(M[i]) : j > i + k => M[i][j] = Zero
IsPerm(p, n) == Len(p) = n /\ {p[i] : i \in 1..n} = 0..n - 1
PermMat(p) == [i \in 1..Len(p) |-> [j \in 1..Len(p) |-> IF p[i] = j - 1 THEN One ELSE Zero]]
IsPermMat(M, n) == /\ IsShape(M, n, n)
                   /\ \A i \in 1..n : \A j \in 1..n : M[i][j] \in {Zero, One}
                   /\ \A i \in 1..n : Cardinality({j \in 1..n : M[i][j] = One}) = 1
                   /\ \A j \in 1..n : Cardinality({i \in 1..n : M[i][j] = One}) = 1
Diag(v) == [i \in 1..Len(v) |-> [j \in 1..Len(v) |-> IF i = j THEN v[i] ELSE Zero]]
YesNo(n) == n \in {<<0>>, <<1>>}

---------------------------------------------------------------------------
Outcome(k, A) ==
  CASE k \in {"QR", "RRQR", "SVD", "Bi"} -> "ok"
    [] k \in {"LU", "Hess", "Tri"} -> IF Square(A) THEN "ok" ELSE "no"
    [] k \in {"Schur", "Eigen", "RChol"} -> IF Square(A) THEN "any" ELSE "no"
    [] k = "Chol" -> IF ~Square(A) \/ Negative(A[1][1]) \/ A[1][1] = Zero THEN "no" ELSE "any"
    \* a has the rows main and secondary diagonal
    [] k = "EigenTri" -> IF Len(A[1]) = 0 \/ Len(A[2]) # Len(A[1]) - 1 THEN "no" ELSE "any"

\* the threshold of singularity where none is given
DefaultThr(k) == IF k = "LU" THEN <<1034288511, -512138091>> ELSE Zero

Size(d) == IF d.k = "EigenTri" THEN Len(d.a[1]) ELSE Rows(d.a)
Width(d) == IF d.k = "EigenTri" THEN Len(d.a[1]) ELSE Cols(d.a)
Has(d, q) == q \in DOMAIN d.seen
V(d, q) == d.seen[q].b
N(d, q) == d.seen[q].n

\* both were answered, and the second is the transpose of the first
TransposeOf(d, x, p, q, r, c) == Has(d, p) => (IF p = q THEN TRUE ELSE x.b = Transpose(V(d, p), r, c))
Descending(v) == (\A i \in 1..Len(v) : v[i] # NaN) => \A i \in 1..Len(v) - 1 : ~Less(v[i], v[i + 1])

\* the secondary diagonal of a tridiagonal or bidiagonal matrix
BandOf(d, M) == [i \in 1..Min(Size(d), Width(d)) - 1 |-> IF Size(d) >= Width(d) THEN M[i][i + 1] ELSE M[i + 1][i]]

(* Whether x is an answer to q.  The queries of a kind are asked in an     *)
(* order of their own the first time, so that the second of two that       *)
(* belong together finds the first.                                        *)
Nil(x) == x.b = <<>>
LUMat(d, x, n) == IF Has(d, "NS") THEN (N(d, "NS") = <<0>>) = Nil(x) /\ (Nil(x) \/ IsShape(x.b, n, n))
                  ELSE Nil(x) \/ IsShape(x.b, n, n)
AnswerOk(d, q, x) ==
  LET m == Size(d)  n == Width(d)  p == Min(m, n)  k == d.k
      ok == x.err = 0
      mat(r, c) == ok /\ IsShape(x.b, r, c)
  IN CASE q = "NS" -> IF k \in {"Eigen", "EigenTri"}
                      THEN /\ x.err = 0 => YesNo(x.n)
                           /\ Has(d, "HasC") => ok = (N(d, "HasC") = <<0>>)
                      ELSE /\ ok /\ YesNo(x.n) /\ (k = "Chol" => x.n = <<1>>)
                           /\ (k \in {"QR", "RRQR"} /\ Has(d, "R") =>
                                 x.n = <<IF \E i \in 1..p : NotAbove(Abs(V(d, "R")[i][i]), d.thr) THEN 0 ELSE 1>>)
       [] q = "Det" -> mat(1, 1) /\ (k = "LU" /\ Has(d, "NS") /\ N(d, "NS") = <<0>> => x.b[1][1] = Zero)
       \* LU
       [] k = "LU" /\ q = "Pivot" -> ok /\ IsPerm(x.n, n)
       [] k = "LU" /\ q = "P" -> ok /\ LUMat(d, x, n)
                                 /\ (~Nil(x) /\ Has(d, "Pivot") => x.b = PermMat(N(d, "Pivot")))
       [] k = "LU" /\ q = "L" -> ok /\ LUMat(d, x, n) /\ ZeroAbove(x.b, 0) /\ (Nil(x) \/ \A i \in 1..n : x.b[i][i] = One)
                                 \* partial pivoting
                                 /\ \A i \in 1..Len(x.b) : \A j \in 1..i : ~Below(One, Abs(x.b[i][j]))
       [] k = "LU" /\ q = "U" -> /\ ok /\ LUMat(d, x, n) /\ ZeroBelow(x.b, 0)
                                 /\ \A i \in 1..Len(x.b) : ~Below(Abs(x.b[i][i]), d.thr)
       \* Cholesky
       [] k = "Chol" /\ q = "L" -> mat(n, n) /\ ZeroAbove(x.b, 0) /\ TransposeOf(d, x, "LT", "L", n, n)
                                   /\ \A i \in 1..n : ~Negative(x.b[i][i])
       [] k = "Chol" /\ q = "LT" -> mat(n, n) /\ ZeroBelow(x.b, 0) /\ TransposeOf(d, x, "L", "LT", n, n)
       [] k = "RChol" /\ q = "Rank" -> ok /\ Len(x.n) = 1 /\ x.n[1] \in 0..n /\ (Has(d, "Root") => x.n[1] = Len(V(d, "Root")[1]))
       [] k = "RChol" /\ q = "Root" -> ok /\ Len(x.b) = n /\ Len(x.b[1]) \in 0..n /\ IsShape(x.b, n, Len(x.b[1]))
                                       /\ (Has(d, "Rank") => N(d, "Rank") = <<Len(x.b[1])>>)
       \* QR
       [] k \in {"QR", "RRQR"} /\ q = "Q" -> mat(m, m) /\ TransposeOf(d, x, "QT", "Q", m, m)
       [] k \in {"QR", "RRQR"} /\ q = "QT" -> mat(m, m) /\ TransposeOf(d, x, "Q", "QT", m, m)
       [] k \in {"QR", "RRQR"} /\ q = "R" ->
            /\ mat(m, n) /\ ZeroBelow(x.b, 0)
            /\ Has(d, "NS") => N(d, "NS") = <<IF \E i \in 1..p : NotAbove(Abs(x.b[i][i]), d.thr) THEN 0 ELSE 1>>
       [] k \in {"QR", "RRQR"} /\ q = "H" -> mat(m, n) /\ ZeroAbove(x.b, 0)
       [] k = "RRQR" /\ q = "P" -> ok /\ IsPermMat(x.b, n)
       [] k \in {"RRQR", "SVD"} /\ q = "Rank" ->
            /\ ok /\ Len(x.n) = 1 /\ x.n[1] \in 0..p
            \* a drop that is larger ends it no later
            /\ (k = "RRQR" /\ Has(d, "Rank") =>
                  LET y == d.seen["Rank"]
                  IN /\ NotAbove(x.arg[1][1], y.arg[1][1]) => x.n[1] >= y.n[1]
                     /\ NotAbove(y.arg[1][1], x.arg[1][1]) => x.n[1] <= y.n[1])
       \* SVD
       [] k = "SVD" /\ q = "U" -> mat(m, p) /\ TransposeOf(d, x, "UT", "U", p, m)
       [] k = "SVD" /\ q = "UT" -> mat(p, m) /\ TransposeOf(d, x, "U", "UT", m, p)
       [] k = "SVD" /\ q = "V" -> mat(n, p) /\ TransposeOf(d, x, "VT", "V", p, n)
       [] k = "SVD" /\ q = "VT" -> mat(p, n) /\ TransposeOf(d, x, "V", "VT", n, p)
       [] k = "SVD" /\ q = "SV" -> /\ mat(1, p) /\ Descending(x.b[1]) /\ \A i \in 1..p : ~Negative(x.b[1][i])
                                   /\ (Has(d, "S") => V(d, "S") = Diag(x.b[1]))
                                   /\ (Has(d, "Norm") => V(d, "Norm")[1][1] = x.b[1][1])
       [] k = "SVD" /\ q = "S" -> ok /\ IsShape(x.b, p, p) /\ (Has(d, "SV") => x.b = Diag(V(d, "SV")[1]))
       [] k = "SVD" /\ q = "Norm" -> mat(1, 1) /\ (Has(d, "SV") => x.b[1][1] = V(d, "SV")[1][1])
       [] k = "SVD" /\ q \in {"Cond", "InvCond"} -> mat(1, 1)
       [] k = "SVD" /\ q = "Cov" -> x.err # 0 \/ IsShape(x.b, n, n)
       \* eigenvalues
       [] q = "Re" /\ k \in {"Eigen", "EigenTri"} ->
            mat(1, n) /\ (k = "EigenTri" \/ Symmetric(d.a) => Descending(x.b[1]))
       [] q = "Im" -> /\ mat(1, n)
                      /\ (k = "EigenTri" => \A i \in 1..n : x.b[1][i] = Zero)
                      /\ ((\A i \in 1..n : x.b[1][i] # NaN) =>
                            \A i \in 1..n : (x.b[1][i] # Zero /\ ~Negative(x.b[1][i])) => i < n /\ x.b[1][i + 1] = Flip(x.b[1][i]))
       [] q = "HasC" -> /\ ok /\ YesNo(x.n)
                        /\ (Has(d, "Im") /\ (\A i \in 1..n : V(d, "Im")[1][i] = Zero) => x.n = <<0>>)
                        /\ (Has(d, "NS") => x.n = <<IF d.seen["NS"].err = 0 THEN 0 ELSE 1>>)
       [] q = "D" -> /\ mat(n, n)
                     /\ Has(d, "Re") => \A i \in 1..n : x.b[i][i] = V(d, "Re")[1][i]
                     /\ (Has(d, "Im") /\ \A i \in 1..n : V(d, "Im")[1][i] # NaN) =>
                          \A i \in 1..n : \A j \in 1..n : i # j =>
                            x.b[i][j] = LET im == V(d, "Im")[1][i] IN
                                        IF (j = i + 1 /\ ~Negative(im)) \/ (j = i - 1 /\ Negative(im)) THEN im ELSE Zero
       [] q = "At" -> mat(2, n) /\ (Has(d, "Re") => x.b[1] = V(d, "Re")[1]) /\ (Has(d, "Im") => x.b[2] = V(d, "Im")[1])
       [] k \in {"Eigen", "EigenTri"} /\ q = "V" -> mat(n, n) /\ TransposeOf(d, x, "VT", "V", n, n)
       [] k \in {"Eigen", "EigenTri"} /\ q = "VT" -> mat(n, n) /\ TransposeOf(d, x, "V", "VT", n, n)
       \* the eigenvectors one by one, as rows
       [] q = "Vecs" -> mat(n, n) /\ TransposeOf(d, x, "V", "Vecs", n, n)
       [] q = "Sqrt" -> /\ x.err # 0 \/ IsShape(x.b, n, n)
                        /\ Has(d, "Re") => IF \E i \in 1..n : NotAbove(V(d, "Re")[1][i], Zero) THEN x.err # 0
                                           ELSE k = "EigenTri" \/ Symmetric(d.a) => x.err = 0
       \* reductions
       [] k \in {"Hess", "Schur"} /\ q = "P" -> mat(n, n) /\ TransposeOf(d, x, "PT", "P", n, n)
       [] q = "PT" -> mat(n, n) /\ TransposeOf(d, x, "P", "PT", n, n)
       [] k = "Hess" /\ q = "H" -> mat(n, n) /\ ZeroBelow(x.b, 1)
       [] k = "Schur" /\ q = "T" -> mat(n, n) /\ ZeroBelow(x.b, 1)
       [] k = "Tri" /\ q = "Q" -> mat(n, n) /\ TransposeOf(d, x, "QT", "Q", n, n)
       [] k = "Tri" /\ q = "QT" -> mat(n, n) /\ TransposeOf(d, x, "Q", "QT", n, n)
       [] k = "Tri" /\ q = "T" -> mat(n, n) /\ ZeroBelow(x.b, 1) /\ Symmetric(x.b)
                                  /\ (Has(d, "Main") => V(d, "Main")[1] = [i \in 1..p |-> x.b[i][i]])
                                  /\ (Has(d, "Sec") => V(d, "Sec")[1] = BandOf(d, x.b))
       [] k = "Bi" /\ q = "U" -> mat(m, m)
       [] k = "Bi" /\ q = "V" -> mat(n, n)
       [] k = "Bi" /\ q = "B" -> mat(m, n) /\ (IF m >= n THEN ZeroBelow(x.b, 0) /\ ZeroAbove(x.b, 1) ELSE ZeroBelow(x.b, 1) /\ ZeroAbove(x.b, 0))
                                 /\ (Has(d, "Main") => V(d, "Main")[1] = [i \in 1..p |-> x.b[i][i]])
                                 /\ (Has(d, "Sec") => V(d, "Sec")[1] = BandOf(d, x.b))
       \* the diagonals of T and B
       [] k \in {"Tri", "Bi"} /\ q = "Main" ->
            mat(1, p) /\ LET f == IF k = "Tri" THEN "T" ELSE "B" IN Has(d, f) => x.b[1] = [i \in 1..p |-> V(d, f)[i][i]]
       [] k \in {"Tri", "Bi"} /\ q = "Sec" ->
            mat(1, p - 1) /\ LET f == IF k = "Tri" THEN "T" ELSE "B" IN Has(d, f) => x.b[1] = BandOf(d, V(d, f))
       [] k = "Bi" /\ q = "Upper" -> ok /\ x.n = <<IF m >= n THEN 1 ELSE 0>>

(* Solving: q is "vec", "mat" or "inv"; r, c the shape of the right-hand   *)
(* side.                                                                   *)
SolveOk(d, q, r, c, x) ==
  LET m == Size(d)  n == Width(d)
      told(v) == Has(d, "NS") /\ d.seen["NS"].err = 0 /\ N(d, "NS") = <<v>>
      shape == IsShape(x.b, n, c)
  IN IF q # "inv" /\ r # m THEN x.err # 0
     ELSE IF d.k \in {"Eigen", "EigenTri"}
          THEN (IF Has(d, "HasC") /\ N(d, "HasC") = <<1>> THEN x.err # 0 ELSE x.err # 0 \/ shape)
     ELSE IF told(0) /\ d.k # "SVD" THEN x.err # 0
     ELSE IF told(1) \/ d.k \in {"SVD", "Chol"} THEN x.err = 0 /\ shape
     ELSE x.err # 0 \/ shape
=============================================================================
