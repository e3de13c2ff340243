------------------------------ MODULE HeapLaws ------------------------------
(***************************************************************************)
(* What module Heap lets a call return, against laws that hold of it       *)
(* independently of how it was written down: the algebra of matrices and   *)
(* vectors, writing against reading, selection against construction,       *)
(* equality as an equivalence, order of extrema.  Checked for all pairs of *)
(* 2x2 matrices A and B over a few values (and their rows as vectors).     *)
(***************************************************************************)
EXTENDS Heap

CONSTANT Values, Thin
Exact == {-16, 0, 32}
Special == {0, NaN, PInf}
\* objects: 1 A, 2 B, 3 a 2x3 matrix, 4 row of A, 5 row of B, 6 diagonal of A, 7 A as block matrix
Third == <<<<16, -32, 48>>, <<0, 16, 4>>>>
Two == {<<<<a, b>>, <<c, d>>>> : a \in Values, b \in Values, c \in Values, d \in Values}
Obj(k, s, n) == [k |-> k, s |-> s, o |-> 0, n |-> n]
Init ==
  \E A \in Two : \E B \in Two :
    /\ Thin => B[2][2] = B[1][1]
    /\ st = (1 :> A @@ 2 :> B @@ 3 :> Third @@ 4 :> A[1] @@ 5 :> B[1] @@ 6 :> <<A[1][1], B[2][2]>> @@ 0 :> <<>>)
    /\ ob = (0 :> [k |-> "nil", s |-> 0, o |-> 0, n |-> 0] @@ 1 :> Obj("arr", 1, 2) @@ 2 :> Obj("blk", 2, 2) @@ 3 :> Obj("arr", 3, 2)
             @@ 4 :> Obj("vec", 4, 2) @@ 5 :> Obj("fvec", 5, 2) @@ 6 :> Obj("diag", 6, 2) @@ 7 :> Obj("blk", 1, 2) @@ 8 :> Obj("raw1", 5, 2))
Next == UNCHANGED <<st, ob>>

Call(t, op, x, y, i, v) ==
  [t |-> t, op |-> op, x |-> x, y |-> y, z |-> 0, i |-> i, v |-> v, rs |-> <<>>, cs |-> <<>>, bnd |-> 0, upd |-> 0,
   ord |-> "", fin |-> 0, start |-> <<>>, vis |-> <<>>, fx |-> <<>>, n |-> 0, chg |-> <<>>, acts |-> <<>>, ends |-> 0]
\* the value a call makes or returns, the new content of its receiver's storage
Made(t, op, x, y, i, v) == Effect(Call(t, op, x, y, i, v)).new[2]
Gets(t, op, x, y, i, v) == Effect(Call(t, op, x, y, i, v)).ret
Puts(t, op, x, y, i, v) == Effect(Call(t, op, x, y, i, v)).upd[1][2]
Refused(t, op, x, y, i, v) == Effect(Call(t, op, x, y, i, v)).err # {}
A == View(1)
B == View(2)
u == View(4)
w == View(5)
Finite == Values \subseteq -100000..100000

Transposition ==
  /\ \A x \in {1, 2, 3, 6} : XTransp(Made("M", "T", x, 0, <<>>, <<0>>)) = View(x)
  /\ Made("M", "T", 6, 0, <<>>, <<0>>) = View(6)
  /\ Finite => Transp(Made("M", "Mul", 1, 2, <<>>, <<0>>)) = MatMul(Transp(B), Transp(A))
Multiplication ==
  /\ \A x \in {1, 2, 6, 7} : \A y \in {1, 2, 3, 6} : Made("M", "PreMul", y, x, <<>>, <<0>>) = Made("M", "Mul", x, y, <<>>, <<0>>) \/ C(View(x)) # R(View(y))
  /\ Finite => \A x \in {1, 2, 6} :
       /\ MatMul(View(x), IdMat(2)) = View(x) /\ MatMul(IdMat(2), View(x)) = View(x)
       /\ MatMul(MatMul(A, B), View(3)) = MatMul(A, MatMul(B, View(3)))
       /\ Made("M", "OpVec", x, 4, <<>>, <<0>>) = ColOf(MatMul(View(x), <<<<u[1]>>, <<u[2]>>>>), 1)
       /\ Made("M", "PreOpVec", x, 4, <<>>, <<0>>) = MatMul(<<u>>, View(x))[1]
       /\ Made("M", "Op", x, 8, <<>>, <<0>>) = Made("M", "OpVec", x, 5, <<>>, <<0>>)
  /\ Refused("M", "Mul", 3, 1, <<>>, <<0>>) /\ Refused("M", "PreMul", 1, 3, <<>>, <<0>>) /\ Refused("M", "PreOpVec", 3, 0, <<>>, <<0>>)
Addition ==
  /\ Made("M", "Add", 1, 2, <<>>, <<0>>) = Made("M", "Add", 2, 1, <<>>, <<0>>)
  /\ Finite =>
     /\ Made("M", "Subt", 1, 7, <<>>, <<0>>) = Mat(2, 2, LAMBDA i, j : 0)
     /\ MatMul(Made("M", "Add", 1, 2, <<>>, <<0>>), View(3))
          = Mat(2, 3, LAMBDA i, j : MatMul(A, View(3))[i][j] + MatMul(B, View(3))[i][j])
     /\ Made("M", "SMul", 1, 0, <<>>, <<32>>) = Made("M", "Add", 1, 7, <<>>, <<0>>)
     /\ Made("M", "SAdd", 1, 0, <<>>, <<0>>) = A
     /\ Gets("M", "Trace", 1, 0, <<>>, <<0>>)[1] + Gets("M", "Trace", 2, 0, <<>>, <<0>>)[1]
          = XSum(DiagOf(Made("M", "Add", 1, 2, <<>>, <<0>>)))
     /\ XSum(DiagOf(MatMul(A, B))) = XSum(DiagOf(MatMul(B, A)))
Powers ==
  /\ Made("M", "Pow", 1, 0, <<0>>, <<0>>) = IdMat(2)
  /\ Finite => \A p \in 0..2 : \A q \in 0..2 :
       MatMul(Made("M", "Pow", 1, 0, <<p>>, <<0>>), Made("M", "Pow", 1, 0, <<q>>, <<0>>)) = Made("M", "Pow", 1, 0, <<p + q>>, <<0>>)
  /\ Refused("M", "Pow", 3, 0, <<1>>, <<0>>) /\ Refused("M", "Pow", 1, 0, <<-1>>, <<0>>)
\* the maximum column sum is a norm, and submultiplicative
Norms ==
  Finite =>
    LET n(X) == ColSumNorm(X) IN
    /\ (n(A) = 0) = (A = Mat(2, 2, LAMBDA i, j : 0))
    /\ n(Made("M", "Add", 1, 2, <<>>, <<0>>)) <= n(A) + n(B)
    /\ 16 * n(MatMul(A, B)) <= n(A) * n(B)
    /\ Gets("Q", "L1", 4, 0, <<>>, <<0>>)[1] >= Gets("Q", "LInfV", 4, 0, <<>>, <<0>>)[1]
    /\ Gets("Q", "L1Dist", 4, 5, <<>>, <<0>>) = Gets("Q", "L1Dist", 5, 4, <<>>, <<0>>)
    /\ Gets("Q", "LInfDist", 4, 5, <<>>, <<0>>) = Gets("Q", "LInfDist", 5, 4, <<>>, <<0>>)
    /\ (Gets("Q", "L1Dist", 4, 5, <<>>, <<0>>)[1] = 0) = (u = w)
    \* Cauchy and Schwarz
    /\ XDot(u, w) * XDot(u, w) <= XDot(u, u) * XDot(w, w)
    /\ Gets("Q", "Dot", 4, 5, <<>>, <<0>>) = Gets("Q", "Dot", 5, 4, <<>>, <<0>>)

\* What is written is read, by every route, and nothing else changes.
Writing ==
  \A x \in {1, 2} : \A i \in 0..1 :
    LET M == View(x) IN
    /\ \A j \in 0..1 : LET N == Puts("M", "Set", x, 0, <<i, j>>, <<777>>) IN
         /\ N[i + 1][j + 1] = 777 /\ \A k, l \in 0..1 : <<k, l>> # <<i, j>> => N[k + 1][l + 1] = M[k + 1][l + 1]
    /\ LET N == Puts("M", "SetRow", x, 5, <<i>>, <<0>>) IN N[i + 1] = w /\ N[2 - i] = M[2 - i]
    /\ LET N == Puts("M", "SetCol", x, 5, <<i>>, <<0>>) IN ColOf(N, i + 1) = w /\ ColOf(N, 2 - i) = ColOf(M, 2 - i)
    /\ Puts("M", "SetSub", x, 2, <<0, 0>>, <<0>>) = B
    /\ Made("M", "Sub", x, 0, <<i, i, 0, 1>>, <<0>>) = <<Made("M", "Row", x, 0, <<i>>, <<0>>)>>
    /\ XTransp(Made("M", "Sub", x, 0, <<0, 1, i, i>>, <<0>>))[1] = Made("M", "Col", x, 0, <<i>>, <<0>>)
    /\ Made("M", "Copy", x, 0, <<>>, <<0>>) = Made("M", "Sub", x, 0, <<0, 1, 0, 1>>, <<0>>)
    /\ \A r \in {-1, 2} : Refused("M", "Set", x, 0, <<r, i>>, <<0>>) /\ Refused("M", "At", x, 0, <<i, r>>, <<0>>)
                            /\ Refused("M", "Row", x, 0, <<r>>, <<0>>) /\ Refused("M", "SetCol", x, 5, <<r>>, <<0>>)
    /\ Patch(M, Block(M, i, 1, 0, i), i, 0) = M
    /\ Block(Patch(M, Block(B, i, 1, i, 1), 0, 0), 0, 1 - i, 0, 1 - i) = Block(B, i, 1, i, 1)
Selecting ==
  LET Sel(x, rs, cs) == Select(View(x), rs, cs) IN
  /\ Sel(3, <<0, 1>>, <<0, 1, 2>>) = Third
  /\ Sel(1, <<1, 0>>, <<1, 0>>) = MatMul(MatMul(<<<<0, 16>>, <<16, 0>>>>, A), <<<<0, 16>>, <<16, 0>>>>) \/ ~Finite
  /\ \A r0, r1 \in 0..1 : \A c0, c1 \in 0..2 :
       (r0 <= r1 /\ c0 <= c1) => Block(Third, r0, r1, c0, c1) = Sel(3, [k \in 1..r1 - r0 + 1 |-> r0 + k - 1], [k \in 1..c1 - c0 + 1 |-> c0 + k - 1])
  /\ FromBlocks(2, 2, <<A[1] \o A[2]>>) = A
  /\ Refused("M", "Sub", 3, 0, <<1, 0, 0, 0>>, <<0>>)
\* A traversal with updates is the entrywise function it applies.
Traversal ==
  \A ord \in {"row", "col"} :
    LET o == VisitOrder(ord, <<0, 1, 0, 1>>)
        vis == [k \in 1..4 |-> <<o[k][1], o[k][2], A[o[k][1] + 1][o[k][2] + 1], XAdd(A[o[k][1] + 1][o[k][2] + 1], 16)>>]
        e == [Call("W", "u1", 1, 0, <<>>, <<0>>) EXCEPT !.upd = 1, !.ord = ord, !.vis = vis, !.start = <<2, 2, 0, 1, 0, 1>>, !.ends = 1]
        skip == [e EXCEPT !.vis = SubSeq(vis, 1, 3)]
        wrong == [e EXCEPT !.vis[2] = <<0, 0, A[1][1], 0>>]
    IN /\ {o[k] : k \in 1..4} = {<<i, j>> : i \in 0..1, j \in 0..1}
       /\ Effect(e).upd[1][2] = Made("M", "SAdd", 1, 0, <<>>, <<16>>)
       /\ Effect(e).ret = <<0>> /\ Effect(skip).ret = Wrong /\ Effect(wrong).ret = Wrong
       \* broken off at the third visit: the first two are stored, and nothing else
       /\ LET b == [skip EXCEPT !.op = "bk", !.z = 2, !.ends = 0]
          IN /\ Effect(b).err = {EBROKE}
             /\ \A k \in 1..4 : Effect(b).upd[1][2][o[k][1] + 1][o[k][2] + 1] =
                   IF k <= 2 THEN XAdd(A[o[k][1] + 1][o[k][2] + 1], 16) ELSE A[o[k][1] + 1][o[k][2] + 1]
             /\ Effect([b EXCEPT !.ends = 1]).ret = Wrong
Equality ==
  /\ \A x, y \in {1, 2, 3, 6, 7} : Gets("M", "Eq", x, y, <<>>, <<0>>) = Gets("M", "Eq", y, x, <<>>, <<0>>)
  /\ \A x, y \in {4, 5} : Gets("V", "Eq", x, y, <<>>, <<0>>) = Gets("V", "Eq", y, x, <<>>, <<0>>)
  /\ \A x, y, z \in {1, 2, 6, 7} :
       (Gets("M", "Eq", x, y, <<>>, <<0>>) = <<1>> /\ Gets("M", "Eq", y, z, <<>>, <<0>>) = <<1>>) => (Gets("M", "Eq", x, z, <<>>, <<0>>) = <<1>> \/ ~Finite)
  /\ Finite => (Gets("M", "Eq", 1, 2, <<>>, <<0>>) = <<1>>) = (A = B)
  /\ Finite => (Gets("V", "Eq", 4, 5, <<>>, <<0>>) = <<1>>) = (u = w)
  /\ (HasNaN(u) /\ HasNaN(w)) => Gets("V", "Eq", 4, 5, <<>>, <<0>>) = <<1>>
  /\ Gets("M", "Eq", 1, 0, <<>>, <<0>>) = <<0>> /\ Gets("M", "Eq", 1, 4, <<>>, <<0>>) = <<0>>
  /\ Gets("M", "Eq", 1, 3, <<>>, <<0>>) = <<0>>
Vectors ==
  /\ Made("V", "AppVec", 4, 5, <<>>, <<0>>) = u \o w
  /\ Made("V", "SubVec", 4, 0, <<0, 2>>, <<0>>) = u
  /\ Made("V", "App", 4, 0, <<>>, <<5>>)[3] = 5
  /\ Puts("V", "CopyFrom", 4, 5, <<>>, <<0>>) = w /\ Puts("V", "SetSubVec", 4, 5, <<0>>, <<0>>) = w
  /\ Refused("V", "SetSubVec", 4, 5, <<1>>, <<0>>) /\ Refused("V", "SubVec", 4, 0, <<1, 2>>, <<0>>)
  /\ Finite =>
     /\ Puts("V", "Comb", 4, 5, <<>>, <<16, 16>>) = Made("V", "Add", 4, 5, <<>>, <<0>>)
     /\ Puts("V", "Comb", 4, 5, <<>>, <<16, -16>>) = Made("V", "Subt", 4, 5, <<>>, <<0>>)
     /\ Puts("V", "MapMul", 4, 0, <<>>, <<32>>) = Puts("V", "Map", 4, 0, <<1>>, <<0>>)
     /\ Puts("V", "MapMul", 4, 0, <<>>, <<-16>>) = Puts("V", "Map", 4, 0, <<2>>, <<0>>)
     /\ Puts("V", "MapAdd", 4, 0, <<>>, <<48>>) = Puts("V", "MapSub", 4, 0, <<>>, <<-48>>)
     /\ Made("V", "EMul", 4, 5, <<>>, <<0>>) = DiagOf(MatMul(DiagMat(u), DiagMat(w)))
\* an extremum bounds all entries, is one of them, and is reported where it is last
Extrema ==
  LET lo == Gets("Q", "MinI", 4, 0, <<>>, <<0>>)[1]
      hi == Gets("Q", "MaxI", 4, 0, <<>>, <<0>>)[1]
  IN /\ (lo = -1) = (\A i \in 1..2 : u[i] = NaN) /\ (hi = -1) = (lo = -1)
     /\ lo # -1 => \A i \in 1..2 : u[i] = NaN \/ (XLeq(u[lo + 1], u[i]) /\ (u[i] = u[lo + 1] => i <= lo + 1))
     /\ hi # -1 => \A i \in 1..2 : u[i] = NaN \/ (XLeq(u[i], u[hi + 1]) /\ (u[i] = u[hi + 1] => i <= hi + 1))
Diagonals ==
  /\ IsDiag(View(6))
  /\ \A i, j \in 0..1 : Refused("M", "Set", 6, 0, <<i, j>>, <<16>>) = (i # j)
  /\ \A i, j \in 0..1 : ~Refused("M", "Set", 6, 0, <<i, j>>, <<0>>)
  /\ Refused("M", "Add", 6, 1, <<>>, <<0>>) = ~IsDiag(Mat(2, 2, LAMBDA i, j : XAdd(View(6)[i][j], A[i][j])))
  /\ Refused("M", "Inv", 6, 0, <<>>, <<0>>) = (Gets("M", "IsSing", 6, 0, <<>>, <<0>>) = <<1>>)
  /\ (Finite /\ ~Refused("M", "Inv", 6, 0, <<>>, <<0>>)) =>
       LET N == Made("M", "Inv", 6, 0, <<>>, <<0>>) IN (\E i \in 1..2 : N[i][i] = Off) \/ MatMul(View(6), N) = IdMat(2)
=============================================================================
