-------------------------------- MODULE Heap --------------------------------
(***************************************************************************)
(* The object heap of the library: live matrices, vectors and plain Go     *)
(* arrays, the storages behind them, and the effect of every call.         *)
(*                                                                         *)
(* An object is [k, s, o, n]: its kind, the storage it is a view of, and   *)
(* for one-dimensional storages the window of the storage it covers.       *)
(* Objects sharing a storage see each other's writes; that sharing arises  *)
(* exactly from DataRef and from construction without copying.             *)
(*                                                                         *)
(*   raw2  plain array of rows      raw1  plain array                      *)
(*   arr   row-array matrix         blk   block matrix                     *)
(*   fmat  a matrix implementation foreign to the library                  *)
(*   diag  diagonal matrix (its storage is the diagonal)                   *)
(*   vec   vector                   fvec  a foreign vector implementation  *)
(*                                                                         *)
(* Numbers are those of module Ext.  Matrices are sequences of rows.       *)
(* Effect(e) gives, for a call e, what the library has to do: succeed with *)
(* the given result and storage updates, or refuse with one of the given   *)
(* error kinds and change nothing.                                         *)
(***************************************************************************)
EXTENDS Ext, Fx, FiniteSets, TLC

VARIABLES st,   \* storage id -> content
          ob    \* object id -> [k, s, o, n]

---------------------------------------------------------------------------
(* Error kinds, as reported by Status().  A refusal is described by the    *)
(* kinds of mistake the request contains; the library promises one of its  *)
(* own errors, not which one.                                              *)
Typed == {-1} \cup 1..19
ERANGE == 1    ESING == 3     EUNSUP == 4    EARITH == 5    EINV == 6
ENODAT == 7    EMATDIM == 8   EMULTIDIM == 9 ESQMAT == 11   EDIM == 12
ENOTSPOS == 13 ENOTPOS == 14  ENSMALL == 15  ENBIG == 16   EILLSTATE == 19
DIM == {EMATDIM, EMULTIDIM, EDIM}

---------------------------------------------------------------------------
(* Pure matrix and vector functions.                                       *)
R(M) == Len(M)
C(M) == IF Len(M) = 0 THEN 0 ELSE Len(M[1])
\* (TLCEval has TLC compute a value at once instead of entry by entry on demand)
Mat(r, c, f(_, _)) == TLCEval([i \in 1..r |-> TLCEval([j \in 1..c |-> f(i, j)])])
Transp(M) == XTransp(M)
ColOf(M, j) == [i \in 1..R(M) |-> M[i][j]]
IdMat(n) == Mat(n, n, LAMBDA i, j : IF i = j THEN Unit ELSE 0)
DiagMat(d) == Mat(Len(d), Len(d), LAMBDA i, j : IF i = j THEN d[i] ELSE 0)
DiagOf(M) == [i \in 1..R(M) |-> M[i][i]]
IsDiag(M) == R(M) = C(M) /\ \A i \in 1..R(M) : \A j \in 1..R(M) : i = j \/ M[i][j] = 0
Block(M, r0, r1, c0, c1) == Mat(r1 - r0 + 1, c1 - c0 + 1, LAMBDA i, j : M[r0 + i][c0 + j])
Patch(M, S, r0, c0) ==
  [i \in 1..R(M) |-> IF i <= r0 \/ i > r0 + R(S) THEN M[i]
                     ELSE [j \in 1..C(M) |-> IF j <= c0 \/ j > c0 + C(S) THEN M[i][j] ELSE S[i - r0][j - c0]]]
MatMul(A, B) == XMatMul(A, B)
MatVec(A, v) == TLCEval([i \in 1..R(A) |-> XDot(A[i], v)])
MatPow(A, p) == FoldLeft(LAMBDA B, i : XMatMul(A, B), IdMat(R(A)), [i \in 1..p |-> i])
Ragged(D) == \E i \in 1..Len(D) : Len(D[i]) # Len(D[1])
MaxOf(s) == FoldLeft(XMax, 0, s)
ColSumNorm(M) == MaxOf([j \in 1..C(M) |-> XSum([i \in 1..R(M) |-> Abs(M[i][j])])])
MatEq(A, B) == R(A) = R(B) /\ C(A) = C(B) /\ \A i \in 1..R(A) : \A j \in 1..C(A) : XEq(A[i][j], B[i][j])
HasNaN(v) == \E i \in 1..Len(v) : v[i] = NaN
VecEq(u, v) == Len(u) = Len(v) /\ IF HasNaN(u) \/ HasNaN(v) THEN HasNaN(u) /\ HasNaN(v)
                                  ELSE \A i \in 1..Len(u) : XEq(u[i], v[i])
(* Block-ordered data: blocks of at most BLOCK x BLOCK entries, block rows *)
(* first, each block by rows.                                              *)
BLOCK == 52
Lesser(a, b) == IF a < b THEN a ELSE b
BlkH(r, b) == Lesser((b + 1) * BLOCK, r) - b * BLOCK
NBlk(n) == (n + BLOCK - 1) \div BLOCK
FromBlocks(r, c, D) ==
  Mat(r, c, LAMBDA i, j :
    LET bi == (i - 1) \div BLOCK  bj == (j - 1) \div BLOCK
    IN D[bi * NBlk(c) + bj + 1][((i - 1) % BLOCK) * BlkH(c, bj) + ((j - 1) % BLOCK) + 1])
BlocksFit(r, c, D) ==
  /\ Len(D) >= NBlk(r) * NBlk(c)
  /\ \A bi \in 0..NBlk(r) - 1 : \A bj \in 0..NBlk(c) - 1 :
       Len(D[bi * NBlk(c) + bj + 1]) = BlkH(r, bi) * BlkH(c, bj)

---------------------------------------------------------------------------
(* Views.                                                                  *)
Flat == {"raw1", "vec", "fvec", "diag"}
Win(x) == LET b == ob[x] IN IF b.o = 0 /\ b.n = Len(st[b.s]) THEN st[b.s] ELSE SubSeq(st[b.s], b.o + 1, b.o + b.n)
View(x) == CASE ob[x].k = "diag" -> DiagMat(Win(x))
             [] ob[x].k \in Flat -> Win(x)
             [] OTHER -> st[ob[x].s]

---------------------------------------------------------------------------
(* Outcomes.                                                               *)
Rej(S) == [err |-> S, upd |-> <<>>, new |-> <<>>, ret |-> <<>>]
Ok == Rej({})
Ret(r) == [Ok EXCEPT !.ret = r]
Bool(b) == Ret(IF b THEN <<1>> ELSE <<0>>)
New(c) == [Ok EXCEPT !.new = <<"fresh", c>>]
Share(x) == [Ok EXCEPT !.new = <<"share", x, 0, ob[x].n>>]
ShareWin(x, o, n) == [Ok EXCEPT !.new = <<"share", x, o, n>>]
\* new content of the storage behind the flat object x when its window becomes v
Splice(x, v) == LET b == ob[x] IN
  [i \in 1..Len(st[b.s]) |-> IF i > b.o /\ i <= b.o + b.n THEN v[i - b.o] ELSE st[b.s][i]]
VPut(x, v) == [Ok EXCEPT !.upd = <<<<ob[x].s, Splice(x, v)>>>>]
\* the matrix (or array of rows) x becomes M; a diagonal matrix refuses what is not diagonal
MPut(x, M) ==
  IF ob[x].k = "diag"
  THEN IF IsDiag(M) THEN VPut(x, DiagOf(M)) ELSE Rej({ENBIG})
  ELSE [Ok EXCEPT !.upd = <<<<ob[x].s, M>>>>]
\* the result M of an operation that stays within the kind of its receiver
NewLike(x, M) == IF ob[x].k = "diag" /\ ~IsDiag(M) THEN Rej({ENBIG} \cup DIM) ELSE New(M)
\* an observation that matches nothing
Wrong == <<0, 0, 0>>
Check(S, r) == IF S # {} THEN Rej(S) ELSE r
Idx(i, n) == IF i < 0 \/ i >= n THEN {ERANGE} ELSE {}
If(b, S) == IF b THEN S ELSE {}

---------------------------------------------------------------------------
(* Matrices.                                                               *)
RangeErr(M, a) ==
  Idx(a[1], R(M)) \cup Idx(a[2], R(M)) \cup Idx(a[3], C(M)) \cup Idx(a[4], C(M))
    \cup If(a[2] < a[1] \/ a[4] < a[3], {ENSMALL})
\* (a: which of the lists, if any, is missing altogether)
SelErr(M, rs, cs, a) ==
  If((Len(rs) = 0 /\ \A k \in 1..Len(a) : a[k] # 1) \/ (Len(cs) = 0 /\ \A k \in 1..Len(a) : a[k] # 2), {ENODAT})
    \cup If(Len(a) > 0, {EINV})
    \cup UNION {Idx(rs[i], R(M)) : i \in 1..Len(rs)} \cup UNION {Idx(cs[i], C(M)) : i \in 1..Len(cs)}
Select(M, rs, cs) == Mat(Len(rs), Len(cs), LAMBDA i, j : M[rs[i] + 1][cs[j] + 1])
\* the leading part of the array of rows D becomes S
Fits(D, S) == Len(D) >= R(S) /\ \A i \in 1..R(S) : Len(D[i]) >= C(S)
Lead(D, S) == [i \in 1..Len(D) |-> IF i > R(S) THEN D[i]
                ELSE [j \in 1..Len(D[i]) |-> IF j > C(S) THEN D[i][j] ELSE S[i][j]]]
RowPatch(M, i, v) == [M EXCEPT ![i + 1] = v]
ColPatch(M, j, v) == [i \in 1..R(M) |-> [M[i] EXCEPT ![j + 1] = v[i]]]

FlatOf(M) == [k \in 1..R(M) * C(M) |-> M[(k - 1) \div C(M) + 1][((k - 1) % C(M)) + 1]]
\* Sizes of what is not all finite: NaN if there is one, otherwise infinite
\* (where there are both, either).
Unusual(v) == \E i \in 1..Len(v) : v[i] \in {NaN, PInf, NInf}
Unbounded(ret, v) ==
  LET inf == \E i \in 1..Len(v) : v[i] \in {PInf, NInf}
      nan == \E i \in 1..Len(v) : v[i] = NaN
  IN Len(ret) = 1 /\ ((ret[1] = NaN /\ nan) \/ (ret[1] = PInf /\ inf))
\* Products with a diagonal matrix: the zeros beside the diagonal count as
\* numbers (and spoil what meets a NaN or an infinity), or not at all.
MadeBy(e) == LET S == {i \in 1..Len(e.chg) : e.chg[i][1] = e.n} IN IF S = {} THEN <<>> ELSE e.chg[CHOOSE i \in S : TRUE][2]
Either(e, diag, full, part) == IF diag /\ MadeBy(e) # full /\ MadeBy(e) = part THEN New(part) ELSE New(full)
Product(e, M, N, x, y) ==
  LET dx == ob[x].k = "diag"
      dy == ob[y].k = "diag"
  IN Either(e, dx \/ dy, MatMul(M, N),
            Mat(R(M), C(N), LAMBDA i, j : IF dx /\ dy THEN IF i = j THEN XMul(M[i][i], N[i][i]) ELSE 0
                                          ELSE IF dx THEN XMul(M[i][i], N[i][j]) ELSE XMul(M[i][j], N[j][j])))
Image(e, M, v, x) == Either(e, ob[x].k = "diag", MatVec(M, v), [i \in 1..R(M) |-> XMul(M[i][i], v[i])])
\* A nil argument is object 0.
MOp(e, x, M) ==
  LET a == e.i
      y == e.y
      N == TLCEval(View(y))
  IN CASE e.op = "At" -> Check(Idx(a[1], R(M)) \cup Idx(a[2], C(M)), Ret(<<M[a[1] + 1][a[2] + 1]>>))
       [] e.op = "Set" -> Check(Idx(a[1], R(M)) \cup Idx(a[2], C(M)), MPut(x, [M EXCEPT ![a[1] + 1][a[2] + 1] = e.v[1]]))
       [] e.op = "AddTo" -> Check(Idx(a[1], R(M)) \cup Idx(a[2], C(M)),
                                  MPut(x, [M EXCEPT ![a[1] + 1][a[2] + 1] = XAdd(@, e.v[1])]))
       [] e.op = "MulTo" -> Check(Idx(a[1], R(M)) \cup Idx(a[2], C(M)),
                                  MPut(x, [M EXCEPT ![a[1] + 1][a[2] + 1] = XMul(@, e.v[1])]))
       [] e.op = "Dims" -> Ret(<<R(M), C(M)>>)
       [] e.op = "IsSquare" -> Bool(R(M) = C(M))
       [] e.op = "Row" -> Check(Idx(a[1], R(M)), New(M[a[1] + 1]))
       [] e.op = "Col" -> Check(Idx(a[1], C(M)), New(ColOf(M, a[1] + 1)))
       [] e.op = "RowVec" -> Check(Idx(a[1], R(M)), New(M[a[1] + 1]))
       [] e.op = "ColVec" -> Check(Idx(a[1], C(M)), New(ColOf(M, a[1] + 1)))
       [] e.op = "RowMat" -> Check(Idx(a[1], R(M)), NewLike(x, <<M[a[1] + 1]>>))
       [] e.op = "ColMat" -> Check(Idx(a[1], C(M)), NewLike(x, [i \in 1..R(M) |-> <<M[i][a[1] + 1]>>]))
       [] e.op \in {"SetRow", "SetRowVec"} ->
            Check(Idx(a[1], R(M)) \cup If(Len(N) # C(M), DIM), MPut(x, RowPatch(M, a[1], N)))
       [] e.op \in {"SetCol", "SetColVec"} ->
            Check(Idx(a[1], C(M)) \cup If(Len(N) # R(M), DIM), MPut(x, ColPatch(M, a[1], N)))
       [] e.op = "SetRowMat" ->
            Check(Idx(a[1], R(M)) \cup If(R(N) # 1 \/ C(N) # C(M), DIM), MPut(x, RowPatch(M, a[1], N[1])))
       [] e.op = "SetColMat" ->
            Check(Idx(a[1], C(M)) \cup If(C(N) # 1 \/ R(N) # R(M), DIM), MPut(x, ColPatch(M, a[1], ColOf(N, 1))))
       [] e.op = "Sub" -> Check(RangeErr(M, a), NewLike(x, Block(M, a[1], a[2], a[3], a[4])))
       [] e.op = "SetSub" ->
            IF y = 0 THEN Rej({EINV})
            ELSE IF Len(N) = 0 \/ Len(N[1]) = 0 THEN Rej({ENODAT})
            \* a row-array matrix that has no entries yet is given its shape
            ELSE IF ob[x].k = "arr" /\ R(M) = 0
            THEN Check(If(Ragged(N), DIM) \cup If(a[1] # 0 \/ a[2] # 0, {ERANGE, EILLSTATE}), MPut(x, N))
            ELSE Check(If(Ragged(N), DIM) \cup Idx(a[1], R(M)) \cup Idx(a[2], C(M))
                         \cup Idx(a[1] + R(N) - 1, R(M)) \cup Idx(a[2] + C(N) - 1, C(M)),
                       MPut(x, Patch(M, N, a[1], a[2])))
       [] e.op = "Data" -> New(M)
       [] e.op = "Ref" -> Share(x)
       [] e.op = "Copy" -> New(M)
       [] e.op = "Add" -> Check(If(R(M) # R(N) \/ C(M) # C(N), DIM),
                                NewLike(x, Mat(R(M), C(M), LAMBDA i, j : XAdd(M[i][j], N[i][j]))))
       [] e.op = "Subt" -> Check(If(R(M) # R(N) \/ C(M) # C(N), DIM),
                                 NewLike(x, Mat(R(M), C(M), LAMBDA i, j : XSub(M[i][j], N[i][j]))))
       [] e.op = "Mul" -> Check(If(C(M) # R(N), DIM), Product(e, M, N, x, y))
       [] e.op = "PreMul" -> Check(If(C(N) # R(M), DIM), Product(e, N, M, y, x))
       [] e.op = "SAdd" -> NewLike(x, Mat(R(M), C(M), LAMBDA i, j : XAdd(M[i][j], e.v[1])))
       [] e.op = "SMul" -> NewLike(x, Mat(R(M), C(M), LAMBDA i, j : XMul(M[i][j], e.v[1])))
       [] e.op = "T" -> New(Transp(M))
       [] e.op = "Trace" -> Check(If(R(M) # C(M), {ESQMAT}), Ret(<<XSum(DiagOf(M))>>))
       [] e.op \in {"Op", "OpVec"} -> Check(If(Len(N) # C(M), DIM), Image(e, M, N, x))
       [] e.op \in {"PreOp", "PreOpVec"} -> Check(If(Len(N) # R(M), DIM), Image(e, Transp(M), N, x))
       [] e.op = "Eq" -> Bool(y # 0 /\ ob[y].k \in {"arr", "blk", "diag", "fmat"} /\ (x = y \/ MatEq(M, N)))
       [] e.op = "Pow" -> Check(If(a[1] < 0, {ENOTPOS}) \cup If(R(M) # C(M), {ESQMAT}), New(MatPow(M, a[1])))
       [] e.op = "Select" -> Check(SelErr(M, e.rs, e.cs, a), New(Select(M, e.rs, e.cs)))
       [] e.op = "CopySub" ->
            LET S == Block(M, a[1], a[2], a[3], a[4]) IN
            IF RangeErr(M, a) # {} THEN Rej(RangeErr(M, a) \cup If(Len(N) = 0, DIM \cup {ENODAT}))
            ELSE IF Fits(N, S) THEN MPut(y, Lead(N, S)) ELSE Rej(DIM)
       [] e.op = "CopySel" ->
            LET S == Select(M, e.rs, e.cs) IN
            IF SelErr(M, e.rs, e.cs, a) # {} THEN Rej(SelErr(M, e.rs, e.cs, a) \cup DIM)
            ELSE IF Fits(N, S) THEN MPut(y, Lead(N, S)) ELSE Rej(DIM)
       \* (a column that sums to infinity next to one that does not sum: either)
       [] e.op = "LInf" -> IF Unusual(FlatOf(M))
                           THEN Ret(IF Unbounded(e.ret, [j \in 1..C(M) |-> XSum([i \in 1..R(M) |-> Abs(M[i][j])])]) THEN e.ret ELSE Wrong)
                           ELSE Ret(<<ColSumNorm(M)>>)
       \* diagonal matrices only
       [] e.op = "Inv" -> Check(If(\E i \in 1..R(M) : XLeq(Abs(M[i][i]), e.v[1]), {ESING}),
                                New(DiagMat([i \in 1..R(M) |-> XDiv(Unit, M[i][i])])))
       [] e.op = "IsSing" -> Bool(\E i \in 1..R(M) : XLeq(Abs(M[i][i]), e.v[1]))

---------------------------------------------------------------------------
(* Traversals.  The call e records what the visitor was told: e.start, the *)
(* visits <<row, column, value, value returned>>, and what it answered at  *)
(* the end.  An updating visitor that gives an off-diagonal entry of a     *)
(* diagonal matrix a value other than zero is stopped there.               *)
VisitOrder(ord, a) ==
  LET nr == a[2] - a[1] + 1  nc == a[4] - a[3] + 1 IN
  IF ord = "row" THEN [k \in 1..nr * nc |-> <<a[1] + (k - 1) \div nc, a[3] + ((k - 1) % nc)>>]
  ELSE [k \in 1..nr * nc |-> <<a[1] + ((k - 1) % nr), a[3] + (k - 1) \div nr>>]
\* M after the first n visits have stored what they returned
Stored(M, vis, n) == FoldLeft(LAMBDA A, w : [A EXCEPT ![w[1] + 1][w[2] + 1] = w[4]], M, SubSeq(vis, 1, n))
\* A visitor "bk" does not come back from visit number z (mod 100), counted from 0
\* (EBROKE is its own panic, passed through): number of visits made then, 0: all
EBROKE == -97
Broken(e, n) == IF e.op = "bk" /\ e.z % 100 < n THEN (e.z % 100) + 1 ELSE 0
\* number of visits an updating traversal of a diagonal matrix gets to make
Stop(x, vis) ==
  IF ob[x].k # "diag" THEN 0
  ELSE LET B == {k \in 1..Len(vis) : vis[k][1] # vis[k][2] /\ vis[k][4] # 0}
       IN IF B = {} THEN 0 ELSE CHOOSE k \in B : \A m \in B : k <= m
\* A visitor may itself write to what it traverses and read from it
\* (acts[k] = row, column, value written, or row -1; row, column, value read):
\* every visit presents the entry as it is then, and its answer is stored
\* before the next one.
Run(M, vis, acts, upd) ==
  LET At(m, p) == m[p[1] + 1][p[2] + 1]
      step(s, k) ==
        LET p == vis[k]
            q == acts[k]
            m1 == IF q[1] < 0 THEN s.m ELSE [s.m EXCEPT ![q[1] + 1][q[2] + 1] = q[3]]
        IN [ok |-> s.ok /\ p[3] = At(s.m, p) /\ q[6] = At(m1, <<q[4], q[5]>>),
            m |-> IF upd THEN [m1 EXCEPT ![p[1] + 1][p[2] + 1] = p[4]] ELSE m1]
  IN FoldLeft(step, [ok |-> Len(acts) = Len(vis), m |-> M], [k \in 1..(IF Len(acts) = Len(vis) THEN Len(vis) ELSE 0) |-> k])
Walk(e, x, M) ==
  LET a == IF e.bnd = 1 THEN e.i ELSE <<0, R(M) - 1, 0, C(M) - 1>>
      bad == IF e.bnd = 1 THEN RangeErr(M, a) ELSE {}
      n == (a[2] - a[1] + 1) * (a[4] - a[3] + 1)
      vis == e.vis
      brk == Broken(e, n)
      stop == IF brk > 0 THEN brk ELSE IF e.upd = 1 THEN Stop(x, vis) ELSE 0
      re == e.op = "re"
      run == TLCEval(Run(M, vis, e.acts, e.upd = 1))
      complete ==
        /\ e.start = <<R(M), C(M)>> \o a
        /\ e.ends = IF stop > 0 THEN 0 ELSE 1
        /\ Len(vis) = IF stop > 0 THEN stop ELSE n
        /\ IF e.ord = "opt"
           THEN /\ \A k \in 1..Len(vis) : vis[k][1] >= a[1] /\ vis[k][1] <= a[2] /\ vis[k][2] >= a[3] /\ vis[k][2] <= a[4]
                /\ Cardinality({<<vis[k][1], vis[k][2]>> : k \in 1..Len(vis)}) = Len(vis)
           ELSE LET o == VisitOrder(e.ord, a) IN \A k \in 1..Len(vis) : <<vis[k][1], vis[k][2]>> = o[k]
        /\ IF re THEN run.ok ELSE \A k \in 1..Len(vis) : vis[k][3] = M[vis[k][1] + 1][vis[k][2] + 1]
      after == IF re THEN run.m ELSE IF e.upd = 0 THEN M ELSE Stored(M, vis, IF stop > 0 THEN stop - 1 ELSE Len(vis))
  IN IF bad # {} THEN [Rej(bad) EXCEPT !.ret = IF vis = <<>> /\ e.start = <<>> /\ e.ends = 0 THEN <<>> ELSE Wrong]
     ELSE IF ~complete THEN [Ok EXCEPT !.ret = Wrong]
     ELSE IF stop > 0 THEN [MPut(x, after) EXCEPT !.err = {IF brk > 0 THEN EBROKE ELSE ENBIG}]
     ELSE [MPut(x, after) EXCEPT !.ret = <<e.fin>>]

\* The same for vectors: visits are <<index, value, value returned>>.
VWalk(e, x, v) ==
  LET a == IF e.bnd = 1 THEN e.i ELSE <<0, Len(v) - 1>>
      bad == IF e.bnd = 1 THEN Idx(a[1], Len(v)) \cup Idx(a[2], Len(v)) \cup If(a[2] < a[1], {ENSMALL}) ELSE {}
      vis == e.vis
      re == e.op = "re"
      brk == Broken(e, a[2] - a[1] + 1)
      run == TLCEval(Run(<<v>>, [k \in 1..Len(vis) |-> <<0>> \o vis[k]], e.acts, e.upd = 1))
      complete ==
        /\ e.start = <<Len(v)>> \o a
        /\ e.ends = IF brk > 0 THEN 0 ELSE 1
        /\ Len(vis) = IF brk > 0 THEN brk ELSE a[2] - a[1] + 1
        /\ \A k \in 1..Len(vis) : vis[k][1] = a[1] + k - 1
        /\ IF re THEN run.ok ELSE \A k \in 1..Len(vis) : vis[k][2] = v[a[1] + k]
      after == IF re THEN run.m[1]
               ELSE IF e.upd = 0 THEN v
               ELSE [i \in 1..Len(v) |-> IF i - 1 < a[1] \/ i - 1 > a[2] \/ (brk > 0 /\ i - a[1] >= brk) THEN v[i] ELSE vis[i - a[1]][3]]
  IN IF bad # {} THEN [Rej(bad) EXCEPT !.ret = IF vis = <<>> /\ e.start = <<>> /\ e.ends = 0 THEN <<>> ELSE Wrong]
     ELSE IF ~complete THEN [Ok EXCEPT !.ret = Wrong]
     ELSE IF brk > 0 THEN [VPut(x, after) EXCEPT !.err = {EBROKE}]
     ELSE [VPut(x, after) EXCEPT !.ret = <<e.fin>>]

---------------------------------------------------------------------------
(* Vectors.                                                                *)
MapFun(f, z) == CASE f = 1 -> XAdd(z, z) [] f = 2 -> Neg(z) [] f = 3 -> Abs(z) [] OTHER -> Unit
EBE(u, v, f(_, _)) == [i \in 1..Len(u) |-> f(u[i], v[i])]
Ebe1(u, f(_)) == [i \in 1..Len(u) |-> f(u[i])]
\* a part of n entries from position i of a vector of length len
PartErr(i, n, len) == Idx(i, len) \cup Idx(i + n - 1, len)
VOp(e, x, v) ==
  LET a == e.i
      y == e.y
      w == View(y)
      z == e.v[1]
      mism == If(Len(v) # Len(w), DIM)
  IN CASE e.op = "At" -> Check(Idx(a[1], Len(v)), Ret(<<v[a[1] + 1]>>))
       [] e.op = "Set" -> Check(Idx(a[1], Len(v)), VPut(x, [v EXCEPT ![a[1] + 1] = z]))
       [] e.op = "AddTo" -> Check(Idx(a[1], Len(v)), VPut(x, [v EXCEPT ![a[1] + 1] = XAdd(@, z)]))
       [] e.op = "Dim" -> Ret(<<Len(v)>>)
       [] e.op = "App" -> New(Append(v, z))
       [] e.op = "AppVec" -> New(v \o w)
       [] e.op = "SubVec" -> Check(If(a[2] < 0, {ENOTPOS, ERANGE}) \cup PartErr(a[1], a[2], Len(v)),
                                   New(SubSeq(v, a[1] + 1, a[1] + a[2])))
       [] e.op \in {"SetSubVec", "SetSubArr"} ->
            Check(PartErr(a[1], Len(w), Len(v)),
                  VPut(x, [i \in 1..Len(v) |-> IF i > a[1] /\ i <= a[1] + Len(w) THEN w[i - a[1]] ELSE v[i]]))
       [] e.op = "IsNaN" -> Bool(HasNaN(v))
       [] e.op = "IsInf" -> Bool(~HasNaN(v) /\ \E i \in 1..Len(v) : v[i] \in {PInf, NInf})
       [] e.op = "Add" -> Check(mism, New(EBE(v, w, XAdd)))
       [] e.op = "Subt" -> Check(mism, New(EBE(v, w, XSub)))
       [] e.op = "EMul" -> Check(mism, New(EBE(v, w, XMul)))
       [] e.op = "EDiv" -> Check(mism, New(EBE(v, w, XDiv)))
       [] e.op = "MapAdd" -> VPut(x, Ebe1(v, LAMBDA q : XAdd(q, z)))
       [] e.op = "MapSub" -> VPut(x, Ebe1(v, LAMBDA q : XSub(q, z)))
       [] e.op = "MapMul" -> VPut(x, Ebe1(v, LAMBDA q : XMul(q, z)))
       [] e.op = "MapDiv" -> VPut(x, Ebe1(v, LAMBDA q : XDiv(q, z)))
       [] e.op = "Map" -> VPut(x, Ebe1(v, LAMBDA q : MapFun(a[1], q)))
       [] e.op = "CopyFrom" -> Check(mism, VPut(x, w))
       [] e.op = "Copy" -> New(v)
       [] e.op = "Fill" -> VPut(x, Ebe1(v, LAMBDA q : z))
       [] e.op = "ToArr" -> New(v)
       [] e.op = "Ref" -> Share(x)
       [] e.op = "Comb" -> Check(mism, VPut(x, EBE(v, w, LAMBDA p, q : XAdd(XMul(e.v[1], p), XMul(e.v[2], q)))))
       [] e.op = "Eq" -> Bool(y # 0 /\ ob[y].k \in {"vec", "fvec"} /\ (x = y \/ VecEq(v, w)))
       \* an iterator has presented a[1] entries so far
       [] e.op = "Next" -> IF a[1] < Len(v) THEN Ret(<<a[1], v[a[1] + 1]>>) ELSE Rej({ERANGE})
       [] e.op = "HasNext" -> Bool(a[1] < Len(v))
       \* the entry it presented at position a[1], with the value it had then
       [] e.op = "Entry" -> Ret(<<a[1], e.v[1]>>)

---------------------------------------------------------------------------
(* Measures.  Those with irrational results are reported on the fixed-point *)
(* grid (module Fx) in e.fx, and are accepted by their defining relation:  *)
(* a norm is the non-negative number whose square is the sum of squares.   *)
\* To stay on the grid, vectors with large entries are taken down by a power
\* of two, and so is what is proportional to them.
ToFx(k) == <<k * 64, 0>>
FxOf(v) == [i \in 1..Len(v) |-> ToFx(v[i])]
Big(v) == LET m == MaxOf([i \in 1..Len(v) |-> Abs(v[i])])
          IN IF m <= 64 THEN 0 ELSE IF m <= 2048 THEN 5 ELSE 10
Down(v, s) == [i \in 1..Len(v) |-> FxShr(ToFx(v[i]), s)]
Tol == FxEps(2048)         \* 2^-29
SqNear(r, s) == FxLeq(Zero, r) /\ FxNear(FxMul(r, r), s, FxAdd(Tol, FxMul(s, Tol)))
\* r is the length of v
IsNorm(r, v) == LET s == Big(v)  f == Down(v, s) IN Len(r) = 1 /\ SqNear(FxShr(r[1], s), FxDot(f, f))
Extreme(v, better(_, _)) ==
  LET S == {i \in 1..Len(v) : v[i] # NaN /\ \A j \in 1..Len(v) : v[j] = NaN \/ better(v[i], v[j])}
  IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
Geq(a, b) == XLeq(b, a)
Seen(ok, e) == IF ok THEN Ret(e.ret) ELSE Ret(Wrong)
\* (what a measure of something with a NaN has to be)
AllBad(r) == \A i \in 1..Len(r) : r[i] = Bad
IsZeroVec(v) == \A i \in 1..Len(v) : v[i] = 0
QOp(e, x, v) ==
  LET w == View(e.y)
      mism == If(Len(v) # Len(w), DIM)
      d == [i \in 1..Len(v) |-> XSub(v[i], w[i])]
      f == FxOf(v)
      r == e.fx
  IN CASE e.op \in {"Norm", "L1", "LInfV"} /\ Unusual(v) -> Seen(Unbounded(e.ret, v), e)
       [] e.op \in {"Dist", "L1Dist", "LInfDist"} /\ Len(v) = Len(w) /\ Unusual(d) -> Seen(Unbounded(e.ret, d), e)
       [] e.op = "Frob" /\ Unusual(FlatOf(v)) -> Seen(Unbounded(e.ret, FlatOf(v)), e)
       [] e.op = "Norm" -> Seen(IsNorm(r, v), e)
       [] e.op = "L1" -> Ret(<<XSum(Ebe1(v, Abs))>>)
       [] e.op = "LInfV" -> Ret(<<MaxOf(Ebe1(v, Abs))>>)
       [] e.op = "Dist" -> Check(mism, Seen(IsNorm(r, d), e))
       [] e.op = "L1Dist" -> Check(mism, Ret(<<XSum(Ebe1(d, Abs))>>))
       [] e.op = "LInfDist" -> Check(mism, Ret(<<MaxOf(Ebe1(d, Abs))>>))
       [] e.op = "Dot" -> Check(mism, Ret(<<XDot(v, w)>>))
       \* cos^2 * |v|^2 * |w|^2 = (v.w)^2, with the sign of v.w
       [] e.op = "Cos" ->
            IF IsZeroVec(v) \/ IsZeroVec(w) THEN Rej({EARITH} \cup mism)
            ELSE IF mism = {} /\ (HasNaN(v) \/ HasNaN(w)) THEN Seen(AllBad(r) /\ Len(r) = 1, e)
            ELSE Check(mism,
              LET fd == Down(v, Big(v))
                  g == Down(w, Big(w))
                  n == FxMul(FxDot(fd, fd), FxDot(g, g))
                  p == FxDot(fd, g)
              IN Seen(/\ Len(r) = 1
                      /\ FxNear(FxMul(FxMul(r[1], r[1]), n), FxMul(p, p), FxAdd(FxMul(n, Tol), Tol))
                      /\ p # Zero => (p[1] < 0) = (r[1][1] < 0)
                      /\ FxLeq(FxAbs(r[1]), FxAdd(One, Tol)), e))
       [] e.op = "MinI" -> Ret(<<Extreme(v, XLeq) - 1>>)
       [] e.op = "MaxI" -> Ret(<<Extreme(v, Geq) - 1>>)
       [] e.op = "MinV" -> Ret(<<LET i == Extreme(v, XLeq) IN IF i = 0 THEN NaN ELSE v[i]>>)
       [] e.op = "MaxV" -> Ret(<<LET i == Extreme(v, Geq) IN IF i = 0 THEN NaN ELSE v[i]>>)
       \* the result has length one and is a non-negative multiple of v
       [] e.op \in {"Unit", "Unitize"} ->
            IF IsZeroVec(v) THEN Rej({EARITH})
            ELSE IF HasNaN(v) THEN Seen(Len(r) = Len(v) /\ \A i \in 1..Len(v) : v[i] = NaN => r[i] = Bad, e)
            ELSE Seen(/\ Len(r) = Len(v)
                      /\ FxNear(FxDot(r, r), One, Tol)
                      /\ LET p == FxDot(r, f)
                         IN FxLt(Zero, p) /\ \A i \in 1..Len(v) : FxNear(FxMul(r[i], p), f[i], FxMul(FxAdd(p, One), Tol)), e)
       \* the result p is a multiple of w, and v - p is orthogonal to w
       [] e.op = "Proj" ->
            Check(mism \cup If(IsZeroVec(w), {EARITH}),
              IF HasNaN(v) \/ HasNaN(w) THEN Seen(AllBad(r) /\ Len(r) = Len(v), e) ELSE
              LET s == Big(v)
                  g == Down(w, Big(w))
                  n == FxDot(g, g)
                  c == FxDot(Down(v, s), g)
              IN Seen(/\ Len(r) = Len(v)
                      /\ \A i \in 1..Len(v) : FxNear(FxMul(FxShr(r[i], s), n), FxMul(c, g[i]), FxMul(FxAdd(n, One), Tol)), e))
       [] e.op = "Frob" -> Seen(IsNorm(r, FlatOf(v)), e)

---------------------------------------------------------------------------
(* Construction.                                                           *)
FromRows(y, D, shared) ==
  IF y = 0 THEN Rej({EINV, ENODAT, ENOTSPOS})
  ELSE IF Len(D) = 0 THEN Rej({ENODAT, ENOTSPOS})
  ELSE IF Len(D[1]) = 0 THEN Rej({ENODAT, EINV, ENOTSPOS} \cup If(Ragged(D), DIM))
  ELSE IF Ragged(D) THEN Rej(DIM)
  ELSE IF shared THEN Share(y) ELSE New(D)
NOp(e) ==
  LET a == e.i
      y == e.y
      N == View(y)
  IN CASE e.op \in {"Lit1", "Lit2", "FMat", "FVec"} -> New(e.v)
       \* the zero value of a matrix type
       [] e.op = "Empty" -> New(<<>>)
       [] e.op \in {"Dims", "ArrDims", "BlkDims"} ->
            Check(If(a[1] < 1 \/ a[2] < 1, {ENOTSPOS}), New(Mat(a[1], a[2], LAMBDA i, j : 0)))
       [] e.op = "DiagDim" -> Check(If(a[1] < 1, {ENOTSPOS}), New(DiagMat([i \in 1..a[1] |-> 0])))
       [] e.op \in {"Slices", "BlkSlices"} -> FromRows(y, N, FALSE)
       [] e.op = "ArrSlices" -> FromRows(y, N, a[1] = 0)
       [] e.op = "ArrCol" -> IF y = 0 THEN Rej({EINV}) ELSE IF Len(N) = 0 THEN Rej({ENODAT})
                             ELSE New([i \in 1..Len(N) |-> <<N[i]>>])
       [] e.op = "BlkData" -> IF a[1] < 1 \/ a[2] < 1 THEN Rej({ENOTSPOS} \cup DIM)
                              ELSE IF ~BlocksFit(a[1], a[2], N) THEN Rej(DIM) ELSE New(FromBlocks(a[1], a[2], N))
       [] e.op = "Id" -> Check(If(a[1] < 1, {ENOTSPOS}), New(IdMat(a[1])))
       [] e.op = "WithDiag" -> Check(If(y = 0, {EINV, ENOTSPOS}) \cup If(y # 0 /\ Len(N) = 0, {ENOTSPOS}), New(DiagMat(N)))
       [] e.op \in {"RealDiag", "DiagSlice"} -> Check(If(y = 0, {EINV}), New(DiagMat(N)))
       [] e.op = "Diag" -> IF y = 0 THEN Rej({EINV}) ELSE IF a[1] = 1 THEN New(DiagMat(N)) ELSE Share(y)
       [] e.op = "Outer" -> Check(If(Len(N) = 0 \/ Len(View(e.z)) = 0, {ENOTSPOS}),
                                  New(Mat(Len(N), Len(View(e.z)), LAMBDA i, j : XMul(N[i], View(e.z)[j]))))
       [] e.op = "VSized" -> Check(If(a[1] < 0, {ENOTPOS, ENOTSPOS}), New([i \in 1..a[1] |-> 0]))
       [] e.op = "VPreset" -> Check(If(a[1] < 0, {ENOTPOS, ENOTSPOS}), New([i \in 1..a[1] |-> e.v[1]]))
       [] e.op \in {"VSlice", "VReal", "VCopy"} -> Check(If(y = 0, {EINV}), New(N))
       [] e.op = "VArr" -> IF y = 0 THEN Rej({EINV}) ELSE IF a[1] = 1 THEN New(N) ELSE Share(y)
       [] e.op = "VWin" -> ShareWin(y, a[1], a[2])
       [] e.op \in {"VTwo", "VTwoArr"} -> Check(If(y = 0 \/ e.z = 0, {EINV}), New(N \o View(e.z)))

---------------------------------------------------------------------------
Effect(e) ==
  CASE e.t = "M" -> MOp(e, e.x, TLCEval(View(e.x)))
    [] e.t = "V" -> VOp(e, e.x, View(e.x))
    [] e.t = "W" -> Walk(e, e.x, TLCEval(View(e.x)))
    [] e.t = "VW" -> VWalk(e, e.x, View(e.x))
    [] e.t = "N" -> NOp(e)
    [] e.t = "Q" -> QOp(e, e.x, View(e.x))
    [] e.t = "R" -> IF ob[e.x].k = "raw1" THEN VPut(e.x, [View(e.x) EXCEPT ![e.i[1] + 1] = e.v[1]])
                    ELSE MPut(e.x, [View(e.x) EXCEPT ![e.i[1] + 1][e.i[2] + 1] = e.v[1]])

\* The kinds a call may give its result.
MatKinds == {"arr", "blk", "diag"}
Put(f, k, v) == [i \in DOMAIN f \cup {k} |-> IF i = k THEN v ELSE f[i]]
\* the heap after the updates of r and, for a call with a result, with object n of kind k
AfterSt(r, n, k) ==
  LET s1 == IF r.upd = <<>> THEN st ELSE [st EXCEPT ![r.upd[1][1]] = r.upd[1][2]]
  IN IF r.err = {} /\ r.new # <<>> /\ r.new[1] = "fresh"
     THEN Put(s1, n, IF k = "diag" THEN DiagOf(r.new[2]) ELSE r.new[2])
     ELSE s1
AfterOb(r, n, k) ==
  IF r.err # {} \/ r.new = <<>> THEN ob
  ELSE IF r.new[1] = "fresh"
       THEN Put(ob, n, [k |-> k, s |-> n, o |-> 0, n |-> Len(r.new[2])])
       ELSE LET b == ob[r.new[2]] IN Put(ob, n, [k |-> k, s |-> b.s, o |-> b.o + r.new[3], n |-> r.new[4]])
=============================================================================
