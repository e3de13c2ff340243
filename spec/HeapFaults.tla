----------------------------- MODULE HeapFaults -----------------------------
(***************************************************************************)
(* What a refusal says is true of the request: the kind of its error is    *)
(* that of a mistake the request makes, and the figures the error carries  *)
(* (e.det) are those of such a mistake.                                    *)
(***************************************************************************)
EXTENDS HeapTrace, Fx

\* an error reports the number k
Says(s, k) == Len(s) = 1 /\ s[1] = IF k > -1048575 /\ k < 1048575 THEN FxInt(k) ELSE Bad
Shape(N) == <<R(N), C(N)>>

\* Positions the request mentions (or implies), each with the number of
\* positions there are.
Places(e) ==
  LET a == e.i
      X == View(e.x)
      N == View(e.y)
      RC == {<<a[1], R(X)>>, <<a[2], C(X)>>}
      Box == {<<a[1], R(X)>>, <<a[2], R(X)>>, <<a[3], C(X)>>, <<a[4], C(X)>>}
  IN CASE e.t = "M" ->
            (CASE e.op \in {"At", "Set", "AddTo", "MulTo"} -> RC
               [] e.op \in {"Row", "RowVec", "RowMat", "SetRow", "SetRowVec", "SetRowMat"} -> {<<a[1], R(X)>>}
               [] e.op \in {"Col", "ColVec", "ColMat", "SetCol", "SetColVec", "SetColMat"} -> {<<a[1], C(X)>>}
               [] e.op \in {"Sub", "CopySub"} -> Box
               [] e.op = "SetSub" -> RC \cup {<<a[1] + R(N) - 1, R(X)>>, <<a[2] + C(N) - 1, C(X)>>}
                      \* (a matrix without entries is filled from its first position)
                      \cup (IF R(X) = 0 THEN {<<a[1], 1>>, <<a[2], 1>>} ELSE {})
               [] e.op \in {"Select", "CopySel"} ->
                    {<<e.rs[i], R(X)>> : i \in 1..Len(e.rs)} \cup {<<e.cs[i], C(X)>> : i \in 1..Len(e.cs)}
               [] OTHER -> {})
       [] e.t = "W" -> Box
       [] e.t = "VW" -> {<<a[1], Len(X)>>, <<a[2], Len(X)>>}
       [] e.t = "V" ->
            (CASE e.op \in {"At", "Set", "AddTo", "Next"} -> {<<a[1], Len(X)>>}
               [] e.op = "SubVec" -> {<<a[1], Len(X)>>, <<a[1] + a[2] - 1, Len(X)>>}
               [] e.op \in {"SetSubVec", "SetSubArr"} -> {<<a[1], Len(X)>>, <<a[1] + Len(N) - 1, Len(X)>>}
               [] OTHER -> {})
       [] OTHER -> {}

\* Ends of the ranges of the request, each with the beginning.
Ranges(e) == LET a == e.i IN
  CASE (e.t = "M" /\ e.op \in {"Sub", "CopySub"}) \/ e.t = "W" -> {<<a[2], a[1]>>, <<a[4], a[3]>>}
    [] e.t = "VW" -> {<<a[2], a[1]>>}
    [] OTHER -> {}

\* Sizes that ought to agree.
Rows1(N) == {<<<<Len(N[i])>>, <<Len(N[1])>>>> : i \in 1..Len(N)}
\* (a destination of rows: one that is too short, or too few of them)
Room(N, S) == {<<<<Len(N), c>>, S>> :
                 c \in IF Len(N) < S[1] THEN {0} \cup {Len(N[i]) : i \in 1..Len(N)}
                       ELSE {Len(N[i]) : i \in {k \in 1..S[1] : Len(N[k]) < S[2]}}}
Sizes(e) ==
  LET a == e.i
      X == View(e.x)
      N == View(e.y)
      diag == e.x # 0 /\ ob[e.x].k = "diag"
      sq(r, c) == IF diag THEN {<<<<r>>, <<c>>>>} ELSE {}
  IN CASE e.t = "M" ->
            (CASE e.op \in {"SetRow", "SetRowVec"} -> {<<<<1, Len(N)>>, <<1, C(X)>>>>}
               [] e.op \in {"SetCol", "SetColVec"} -> {<<<<Len(N), 1>>, <<R(X), 1>>>>}
               [] e.op = "SetRowMat" -> {<<Shape(N), <<1, C(X)>>>>}
               [] e.op = "SetColMat" -> {<<Shape(N), <<R(X), 1>>>>}
               [] e.op = "SetSub" -> Rows1(N)
               [] e.op \in {"Add", "Subt"} -> {<<Shape(X), Shape(N)>>}
               [] e.op = "Mul" -> {<<<<C(X)>>, <<R(N)>>>>}
               [] e.op = "PreMul" -> {<<<<C(N)>>, <<R(X)>>>>}
               [] e.op \in {"Op", "OpVec"} -> {<<<<Len(N)>>, <<C(X)>>>>}
               [] e.op \in {"PreOp", "PreOpVec"} -> {<<<<Len(N)>>, <<R(X)>>>>}
               [] e.op = "CopySub" -> Room(N, <<a[2] - a[1] + 1, a[4] - a[3] + 1>>)
               [] e.op = "CopySel" -> Room(N, <<Len(e.rs), Len(e.cs)>>)
               [] e.op = "Sub" -> sq(a[2] - a[1] + 1, a[4] - a[3] + 1)
               [] e.op = "RowMat" -> sq(1, C(X))
               [] e.op = "ColMat" -> sq(R(X), 1)
               [] OTHER -> {})
       [] e.t \in {"V", "Q"} -> {<<<<Len(X)>>, <<Len(N)>>>>}
       [] e.t = "N" ->
            (CASE e.op \in {"Slices", "BlkSlices", "ArrSlices"} -> Rows1(N)
               [] e.op = "BlkData" ->
                    {<<<<Len(N)>>, <<NBlk(a[1]) * NBlk(a[2])>>>>}
                      \cup {<<<<Len(N[bi * NBlk(a[2]) + bj + 1])>>, <<BlkH(a[1], bi) * BlkH(a[2], bj)>>>> :
                              bi \in 0..NBlk(a[1]) - 1, bj \in IF Len(N) < NBlk(a[1]) * NBlk(a[2]) THEN {} ELSE 0..NBlk(a[2]) - 1}
               [] OTHER -> {})
       [] OTHER -> {}

Within(e) == {0} \cup {e.i[k] : k \in 1..Len(e.i)}
Figures(e, d) ==
  CASE e.err = ERANGE ->
         \E p \in Places(e) : (p[1] < 0 \/ p[1] >= p[2]) /\ Says(d.arg, p[1]) /\ Says(d.lo, 0) /\ Says(d.hi, p[2] - 1)
    [] e.err = ENSMALL -> \E p \in Ranges(e) : p[1] < p[2] /\ Says(d.arg, p[1]) /\ Says(d.min, p[2])
    [] e.err = ENOTPOS -> (\E k \in Within(e) : k < 0 /\ Says(d.arg, k)) /\ Says(d.min, 0) /\ d.in = <<1>>
    [] e.err = ENOTSPOS -> (\E k \in Within(e) : k <= 0 /\ Says(d.arg, k)) /\ Says(d.min, 0) /\ d.in = <<0>>
    \* what a diagonal matrix cannot hold
    [] e.err = ENBIG -> Len(d.arg) = 1 /\ (FxLt(Zero, d.arg[1]) \/ d.arg[1] = Bad) /\ Says(d.max, 0)
    [] e.err \in {EMATDIM, EMULTIDIM} ->
         \E p \in Sizes(e) : p[1] # p[2] /\ {d.got, d.want} = {p[1], p[2]}
    [] e.err = EDIM -> \E p \in Sizes(e) : \E k \in 1..Len(p[1]) :
                         p[1][k] # p[2][k] /\ (Says(d.arg, p[1][k]) \/ Says(d.arg, p[2][k]))
    [] e.err = ESQMAT -> Says(d.arg, R(View(e.x))) \/ Says(d.arg, C(View(e.x)))
    [] OTHER -> TRUE

Truthful(e) ==
  IF e.t = "reset" \/ e.err = 0 THEN TRUE
  ELSE /\ \E r \in {Effect(e)} : e.err \in r.err
       /\ Len(e.det) = 1
       /\ \E d \in {e.det[1]} : d.msg = 1 /\ Figures(e, d)

TruthfulNext == Next /\ (IF Truthful(Trace[l]) THEN TRUE ELSE FALSE)
TruthfulSpec == Init /\ [][TruthfulNext]_vars
=============================================================================
