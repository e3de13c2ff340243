------------------------------ MODULE DecFaults ------------------------------
(***************************************************************************)
(* What a decomposition or solver says when it refuses is true: the kind   *)
(* of the error is that of a mistake of the request or of the matrix, and  *)
(* the figures the error carries (e.det) are those of such a mistake.      *)
(***************************************************************************)
EXTENDS DecTrace

ESING == 3    EUNSUP == 4   ENODAT == 7   ESYMM == 10   ESQMAT == 11   EDIM == 12
ENSMALL == 15 ENBIG == 16
If(b, S) == IF b THEN S ELSE {}
Says(s, k) == Len(s) = 1 /\ s[1] = FxInt(k)
OneOf(s, S) == \E k \in S : Says(s, k)

\* Entries i, j of A differ by more than the threshold allows.
Apart(A, i, j, rel) ==
  A[i][j] # A[j][i] /\ ~FxLeq(FxInt(IAbs(A[i][j] - A[j][i])), FxMul(rel, FxInt(IMax(IAbs(A[i][j]), IAbs(A[j][i])))))
\* The first pivot of the symmetric matrix S that is too small, if the minors
\* tell: <<k, minor k - 1, minor k>>.
FirstBad(S, pos) ==
  LET mn == TLCEval([k \in 0..Len(S) |-> IF k = 0 THEN 1 ELSE Det(Leading(S, k))])
      bad == {k \in 1..Len(S) : mn[k] <= 0 \/ FxLeq(FxInt(mn[k]), FxMul(pos, FxInt(mn[k - 1])))}
      k == CHOOSE x \in bad : \A y \in bad : x <= y
  IN <<k, mn[k - 1], mn[k]>>

\* What elimination with the largest diagonal entry first (any of several)
\* leaves on the diagonal when no positive entry is left: <<i, n, d>> for an
\* entry n/d < 0 at position i.
RECURSIVE Remains(_, _, _)
Remains(S, rem, prev) ==
  IF rem = {} THEN {}
  ELSE LET mx == CHOOSE x \in {S[i][i] : i \in rem} : \A i \in rem : S[i][i] <= x
       IN IF mx <= 0 THEN {<<i, S[i][i], prev>> : i \in {j \in rem : S[j][j] < 0}}
          ELSE UNION {Remains(TLCEval([i \in 1..Len(S) |-> [j \in 1..Len(S) |->
                        IF {i, j} \subseteq rem \ {p} THEN (mx * S[i][j] - S[i][p] * S[p][j]) \div prev ELSE 0]]), rem \ {p}, mx) :
                      p \in {i \in rem : S[i][i] = mx}}

BuildMistakes(e, A) ==
  CASE e.k = "EigenTri" -> IF Len(e.i) = 0 THEN {ENODAT} ELSE {EDIM}
    [] ~Square(A) -> {ESQMAT}
    [] e.k = "Chol" -> If(TooAsymmetric(A, e.thr[1]), {ESYMM}) \cup If(Pivots(Sym(A), e.thr[2]) # "ok", {ENSMALL})
    [] e.k = "RChol" -> {ENSMALL}
    [] e.k \in {"Eigen", "Schur"} -> {EMAXIT}
    [] OTHER -> {}
BuildFigures(e, A, d) ==
  CASE e.err = ESQMAT -> OneOf(d.arg, {Rows(A), Cols(A)})
    [] e.err = EDIM -> OneOf(d.arg, {Len(e.n), Len(e.i) - 1})
    [] e.err = ESYMM ->
         /\ Len(d.pos) = 2 /\ d.pos[1] \in 0..Rows(A) - 1 /\ d.pos[2] \in 0..Rows(A) - 1
         /\ Apart(A, d.pos[1] + 1, d.pos[2] + 1, e.thr[1])
         /\ d.thr = <<e.thr[1]>>
    [] e.err = ENSMALL ->
         LET pos == e.thr[Len(e.thr)] IN
         /\ Len(d.pos) = 2 /\ d.pos[1] = d.pos[2] /\ d.pos[1] \in 0..Rows(A) - 1
         /\ d.thr = <<pos>> /\ d.min = <<pos>> /\ d.in = <<0>>
         /\ Len(d.arg) = 1 /\ FxLeq(d.arg[1], FxAdd(pos, FxEps(16)))
         \* it is the first pivot that is too small, and that pivot
         /\ e.k = "Chol" /\ ISymmetric(A) /\ Bounded(A) /\ Pivots(A, pos) = "no" =>
              LET b == FirstBad(A, pos) IN
                IF b[2] < 65536 /\ IAbs(b[3]) < 65536
                THEN /\ d.pos[1] = b[1] - 1
                     /\ FxNear(FxMul(d.arg[1], FxInt(b[2])), FxInt(b[3]), FxMul(FxMicro(1), FxInt(IMax(1, b[2]))))
                ELSE TRUE
         /\ e.k = "RChol" => LET a == A[d.pos[1] + 1][d.pos[1] + 1] IN
              \* a diagonal entry only falls while the others are eliminated
              /\ ISymmetric(A) => FxLeq(d.arg[1], FxAdd(FxInt(a), FxMicro(1)))
              /\ (Len(A) <= 4 /\ MaxAbs(A) <= 4 /\ ISymmetric(A) /\ FxLt(pos, FxMicro(1)) /\ \E i \in 1..Len(A) : A[i][i] > 0) =>
                   \E x \in Remains(A, 1..Len(A), 1) :
                     x[1] = d.pos[1] + 1 /\ FxNear(FxMul(d.arg[1], FxInt(x[3])), FxInt(x[2]), FxMul(FxMicro(4), FxInt(x[3])))
    [] e.err = EMAXIT -> Len(d.max) = 1 /\ FxLt(Zero, d.max[1])
    [] OTHER -> TRUE

GetMistakes(e, d) ==
  CASE e.q = "Cov" -> {ENBIG}
    [] e.q = "Sqrt" -> {EUNSUP}
    [] e.q = "NS" -> If(d.k = "Eigen" /\ ~ISymmetric(d.a), {EUNSUP})
    [] OTHER -> {}
GetFigures(e, d, x) ==
  CASE e.err = ENBIG ->
         /\ x.arg = <<e.cut>> /\ Len(x.max) = 1 /\ FxLt(x.max[1], x.arg[1])
         /\ "SV" \in DOMAIN d.seen => x.max = <<d.seen["SV"].v[1][1]>>
    [] OTHER -> TRUE

SolveMistakes(e, d) ==
  If(e.q # "inv" /\ Len(e.a) # Rows(d.a), {EDIM})
    \cup If(Promise(d) \in {"no", "any"}, {ESING})
    \cup If(d.k = "Eigen" /\ ~ISymmetric(d.a), {EUNSUP})
SolveFigures(e, d, x) == e.err = EDIM => OneOf(x.arg, {Len(e.a), Rows(d.a)})

Told(e, S, ok(_)) ==
  /\ e.err \in S
  /\ Len(e.det) = 1
  /\ \E d \in {e.det[1]} : d.msg = 1 /\ ok(d)
Truthful(e) ==
  IF e.t \notin {"build", "get", "solve"} \/ e.err = 0 THEN TRUE
  ELSE CASE e.t = "build" ->
              \E A \in {IF e.k = "EigenTri" THEN <<>> ELSE mats[e.m]} :
                Told(e, BuildMistakes(e, A), LAMBDA x : BuildFigures(e, A, x))
         [] e.t = "get" -> \E d \in {decs[e.d]} : Told(e, GetMistakes(e, d), LAMBDA x : GetFigures(e, d, x))
         [] OTHER -> \E d \in {decs[e.d]} : Told(e, SolveMistakes(e, d), LAMBDA x : SolveFigures(e, d, x))

TruthfulNext == Next /\ (IF Truthful(Trace[l]) THEN TRUE ELSE FALSE)
TruthfulSpec == Init /\ [][TruthfulNext]_vars
=============================================================================
