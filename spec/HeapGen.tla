------------------------------- MODULE HeapGen -------------------------------
(***************************************************************************)
(* Behaviours of module Heap, to be carried out by the library.            *)
(*                                                                         *)
(* A behaviour is a history of calls made on a growing heap.  It begins    *)
(* with a pool of plain arrays and foreign objects; then every step picks  *)
(* a call whose arguments exist, and the heap changes as module Heap says. *)
(* With Random = TRUE each step draws one call (simulation); otherwise all *)
(* calls of the profile are steps (exhaustive search up to Depth).         *)
(*                                                                         *)
(* Profile names the families of calls to draw from at each step (Fams).   *)
(* Histories of Depth calls are written to the file named by GEN_OUT; the  *)
(* harness carries them out and module HeapTrace judges what it observed.  *)
(*                                                                         *)
(* Sane, Frame and the other properties at the end say on the level of the *)
(* specification what the properties about sharing, refusal and diagonal   *)
(* matrices promise, so that the effects in module Heap are themselves     *)
(* checked against them.                                                   *)
(***************************************************************************)
EXTENDS Heap, Json, IOUtils

CONSTANTS Profile, Depth, Random, Wild

VARIABLES hist,   \* calls made so far
          nx      \* next object id
vars == <<st, ob, hist, nx>>

Pick(S) == IF S = {} THEN {} ELSE IF Random THEN {RandomElement(S)} ELSE S
Chance(n) == Random /\ RandomElement(1..n) = 1

Vals == IF Random THEN {-80, -32, -16, -4, 0, 4, 16, 16, 24, 32, 48} ELSE {1600 + 16 * nx}
Vec(n) == IF Random THEN TLCEval([i \in 1..n |-> RandomElement(Vals)]) ELSE [i \in 1..n |-> 16 * i]
Rows(r, c) == IF Random THEN TLCEval([i \in 1..r |-> Vec(c)]) ELSE [i \in 1..r |-> [j \in 1..c |-> 16 * (10 * i + j)]]

Ev(t, op, x, y, i, v) ==
  [t |-> t, op |-> op, x |-> x, y |-> y, z |-> 0, i |-> i, v |-> v, rs |-> <<>>, cs |-> <<>>, bnd |-> 0, upd |-> 0,
   ord |-> "", fin |-> 0, start |-> <<>>, vis |-> <<>>, fx |-> <<>>, n |-> 0, chg |-> <<>>, acts |-> <<>>, ends |-> 0]

MatK == {"arr", "blk", "diag", "fmat"}
VecK == {"vec", "fvec"}
Of(K) == {x \in DOMAIN ob : ob[x].k \in K}
NR(x) == IF ob[x].k = "diag" THEN ob[x].n ELSE R(View(x))
NC(x) == IF ob[x].k = "diag" THEN ob[x].n ELSE C(View(x))
VLen(x) == ob[x].n
\* positions: within 0..n-1, sometimes next to it
Pos(n) == IF Random THEN Pick(IF Wild /\ Chance(6) THEN -1..n ELSE 0..n - 1) ELSE {n - 1}
\* arrays that are not the storage of x: what copying part of a matrix onto
\* another part of itself does is left open
Apart(x) == {y \in Of({"raw2"}) : ob[y].s # ob[x].s}
\* an operand of a kind in K for which fit holds, sometimes any
Arg(K, fit(_)) == Pick(IF Wild /\ Chance(6) THEN Of(K) ELSE {y \in Of(K) : fit(y)})
U(S, f(_)) == UNION {f(s) : s \in S}

---------------------------------------------------------------------------
(* Families of calls.                                                      *)
WriteM ==
  U(Pick(Of(MatK)), LAMBDA x :
    U(Pick({"Set", "AddTo", "MulTo", "Set", "SetRow", "SetCol", "SetRowVec", "SetColVec", "SetRowMat", "SetColMat", "SetSub"}), LAMBDA op :
      CASE op \in {"Set", "AddTo", "MulTo"} ->
             U(Pos(NR(x)), LAMBDA i : U(IF ob[x].k = "diag" /\ ~Chance(4) THEN {i} ELSE Pos(NC(x)), LAMBDA j :
               {Ev("M", op, x, 0, <<i, j>>, <<v>>) : v \in Pick(Vals)}))
        [] op = "SetRow" -> U(Pos(NR(x)), LAMBDA i : {Ev("M", op, x, y, <<i>>, <<0>>) : y \in Arg({"raw1"}, LAMBDA y : VLen(y) = NC(x))})
        [] op = "SetCol" -> U(Pos(NC(x)), LAMBDA i : {Ev("M", op, x, y, <<i>>, <<0>>) : y \in Arg({"raw1"}, LAMBDA y : VLen(y) = NR(x))})
        [] op = "SetRowVec" -> U(Pos(NR(x)), LAMBDA i : {Ev("M", op, x, y, <<i>>, <<0>>) : y \in Arg(VecK, LAMBDA y : VLen(y) = NC(x))})
        [] op = "SetColVec" -> U(Pos(NC(x)), LAMBDA i : {Ev("M", op, x, y, <<i>>, <<0>>) : y \in Arg(VecK, LAMBDA y : VLen(y) = NR(x))})
        [] op = "SetRowMat" -> U(Pos(NR(x)), LAMBDA i : {Ev("M", op, x, y, <<i>>, <<0>>) :
                                 y \in Arg(MatK, LAMBDA y : NR(y) = 1 /\ NC(y) = NC(x))})
        [] op = "SetColMat" -> U(Pos(NC(x)), LAMBDA i : {Ev("M", op, x, y, <<i>>, <<0>>) :
                                 y \in Arg(MatK, LAMBDA y : NC(y) = 1 /\ NR(y) = NR(x))})
        [] op = "SetSub" -> U(Pos(NR(x)), LAMBDA i : U(Pos(NC(x)), LAMBDA j : {Ev("M", op, x, y, <<i, j>>, <<0>>) :
                                 y \in Arg({"raw2"}, LAMBDA y : i + NR(y) <= NR(x) /\ j + NC(y) <= NC(x)) \cap Apart(x)}))))
WriteV == U(Pick(Of(VecK)), LAMBDA x : U(Pick({"Set", "AddTo"}), LAMBDA op :
            U(Pos(VLen(x)), LAMBDA i : {Ev("V", op, x, 0, <<i>>, <<v>>) : v \in Pick(Vals)})))
WriteR ==
  U(Pick(Of({"raw1", "raw2"})), LAMBDA x :
    IF ob[x].k = "raw1"
    THEN U(Pick(0..VLen(x) - 1), LAMBDA i : {Ev("R", "set", x, 0, <<i>>, <<v>>) : v \in Pick(Vals)})
    ELSE U(Pick(0..NR(x) - 1), LAMBDA i : U(Pick(0..NC(x) - 1), LAMBDA j : {Ev("R", "set", x, 0, <<i, j>>, <<v>>) : v \in Pick(Vals)})))
\* one entry of any object, by the shortest route
Poke ==
  U(Pick(Of(MatK \cup VecK \cup {"raw1", "raw2"})), LAMBDA x :
    CASE ob[x].k = "raw1" -> {Ev("R", "set", x, 0, <<i>>, <<v>>) : i \in Pick(0..VLen(x) - 1), v \in Pick(Vals)}
      [] ob[x].k = "raw2" -> {Ev("R", "set", x, 0, <<i, j>>, <<v>>) : i \in Pick(0..NR(x) - 1), j \in Pick(0..NC(x) - 1), v \in Pick(Vals)}
      [] ob[x].k \in VecK -> {Ev("V", "Set", x, 0, <<i>>, <<v>>) : i \in Pick(0..VLen(x) - 1), v \in Pick(Vals)}
      [] ob[x].k = "diag" -> {Ev("M", "Set", x, 0, <<i, i>>, <<v>>) : i \in Pick(0..VLen(x) - 1), v \in Pick(Vals)}
      [] OTHER -> {Ev("M", "Set", x, 0, <<i, j>>, <<v>>) : i \in Pick(0..NR(x) - 1), j \in Pick(0..NC(x) - 1), v \in Pick(Vals)})

ReadM ==
  U(Pick(Of(MatK)), LAMBDA x : U(Pick({"At", "Row", "Col", "RowVec", "ColVec", "RowMat", "ColMat", "Data", "Copy", "Ref"}), LAMBDA op :
    CASE op = "At" -> {Ev("M", op, x, 0, <<i, j>>, <<0>>) : i \in Pos(NR(x)), j \in Pos(NC(x))}
      [] op \in {"Row", "RowVec", "RowMat"} -> {Ev("M", op, x, 0, <<i>>, <<0>>) : i \in Pos(NR(x))}
      [] op \in {"Col", "ColVec", "ColMat"} -> {Ev("M", op, x, 0, <<i>>, <<0>>) : i \in Pos(NC(x))}
      [] op = "Ref" -> IF ob[x].k \in {"arr", "diag"} THEN {Ev("M", op, x, 0, <<>>, <<0>>)} ELSE {}
      [] OTHER -> {Ev("M", op, x, 0, <<>>, <<0>>)}))

Arith ==
  U(Pick(Of(MatK)), LAMBDA x :
    U(Pick({"Add", "Subt", "Mul", "PreMul", "SAdd", "SMul", "T", "Trace", "Op", "OpVec", "PreOp", "PreOpVec", "Pow", "LInf"}), LAMBDA op :
      CASE op \in {"Add", "Subt"} -> {Ev("M", op, x, y, <<>>, <<0>>) : y \in Arg(MatK, LAMBDA y : NR(y) = NR(x) /\ NC(y) = NC(x))}
        [] op = "Mul" -> {Ev("M", op, x, y, <<>>, <<0>>) : y \in Arg(MatK, LAMBDA y : NR(y) = NC(x))}
        [] op = "PreMul" -> {Ev("M", op, x, y, <<>>, <<0>>) : y \in Arg(MatK, LAMBDA y : NC(y) = NR(x))}
        [] op = "SAdd" -> {Ev("M", op, x, 0, <<>>, <<v>>) : v \in IF Random THEN Pick({-16, 0, 0, 4, 32}) ELSE {0}}
        [] op = "SMul" -> {Ev("M", op, x, 0, <<>>, <<v>>) : v \in IF Random THEN Pick({-16, 0, 16, 32, 8}) ELSE {16}}
        [] op = "Op" -> {Ev("M", op, x, y, <<>>, <<0>>) : y \in Arg({"raw1"}, LAMBDA y : VLen(y) = NC(x))}
        [] op = "PreOp" -> {Ev("M", op, x, y, <<>>, <<0>>) : y \in Arg({"raw1"}, LAMBDA y : VLen(y) = NR(x))}
        [] op = "OpVec" -> {Ev("M", op, x, y, <<>>, <<0>>) : y \in Arg(VecK, LAMBDA y : VLen(y) = NC(x))}
        [] op = "PreOpVec" -> {Ev("M", op, x, y, <<>>, <<0>>) : y \in Arg(VecK, LAMBDA y : VLen(y) = NR(x))}
        [] op = "Pow" -> {Ev("M", op, x, 0, <<p>>, <<0>>) : p \in Pick(IF Wild /\ Chance(6) THEN -1..2 ELSE IF Random THEN 0..3 ELSE {1})}
        [] OTHER -> {Ev("M", op, x, 0, <<>>, <<0>>)}))

Lists(n, m) == IF Random THEN {TLCEval([k \in 1..RandomElement(1..m) |-> RandomElement(IF Wild /\ Chance(15) THEN {-1, n} ELSE 0..n - 1)])}
               ELSE {[k \in 1..n |-> k - 1]}
SelFam ==
  IF ~Random
  THEN U(Of(MatK), LAMBDA x : {Ev("M", "Sub", x, 0, <<0, NR(x) - 1, 0, NC(x) - 1>>, <<0>>),
                               [Ev("M", "Select", x, 0, <<>>, <<0>>) EXCEPT !.rs = [k \in 1..NR(x) |-> k - 1], !.cs = [k \in 1..NC(x) |-> k - 1]]})
  ELSE
  U(Pick(Of(MatK)), LAMBDA x : U(Pick({"Sub", "Select", "CopySub", "CopySel"}), LAMBDA op :
    U(Pos(NR(x)), LAMBDA a : U(Pos(NR(x)), LAMBDA b : U(Pos(NC(x)), LAMBDA c : U(Pos(NC(x)), LAMBDA d :
      LET p == IF (Wild /\ Chance(6)) \/ a <= b THEN <<a, b>> ELSE <<b, a>>
          q == IF (Wild /\ Chance(6)) \/ c <= d THEN <<c, d>> ELSE <<d, c>>
      IN CASE op = "Sub" -> {Ev("M", op, x, 0, p \o q, <<0>>)}
           [] op = "CopySub" -> {Ev("M", op, x, y, p \o q, <<0>>) : y \in Pick(Apart(x))}
           [] op = "Select" -> {[Ev("M", op, x, 0, <<>>, <<0>>) EXCEPT !.rs = rs, !.cs = cs] : rs \in Lists(NR(x), 3), cs \in Lists(NC(x), 3)}
           [] op = "CopySel" -> {[Ev("M", op, x, y, <<>>, <<0>>) EXCEPT !.rs = rs, !.cs = cs] :
                                   rs \in Lists(NR(x), 2), cs \in Lists(NC(x), 2), y \in Pick(Apart(x))}))))))

\* Visitors are those of the harness: u1 answers new values, u3 new values on
\* the diagonal and zero elsewhere.
Visits(x, ord, a, upd, u) ==
  LET M == View(x)
      o == VisitOrder(ord, a)
  IN [k \in 1..Len(o) |-> <<o[k][1], o[k][2], M[o[k][1] + 1][o[k][2] + 1],
        IF upd = 0 THEN M[o[k][1] + 1][o[k][2] + 1]
        ELSE IF u = "u1" THEN 16 * (k - 1 + 7)
        ELSE IF o[k][1] = o[k][2] THEN 16 * (k - 1 + 5) ELSE 0>>]
UpTo(p, q) == IF p <= q THEN <<p, q>> ELSE <<q, p>>
WalkFam ==
  U(Pick(Of(MatK)), LAMBDA x : U(Pick({"row", "col", "opt"}), LAMBDA ord : U(Pick({0, 1}), LAMBDA upd : U(Pick({0, 1}), LAMBDA bnd :
    U(Pos(NR(x)), LAMBDA a : U(Pos(NR(x)), LAMBDA b : U(Pos(NC(x)), LAMBDA c : U(Pos(NC(x)), LAMBDA d :
      LET u == IF ob[x].k = "diag" THEN "u3" ELSE "u1"
          i == UpTo(a, b) \o UpTo(c, d)
          w == IF bnd = 1 THEN i ELSE <<0, NR(x) - 1, 0, NC(x) - 1>>
          bad == RangeErr(View(x), w) # {}
      IN {[Ev("W", u, x, 0, IF bnd = 1 THEN i ELSE <<>>, <<0>>) EXCEPT !.ord = ord, !.upd = upd, !.bnd = bnd, !.fin = 16, !.ends = IF bad THEN 0 ELSE 1,
             !.start = IF bad THEN <<>> ELSE <<NR(x), NC(x)>> \o w,
             !.vis = IF bad THEN <<>> ELSE Visits(x, ord, w, upd, u)]}))))))))

VecOps ==
  U(Pick(Of(VecK)), LAMBDA x :
    U(Pick({"App", "AppVec", "SubVec", "Add", "Subt", "EMul", "Copy", "ToArr", "Ref", "At", "Dim"}), LAMBDA op :
      CASE op = "App" -> {Ev("V", op, x, 0, <<>>, <<v>>) : v \in Pick(Vals)}
        [] op = "AppVec" -> {Ev("V", op, x, y, <<>>, <<0>>) : y \in Pick(Of(VecK))}
        [] op = "SubVec" -> U(Pos(VLen(x)), LAMBDA i : {Ev("V", op, x, 0, <<i, n>>, <<0>>) :
                              n \in Pick(IF Wild /\ Chance(6) THEN -1..VLen(x) + 1 ELSE 1..VLen(x) - i)})
        [] op \in {"Add", "Subt", "EMul"} -> {Ev("V", op, x, y, <<>>, <<0>>) : y \in Arg(VecK, LAMBDA y : VLen(y) = VLen(x))}
        [] op = "Ref" -> IF ob[x].k = "vec" THEN {Ev("V", op, x, 0, <<>>, <<0>>)} ELSE {}
        [] op = "At" -> {Ev("V", op, x, 0, <<i>>, <<0>>) : i \in Pos(VLen(x))}
        [] OTHER -> {Ev("V", op, x, 0, <<>>, <<0>>)}))
VecSet ==
  U(Pick(Of(VecK)), LAMBDA x :
    U(Pick({"Set", "AddTo", "MapAdd", "MapSub", "MapMul", "Map", "CopyFrom", "Fill", "Comb", "SetSubVec", "SetSubArr"}), LAMBDA op :
      CASE op \in {"Set", "AddTo"} -> U(Pos(VLen(x)), LAMBDA i : {Ev("V", op, x, 0, <<i>>, <<v>>) : v \in Pick(Vals)})
        [] op \in {"MapAdd", "MapSub", "Fill"} -> {Ev("V", op, x, 0, <<>>, <<v>>) : v \in Pick(Vals)}
        [] op = "MapMul" -> {Ev("V", op, x, 0, <<>>, <<v>>) : v \in Pick({0, 16, -16, 32})}
        [] op = "Map" -> {Ev("V", op, x, 0, <<f>>, <<0>>) : f \in Pick(1..4)}
        [] op = "CopyFrom" -> {Ev("V", op, x, y, <<>>, <<0>>) : y \in Arg(VecK, LAMBDA y : VLen(y) = VLen(x))}
        [] op = "Comb" -> {Ev("V", op, x, y, <<>>, <<p, q>>) : y \in Arg(VecK, LAMBDA y : VLen(y) = VLen(x)),
                             p \in Pick({0, 16, -16, 32}), q \in Pick({0, 16, -32})}
        [] op = "SetSubVec" -> U(Pos(VLen(x)), LAMBDA i : {Ev("V", op, x, y, <<i>>, <<0>>) : y \in Arg(VecK, LAMBDA y : i + VLen(y) <= VLen(x))})
        [] op = "SetSubArr" -> IF ob[x].k # "vec" THEN {}
             ELSE U(Pos(VLen(x)), LAMBDA i : {Ev("V", op, x, y, <<i>>, <<0>>) : y \in Arg({"raw1"}, LAMBDA y : i + VLen(y) <= VLen(x))})))
VVisits(x, a, upd) ==
  [k \in 1..a[2] - a[1] + 1 |-> <<a[1] + k - 1, View(x)[a[1] + k], IF upd = 0 THEN View(x)[a[1] + k] ELSE 16 * (k - 1 + 7)>>]
VecWalk ==
  U(Pick(Of(VecK)), LAMBDA x : U(Pick({"def", "opt"}), LAMBDA ord : U(Pick({0, 1}), LAMBDA upd : U(Pick({0, 1}), LAMBDA bnd :
    U(Pos(VLen(x)), LAMBDA a : U(Pos(VLen(x)), LAMBDA b :
      LET i == UpTo(a, b)
          w == IF bnd = 1 THEN i ELSE <<0, VLen(x) - 1>>
          bad == w[1] < 0 \/ w[2] >= VLen(x)
      IN {[Ev("VW", "u1", x, 0, IF bnd = 1 THEN i ELSE <<>>, <<0>>) EXCEPT !.ord = ord, !.upd = upd, !.bnd = bnd, !.fin = 16, !.ends = IF bad THEN 0 ELSE 1,
             !.start = IF bad THEN <<>> ELSE <<VLen(x)>> \o w, !.vis = IF bad THEN <<>> ELSE VVisits(x, w, upd)]}))))))
\* the number of entries already presented is filled in by the harness
IterFam == U(Pick(Of(VecK)), LAMBDA x : U(Pick({"Next", "Next", "HasNext"}), LAMBDA op :
             {[Ev("V", op, x, 0, <<0>>, <<0>>) EXCEPT !.z = z] : z \in Pick({1, 2})}))

EqFam ==
  {Ev("M", "Eq", x, y, <<>>, <<0>>) : x \in Pick(Of(MatK)), y \in Pick(Of(MatK \cup (IF Chance(8) THEN {"raw2", "vec", "nil"} ELSE {})))}
    \cup {Ev("V", "Eq", x, y, <<>>, <<0>>) : x \in Pick(Of(VecK)), y \in Pick(Of(VecK \cup (IF Chance(8) THEN {"raw1", "arr", "nil"} ELSE {})))}

DiagFam ==
  U(Pick(Of({"diag"})), LAMBDA x : U(Pick({"Inv", "IsSing"}), LAMBDA op :
    {Ev("M", op, x, 0, <<>>, <<v>>) : v \in Pick({0, 4, 16})}))

NewFam ==
  U(Pick({"ArrSlices", "BlkSlices", "Slices", "ArrCol", "WithDiag", "RealDiag", "DiagSlice", "Diag", "VSlice", "VReal", "VCopy", "VArr", "VWin", "VTwo", "Outer"}), LAMBDA op :
    CASE ~Random /\ op \in {"BlkSlices", "Slices"} -> {Ev("N", op, 0, y, <<1>>, <<0>>) : y \in Of({"raw2"})}
      [] ~Random /\ op \in {"ArrCol", "WithDiag", "RealDiag", "DiagSlice", "VSlice", "VReal"} -> {Ev("N", op, 0, y, <<1>>, <<0>>) : y \in Of({"raw1"})}
      [] op \in {"ArrSlices", "BlkSlices", "Slices"} -> {Ev("N", op, 0, y, <<cp>>, <<0>>) : y \in Pick(Of({"raw2"})), cp \in Pick({0, 1})}
      [] op \in {"ArrCol", "WithDiag", "RealDiag", "DiagSlice", "Diag", "VSlice", "VReal", "VArr"} ->
           {Ev("N", op, 0, y, <<cp>>, <<0>>) : y \in Pick(Of({"raw1"})), cp \in Pick({0, 1})}
      [] op = "VCopy" -> {Ev("N", op, 0, y, <<>>, <<0>>) : y \in Pick(Of(VecK))}
      [] op \in {"VTwo", "Outer"} -> {[Ev("N", op, 0, y, <<>>, <<0>>) EXCEPT !.z = z] : y \in Pick(Of(VecK)), z \in Pick(Of(VecK))}
      [] op = "VWin" -> U(Pick({y \in Of({"raw1"}) : VLen(y) > 0}), LAMBDA y : U(Pick(0..VLen(y) - 1), LAMBDA o :
                          {Ev("N", op, 0, y, <<o, n>> \o w, <<0>>) : n \in Pick(1..VLen(y) - o), w \in Pick({<<>>, <<1>>})})))
SizedFam ==
  U(Pick({"Dims", "ArrDims", "BlkDims", "Id", "DiagDim", "VSized"}), LAMBDA op :
    {Ev("N", op, 0, 0, <<a, b>>, <<0>>) : a \in Pick(IF Wild THEN -1..3 ELSE 1..3), b \in Pick(IF Wild THEN -1..3 ELSE 1..3)})

Family(f) ==
  CASE f = "writem" -> WriteM [] f = "writev" -> WriteV [] f = "writer" -> WriteR [] f = "poke" -> Poke [] f = "readm" -> ReadM
    [] f = "arith" -> Arith [] f = "sel" -> SelFam [] f = "walk" -> WalkFam [] f = "vec" -> VecOps [] f = "vset" -> VecSet
    [] f = "vwalk" -> VecWalk [] f = "iter" -> IterFam [] f = "eq" -> EqFam [] f = "diag" -> DiagFam [] f = "new" -> NewFam
    [] f = "sized" -> SizedFam

\* Families to draw from at step k.
Derive == {"readm", "arith", "sel", "vec", "new"}
Fams(k) ==
  CASE Profile = "alias1" -> IF k = 1 THEN Derive ELSE {"poke"}
    [] Profile = "alias2" -> IF k = 1 THEN {"new"} ELSE IF k = 2 THEN Derive ELSE {"poke"}
    [] Profile = "alias3" -> IF k = 1 THEN {"new"} ELSE IF k <= 3 THEN Derive ELSE {"poke"}
    [] Profile = "C01" -> {"writem", "readm", "new", "writem"}
    [] Profile = "C02" -> {"arith", "arith", "poke", "new"}
    [] Profile = "C03" -> Derive \cup {"poke", "writem", "vset", "walk"}
    [] Profile = "C04" -> {"writem", "readm", "arith", "sel", "sized", "new", "walk"}
    [] Profile = "C05" -> {"walk", "walk", "writem", "new"}
    [] Profile = "C06" -> {"diag", "writem", "readm", "arith", "sel", "walk", "new"}
    [] Profile = "C07" -> {"vec", "vset", "new"}
    [] Profile = "C09" -> {"eq", "poke", "new", "readm", "vec"}
    [] Profile = "C10" -> {"new", "sel", "sized", "poke"}
    [] Profile = "C22" -> {"vwalk", "iter", "vset", "new"}
    [] Profile = "C23" -> {"vec", "vset", "vwalk", "iter", "new"}

---------------------------------------------------------------------------
(* The pool.                                                               *)
Pool ==
  IF Random
  THEN <<[Ev("N", "Lit1", 0, 0, <<>>, <<0>>) EXCEPT !.v = Vec(2)], [Ev("N", "Lit1", 0, 0, <<>>, <<0>>) EXCEPT !.v = Vec(3)],
         [Ev("N", "Lit2", 0, 0, <<>>, <<0>>) EXCEPT !.v = Rows(2, 2)], [Ev("N", "Lit2", 0, 0, <<>>, <<0>>) EXCEPT !.v = Rows(2, 3)],
         [Ev("N", "Lit2", 0, 0, <<>>, <<0>>) EXCEPT !.v = Rows(1, 2)],
         [Ev("N", "FMat", 0, 0, <<>>, <<0>>) EXCEPT !.v = Rows(2, RandomElement(1..3))],
         [Ev("N", "FVec", 0, 0, <<>>, <<0>>) EXCEPT !.v = Vec(RandomElement(1..3))],
         Ev("N", "ArrSlices", 0, 3, <<RandomElement(0..1)>>, <<0>>), Ev("N", "BlkSlices", 0, RandomElement(3..4), <<>>, <<0>>),
         Ev("N", "Diag", 0, 1, <<RandomElement(0..1)>>, <<0>>), Ev("N", "VSlice", 0, RandomElement(1..2), <<>>, <<0>>)>>
  ELSE <<[Ev("N", "Lit1", 0, 0, <<>>, <<0>>) EXCEPT !.v = Vec(2)], [Ev("N", "Lit2", 0, 0, <<>>, <<0>>) EXCEPT !.v = Rows(2, 2)],
         [Ev("N", "FMat", 0, 0, <<>>, <<0>>) EXCEPT !.v = Rows(2, 2)], [Ev("N", "FVec", 0, 0, <<>>, <<0>>) EXCEPT !.v = Vec(2)]>>
NPool == IF Random THEN 11 ELSE 4

---------------------------------------------------------------------------
(* The kind of a call's result.                                            *)
KindOf(e, r) ==
  CASE e.op \in {"Lit1", "Row", "Col", "Op", "PreOp", "ToArr"} -> "raw1"
    [] e.op \in {"Lit2", "Data"} -> "raw2"
    [] e.op = "FMat" -> "fmat" [] e.op = "FVec" -> "fvec"
    [] e.op = "Ref" -> IF ob[e.x].k = "arr" THEN "raw2" ELSE "raw1"
    [] e.t = "V" \/ e.op \in {"RowVec", "ColVec", "OpVec", "PreOpVec", "VSized", "VSlice", "VReal", "VCopy", "VArr", "VWin", "VTwo"} -> "vec"
    [] e.op \in {"Diag", "RealDiag", "DiagSlice", "DiagDim", "Inv"} -> "diag"
    [] e.op \in {"BlkSlices", "BlkDims"} -> "blk"
    [] e.t = "N" \/ e.op = "Select" \/ (e.op = "Pow" /\ e.i[1] = 0) -> "arr"
    [] e.op = "Mul" -> IF ob[e.x].k = "diag" /\ ob[e.y].k = "diag" THEN "diag" ELSE IF ob[e.x].k = "blk" THEN "blk" ELSE "arr"
    [] e.op = "PreMul" -> IF ob[e.x].k = "diag" /\ ob[e.y].k = "diag" THEN "diag" ELSE IF ob[e.y].k = "blk" THEN "blk" ELSE "arr"
    [] OTHER -> IF ob[e.x].k = "fmat" THEN "arr" ELSE ob[e.x].k

\* Nothing leaves the exact lattice or grows beyond it.
Small(k) == Fin(k) => k <= 1048576 /\ k >= -1048576
Exact(k) == k < Off \/ k > OneUp
Num(c) == Exact(c) /\ Small(c)
Flat1(s) == \A i \in 1..Len(s) : Num(s[i])
Flat2(s) == \A i \in 1..Len(s) : Flat1(s[i])
Modest(x) == LET V == View(x) IN
  IF ob[x].k \in {"raw1", "vec", "fvec"} THEN \A i \in 1..Len(V) : V[i] % 4 = 0 /\ V[i] <= 8192 /\ V[i] >= -8192
  ELSE \A i \in 1..R(V) : \A j \in 1..C(V) : V[i][j] % 4 = 0 /\ V[i][j] <= 8192 /\ V[i][j] >= -8192
Products == {"Mul", "PreMul", "Op", "OpVec", "PreOp", "PreOpVec", "Pow", "EMul", "Outer", "SMul", "MulTo", "Comb", "MapMul"}
Calculable(e) == e.op \in Products => \A y \in {e.x, e.y, e.z} \ {0} : Modest(y)
Invertible(e) == e.op = "Inv" => \A i \in 1..VLen(e.x) : Win(e.x)[i] \in {0, 4, 8, 16, 32, 64, -4, -8, -16, -32}
Lines == {"raw1", "vec", "fvec"}
Tame(e, r) ==
  /\ \/ r.new = <<>>
     \/ r.new[1] = "share"
     \/ IF KindOf(e, r) \in Lines THEN Flat1(r.new[2]) ELSE Flat2(r.new[2])
  /\ \/ r.upd = <<>>
     \/ IF ob[e.x].k \in Flat /\ e.op \notin {"CopySub", "CopySel"} THEN Flat1(r.upd[1][2]) ELSE Flat2(r.upd[1][2])

---------------------------------------------------------------------------
Init == st = (0 :> <<>>) /\ ob = (0 :> [k |-> "nil", s |-> 0, o |-> 0, n |-> 0]) /\ hist = <<>> /\ nx = 1

Do(e) ==
  \E r \in {Effect(e)} :
    LET made == r.err = {} /\ r.new # <<>>
        k == IF made THEN KindOf(e, r) ELSE ""
    IN \* (IF, so that TLC does not branch on disjunctions)
       /\ IF Tame(e, r) /\ (Wild \/ r.err = {}) THEN TRUE ELSE FALSE
       /\ st' = AfterSt(r, nx, k)
       /\ ob' = AfterOb(r, nx, k)
       /\ nx' = IF made THEN nx + 1 ELSE nx
       /\ hist' = Append(hist, [c |-> e, n |-> IF made THEN nx ELSE 0])
Sensible(e) == Calculable(e) /\ Invertible(e)

Next ==
  /\ Len(hist) < NPool + Depth
  /\ IF Len(hist) < NPool
     THEN \E e \in {TLCEval(Pool[Len(hist) + 1])} : Do(e)
     ELSE \* (several draws, as one may turn out unsuitable)
          \E draw \in 1..(IF Random THEN 4 ELSE 1) :
            \E f \in Pick(Fams(Len(hist) - NPool + 1)) : \E e \in {c \in TLCEval(Family(f)) : Sensible(c)} : Do(e)
Spec == Init /\ [][Next]_vars

\* What the harness needs of a call.
Brief(h) == [t |-> h.c.t, op |-> h.c.op, x |-> h.c.x, y |-> h.c.y, z |-> h.c.z, i |-> h.c.i, v |-> h.c.v, rs |-> h.c.rs, cs |-> h.c.cs,
             bnd |-> h.c.bnd, upd |-> h.c.upd, ord |-> h.c.ord, fin |-> h.c.fin, n |-> h.n]
Write(s) == Serialize(s, IOEnv.GEN_OUT, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Emit == Len(hist) = NPool + Depth => Write(ToJson([i \in 1..Len(hist) |-> Brief(hist[i])]) \o "\n")

---------------------------------------------------------------------------
(* Properties of the specification itself.                                 *)
Shaped(x) ==
  LET c == st[ob[x].s] IN
  CASE ob[x].k \in {"raw1", "vec", "fvec"} -> ob[x].o + ob[x].n <= Len(c)
    [] ob[x].k = "diag" -> ob[x].n >= 1 /\ ob[x].o + ob[x].n <= Len(c)
    [] ob[x].k = "raw2" -> TRUE
    [] ob[x].k = "nil" -> TRUE
    [] OTHER -> Len(c) >= 1 /\ ~Ragged(c) /\ Len(c[1]) >= 1
\* every object is well formed, and a diagonal matrix shows a diagonal
Sane == \A x \in DOMAIN ob : ob[x].s \in DOMAIN st /\ Shaped(x) /\ (ob[x].k = "diag" => IsDiag(View(x)))

Made == hist'[Len(hist')]
\* Two views of one storage that overlap
Overlap(x, y) == ob[x].s = ob[y].s /\ (ob[x].k \in Flat /\ ob[y].k \in Flat => ob[x].o < ob[y].o + ob[y].n /\ ob[y].o < ob[x].o + ob[x].n)
Changing == {"Set", "AddTo", "MulTo", "SetRow", "SetCol", "SetRowVec", "SetColVec", "SetRowMat", "SetColMat", "SetSub", "set",
             "MapAdd", "MapSub", "MapMul", "MapDiv", "Map", "CopyFrom", "Fill", "Comb", "SetSubVec", "SetSubArr"}
Target(e) == CASE e.op \in {"CopySub", "CopySel"} -> {e.y}
               [] e.op \in Changing \/ (e.t \in {"W", "VW"} /\ e.upd = 1) -> {e.x}
               [] OTHER -> {}
Step == hist' # hist
\* A call changes only its target and what overlaps it; a refused one nothing
\* (an updating traversal of a diagonal matrix is refused part of the way).
FrameA ==
  Step =>
    \A e \in {Made.c} :
    LET changed == {x \in DOMAIN ob : View(x)' # View(x)}
    IN /\ \A x \in changed : \E y \in Target(e) : Overlap(x, y)
       /\ (Effect(e).err # {} /\ e.t # "W") => changed = {} /\ nx' = nx
Frame == [][FrameA]_vars
\* A result overlaps nothing that was there before, except references and
\* construction without copying.
FreshA ==
  Step /\ Made.n # 0 =>
    \A e \in {Made.c}, n \in {Made.n} :
    LET shared == {x \in DOMAIN ob : ob'[x].s = ob'[n].s}
    IN shared # {} => \/ e.op \in {"Ref", "VWin"}
                      \/ e.op \in {"ArrSlices", "VArr", "Diag"} /\ e.i[1] = 0
Fresh == [][FreshA]_vars
\* After an entry is set it reads back; the other entries of the target stay.
EntryA ==
  Step =>
    \A e \in {Made.c} :
    (e.t = "M" /\ e.op = "Set" /\ Effect(e).err = {}) =>
      \A M \in {View(e.x)}, N \in {View(e.x)'} :
      /\ N[e.i[1] + 1][e.i[2] + 1] = e.v[1]
      /\ \A i \in 1..R(M) : \A j \in 1..C(M) : <<i, j>> # <<e.i[1] + 1, e.i[2] + 1>> => N[i][j] = M[i][j]
Entry == [][EntryA]_vars
\* Shapes never change.
ShapeA == \A x \in DOMAIN ob : ob'[x] = ob[x] /\ R(View(x)') = R(View(x))
Shape == [][ShapeA]_vars
=============================================================================
