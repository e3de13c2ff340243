------------------------------- MODULE DecGen -------------------------------
(***************************************************************************)
(* Histories of requests to decompositions, to be carried out by the       *)
(* library.                                                                *)
(*                                                                         *)
(* Two equal matrices of different storage are decomposed; then every step *)
(* asks one of the decompositions for a quantity, has it solve or invert,  *)
(* writes to one of the matrices, or decomposes a matrix again as it is by *)
(* now.  What a request must answer depends on the matrix at the time of   *)
(* the decomposition and on nothing else: not on requests or writes before *)
(* it.  All histories of Depth steps are enumerated (or drawn, with        *)
(* Random) for each kind of decomposition, and module DecTrace judges what *)
(* the library answered.                                                   *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, TLC, Json, IOUtils

CONSTANTS Kinds,   \* kinds of decomposition
          Depth, Random

VARIABLES kind, mats, decs, hist, left
vars == <<kind, mats, decs, hist, left>>

Quantities(k) ==
  CASE k = "LU" -> {"L", "U", "P", "Pivot", "Det", "NS"}
    [] k = "Chol" -> {"L", "LT", "Det", "NS"}
    [] k = "RChol" -> {"Root", "Rank"}
    [] k = "QR" -> {"Q", "QT", "R", "H", "NS"}
    [] k = "RRQR" -> {"Q", "QT", "R", "H", "P", "Rank", "NS"}
    [] k = "SVD" -> {"U", "UT", "V", "VT", "S", "SV", "Norm", "Cond", "ICond", "Rank", "NS", "Cov"}
    [] k = "Eigen" -> {"V", "VT", "Vec", "D", "Re", "Im", "At", "HasC", "Det", "Sqrt", "NS"}
    [] k = "Hess" -> {"P", "PT", "H"}
    [] k = "Schur" -> {"P", "PT", "T"}
    [] k = "Tri" -> {"Q", "QT", "T", "Main", "Sec"}
    [] k = "Bi" -> {"U", "B", "V", "Main", "Sec", "Upper"}
\* factors to write to
Factors(k) ==
  CASE k = "LU" -> {"L", "U", "P"} [] k = "Chol" -> {"L", "LT"} [] k \in {"QR", "RRQR"} -> {"Q", "QT", "R", "H"}
    [] k = "SVD" -> {"U", "UT", "V", "VT", "S"} [] k = "Eigen" -> {"V", "VT", "D"} [] OTHER -> {}
Solving == {"LU", "Chol", "QR", "RRQR", "SVD", "Eigen"}
\* Decompositions that any matrix has
Total == {"LU", "QR", "RRQR", "SVD", "Bi", "Hess"}

\* Matrices and, where the kind needs them, their factors.
Lower == <<<<2, 0, 0>>, <<-1, 1, 0>>, <<1, 2, 3>>>>
Upper == <<<<2, -1, 1>>, <<0, 1, 2>>, <<0, 0, 3>>>>
PosDef == <<<<4, -2, 2>>, <<-2, 2, 1>>, <<2, 1, 14>>>>
Low2 == <<<<1, 0>>, <<2, 1>>, <<-1, 3>>>>
Up2 == <<<<1, 2, -1>>, <<0, 1, 3>>>>
Semi == <<<<1, 2, -1>>, <<2, 5, 1>>, <<-1, 1, 10>>>>
Inputs(k) ==
  CASE k = "Chol" -> {[a |-> PosDef, w |-> <<Lower, Upper>>]}
    [] k = "RChol" -> {[a |-> PosDef, w |-> <<Lower, Upper>>], [a |-> Semi, w |-> <<Low2, Up2>>]}
    [] k = "Tri" -> {[a |-> PosDef, w |-> <<>>]}
    [] k = "Eigen" -> {[a |-> PosDef, w |-> <<>>], [a |-> <<<<0, 2, 1>>, <<-1, 1, 0>>, <<3, 0, -2>>>>, w |-> <<>>]}
    [] OTHER -> {[a |-> <<<<1, 2, -1>>, <<3, 0, 1>>, <<-2, 1, 4>>>>, w |-> <<>>]}
                \cup (IF k \in {"LU", "QR", "RRQR", "SVD"} THEN {[a |-> <<<<1, 2, 3>>, <<2, 4, 1>>, <<3, 6, 4>>>>, w |-> <<>>]} ELSE {})
                \cup (IF k \in {"QR", "RRQR", "SVD", "Bi"} THEN {[a |-> <<<<1, 2>>, <<0, 3>>, <<4, -1>>>>, w |-> <<>>]} ELSE {})

Ev(t) == [t |-> t, d |-> 0, m |-> 0, k |-> "", q |-> "", i |-> <<>>, n |-> <<>>, a |-> <<>>, w |-> <<>>]
Rows(a) == Len(a)
Cols(a) == Len(a[1])
RHS(r) == <<<<[i \in 1..r |-> <<i>>], "arr", "vec">>, <<[i \in 1..r |-> <<1 - i, 2>>], "blk", "mat">>>>

Steps ==
  UNION {{[Ev("get") EXCEPT !.d = d, !.k = kind, !.q = q] : q \in Quantities(kind)} : d \in DOMAIN decs}
  \cup (IF kind \in Solving
        THEN UNION {{[Ev("solve") EXCEPT !.d = d, !.k = kind, !.q = s, !.a = [i \in 1..Rows(decs[d]) |-> IF s = "mat" THEN <<i, 1 - i>> ELSE <<i>>]]
                       : s \in {"vec", "mat", "inv"}} : d \in DOMAIN decs}
        ELSE {})
  \cup UNION {{[Ev("poke") EXCEPT !.d = d, !.k = kind, !.q = q] : q \in Factors(kind)} : d \in DOMAIN decs}
  \cup {[Ev("write") EXCEPT !.m = m, !.i = <<1, 0>>, !.n = <<mats[m][2][1] + 3>>] : m \in DOMAIN mats}
  \cup (IF kind \in Total THEN {[Ev("build") EXCEPT !.m = m, !.k = kind] : m \in DOMAIN mats} ELSE {})

Init ==
  \E k \in (IF Random THEN {RandomElement(Kinds)} ELSE Kinds) :
  \E x \in (IF Random THEN {RandomElement(Inputs(k))} ELSE Inputs(k)) :
    /\ kind = k
    /\ mats = <<x.a, x.a>>
    /\ decs = <<x.a, x.a>>
    /\ hist = <<[Ev("mat") EXCEPT !.k = "arr", !.a = x.a], [Ev("mat") EXCEPT !.k = "blk", !.a = x.a],
                [Ev("build") EXCEPT !.m = 1, !.k = k, !.w = x.w], [Ev("build") EXCEPT !.m = 2, !.k = k, !.w = x.w]>>
    /\ left = Depth
Next ==
  /\ left > 0
  /\ left' = left - 1
  /\ UNCHANGED kind
  /\ \E e \in (IF Random THEN {RandomElement(Steps)} ELSE Steps) :
       /\ hist' = Append(hist, e)
       /\ mats' = IF e.t = "write" THEN [mats EXCEPT ![e.m][2][1] = e.n[1]] ELSE mats
       /\ decs' = IF e.t = "build" THEN Append(decs, mats[e.m]) ELSE decs
Spec == Init /\ [][Next]_vars

Write(s) == Serialize(s, IOEnv.GEN_OUT, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Emit == left = 0 => Write(ToJson(hist) \o "\n")

\* What a decomposition stands for never changes, and is what its matrix was.
Fixed == [][\A d \in DOMAIN decs : decs'[d] = decs[d]]_vars
Latest == [][Len(decs') > Len(decs) => \E m \in DOMAIN mats : decs'[Len(decs')] = mats[m]]_vars
=============================================================================
