------------------------------ MODULE DecTrace ------------------------------
(***************************************************************************)
(* Traces of the library against module Decomp.                            *)
(***************************************************************************)
EXTENDS Decomp, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l,
          held    \* answers that were kept by who asked: id -> contents
vars == <<mats, decs, held, l>>

Empty == [x \in {} |-> 0]
Put(f, k, v) == [i \in DOMAIN f \cup {k} |-> IF i = k THEN v ELSE f[i]]
Init == l = 1 /\ mats = Empty /\ decs = Empty /\ held = Empty

Reset == mats' = Empty /\ decs' = Empty
Mat(e) == mats' = Put(mats, e.m, e.a) /\ UNCHANGED decs
\* The owner of a matrix writes to it: no decomposition changes.
Write(e) == /\ mats' = [mats EXCEPT ![e.m][e.i[1] + 1][e.i[2] + 1] = e.n[1]]
            /\ UNCHANGED decs
Peek(e) == (IF e.a = mats[e.m] THEN TRUE ELSE FALSE) /\ UNCHANGED <<mats, decs>>

\* symmetric tridiagonal matrix from its diagonals
TriOf(mn, sec) == [i \in 1..Len(mn) |-> [j \in 1..Len(mn) |->
                    IF i = j THEN mn[i] ELSE IF i = j + 1 THEN sec[j] ELSE IF j = i + 1 THEN sec[i] ELSE 0]]
Build(e) ==
  IF e.k = "EigenTri" /\ (Len(e.i) = 0 \/ Len(e.n) # Len(e.i) - 1)
  THEN (IF e.err # 0 THEN TRUE ELSE FALSE) /\ UNCHANGED <<mats, decs>>
  ELSE \E A \in {IF e.k = "EigenTri" THEN TriOf(e.i, e.n) ELSE mats[e.m]} :
       \E d \in {[k |-> e.k, a |-> A, thr |-> e.thr, w |-> e.w, rk |-> RankBounds(A, e.w), seen |-> Empty, poked |-> FALSE]} :
         /\ IF /\ e.k # "EigenTri" => e.a = A      \* the matrix is as it was
               /\ e.err \in {0} \cup Typed
               /\ CASE Outcome(d) = "ok" -> e.err = 0
                    [] Outcome(d) = "no" -> e.err # 0
                    [] Outcome(d) = "ok unless multiple" -> e.err = 0 \/ (e.err = EMAXIT /\ ~DistinctSpectrum(A))
                    [] OTHER -> TRUE
            THEN TRUE ELSE FALSE
         /\ decs' = IF e.err = 0 THEN Put(decs, e.d, d) ELSE decs
         /\ UNCHANGED mats

\* Someone writes to a factor that the decomposition handed out.
Poke(e) ==
  /\ decs' = [decs EXCEPT ![e.d].poked = TRUE]
  /\ UNCHANGED mats

\* two answers are to the same question
SameArg(q, x, y) == x.cut = y.cut /\ (q = "Cov" => x.n = y.n)
Get(e) ==
  IF decs[e.d].poked /\ e.q \notin Own(e.k) THEN UNCHANGED <<mats, decs>>
  ELSE
  \E d \in {decs[e.d]} :
  \E x \in {[err |-> e.err, v |-> e.v, n |-> e.n, e |-> e.e, cut |-> e.cut]} :
  \E s \in {Put(d.seen, e.q, x)} :
    /\ IF /\ x.err \in {0} \cup Typed
          /\ (e.q \in DOMAIN d.seen /\ SameArg(e.q, d.seen[e.q], x)) => d.seen[e.q] = x
          /\ Answered(d, e.q, x)
          /\ Complete(d, e.q, s)
          /\ \A c \in DOMAIN decs \ {e.d} :
               Twins(decs[c], d) /\ e.q \in DOMAIN decs[c].seen /\ SameArg(e.q, decs[c].seen[e.q], x)
                 => SameAs(decs[c].seen[e.q], x, FxMul(TolA(d.a), FxInt(1024)))
       THEN TRUE ELSE FALSE
    /\ decs' = [decs EXCEPT ![e.d].seen = s]
    /\ UNCHANGED mats

Solve(e) ==
  \E d \in {decs[e.d]} :
    /\ IF /\ e.err \in {0} \cup Typed
          /\ e.a = e.b2                            \* the right-hand side is as it was
          /\ (d.poked /\ ~OwnSolution(e.k)) \/ SolveOk(d, e.q, e.a, e.err, e.v)
          /\ ("NS" \in DOMAIN d.seen /\ d.k \in {"LU", "Chol", "QR", "RRQR"} /\ (e.q = "inv" \/ Len(e.a) = Rows(d.a)))
                => ((d.seen["NS"].n = <<1>>) = (e.err = 0))
       THEN TRUE ELSE FALSE
    /\ decs' = IF e.q = "inv" /\ e.err = 0
               THEN [decs EXCEPT ![e.d].seen = Put(@, "inv", [err |-> 0, v |-> e.v, n |-> <<>>, e |-> 0, cut |-> Zero])]
               ELSE decs
    /\ UNCHANGED mats

\* What was answered belongs to who asked: nothing changes it from there on.
Again(e) == /\ IF e.err = 0 /\ held[e.m] = <<e.v, e.n>> THEN TRUE ELSE FALSE
            /\ UNCHANGED <<mats, decs>>

Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ \E e \in {Trace[l]} :
             /\ held' = IF e.t = "reset" THEN Empty
                        ELSE IF e.t \in {"get", "solve"} /\ e.m # 0 /\ e.err = 0 THEN Put(held, e.m, <<e.v, e.n>>)
                        ELSE IF e.t = "again" THEN [m \in DOMAIN held \ {e.m} |-> held[m]]
                        ELSE held
             /\ CASE e.t = "reset" -> Reset
               [] e.t = "mat" -> Mat(e)
               [] e.t = "write" -> Write(e)
               [] e.t = "peek" -> Peek(e)
               [] e.t = "build" -> Build(e)
               [] e.t = "poke" -> Poke(e)
               [] e.t = "get" -> Get(e)
               [] e.t = "solve" -> Solve(e)
               [] e.t = "again" -> Again(e)

Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
