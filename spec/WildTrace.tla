----------------------------- MODULE WildTrace -----------------------------
(***************************************************************************)
(* Traces of the library against module Wild.                              *)
(***************************************************************************)
EXTENDS Wild, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
vars == <<mats, decs, l>>

Empty == [x \in {} |-> 0]
Put(f, k, v) == [i \in DOMAIN f \cup {k} |-> IF i = k THEN v ELSE f[i]]
Init == l = 1 /\ mats = Empty /\ decs = Empty

Reset == mats' = Empty /\ decs' = Empty
Mat(e) == mats' = Put(mats, e.m, e.a) /\ UNCHANGED decs
Write(e) == mats' = [mats EXCEPT ![e.m][e.n[1]][e.n[2]] = e.b[1][1]] /\ UNCHANGED decs

\* a build shows the matrix afterwards: it is as it was
Build(e) ==
  \E A \in {IF e.k = "EigenTri" THEN e.a ELSE mats[e.m]} :
    /\ IF /\ e.a = A
          /\ e.err \in {0} \cup Typed
          /\ CASE Outcome(e.k, A) = "ok" -> e.err = 0
               \* a threshold that is not a number refuses nothing
               [] Outcome(e.k, A) = "no" /\ (e.q = "nan" => ~Square(A)) -> e.err # 0
               [] OTHER -> TRUE
       THEN TRUE ELSE FALSE
    \* decompositions of the same numbers, however they are stored, give the same answers
    /\ decs' = IF e.err # 0 THEN decs
               ELSE LET thr == IF e.b = <<>> THEN DefaultThr(e.k) ELSE e.b[1][1]
                        twins == {i \in DOMAIN decs : decs[i].k = e.k /\ decs[i].a = A /\ decs[i].e = e.b}
                    IN Put(decs, e.d, [k |-> e.k, a |-> A, thr |-> thr, e |-> e.b,
                                       seen |-> IF twins = {} THEN Empty ELSE decs[CHOOSE i \in twins : TRUE].seen,
                                       sols |-> IF twins = {} THEN Empty ELSE decs[CHOOSE i \in twins : TRUE].sols])
    /\ UNCHANGED mats

Get(e) ==
  \E d \in {decs[e.d]} : \E x \in {[err |-> e.err, b |-> e.b, n |-> e.n, arg |-> e.a]} :
    /\ IF /\ x.err \in {0} \cup Typed
          /\ (e.q \in DOMAIN d.seen) => (d.seen[e.q].arg = x.arg => d.seen[e.q] = x)
          /\ AnswerOk(d, e.q, x)
       THEN TRUE ELSE FALSE
    /\ decs' = [decs EXCEPT ![e.d].seen = Put(@, e.q, x)]
    /\ UNCHANGED mats

\* Each column of a solution is that of its column of the right-hand side,
\* whatever the other columns are and whenever it is solved for.
Solve(e) ==
  \E d \in {decs[e.d]} : \E x \in {[err |-> e.err, b |-> e.b, n |-> e.n]} :
  \E c \in {IF e.q = "inv" THEN 1 ELSE Len(e.a[1])} :
  \E keys \in {[j \in 1..c |-> <<e.q, e.m, IF e.q = "inv" THEN <<>> ELSE [i \in 1..Len(e.a) |-> e.a[i][j]]>>]} :
  \E cols \in {[j \in 1..c |-> <<e.err, IF e.q = "inv" \/ e.err # 0 THEN e.b ELSE <<[i \in 1..Len(e.b) |-> e.b[i][j]]>>>>]} :
    /\ IF /\ x.err \in {0} \cup Typed
          /\ e.a = e.a2                         \* the right-hand side is as it was
          /\ SolveOk(d, e.q, Len(e.a), IF e.q = "inv" THEN Size(d) ELSE c, x)
          /\ \A j \in 1..c : \A i \in 1..j - 1 : keys[i] = keys[j] => cols[i] = cols[j]
          /\ \A j \in 1..c : keys[j] \in DOMAIN d.sols => d.sols[keys[j]] = cols[j]
       THEN TRUE ELSE FALSE
    /\ decs' = [decs EXCEPT ![e.d].sols = [k \in DOMAIN @ \cup {keys[j] : j \in 1..c} |->
                                            IF k \in DOMAIN @ THEN @[k] ELSE cols[CHOOSE j \in 1..c : keys[j] = k]]]
    /\ UNCHANGED mats

Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ \E e \in {Trace[l]} :
             CASE e.t = "reset" -> Reset
               [] e.t = "mat" -> Mat(e)
               [] e.t = "write" -> Write(e)
               [] e.t = "build" -> Build(e)
               [] e.t = "get" -> Get(e)
               [] e.t = "solve" -> Solve(e)

Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
