------------------------------ MODULE HeapTrace ------------------------------
(***************************************************************************)
(* Traces of the library against module Heap: each line is one call with   *)
(* its arguments, its outcome, and the contents (as read back through the  *)
(* library) of every live object that the call changed or created.         *)
(***************************************************************************)
EXTENDS Heap, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
vars == <<st, ob, l>>

Init == l = 1 /\ st = (0 :> <<>>) /\ ob = (0 :> [k |-> "nil", s |-> 0, o |-> 0, n |-> 0])

\* A new script starts from an empty heap.
Reset == /\ st' = (0 :> <<>>) /\ ob' = (0 :> [k |-> "nil", s |-> 0, o |-> 0, n |-> 0])

Only(f, S) == [i \in S |-> f[i]]
\* Forget the objects that the driver has dropped (before this call).
Keep(o, e) == LET G == {e.gone[i] : i \in 1..Len(e.gone)} IN IF G = {} THEN o ELSE Only(o, DOMAIN o \ G)
Live(s, o) == LET S == {o[x].s : x \in DOMAIN o} IN IF S = DOMAIN s THEN s ELSE Only(s, S)

\* The objects seen to change are the ones whose storage the call had to
\* change, and they changed as they had to.
Observed(e, T) ==
  LET ids == {e.chg[i][1] : i \in 1..Len(e.chg)}
  IN /\ \A i \in 1..Len(e.chg) : ob'[e.chg[i][1]].s \in T /\ e.chg[i][2] = View(e.chg[i][1])'
     /\ \A x \in DOMAIN ob' \ ids : ob'[x].s \in T => x \in DOMAIN ob /\ View(x)' = View(x)

Call(e) ==
  LET r == Effect(e)
      o == AfterOb(r, e.n, e.k)
      made == r.err = {} /\ r.new # <<>>
  IN \* (IF, and not a conjunct, so that TLC does not branch on disjunctions)
     /\ IF /\ IF r.err \subseteq {EBROKE} THEN {e.err} = (IF r.err = {} THEN {0} ELSE r.err) ELSE e.err \in Typed
           /\ r.ret = e.ret
           /\ made = (e.n # 0)
           /\ e.k = "diag" => (r.new[1] = "share" \/ IsDiag(r.new[2]))
        THEN TRUE ELSE FALSE
     /\ ob' = Keep(o, e)
     /\ st' = Live(AfterSt(r, e.n, e.k), ob')
     /\ IF Observed(e, {r.upd[i][1] : i \in 1..Len(r.upd)}
                        \cup IF ~made THEN {} ELSE IF r.new[1] = "fresh" THEN {e.n} ELSE {ob'[e.n].s})
        THEN TRUE ELSE FALSE

Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        \* (bound by \E and not by LET, so that priming does not reach it)
        /\ \E e \in {Trace[l]} : IF e.t = "reset" THEN Reset ELSE Call(e)

Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
