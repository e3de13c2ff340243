------------------------------ MODULE WildTest ------------------------------
(***************************************************************************)
(* The numbers of Wild against the order of the floating-point numbers,    *)
(* given by a list of them in ascending order, and its matrix operators    *)
(* against their definitions.  Also: answers that belong together, and     *)
(* changes of them that must not be accepted.                              *)
(***************************************************************************)
EXTENDS Wild

\* the positive numbers, ascending: the least, ends of the ranges of the
\* halves, the least normal, neighbours of one, the largest, infinity
Low == <<<<0, 1>>, <<0, 2147483647>>, <<0, (-2147483647) - 1>>, <<0, -1>>, <<1, 0>>, <<1048576, 0>>, <<1072693247, -1>>, One,
         <<1072693248, 1>>, <<1072693248, -1>>, <<1073741824, 0>>, <<2146435071, -1>>, <<2146435072, 0>>>>
L == Len(Low)
All == [i \in 1..2 * L + 1 |-> IF i <= L THEN Flip(Low[L + 1 - i]) ELSE IF i = L + 1 THEN Zero ELSE Low[i - L - 1]]
I == 1..2 * L + 1

ASSUME \A i \in 1..L : Negative(Flip(Low[i])) /\ ~Negative(Low[i]) /\ Flip(Flip(Low[i])) = Low[i]
ASSUME Flip(Zero) = Zero /\ Flip(NaN) = NaN /\ Flip(One) = <<-1074790400, 0>>
ASSUME Cardinality({All[i] : i \in I}) = Len(All)
ASSUME \A i, j \in I : /\ Less(All[i], All[j]) = (i < j)
                       /\ NotAbove(All[i], All[j]) = (i <= j)
                       /\ Below(All[i], All[j]) = (i < j)
                       /\ Less(Abs(All[i]), Abs(All[j])) = ((IF i < L + 1 THEN L + 1 - i ELSE i - L - 1) < (IF j < L + 1 THEN L + 1 - j ELSE j - L - 1))
ASSUME \A i \in I : ~NotAbove(NaN, All[i]) /\ ~NotAbove(All[i], NaN) /\ ~Below(NaN, All[i]) /\ ~Below(All[i], NaN)
ASSUME Less(Zero, DefaultThr("LU")) /\ Less(DefaultThr("LU"), One)

Vals == {Zero, One, NaN}
Mats == [1..2 -> [1..2 -> Vals]]
ASSUME \A M \in Mats : /\ Transpose(Transpose(M, 2, 2), 2, 2) = M
                       /\ Symmetric(M) = (Transpose(M, 2, 2) = M)
                       /\ ZeroBelow(M, 0) = ZeroAbove(Transpose(M, 2, 2), 0)
                       /\ (ZeroBelow(M, 0) /\ ZeroAbove(M, 0)) = (M = Diag(<<M[1][1], M[2][2]>>))
                       /\ IsPermMat(M, 2) = (M \in {PermMat(<<0, 1>>), PermMat(<<1, 0>>)})
ASSUME \A p \in [1..3 -> 0..3] : IsPerm(p, 3) => IsPermMat(PermMat(p), 3)
ASSUME Cardinality({p \in [1..3 -> 0..3] : IsPerm(p, 3)}) = 6
ASSUME Descending(<<All[9], All[9], All[4]>>) /\ ~Descending(<<All[4], All[9]>>) /\ Descending(<<All[4], NaN, All[9]>>)

---------------------------------------------------------------------------
Half == <<1071644672, 0>>
Dec(k, a, seen) == [k |-> k, a |-> a, thr |-> Zero, e |-> 0, seen |-> seen, sols |-> <<>>]
Ans(b, n) == [b |-> b, n |-> n, err |-> 0, arg |-> <<>>]
A2 == <<<<One, Half>>, <<Half, One>>>>
Sv == Ans(<<<<One, Half>>>>, <<>>)
None == [q \in {} |-> Sv]
ASSUME AnswerOk(Dec("SVD", A2, "SV" :> Sv), "S", Ans(Diag(<<One, Half>>), <<>>))
ASSUME ~AnswerOk(Dec("SVD", A2, "SV" :> Sv), "S", Ans(Diag(<<Half, One>>), <<>>))
ASSUME ~AnswerOk(Dec("SVD", A2, "SV" :> Sv), "Norm", Ans(<<<<Half>>>>, <<>>))
ASSUME ~AnswerOk(Dec("SVD", A2, None), "SV", Ans(<<<<Half, One>>>>, <<>>))
ASSUME ~AnswerOk(Dec("SVD", A2, None), "SV", Ans(<<<<One, Flip(Half)>>>>, <<>>))
ASSUME AnswerOk(Dec("LU", A2, "NS" :> Ans(<<>>, <<1>>)), "L", Ans(<<<<One, Zero>>, <<Half, One>>>>, <<>>))
ASSUME ~AnswerOk(Dec("LU", A2, "NS" :> Ans(<<>>, <<1>>)), "L", Ans(<<<<One, Zero>>, <<<<1073741824, 0>>, One>>>>, <<>>))
ASSUME ~AnswerOk(Dec("LU", A2, "NS" :> Ans(<<>>, <<0>>)), "L", Ans(<<<<One, Zero>>, <<Half, One>>>>, <<>>))
ASSUME AnswerOk(Dec("LU", A2, "NS" :> Ans(<<>>, <<0>>)), "L", Ans(<<>>, <<>>))
ASSUME ~AnswerOk(Dec("LU", A2, "Pivot" :> Ans(<<>>, <<1, 0>>)), "P", Ans(PermMat(<<0, 1>>), <<>>))
ASSUME AnswerOk(Dec("Eigen", A2, "Re" :> Sv), "D", Ans(Diag(<<One, Half>>), <<>>))
ASSUME ~AnswerOk(Dec("Eigen", A2, "Re" :> Sv), "D", Ans(Diag(<<One, One>>), <<>>))
ASSUME ~AnswerOk(Dec("Eigen", A2, "Re" :> Ans(<<<<One, Zero>>>>, <<>>)), "Sqrt", Ans(A2, <<>>))
ASSUME ~SolveOk(Dec("LU", A2, "NS" :> Ans(<<>>, <<0>>)), "vec", 2, 1, Ans(<<<<One>>, <<One>>>>, <<>>))
ASSUME SolveOk(Dec("LU", A2, "NS" :> Ans(<<>>, <<1>>)), "vec", 2, 1, Ans(<<<<One>>, <<One>>>>, <<>>))
ASSUME ~SolveOk(Dec("LU", A2, "NS" :> Ans(<<>>, <<1>>)), "vec", 3, 1, Ans(<<<<One>>, <<One>>>>, <<>>))

Init == mats = <<>> /\ decs = <<>>
Next == UNCHANGED <<mats, decs>>
Ok == TRUE
=============================================================================
