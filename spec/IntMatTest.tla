----------------------------- MODULE IntMatTest -----------------------------
(* IntMat against the definition of a determinant by expansion, on all     *)
(* 2x2 and a spread of larger matrices, with and without java/IntMat.java. *)
EXTENDS IntMat, FiniteSets
RECURSIVE DetBy(_)
Drop1(A, j) == [i \in 1..Len(A) - 1 |-> [c \in 1..Len(A) - 1 |-> A[i + 1][IF c < j THEN c ELSE c + 1]]]
DetBy(A) == IF Len(A) = 0 THEN 1
            ELSE FoldLeft(LAMBDA s, j : s + (IF j % 2 = 1 THEN 1 ELSE -1) * A[1][j] * DetBy(Drop1(A, j)), 0, [j \in 1..Len(A) |-> j])
Ent(n, s) == [i \in 1..n |-> [j \in 1..n |-> ((i * 7 + j * 3 + i * j * s + s * s) % 9) - 4]]
Two == {<<<<a, b>>, <<c, d>>>> : a \in -2..2, b \in -2..2, c \in -2..2, d \in -2..2}
Low(n, r, s) == IMul([i \in 1..n |-> [j \in 1..r |-> ((i * j * s + i) % 5) - 2 + (IF i = j THEN 7 ELSE 0)]],
                     [i \in 1..r |-> [j \in 1..n |-> ((i + 2 * j * s) % 5) - 2 + (IF i = j THEN 7 ELSE 0)]])
ASSUME \A A \in Two : Bounded(A) /\ Det(A) = DetBy(A)
ASSUME \A n \in 1..5 : \A s \in 0..12 : LET A == Ent(n, s) IN
         Bounded(A) => Det(A) = DetBy(A) /\ (RankBelow(A) = n) = (Det(A) # 0)
ASSUME \A n \in 2..6 : \A r \in 1..n : \A s \in 1..3 : RankBelow(Low(n, r, s)) <= r
ASSUME \A r \in 1..4 : RankBelow(Low(6, r, 1)) = r
ASSUME \A n \in 0..3000 : LET r == SqrtUp(n) IN r * r >= n /\ (r = 1 \/ (r - 1) * (r - 1) < n)
ASSUME IMul(<<<<1, 2>>, <<3, 4>>>>, <<<<5, 6>>, <<7, 8>>>>) = <<<<19, 22>>, <<43, 50>>>>
ASSUME \A A \in Two : DistinctSpectrum(A) = ((A[1][1] - A[2][2]) * (A[1][1] - A[2][2]) + 4 * A[1][2] * A[2][1] # 0)
ASSUME DistinctSpectrum(<<<<1, 5, 2>>, <<0, 2, 7>>, <<0, 0, 3>>>>) /\ ~DistinctSpectrum(<<<<1, 5, 2>>, <<0, 2, 7>>, <<0, 0, 1>>>>)
ASSUME PrintT(<<"digest", [n \in 1..5 |-> [s \in 0..12 |-> <<ElimMod(Ent(n, s), P1), ElimMod(Ent(n, s), P2), MinorBound(Ent(n, s))>>]]>>)
VARIABLE x
Init == x = 0
Next == x' = x
=============================================================================
