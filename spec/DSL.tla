--------------------------------- MODULE DSL ---------------------------------
(***************************************************************************)
(* Digital straight lines: the points with 0 <= a x - b y - pos < width.   *)
(* A set of 8-connected points of the first octant is digitally straight   *)
(* iff some slope a/b with 0 <= a <= b confines it to a band of width b.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
AbsI(x) == IF x < 0 THEN -x ELSE x
MaxI(x, y) == IF x > y THEN x ELSE y
MinI(x, y) == IF x < y THEN x ELSE y
Width8(ln) == MaxI(AbsI(ln[1]), AbsI(ln[2]))
Width4(ln) == AbsI(ln[1]) + AbsI(ln[2])
Val(ln, p) == ln[1]*p[1] - ln[2]*p[2] - ln[3]
On(ln, p) == Val(ln, p) >= 0 /\ Val(ln, p) < Width8(ln)
On4(ln, p) == Val(ln, p) >= 0 /\ Val(ln, p) < Width4(ln)

RECURSIVE MaxV(_, _, _, _)
MaxV(a, b, P, i) == LET v == a*P[i][1] - b*P[i][2] IN IF i = 1 THEN v ELSE MaxI(v, MaxV(a, b, P, i-1))
RECURSIVE MinV(_, _, _, _)
MinV(a, b, P, i) == LET v == a*P[i][1] - b*P[i][2] IN IF i = 1 THEN v ELSE MinI(v, MinV(a, b, P, i-1))
\* P: sequence of points; its extent in x bounds the denominators that have to be tried
Straight(P) ==
    LET n == Len(P)
    IN  \E b \in 1..MaxI(n, 1) : \E a \in 0..b : MaxV(a, b, P, n) - MinV(a, b, P, n) <= b - 1

(* chain codes: even codes step (1,0), odd codes step (1,1) *)
RECURSIVE Ahead(_, _, _, _)
Ahead(c, i, d, p) ==    \* points after 1..d steps from index i (0-based, cyclic)
    IF d = 0 THEN <<>>
    ELSE LET q == <<p[1]+1, p[2] + (c[(i % Len(c)) + 1] % 2)>>
         IN  <<q>> \o Ahead(c, i+1, d-1, q)
RECURSIVE Behind(_, _, _, _)
Behind(c, i, d, p) ==
    IF d = 0 THEN <<>>
    ELSE LET q == <<p[1]-1, p[2] - (c[((i - 1 + Len(c)) % Len(c)) + 1] % 2)>>
         IN  <<q>> \o Behind(c, i-1 + (IF i = 0 THEN Len(c) ELSE 0), d-1, q)
Around(c, i, d) == <<<<0, 0>>>> \o Ahead(c, i, d, <<0, 0>>) \o Behind(c, i, d, <<0, 0>>)
CodesAround(c, i, d) == {c[((i + k) % Len(c)) + 1] : k \in 0..(d-1)} \cup {c[((i - k + 2*Len(c)) % Len(c)) + 1] : k \in 1..d}
\* the d steps on both sides exist, use two directions at most and are straight
Symmetric(c, i, d, closed) ==
    /\ IF closed THEN TRUE ELSE d <= i /\ d <= Len(c) - i
    /\ Cardinality(CodesAround(c, i, d)) <= 2
    /\ Straight(Around(c, i, d))
=============================================================================
