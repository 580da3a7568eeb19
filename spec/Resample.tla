------------------------------ MODULE Resample ------------------------------
(***************************************************************************)
(* Resampling of polylines whose segments have integral length, so that    *)
(* arc lengths are exact.  A[i] is the arc length at point i, L the total. *)
(***************************************************************************)
EXTENDS Geometry

Dist(a, b) == LET dx == b[1]-a[1]  dy == b[2]-a[2] IN Isqrt(dx*dx + dy*dy)
RECURSIVE ArcsFrom(_, _, _)
ArcsFrom(p, i, acc) == IF i > Len(p) THEN acc
                       ELSE ArcsFrom(p, i+1, Append(acc, acc[i-1] + Dist(p[i-1], p[i])))
Arcs(p) == ArcsFrom(p, 2, <<0>>)
Steps(L, d) == CeilDiv(L, d)
\* the point at arc length num/den, in 1/1000 units
PointAt(p, A, num, den) ==
    LET i == CHOOSE k \in 1..(Len(p)-1) : A[k] < A[k+1] /\ den*A[k] <= num /\ num <= den*A[k+1]
        n == A[i+1] - A[i]
        c(k) == 1000*p[i][k] + (1000*(p[i+1][k]-p[i][k])*(num - den*A[i])) \div (den*n)
    IN  <<c(1), c(2)>>

\* linear interpolation: the same number of equal steps along the polyline
LinearResampled(p, A, d) ==
    LET L == A[Len(p)]
        n == Steps(L, d)
        big(v) == <<1000*v[1], 1000*v[2]>>
    IN  IF Len(p) <= 2 THEN [i \in 1..Len(p) |-> big(p[i])]
        ELSE IF L = 0 THEN <<big(p[1]), big(p[Len(p)])>>
        ELSE [k \in 1..(n+1) |-> PointAt(p, A, (k-1)*L, n)]

(* Least squares: the polyline with n equal parameter steps that is nearest to p in the     *)
(* mean (end points fixed if p is open).  Its points c[k] solve (of open polylines those   *)
(* not next to an end point, whose equations the code weights in a way of its own)          *)
(*   (c[k-1] + 4 c[k] + c[k+1]) / 6  =  integral of p(t) hat_k(t) dt,                       *)
(* hat_k being 1 at t = k and 0 outside of k-1..k+1 (t = arc length * n / L).               *)
\* integral over step k of p times the distance to the knot k-1 (up) or k (down), in
\* 1/1000 units, times 6; positions S = n * arc length, knots at multiples of L
Weighted(p, A, n, k, up) ==
    LET L == A[Len(p)]
        B == SetToSortSeq({(k-1)*L, k*L} \cup {s \in {n*A[i] : i \in 1..Len(p)} : (k-1)*L < s /\ s < k*L}, <)
        F(S2, j) == PointAt(p, A, S2, 2*n)[j] * (IF up THEN S2 - 2*(k-1)*L ELSE 2*k*L - S2)
        Piece(i, j) == LET a == B[i]  b == B[i+1]
                       IN  ((b - a) * ((F(2*a, j) + 4*F(a+b, j) + F(2*b, j)) \div (2*L))) \div L
        Total(j) == FoldSet(LAMBDA i, s : s + Piece(i, j), 0, 1..(Len(B)-1))
    IN  <<Total(1), Total(2)>>
\* six times the integral of p times hat_k (periodic if cl)
Moment(p, A, n, k, cl) ==
    LET a == Weighted(p, A, n, IF k = 0 THEN n ELSE k, TRUE)
        b == Weighted(p, A, n, k+1, FALSE)
    IN  <<a[1] + b[1], a[2] + b[2]>>
=============================================================================
