------------------------------ MODULE SplineFit ------------------------------
(***************************************************************************)
(* The cubic spline that fits a polyline best.  The polyline, parametrised *)
(* by arc length, is divided into n parts of equal length; the control     *)
(* points of the spline with uniform knots minimise the integral of the    *)
(* squared distance.  At the minimum the normal equations                  *)
(*     sum over l of B7(l) c[k+l]  =  integral of B3(t-k) p(t)             *)
(* hold for every knot k, where B7 is the spline of degree seven.  For a   *)
(* polyline that is linear between unit steps, q of which make one part,   *)
(* the right side is a weighted mean of its points at the unit steps (B3   *)
(* is refined until its knots are the unit steps).  Open polylines and     *)
(* their control points continue by point reflection at both ends, closed  *)
(* ones periodically.                                                       *)
(***************************************************************************)
EXTENDS Geometry
B7 == <<1, 120, 1191, 2416, 1191, 120, 1>>          \* at -3..3, sum 5040
B5 == <<1, 26, 66, 26, 1>>                          \* at -2..2, sum 120
Two == <<1, 4, 6, 4, 1>>                            \* refinement of B3, sum 16
SumTo(n, f(_)) == FoldSet(LAMBDA i, acc : acc + f(i), 0, 1..n)
\* product of the filters a and b, the taps of a being s steps apart
Product(a, b, s) == TLCEval([k \in 1..(s*(Len(a)-1) + Len(b)) |->
    SumTo(Len(a), LAMBDA i : LET j == k - s*(i-1) IN IF j \in 1..Len(b) THEN a[i]*b[j] ELSE 0)])
W1 == B5
W2 == Product(Two, W1, 1)
W4 == Product(Two, W2, 2)
Filter(q) == CASE q = 1 -> W1 [] q = 2 -> W2 [] q = 4 -> W4
Total(w) == SumTo(Len(w), LAMBDA i : w[i])
\* the filters reproduce straight lines
ASSUME \A q \in {1, 2, 4} : LET w == Filter(q) IN SumTo(Len(w), LAMBDA i : w[i]*i) = Total(w) * ((Len(w)+1) \div 2)
ASSUME Total(B7) = 5040 /\ Total(W1) = 120 /\ Total(W2) = 1920 /\ Total(W4) = 30720

\* the points at the unit steps, coordinates times 60 (segments of lengths 0 to 5)
StepLen(a, b) == Isqrt((a[1]-b[1])^2 + (a[2]-b[2])^2)
Part(a, b) == LET n == StepLen(a, b)
              IN  [i \in 1..n |-> <<60*a[1] + (60*i*(b[1]-a[1])) \div n, 60*a[2] + (60*i*(b[2]-a[2])) \div n>>]
RECURSIVE Steps(_, _, _)
Steps(p, i, acc) == IF i > Len(p) THEN acc ELSE Steps(p, i+1, acc \o Part(p[i-1], p[i]))
UnitSteps(p) == Steps(p, 2, <<<<60*p[1][1], 60*p[1][2]>>>>)
IsClosed(p) == p[1] = p[Len(p)]
\* element i (from 0) of the continued sequence s, which has elements 0..n (periodic: n is 0 again)
Ext(s, n, closed, i, d) ==
    IF closed THEN s[(i % n) + 1][d]
    ELSE IF i < 0 THEN 2*s[1][d] - s[1-i][d]
    ELSE IF i > n THEN 2*s[n+1][d] - s[2*n - i + 1][d]
    ELSE s[i+1][d]
\* r: the control points in 1/1000
Equations(p, n, c) ==
    LET s == TLCEval(UnitSteps(p))
        q == (Len(s) - 1) \div n
        w == TLCEval(Filter(q))
        S == Total(w)
        h == Len(w) \div 2
        cl == IsClosed(p)
    IN  \A k \in 0..(IF cl THEN n-1 ELSE n) : \A d \in 1..2 :
          LET left == SumTo(7, LAMBDA l : B7[l] * Ext(c, n, cl, k + l - 4, d)) \div 5040
              x == SumTo(Len(w), LAMBDA j : w[j] * Ext(s, Len(s)-1, cl, q*k + j - h - 1, d))
              right == (50 * (x \div S) + (50 * (x % S)) \div S) \div 3
          IN  Abs(left - right) <= 3
FitOK(p, n, r) ==
    IF IsClosed(p) THEN /\ Len(r) = n + 1 /\ r[1] = r[n+1]
                        /\ Equations(p, n, SubSeq(r, 1, n))
    ELSE /\ Len(r) = n + 3
         /\ \A d \in 1..2 : /\ Abs(r[1][d] + r[3][d] - 2*r[2][d]) <= 2
                            /\ Abs(r[n+3][d] + r[n+1][d] - 2*r[n+2][d]) <= 2
         /\ Equations(p, n, SubSeq(r, 2, n+2))
Fittable(p, n) == Len(p) >= 4 /\ n >= 3
=============================================================================
