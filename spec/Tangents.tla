------------------------------ MODULE Tangents ------------------------------
(***************************************************************************)
(* Directions and curvatures along polylines.  Angles are integers in      *)
(* units of 1/10000 rad, arc lengths in 1/100 px; points in quarter pixels *)
(* (Geometry).  Sine, cosine and the exponential function are evaluated in *)
(* fixed-point arithmetic by their series.                                 *)
(***************************************************************************)
EXTENDS Geometry
Pi == 31416
TwoPi == 62832
\* ---------------------------------------------------------------- series
TrigScale == 20000
RECURSIVE Series(_, _, _, _)
Series(x, k, t, acc) ==      \* t = x^k/k! (scaled); adds every second term with alternating signs
    IF (Abs(t) <= 1 /\ k > 4) \/ k > 16 THEN acc
    ELSE LET t1 == (t * x) \div (10000 * (k+1))
             t2 == (t1 * x) \div (10000 * (k+2))
         IN  Series(x, k+2, -t2, acc - t2)
CosS(x) == Series(x, 0, TrigScale, TrigScale)                       \* |x| <= pi/2
SinS(x) == LET t == (TrigScale * x) \div 10000 IN Series(x, 1, t, t)
Unit(a) ==                   \* <<cos a, sin a>>, scaled by TrigScale
    LET x == ((a + Pi) % TwoPi) - Pi
    IN  IF x > Pi \div 2 THEN <<-CosS(Pi - x), SinS(Pi - x)>>
        ELSE IF x < -(Pi \div 2) THEN <<-CosS(-Pi - x), SinS(-Pi - x)>>
        ELSE <<CosS(x), SinS(x)>>
\* exp(-n/d), scaled by 10000: the eighth power of exp(-n/(8d)), which is evaluated by its series
RECURSIVE ExpSeries(_, _, _, _)
ExpSeries(x, k, t, acc) == IF k > 8 \/ t = 0 THEN acc
                           ELSE LET u == -((t * x) \div (10000 * k)) IN ExpSeries(x, k+1, u, acc + u)
Sq10(x) == (x * x + 5000) \div 10000
ExpNeg(n, d) == LET x == (n * 1250) \div d IN IF n > 12*d THEN 0 ELSE Sq10(Sq10(Sq10(ExpSeries(x, 1, 10000, 10000))))

\* ---------------------------------------------------------------- vectors
Sub(a, b) == <<a[1]-b[1], a[2]-b[2]>>
Dot2(a, b) == a[1]*b[1] + a[2]*b[2]
Cross2(a, b) == a[1]*b[2] - a[2]*b[1]
L1(v) == Abs(v[1]) + Abs(v[2])
\* a is the direction of the vector v (up to tol/10000 rad)
Along(a, v, tol) == LET u == Unit(a) IN /\ Dot2(u, v) > 0
                                         /\ Abs(Cross2(u, v)) <= 2*(tol+8) * L1(v)
\* the arc length (1/100 px) of point i
ArcTo(p, i) == Length(SubSeq(p, 1, i))

\* ------------------------------------------------- tangents and curvatures
Middles(p, dx, skip) ==      \* (1-based) middle points for which there are values
    (skip + dx + 1)..(Len(p) - dx - skip)
Chord(p, i, dx) == Sub(p[i+dx], p[i-dx])
TangentPoints(p, dx, skip) == SetToSortSeq({i \in Middles(p, dx, skip) : L1(Chord(p, i, dx)) # 0}, LAMBDA a, b : a < b)
CurvaturePoints(p, dx, skip) ==
    SetToSortSeq({i \in Middles(p, dx, skip) : L1(Sub(p[i], p[i-dx])) # 0 /\ L1(Sub(p[i+dx], p[i])) # 0}, LAMBDA a, b : a < b)
\* successive angles never jump by more than half a turn (nor does the first one from zero)
Continuous(as, first) == \A i \in 1..Len(as) : Abs(as[i] - (IF i = 1 THEN first ELSE as[i-1])) <= Pi + 3
TangentsOK(p, dx, skip, r) ==
    LET I == TangentPoints(p, dx, skip)
    IN  /\ Len(r) = Len(I)
        /\ \A k \in 1..Len(I) : /\ Abs(r[k][1] - ArcTo(p, I[k])) <= I[k]
                                /\ Along(r[k][2], Chord(p, I[k], dx), 10)
        /\ Continuous([k \in 1..Len(r) |-> r[k][2]], 0)
\* the curvature: turning angle between both halves of the chord per mean length
Fine(v) == Isqrt(Dot2(v, v) * 10000)       \* length in 1/400 px
CurvaturesOK(p, dx, skip, r) ==
    LET I == CurvaturePoints(p, dx, skip)
    IN  /\ Len(r) = Len(I)
        /\ \A k \in 1..Len(I) :
             LET i == I[k]
                 s1 == Sub(p[i], p[i-dx])
                 s2 == Sub(p[i+dx], p[i])
                 len == Fine(s1) + Fine(s2)
                 turn == (r[k][2] * len) \div 800
             IN  /\ Abs(r[k][1] - ArcTo(p, i)) <= i
                 /\ Abs(turn) <= Pi + 20 + (Abs(r[k][2]) + len) \div 400
                 /\ Along(turn, <<Dot2(s1, s2), Cross2(s1, s2)>>, 20 + (Abs(r[k][2]) + len) \div 400)

\* ------------------------------------------------- continuation of polylines
\* only for polylines whose segments have integral lengths (in quarter pixels)
ILen(v) == Isqrt(Dot2(v, v))
RECURSIVE Arcs(_, _, _)
Arcs(p, i, acc) == IF i > Len(p) THEN acc ELSE Arcs(p, i+1, Append(acc, acc[i-1] + ILen(Sub(p[i], p[i-1]))))
ArcList(p) == Arcs(p, 2, <<0>>)
\* before its start and behind its end an open polyline continues by its point reflection, a closed one by itself;
\* a sequence of <<point, arc length>>
Continued(p) ==
    LET n == Len(p)
        s == ArcList(p)
        T == s[n]
        closed == p[1] = p[n]
        before == [k \in 1..(n-1) |-> IF closed THEN <<p[k], s[k] - T>> ELSE <<Sub(<<2*p[1][1], 2*p[1][2]>>, p[n+1-k]), -s[n+1-k]>>]
        behind == [k \in 1..(n-1) |-> IF closed THEN <<p[k+1], T + s[k+1]>> ELSE <<Sub(<<2*p[n][1], 2*p[n][2]>>, p[n-k]), 2*T - s[n-k]>>]
    IN  before \o [k \in 1..n |-> <<p[k], s[k]>>] \o behind
\* the point at arc length t as <<x, y, d>> (coordinates x/d, y/d)
PointAt(c, t) ==
    LET k == CHOOSE k \in 2..Len(c) : c[k-1][2] <= t /\ t <= c[k][2] /\ c[k-1][2] < c[k][2]
        d == c[k][2] - c[k-1][2]
        o == t - c[k-1][2]
    IN  <<c[k-1][1][1]*(d-o) + c[k][1][1]*o, c[k-1][1][2]*(d-o) + c[k][1][2]*o, d>>
ChordsOK(p, D, r) ==
    LET c == Continued(p)
        s == ArcList(p)
    IN  /\ Len(r) = Len(p)
        /\ \A i \in 1..Len(p) :
             LET a == PointAt(c, s[i] - D)
                 b == PointAt(c, s[i] + D)
                 v == <<b[1]*a[3] - a[1]*b[3], b[2]*a[3] - a[2]*b[3]>>
                 u == Unit(r[i][2])
                 w == <<u[1] \div 4, u[2] \div 4>>
             IN  /\ Abs(r[i][1] - 25 * s[i]) <= 1
                 /\ L1(v) # 0 => /\ Dot2(w, v) > 0
                                 /\ Abs(Cross2(w, v)) <= 15 * L1(v)
        /\ Continuous([k \in 1..Len(r) |-> r[k][2]], 0)

\* magnitude of the third derivative (1/1000): symmetric difference at distances D and 2D
Hundred(c, t) == LET a == PointAt(c, t) IN <<(100 * a[1]) \div a[3], (100 * a[2]) \div a[3]>>
ThirdOK(p, D, r) ==
    LET c == Continued(p)
        s == ArcList(p)
    IN  /\ Len(r) = Len(p)
        /\ \A i \in 1..Len(p) :
             LET b2 == Hundred(c, s[i] + 2*D)  b1 == Hundred(c, s[i] + D)
                 a1 == Hundred(c, s[i] - D)    a2 == Hundred(c, s[i] - 2*D)
                 v == <<b2[1] - 2*b1[1] + 2*a1[1] - a2[1], b2[2] - 2*b1[2] + 2*a1[2] - a2[2]>>
             IN  /\ Abs(r[i][1] - 25 * s[i]) <= 1
                 /\ Abs(r[i][2]*D*D*D - 80*Isqrt(Dot2(v, v))) <= 800 + D*D*D

\* ------------------------------------------------- smoothed tangents
\* directions of the segments within R (1/100 px) of point i (cyclic: the polyline is closed by a last segment)
Around(p, i, R, cyclic) ==
    LET n == Len(p)
        m == IF cyclic THEN n ELSE n-1
        q == IF cyclic THEN Append(p, p[1]) ELSE p
        a == ArcTo(p, i)
        T == Length(q)
        From(k) == ArcTo(q, k) - n
        To(k) == ArcTo(q, k+1) + n
        Near(k, sh) == From(k) + sh <= a + R /\ To(k) + sh >= a - R
    IN  {Sub(q[k+1], q[k]) : k \in {k \in 1..m : L1(Sub(q[k+1], q[k])) # 0
                                     /\ (Near(k, 0) \/ (cyclic /\ (Near(k, T) \/ Near(k, -T))))}}
\* all within less than a right angle of one of them: smoothing cannot leave the cone they span
HalfPlane(S) == \E s \in S : \A t \in S : Dot2(s, t) > 0
InCone(a, S) == LET u == Unit(a) IN /\ \E s \in S : Dot2(u, s) > 0
                                    /\ \E s \in S : Cross2(u, s) >= -40 * L1(s)
                                    /\ \E s \in S : Cross2(u, s) <= 40 * L1(s)
SmoothOK(p, R, cyclic, r) ==
    /\ Len(r) = Len(p)
    /\ \A i \in 1..Len(p) :
         LET S == Around(p, i, R, cyclic)
         IN  /\ Abs(r[i][1] - ArcTo(p, i)) <= i
             /\ (S # {} /\ HalfPlane(S)) => InCone(r[i][2], S)
    /\ Continuous([k \in 1..Len(r) |-> r[k][2]], 0)
\* walking the other way, all directions are opposite
OppositeOK(p, R, cyclic, r, b) ==
    /\ Len(b) = Len(r)
    /\ \A i \in 1..Len(p) :
         LET S == Around(p, i, R, cyclic)
             d == (b[Len(b)+1-i][2] - r[i][2] + Pi) % TwoPi
         IN  (S # {} /\ HalfPlane(S)) => (d <= 6 \/ d >= TwoPi - 6)

\* ------------------------------------------------- composition
\* angles here are in 1/1000 of pi/8; b appended to a by shifting, or reversed for a negative length
TurnUnit == 16000
Appended(b, off, len) ==
    IF len > 0 THEN [i \in 1..Len(b) |-> <<b[i][1] + off, b[i][2]>>]
    ELSE [i \in 1..Len(b) |-> <<off - len - b[Len(b)+1-i][1], b[Len(b)+1-i][2] + TurnUnit \div 2>>]
\* r shows the expected values up to whole turns, as a continuation of the angle first
SameTangents(r, e, first) ==
    /\ Len(r) = Len(e)
    /\ \A i \in 1..Len(e) :
         LET d == (r[i][2] - e[i][2]) % TurnUnit
         IN  /\ r[i][1] = e[i][1]
             /\ d <= 2 \/ d >= TurnUnit - 2
             /\ Abs(r[i][2] - (IF i = 1 THEN first ELSE r[i-1][2])) <= (TurnUnit \div 2) + 4
RECURSIVE Composed(_, _, _)
Composed(ls, i, off) == IF i > Len(ls) THEN <<>>
                        ELSE Appended(ls[i][1], off, ls[i][2]) \o Composed(ls, i+1, off + Abs(ls[i][2]))

\* ------------------------------------------------- smoothing of values
\* positions in quarter pixels, standard deviation s quarter pixels, weights scaled by 10000
Weight(d, s) == ExpNeg(d*d, 2*s*s)
Radius(s, order) == 4 * CeilDiv(s * (6 + order), 8)     \* a whole number of pixels
Window(v, pos, R) == {k \in 1..Len(v) : Abs(v[k][1] - pos) <= R}
SumOver(S, f(_)) == FoldSet(LAMBDA k, acc : acc + f(k), 0, S)
\* 1000 times the smoothed value at pos
SmoothNum(v, pos, s) == SumOver(Window(v, pos, Radius(s, 0)), LAMBDA k : Weight(v[k][1] - pos, s) * v[k][2])
SmoothDen(v, pos, s) == SumOver(Window(v, pos, Radius(s, 0)), LAMBDA k : Weight(v[k][1] - pos, s))
Smoothed(v, pos, s) == LET n == SmoothNum(v, pos, s)  d == SmoothDen(v, pos, s) IN (n * 100) \div (d \div 10)
\* 1000 times the (negative) first derivative: the half of the filter beyond an end repeats the value there
Derived(v, i, s) ==
    LET W == Window(v, v[i][1], Radius(s, 1))
        w(k) == -(v[k][1] - v[i][1]) * Weight(v[k][1] - v[i][1], s)
        up == SumOver({k \in W : k >= i}, LAMBDA k : w(k))
        down == SumOver({k \in W : k < i}, LAMBDA k : w(k))
        edge == IF Abs(down) > Abs(up) THEN v[Len(v)][2] ELSE v[1][2]
        sum == SumOver(W, LAMBDA k : w(k) * v[k][2]) - (up + down) * edge
    IN  (((sum * 16) \div (s*s*s)) * 100) \div 2507

\* ------------------------------------------------- parabola fits
\* points <<al, theta>>: al integral, theta in 1/8 rad; parameters q in 1/1000
Pow(x, k) == IF k = 0 THEN 1 ELSE x ^ k
Moment(d, k) == FoldSet(LAMBDA i, acc : acc + Pow(d[i][1], k), 0, 1..Len(d))
MomentT(d, k) == FoldSet(LAMBDA i, acc : acc + Pow(d[i][1], k) * d[i][2], 0, 1..Len(d))
Solvable(d) == Cardinality({d[i][1] : i \in 1..Len(d)}) >= 3
FitOK(d, q) == \A k \in 0..2 :
    Abs(q[1]*Moment(d, k+2) + q[2]*Moment(d, k+1) + q[3]*Moment(d, k) - 125*MomentT(d, k))
      <= Moment(d, k+2) + Moment(d, k+1) + Moment(d, k) + 1
Value(q, x) == q[1]*x*x + q[2]*x + q[3]
\* sum of squared errors (1/1000) of a list, and how far the rounded parameters can be off
Errors(d, q) == FoldSet(LAMBDA i, acc : acc + 2 * ((((Value(q, d[i][1]) - 125*d[i][2]) \div 4)^2) \div 125), 0, 1..Len(d))
ErrorTol(d, q) == FoldSet(LAMBDA i, acc : acc + 3 + (2*Abs(Value(q, d[i][1]) - 125*d[i][2])*(d[i][1]*d[i][1] + d[i][1] + 6) + (d[i][1]*d[i][1] + d[i][1] + 6)^2) \div 1000, 2, 1..Len(d))
=============================================================================
