------------------------------ MODULE Geometry ------------------------------
(***************************************************************************)
(* Exact planar geometry on integer points.  All coordinates are quarter   *)
(* pixels (U = 4 units per pixel); the y axis points downwards as in the   *)
(* image.  Pixel <<px,py>> is the square of side U centred at              *)
(* <<U*px, U*py>>.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt, SequencesExt

U == 4

Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
FloorDiv(a, b) == a \div b            \* TLA+ \div is floor division (b > 0)
CeilDiv(a, b) == -((-a) \div b)

\* Cross product of (b-a) and (c-a), y down.
Cross(a, b, c) == (b[1]-a[1])*(c[2]-a[2]) - (b[2]-a[2])*(c[1]-a[1])

\* Twice the partial area of a polyline: positive for closed polygons that run
\* counter-clockwise as seen in the image (y down).
RECURSIVE Area2From(_, _, _)
Area2From(p, i, acc) ==
    IF i > Len(p) THEN acc
    ELSE Area2From(p, i+1, acc + p[i][1]*p[i-1][2] - p[i][2]*p[i-1][1])
Area2(p) == Area2From(p, 2, 0)

Rev(p) == [i \in 1..Len(p) |-> p[Len(p)+1-i]]

\* Bounding box <<x0,y0,x1,y1>> of a nonempty point sequence.
BBox(p) == << Min({p[i][1] : i \in 1..Len(p)}), Min({p[i][2] : i \in 1..Len(p)}),
              Max({p[i][1] : i \in 1..Len(p)}), Max({p[i][2] : i \in 1..Len(p)}) >>
BBoxUnion(a, b) == << MinI(a[1],b[1]), MinI(a[2],b[2]), MaxI(a[3],b[3]), MaxI(a[4],b[4]) >>

OnSegment(v, a, b) ==
    /\ Cross(a, b, v) = 0
    /\ MinI(a[1],b[1]) <= v[1] /\ v[1] <= MaxI(a[1],b[1])
    /\ MinI(a[2],b[2]) <= v[2] /\ v[2] <= MaxI(a[2],b[2])

OnPolyline(v, p) ==
    IF Len(p) = 1 THEN v = p[1]
    ELSE \E i \in 1..(Len(p)-1) : OnSegment(v, p[i], p[i+1])

\* Does the ray from v to the left cross segment a-b (half-open in y)?
Crossing(v, a, b) ==
    /\ (a[2] < v[2]) # (b[2] < v[2])
    /\ LET num == (b[1]-a[1])*(v[2]-a[2]) - (v[1]-a[1])*(b[2]-a[2])
       IN  \* intersection x < v.x
           IF b[2] > a[2] THEN num < 0 ELSE num > 0

RECURSIVE CrossingsFrom(_, _, _, _)
CrossingsFrom(v, p, i, acc) ==
    IF i >= Len(p) THEN acc
    ELSE CrossingsFrom(v, p, i+1, IF Crossing(v, p[i], p[i+1]) THEN acc+1 ELSE acc)

\* v strictly inside the closed polygon p (p[1] = p[Len(p)])
EvenOdd(v, p) == CrossingsFrom(v, p, 1, 0) % 2 = 1
StrictlyInside(v, p) == EvenOdd(v, p) /\ ~OnPolyline(v, p)

\* The segment a-b meets the *open* square of half side U/2 around pixel c
\* (c in pixel units): separating axis test, exact in integers.
SegHitsPixel(a, b, c) ==
    LET cx == U*c[1]  cy == U*c[2]  h == U \div 2
        x0 == cx-h  x1 == cx+h  y0 == cy-h  y1 == cy+h
    IN  /\ MaxI(a[1],b[1]) > x0 /\ MinI(a[1],b[1]) < x1
        /\ MaxI(a[2],b[2]) > y0 /\ MinI(a[2],b[2]) < y1
        /\ \/ a = b
           \/ LET k1 == Cross(a,b,<<x0,y0>>) k2 == Cross(a,b,<<x1,y0>>)
                  k3 == Cross(a,b,<<x0,y1>>) k4 == Cross(a,b,<<x1,y1>>)
              IN  /\ (k1 < 0 \/ k2 < 0 \/ k3 < 0 \/ k4 < 0)
                  /\ (k1 > 0 \/ k2 > 0 \/ k3 > 0 \/ k4 > 0)

\* Pixels possibly touched by the segment, clipped to the image W x H.
SegPixelRange(a, b, W, H) ==
    LET h == U \div 2
        px0 == MaxI(0, FloorDiv(MinI(a[1],b[1])+h, U) - 1)
        px1 == MinI(W-1, FloorDiv(MaxI(a[1],b[1])+h, U))
        py0 == MaxI(0, FloorDiv(MinI(a[2],b[2])+h, U) - 1)
        py1 == MinI(H-1, FloorDiv(MaxI(a[2],b[2])+h, U))
    IN  (px0..px1) \X (py0..py1)

\* All image pixels whose interior is crossed by the polyline p.
CoverPixels(p, W, H) ==
    IF Len(p) = 1
    THEN {c \in SegPixelRange(p[1], p[1], W, H) : SegHitsPixel(p[1], p[1], c)}
    ELSE UNION { {c \in SegPixelRange(p[i], p[i+1], W, H) : SegHitsPixel(p[i], p[i+1], c)}
                 : i \in 1..(Len(p)-1) }

\* Angular comparison of direction vectors as seen in the image (counter-clockwise
\* from the positive x axis; y down, so the visual y is -v[2]).
Half(v) == IF v[2] < 0 \/ (v[2] = 0 /\ v[1] > 0) THEN 0 ELSE 1
AngleLess(u, v) ==
    IF Half(u) # Half(v) THEN Half(u) < Half(v)
    ELSE -(u[1]*v[2] - u[2]*v[1]) > 0
SameAngle(u, v) == Half(u) = Half(v) /\ u[1]*v[2] - u[2]*v[1] = 0

\* Integer square root (floor) for 0 <= n < 2^31.
RECURSIVE IsqrtIn(_, _, _)
IsqrtIn(n, lo, hi) ==      \* invariant: lo^2 <= n < hi^2
    IF hi - lo <= 1 THEN lo
    ELSE LET mid == (lo + hi) \div 2
         IN  IF mid*mid <= n THEN IsqrtIn(n, mid, hi) ELSE IsqrtIn(n, lo, mid)
Isqrt(n) == IsqrtIn(n, 0, MinI(46340, n+1) + (IF n = 0 THEN 1 ELSE 0))

\* Length of a polyline in 1/25 quarter pixels (1/100 px), rounded down per segment.
\* |error| <= number of segments.
LScale == 25
RECURSIVE LenFrom(_, _, _)
LenFrom(p, i, acc) ==
    IF i > Len(p) THEN acc
    ELSE LET dx == p[i][1]-p[i-1][1]  dy == p[i][2]-p[i-1][2]
         IN  LenFrom(p, i+1, acc + Isqrt((dx*dx + dy*dy)*LScale*LScale))
Length(p) == LenFrom(p, 2, 0)
=============================================================================
