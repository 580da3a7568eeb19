--------------------------------- MODULE Scan ---------------------------------
(***************************************************************************)
(* What scan conversion has to deliver, from exact geometry: the pixels    *)
(* whose interior a polyline passes through, and the pixels lying entirely *)
(* inside a (simple, counter-clockwise) polygon.                           *)
(***************************************************************************)
EXTENDS Geometry

SegBox(a, b) ==
    LET h == U \div 2
    IN  ((FloorDiv(MinI(a[1],b[1])+h, U) - 1)..FloorDiv(MaxI(a[1],b[1])+h, U))
        \X ((FloorDiv(MinI(a[2],b[2])+h, U) - 1)..FloorDiv(MaxI(a[2],b[2])+h, U))
\* all pixels of the plane whose interior the polyline p passes through
Cover(p) ==
    IF Len(p) = 1 THEN {c \in SegBox(p[1], p[1]) : SegHitsPixel(p[1], p[1], c)}
    ELSE UNION {{c \in SegBox(p[i], p[i+1]) : SegHitsPixel(p[i], p[i+1], c)} : i \in 1..(Len(p)-1)}
Image(W, H) == (0..(W-1)) \X (0..(H-1))
\* pixels of the W x H image entirely inside the closed polygon p
Inside(p, W, H) ==
    LET cov == Cover(p)
    IN  {c \in Image(W, H) : c \notin cov /\ EvenOdd(<<U*c[1], U*c[2]>>, p)}
InsideRing(p, hs, W, H) ==
    LET cov == UNION {Cover(hs[i]) : i \in 1..Len(hs)}
    IN  {c \in Inside(p, W, H) : c \notin cov /\ \A i \in 1..Len(hs) : ~EvenOdd(<<U*c[1], U*c[2]>>, hs[i])}
=============================================================================
