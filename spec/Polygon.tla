------------------------------- MODULE Polygon -------------------------------
(***************************************************************************)
(* Polygons as plain point sequences: the edit operations are functions on *)
(* sequences (positions are zero-based as in the library), the derived     *)
(* values are functions of the sequence alone.                             *)
(***************************************************************************)
EXTENDS Geometry

PushBack(p, v) == Append(p, v)
Extend(p, q) == IF q = <<>> THEN p
                ELSE IF p # <<>> /\ q[1] = p[Len(p)] THEN p \o Tail(q) ELSE p \o q
InsertPoint(p, i, v) == SubSeq(p, 1, i) \o <<v>> \o SubSeq(p, i+1, Len(p))
InsertRange(p, i, q) == SubSeq(p, 1, i) \o q \o SubSeq(p, i+1, Len(p))
ErasePoint(p, i) == SubSeq(p, 1, i) \o SubSeq(p, i+2, Len(p))
SetPoint(p, i, v) == [p EXCEPT ![i+1] = v]
SplitHead(p, i) == SubSeq(p, 1, i+1)
SplitTail(p, i) == SubSeq(p, i+1, Len(p))

Closed(p) == p[1] = p[Len(p)]

\* centroid of a closed polygon: CentroidNum / (3 * CentroidDen), per coordinate k
RECURSIVE CentroidNumFrom(_, _, _, _)
CentroidNumFrom(p, k, i, acc) ==
    IF i >= Len(p) THEN acc
    ELSE CentroidNumFrom(p, k, i+1,
           acc + (p[i][k] + p[i+1][k]) * (p[i+1][1]*p[i][2] - p[i+1][2]*p[i][1]))
CentroidNum(p, k) == CentroidNumFrom(p, k, 1, 0)
CentroidDen(p) == Area2(p)

\* squared distance (scaled by 100^2) between <<x,y>> and r (r in 1/100 units)
ScaledDist2(v, r) == (100*v[1]-r[1])*(100*v[1]-r[1]) + (100*v[2]-r[2])*(100*v[2]-r[2])
\* the nearest point of segment a-b to v, in 1/100 units (rounded)
NearestOnSegment(v, a, b) ==
    LET dx == b[1]-a[1]  dy == b[2]-a[2]
        n == dx*dx + dy*dy
        t == dx*(v[1]-a[1]) + dy*(v[2]-a[2])
    IN  IF n = 0 \/ t <= 0 THEN <<100*a[1], 100*a[2]>>
        ELSE IF t >= n THEN <<100*b[1], 100*b[2]>>
        ELSE <<100*a[1] + (200*t*dx + n) \div (2*n), 100*a[2] + (200*t*dy + n) \div (2*n)>>
NearestDist2(v, p) == Min({ScaledDist2(v, NearestOnSegment(v, p[i], p[i+1])) : i \in 1..(Len(p)-1)})
=============================================================================
