--------------------------------- MODULE Hull ---------------------------------
(***************************************************************************)
(* What a convex hull and a simplified polyline are, from exact geometry.  *)
(***************************************************************************)
EXTENDS Geometry

\* h: closed, convex, counter-clockwise (as seen, y down), vertices among the points p,
\* all points of p inside or on it
IsHull(p, h) ==
    LET S == {p[i] : i \in 1..Len(p)}
        n == Len(h) - 1
    IN  /\ n >= 1 /\ h[1] = h[n+1]
        /\ \A i \in 1..n : h[i] \in S
        /\ \A i, j \in 1..n : i # j => h[i] # h[j]
        /\ \A i \in 1..n : \A v \in S : Cross(h[i], h[i+1], v) <= 0
        \* no turn to the right and only one turn in total
        /\ n >= 3 => (Area2(h) > 0 /\ \A i \in 1..n : Cross(h[i], h[i+1], h[IF i = n THEN 2 ELSE i+2]) <= 0)
        \* degenerate input: all points between the two extreme ones
        /\ n = 2 => \A v \in S : OnSegment(v, h[1], h[2])
        /\ n = 1 => S = {h[1]}

\* squared perpendicular distance of v from the line through a and b is at most e^2
\* (distance from the point if a = b)
WithinLine(v, a, b, e) ==
    LET dx == b[1]-a[1]  dy == b[2]-a[2]
        n == dx*dx + dy*dy
    IN  IF n = 0 THEN (v[1]-a[1])*(v[1]-a[1]) + (v[2]-a[2])*(v[2]-a[2]) <= e*e
        ELSE Cross(a, b, v)*Cross(a, b, v) <= e*e*n

\* all inner points are closer than e to the line through the end points: none is needed
Needless(p, e) ==
    LET a == p[1]  b == p[Len(p)]
        dx == b[1]-a[1]  dy == b[2]-a[2]
        n == dx*dx + dy*dy
    IN  \A i \in 2..(Len(p)-1) :
           LET v == p[i]
           IN  IF n = 0 THEN (v[1]-a[1])*(v[1]-a[1]) + (v[2]-a[2])*(v[2]-a[2]) < e*e
               ELSE Cross(a, b, v)*Cross(a, b, v) < e*e*n

\* r results from keeping points of p: the greedy embedding is decided over all ways to
\* place r in p, since points may repeat
RECURSIVE Embeds(_, _, _, _, _)
\* r[j] sits at p[i]; can the rest of r be placed after i so that all skipped points are
\* within e of the chord?
Embeds(p, r, i, j, e) ==
    IF j = Len(r) THEN i = Len(p)
    ELSE \E k \in (i+1)..Len(p) :
           /\ p[k] = r[j+1]
           /\ \A m \in (i+1)..(k-1) : WithinLine(p[m], p[i], p[k], e)
           /\ Embeds(p, r, k, j+1, e)
IsSimplification(p, r, e) == Len(r) >= 1 /\ r[1] = p[1] /\ Embeds(p, r, 1, 1, e)
=============================================================================
