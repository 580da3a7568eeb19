------------------------------- MODULE DartPos -------------------------------
(***************************************************************************)
(* A position that wanders along a dart.  The dart is the sequence P of    *)
(* its points, all segments of which have integral lengths (the vector Q), *)
(* so that arc lengths are exact.  A state is [i, end]: the current        *)
(* segment (0-based) and whether the position is behind the last one; the  *)
(* place on the segment only depends on the last movement.                 *)
(***************************************************************************)
EXTENDS Geometry

SegLen(a, b) == Isqrt((b[1]-a[1])*(b[1]-a[1]) + (b[2]-a[2])*(b[2]-a[2]))
Lens(P) == [k \in 1..(Len(P)-1) |-> SegLen(P[k], P[k+1])]
LensExact(P) == \A k \in 1..(Len(P)-1) : SegLen(P[k], P[k+1])*SegLen(P[k], P[k+1])
                    = (P[k+1][1]-P[k][1])*(P[k+1][1]-P[k][1]) + (P[k+1][2]-P[k][2])*(P[k+1][2]-P[k][2])
RECURSIVE Upto(_, _)
Upto(Q, i) == IF i = 0 THEN 0 ELSE Upto(Q, i-1) + Q[i]      \* arc length where segment i starts
LastSeg(P) == Len(P) - 2                                         \* index of the last segment
At(i) == [i |-> i, end |-> FALSE]
AtEnd(P) == [i |-> LastSeg(P), end |-> TRUE]
SegStart(P, s) == IF s.end THEN P[Len(P)] ELSE P[s.i+1]
SegEnd(P, s) == IF s.end THEN P[Len(P)] ELSE P[s.i+2]
StartArc(Q, s) == IF s.end THEN Upto(Q, Len(Q)) ELSE Upto(Q, s.i)
D2(a, b) == (a[1]-b[1])*(a[1]-b[1]) + (a[2]-b[2])*(a[2]-b[2])

Succ(P, s) == IF s.end \/ s.i = LastSeg(P) THEN AtEnd(P) ELSE At(s.i + 1)
Pred(P, s) == IF s.end THEN At(LastSeg(P)) ELSE IF s.i = 0 THEN s ELSE At(s.i - 1)

\* results: [s: new state, r: TRUE/FALSE results that are allowed, off: where on the segment
\* ("start", "end" or the arc length behind the segment's start in 1/T)]
T == 1000
NextSeg(P, s) == [s |-> Succ(P, s), r |-> {~Succ(P, s).end}, off |-> 0]
PrevSeg(P, s) == [s |-> Pred(P, s), r |-> {s # At(0)}, off |-> 0]
\* a: arc length in 1/10
GotoArc(P, Q, s, a) ==
    LET tot == 10*Upto(Q, Len(Q))
    IN  IF a < 0 THEN [s |-> At(0), r |-> {FALSE}, off |-> 0]
        ELSE IF a > tot THEN [s |-> AtEnd(P), r |-> {FALSE}, off |-> 0]
        ELSE IF a = tot THEN [s |-> AtEnd(P), r |-> BOOLEAN, off |-> 0]
        ELSE LET i == CHOOSE i \in 0..LastSeg(P) : 10*Upto(Q, i) <= a /\ a < 10*Upto(Q, i+1)
             IN  [s |-> At(i), r |-> {TRUE}, off |-> (a - 10*Upto(Q, i)) * (T \div 10)]
\* the first segment from here on that does not end inside the circle
RECURSIVE Leave(_, _, _, _)
Leave(P, s, c, r2) == IF s.end \/ D2(SegEnd(P, s), c) >= r2 THEN s ELSE Leave(P, Succ(P, s), c, r2)
LeaveCircle(P, Q, s, c, r2) ==
    LET n == Leave(P, s, c, r2)
    IN  [s |-> n, r |-> {~n.end}, off |-> IF n.end THEN 0 ELSE T*Q[n.i+1]]

\* where a given offset (1/T) on the current segment lies, in 1/T
Place(P, Q, s, off) ==
    LET a == SegStart(P, s)  b == SegEnd(P, s)  k == IF s.end THEN 1 ELSE Q[s.i+1]
    IN  <<T*a[1] + (off*(b[1]-a[1])) \div k, T*a[2] + (off*(b[2]-a[2])) \div k>>
=============================================================================
