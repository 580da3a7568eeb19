------------------------------ MODULE PyPolygon ------------------------------
(***************************************************************************)
(* Polygons as Python sequences: indices count from the end if negative,   *)
(* are refused if there is no such point, slices are clipped.  Also the    *)
(* parts of a polyline on one side of a line.                              *)
(***************************************************************************)
EXTENDS Polygon

\* zero-based position meant by Python index i in a sequence of n points
Pos(i, n) == IF i < 0 THEN i + n ELSE i
Valid(i, n) == Pos(i, n) \in 0..(n-1)
Clip(i, n) == MinI(MaxI(Pos(i, n), 0), n)
Slice(p, lo, hi) == SubSeq(p, Clip(lo, Len(p)) + 1, Clip(hi, Len(p)))

Moved(p, d) == [i \in 1..Len(p) |-> <<p[i][1] + d[1], p[i][2] + d[2]>>]
Scaled(p, m) == [i \in 1..Len(p) |-> <<m * p[i][1], m * p[i][2]>>]
\* nearest pixel, halves upwards
Rounded(p) == [i \in 1..Len(p) |-> <<(p[i][1] + U \div 2) \div U, (p[i][2] + U \div 2) \div U>>]

\* the side of v with respect to the line from a to b (0: on the line)
Side(v, a, b) == (v[1]-a[1])*(b[2]-a[2]) - (v[2]-a[2])*(b[1]-a[1])
\* where the segment u-v meets the line, in 1/100 units (the ends are on different sides)
Cut(u, v, a, b) ==
    LET s == Side(u, a, b)  t == Side(v, a, b)
        n == s - t
        At(k) == LET num == 100 * s * (v[k]-u[k]) IN 100*u[k] + (IF n > 0 THEN num \div n ELSE (-num) \div (-n))
    IN  <<At(1), At(2)>>
\* the parts of p on the nonnegative side, points in 1/100 units
RECURSIVE PartsFrom(_, _, _, _, _)
PartsFrom(p, a, b, i, cur) ==
    LET in(k) == Side(p[k], a, b) >= 0
        big(v) == <<100*v[1], 100*v[2]>>
    IN  IF i > Len(p) THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>)
        ELSE IF in(i)
             THEN PartsFrom(p, a, b, i+1,
                    IF i > 1 /\ ~in(i-1) THEN <<Cut(p[i-1], p[i], a, b), big(p[i])>> ELSE Append(cur, big(p[i])))
             ELSE IF i > 1 /\ in(i-1)
                  THEN <<Append(cur, Cut(p[i-1], p[i], a, b))>> \o PartsFrom(p, a, b, i+1, <<>>)
                  ELSE PartsFrom(p, a, b, i+1, <<>>)
Parts(p, a, b) == PartsFrom(p, a, b, 1, <<>>)
=============================================================================
