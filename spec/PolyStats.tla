------------------------------ MODULE PolyStats ------------------------------
(***************************************************************************)
(* Statistics of values along polylines: a bag of contributions            *)
(* <<value, length>> (a sequence here), values in 1/1000, integer lengths. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt

Add(s, v, n) == Append(s, <<v, n>>)
Merged(s, t) == s \o t
Total(s) == FoldSeq(LAMBDA c, a : a + c[2], 0, s)
Sum(s) == FoldSeq(LAMBDA c, a : a + c[1] * c[2], 0, s)
Values(s) == {s[i][1] : i \in 1..Len(s)}
\* length of the contributions with values up to v
UpTo(s, v) == FoldSeq(LAMBDA c, a : IF c[1] <= v THEN a + c[2] ELSE a, 0, s)
\* the smallest value reached by the fraction k/8 of the length
Quantile(s, k) == Min({v \in Values(s) : 8 * UpTo(s, v) >= k * Total(s)})

\* the contributions of the segments of p, with value T[2 m] at their midpoint m
Dist(a, b) == LET dx == b[1]-a[1] dy == b[2]-a[2]
              IN  CHOOSE n \in 0..20 : n*n = dx*dx + dy*dy
OfPolyline(p, T) == [i \in 1..(Len(p)-1) |->
                       <<T[p[i][1] + p[i+1][1] + 1][p[i][2] + p[i+1][2] + 1], Dist(p[i], p[i+1])>>]
=============================================================================
