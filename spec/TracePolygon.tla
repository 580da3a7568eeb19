----------------------------- MODULE TracePolygon -----------------------------
(* Histories of edits on three polygons; the values reported by queries at any *)
(* moment must be those of the point sequences of the specification.           *)
EXTENDS Polygon, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, P
Tag(cond, t) == IF cond THEN {} ELSE {t}
Near(x, y, tol) == Abs(x - y) <= tol

Apply(rec) ==
    LET a == rec.a
        k == a[1] + 1
        p == P[k]
    IN  CASE rec.op = "new" -> <<<<>>, <<>>, <<>>>>
          [] rec.op = "push" -> [P EXCEPT ![k] = PushBack(p, <<a[2], a[3]>>)]
          [] rec.op = "extend" -> [P EXCEPT ![k] = Extend(p, P[a[2]+1])]
          [] rec.op = "ins" -> [P EXCEPT ![k] = InsertPoint(p, a[2], <<a[3], a[4]>>)]
          [] rec.op = "insr" -> [P EXCEPT ![k] = InsertRange(p, a[2], P[a[3]+1])]
          [] rec.op = "erase" -> [P EXCEPT ![k] = ErasePoint(p, a[2])]
          [] rec.op = "set" -> [P EXCEPT ![k] = SetPoint(p, a[2], <<a[3], a[4]>>)]
          [] rec.op = "split" -> [P EXCEPT ![k] = SplitHead(p, a[2]), ![a[3]+1] = SplitTail(p, a[2])]
          [] rec.op = "rev" -> [P EXCEPT ![k] = Rev(p)]
          [] rec.op = "swap" -> [P EXCEPT ![k] = P[a[2]+1], ![a[2]+1] = p]
          [] rec.op = "copy" -> [P EXCEPT ![k] = P[a[2]+1]]
          [] rec.op = "clear" -> [P EXCEPT ![k] = <<>>]
          [] rec.op = "query" -> P

Same(p, r) == Len(p) = Len(r) /\ \A i \in 1..Len(p) : p[i] = <<r[i][1], r[i][2]>>
QueryErrs(p, q) ==
    Tag(q.l >= 0 => Near(q.l, Length(p), Len(p) + 1), "length")
    \cup Tag(q.ar # <<>> => q.ar[1] = Area2(p), "area")
    \cup Tag((q.b # <<>> /\ p # <<>>) => <<q.b[1], q.b[2], q.b[3], q.b[4]>> = BBox(p), "bbox")
    \cup Tag(q.c >= 0 => (q.c = 1) = Closed(p), "closed")
    \cup Tag(q.arc # <<>> => /\ Len(q.arc) = Len(p)
                             /\ \A i \in 1..Len(p) : Near(q.arc[i], Length(SubSeq(p, 1, i)), i), "arclength")
    \cup Tag(q.cen # <<>> => \A k \in 1..2 :
               \* cen in 1/25 quarter pixels
               Near(q.cen[k] * 3 * CentroidDen(p), 25 * CentroidNum(p, k), 3 * Abs(CentroidDen(p))), "centroid")
    \cup Tag(q.np # <<>> =>
               LET v == <<q.np[1], q.np[2]>>
                   r == <<q.np[3], q.np[4]>>
                   d == Isqrt(ScaledDist2(v, r))
               IN  /\ Near(d, Isqrt(NearestDist2(v, p)), 4)
                   /\ \E i \in 1..(Len(p)-1) :
                        LET n == NearestOnSegment(v, p[i], p[i+1])
                        IN  Near(n[1], r[1], 3) /\ Near(n[2], r[2], 3), "nearest")
Errs(rec, N) ==
    Tag(\A k \in 1..3 : Same(N[k], rec.p[k]), "points")
    \cup (IF "q" \in DOMAIN rec THEN QueryErrs(N[rec.a[1]+1], rec.q) ELSE {})
    \cup (IF "r" \in DOMAIN rec THEN Tag(rec.r = rec.a[2], "result") ELSE {})

Init == l = 1 /\ P = <<<<>>, <<>>, <<>>>>
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET rec == Trace[l]
               N == Apply(rec)
               e == Errs(rec, N)
           IN  /\ (IF e = {} THEN TRUE ELSE PrintT(<<"ERR", l, rec.op, e>>))
               \* follow the implementation after a disagreement about the points
               /\ P' = IF "points" \in e
                       THEN [k \in 1..3 |-> [i \in 1..Len(rec.p[k]) |-> <<rec.p[k][i][1], rec.p[k][i][2]>>]]
                       ELSE N
Finished == l <= Len(Trace) \/ PrintT(<<"DONE", l - 1>>)
Spec == Init /\ [][Next]_<<l, P>>
=============================================================================
