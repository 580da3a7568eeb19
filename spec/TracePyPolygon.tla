---------------------------- MODULE TracePyPolygon ----------------------------
(* Histories of operations on three Polygon objects of the Python module: the  *)
(* points after every operation, refused operations (which change nothing) and *)
(* all answers must be those of the sequences of the specification.            *)
EXTENDS PyPolygon, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, P
Tag(cond, t) == IF cond THEN {} ELSE {t}
Near(x, y, tol) == Abs(x - y) <= tol

\* operations that are refused (with an IndexError) unless the index is valid
Refused(rec) ==
    LET a == rec.a
        n == Len(P[a[1] + 1])
    IN  CASE rec.op = "ins" -> a[2] \notin 0..n
          [] rec.op \in {"del", "set", "get", "split"} -> ~Valid(a[2], n)
          [] OTHER -> FALSE
Apply(rec) ==
    LET a == rec.a
        k == a[1] + 1
        p == P[k]
        n == Len(p)
    IN  IF rec.op = "new" THEN <<<<>>, <<>>, <<>>>>
        ELSE IF Refused(rec) THEN P
        ELSE CASE rec.op = "push" -> [P EXCEPT ![k] = PushBack(p, <<a[2], a[3]>>)]
          [] rec.op = "extend" -> [P EXCEPT ![k] = Extend(p, P[a[2]+1])]
          [] rec.op = "ins" -> [P EXCEPT ![k] = InsertPoint(p, a[2], <<a[3], a[4]>>)]
          [] rec.op = "del" -> [P EXCEPT ![k] = ErasePoint(p, Pos(a[2], n))]
          [] rec.op = "set" -> [P EXCEPT ![k] = SetPoint(p, Pos(a[2], n), <<a[3], a[4]>>)]
          [] rec.op = "split" -> [P EXCEPT ![k] = SplitHead(p, Pos(a[2], n)), ![a[3]+1] = SplitTail(p, Pos(a[2], n))]
          [] rec.op = "slice" -> [P EXCEPT ![a[2]+1] = Slice(p, a[3], a[4])]
          [] rec.op = "rev" -> [P EXCEPT ![k] = Rev(p)]
          [] rec.op = "swap" -> [P EXCEPT ![k] = P[a[2]+1], ![a[2]+1] = p]
          [] rec.op = "copy" -> [P EXCEPT ![k] = P[a[2]+1]]
          [] rec.op = "move" -> [P EXCEPT ![a[2]+1] = Moved(p, <<a[3], a[4]>>)]
          [] rec.op = "scale" -> [P EXCEPT ![a[2]+1] = Scaled(p, a[3])]
          [] OTHER -> P

Same(p, r) == Len(p) = Len(r) /\ \A i \in 1..Len(p) : p[i] = <<r[i][1], r[i][2]>>
SamePart(x, r) == /\ Len(x) = Len(r)
                  /\ \A i \in 1..Len(x) : Near(x[i][1], r[i][1], 1) /\ Near(x[i][2], r[i][2], 1)
QueryErrs(p, q) ==
    Tag(q.l >= 0 => Near(q.l, Length(p), Len(p) + 1), "length")
    \cup Tag(q.ar # <<>> => q.ar[1] = Area2(p), "area")
    \cup Tag((q.b # <<>> /\ p # <<>>) => <<q.b[1], q.b[2], q.b[3], q.b[4]>> = BBox(p), "bbox")
    \cup Tag(q.c >= 0 => (q.c = 1) = (p # <<>> /\ Closed(p)), "closed")
    \cup Tag(q.arc # <<>> => /\ Len(q.arc) = Len(p)
                             /\ \A i \in 1..Len(p) : Near(q.arc[i], Length(SubSeq(p, 1, i)), i), "arclength")
    \cup Tag(q.cen # <<>> => \A k \in 1..2 :
               Near(q.cen[k] * 3 * CentroidDen(p), 25 * CentroidNum(p, k), 3 * Abs(CentroidDen(p))), "centroid")
    \cup Tag(q.np # <<>> =>
               LET v == <<q.np[1], q.np[2]>>
                   r == <<q.np[3], q.np[4]>>
                   d == Isqrt(ScaledDist2(v, r))
               IN  /\ Near(d, Isqrt(NearestDist2(v, p)), 4)
                   /\ \E i \in 1..(Len(p)-1) :
                        LET n == NearestOnSegment(v, p[i], p[i+1])
                        IN  Near(n[1], r[1], 3) /\ Near(n[2], r[2], 3), "nearest")
    \* containment is only defined for closed polygons (otherwise the question may be refused)
    \cup Tag(q.co # <<>> =>
               LET v == <<q.co[1], q.co[2]>>
               IN  IF p = <<>> \/ ~Closed(p) THEN q.co[3] # 1
                   ELSE q.co[3] # 2 /\ (OnPolyline(v, p) \/ (q.co[3] = 1) = EvenOdd(v, p)), "contains")
Errs(rec, N) ==
    Tag(\A k \in 1..3 : Same(N[k], rec.p[k]), "points")
    \cup (IF "e" \in DOMAIN rec THEN Tag(rec.e = (IF Refused(rec) THEN 1 ELSE 0), "refused") ELSE {})
    \cup (IF "q" \in DOMAIN rec THEN QueryErrs(N[rec.a[1]+1], rec.q) ELSE {})
    \cup (CASE rec.op = "get" -> Tag(Refused(rec) \/ rec.e # 0
                                     \/ rec.r = P[rec.a[1]+1][Pos(rec.a[2], Len(P[rec.a[1]+1])) + 1], "value")
            [] rec.op = "round" -> Tag(Same(Rounded(P[rec.a[1]+1]), rec.r), "rounded")
            [] rec.op = "isect" -> LET X == Parts(P[rec.a[1]+1], <<rec.a[2], rec.a[3]>>, <<rec.a[4], rec.a[5]>>)
                                   IN  Tag(Len(X) = Len(rec.r) /\ \A i \in 1..Len(X) : SamePart(X[i], rec.r[i]), "parts")
            [] OTHER -> {})

Init == l = 1 /\ P = <<<<>>, <<>>, <<>>>>
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET rec == Trace[l]
               N == Apply(rec)
               e == Errs(rec, N)
           IN  /\ (IF e = {} THEN TRUE ELSE PrintT(<<"ERR", l, rec.op, e>>))
               /\ P' = IF "points" \in e
                       THEN [k \in 1..3 |-> [i \in 1..Len(rec.p[k]) |-> <<rec.p[k][i][1], rec.p[k][i][2]>>]]
                       ELSE N
Finished == l <= Len(Trace) \/ PrintT(<<"DONE", l - 1>>)
Spec == Init /\ [][Next]_<<l, P>>
=============================================================================
