------------------------------ MODULE TraceScan ------------------------------
EXTENDS Scan, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
Tag(cond, t) == IF cond THEN {} ELSE {t}
Pts(s) == [i \in 1..Len(s) |-> <<s[i][1], s[i][2]>>]
Set(s) == {<<s[i][1], s[i][2]>> : i \in 1..Len(s)}
SpanPix(s) == [i \in 1..Len(s) |-> {<<x, s[i][1]>> : x \in s[i][2]..(s[i][3]-1)}]
SpansAre(s, S) == LET q == SpanPix(s)
                  IN  /\ UNION {q[i] : i \in 1..Len(q)} = S
                      /\ \A i, j \in 1..Len(q) : i < j => q[i] \cap q[j] = {}
IterIs(s, S) == Set(s) = S /\ Len(s) = Cardinality(S)
DrawnIs(d, S) == Set(d.px) = S /\ d.n = Cardinality(S) /\ d.o = 0

LineErrs(r) ==
    LET p == Pts(r.p)
        c == Cover(p)
        cb == {x \in c : x[2] >= r.y0 /\ x[2] < r.y1}
        im == Image(r.W, r.H)
    IN  Tag(SpansAre(r.sp, c), "scan") \cup Tag(IterIs(r.it, c), "iterate")
        \cup Tag(SpansAre(r.spb, cb), "scan-range") \cup Tag(IterIs(r.itb, cb), "iterate-range")
        \cup Tag(DrawnIs(r.d, c \cap im) /\ DrawnIs(r.db, cb \cap im), "draw")
AreaErrs(r) ==
    LET p == Pts(r.p)
        c == Cover(p) \cap Image(r.W, r.H)
        f == Inside(p, r.W, r.H)
    IN  Tag(DrawnIs(r.f, f) /\ DrawnIs(r.fb, f), "fill") \cup Tag(DrawnIs(r.fr, f), "fill-reversed")
        \cup Tag(DrawnIs(r.d, c), "draw")
        \cup Tag(\A i \in 1..Len(r.v) : LET v == <<r.v[i][1], r.v[i][2]>> IN
                    OnPolyline(v, p) \/ ((r.v[i][3] = 1) = EvenOdd(v, p) /\ (r.v[i][4] = 1) = EvenOdd(v, p)), "contains")
RingErrs(r) ==
    LET p == Pts(r.p)
        hs == [i \in 1..Len(r.h) |-> Pts(r.h[i])]
        f == InsideRing(p, hs, r.W, r.H)
        c == Cover(p) \cup UNION {Cover(hs[i]) : i \in 1..Len(hs)}
    IN  Tag(DrawnIs(r.f, f) /\ DrawnIs(r.fm, f), "fill-ring") \cup Tag(IterIs(r.it, c), "merge")
\* marking edges in a label image: each mark counts downwards from -1, the last mark taken
\* away leaves the substitute (and reports the pixel)
RECURSIVE MarkErrs(_, _, _)
MarkErrs(r, im, i) ==
    IF i > Len(r.steps) THEN {}
    ELSE LET s == r.steps[i]
             c == Cover(Pts(s.p)) \cap Image(r.W, r.H)
             free == {q \in c : im[q] = -1}
             new == [q \in Image(r.W, r.H) |->
                       IF q \notin c THEN im[q]
                       ELSE IF s.k = 0 THEN (IF im[q] < 0 THEN im[q] - 1 ELSE -1)
                       ELSE IF q \in free THEN s.s ELSE im[q] + 1]
             got == [q \in Image(r.W, r.H) |-> s.im[q[1]+1][q[2]+1]]
             ok == got = new /\ (s.k = 1 => IterIs(s.r, free))
         IN  IF ~ok THEN {"mark"} ELSE MarkErrs(r, new, i+1)
Errs(r) == CASE r.op = "mark" -> MarkErrs(r, [q \in Image(r.W, r.H) |-> r.ini[q[1]+1][q[2]+1]], 1) [] r.op = "line" -> LineErrs(r) [] r.op = "area" -> AreaErrs(r) [] r.op = "ring" -> RingErrs(r)

Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Errs(Trace[l]) IN IF e = {} THEN TRUE ELSE PrintT(<<"ERR", l, Trace[l].op, e>>)
Finished == l <= Len(Trace) \/ PrintT(<<"DONE", l - 1>>)
Spec == Init /\ [][Next]_l
=============================================================================
