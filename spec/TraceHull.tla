------------------------------ MODULE TraceHull ------------------------------
EXTENDS Hull, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
Tag(cond, t) == IF cond THEN {} ELSE {t}
Pts(s) == [i \in 1..Len(s) |-> <<s[i][1], s[i][2]>>]
MaxStepOK(p, r, st) ==     \* no kept chord with skipped points is longer than st
    \A j \in 1..(Len(r)-1) :
       LET dx == r[j+1][1]-r[j][1]  dy == r[j+1][2]-r[j][2]
       IN  dx*dx + dy*dy <= st*st
           \/ \E i \in 1..(Len(p)-1) : p[i] = r[j] /\ p[i+1] = r[j+1]
ChordAtMost(p, st) == LET N == Len(p) dx == p[N][1]-p[1][1]  dy == p[N][2]-p[1][2] IN dx*dx + dy*dy <= st*st
Errs(r) == CASE r.op = "hull" -> Tag(IsHull(Pts(r.p), Pts(r.h)), "hull")
             [] r.op = "simplify" -> Tag(IsSimplification(Pts(r.p), Pts(r.r), r.e), "simplify")
                                     \cup Tag((Needless(Pts(r.p), r.e) /\ (r.st = 0 \/ ChordAtMost(Pts(r.p), r.st))) => Len(r.r) = 2, "needless")
                                     \cup Tag(r.st > 0 => MaxStepOK(Pts(r.p), Pts(r.r), r.st), "maxstep")
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Errs(Trace[l]) IN IF e = {} THEN TRUE ELSE PrintT(<<"ERR", l, Trace[l].op, e>>)
Finished == l <= Len(Trace) \/ PrintT(<<"DONE", l - 1>>)
Spec == Init /\ [][Next]_l
=============================================================================
