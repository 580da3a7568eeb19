----------------------------- MODULE TraceSpline -----------------------------
(* Control points of best fitting splines as the Python module computes them *)
EXTENDS SplineFit, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Tag(cond, t) == IF cond THEN {} ELSE {t}
Pts(s) == [i \in 1..Len(s) |-> <<s[i][1], s[i][2]>>]
Errs(r) ==
    LET p == Pts(r.p)
    IN  IF ~Fittable(p, r.n) THEN Tag(r.err = 1, "refused")
        ELSE IF r.err = 1 THEN {"accepted"}
        ELSE Tag(FitOK(p, r.n, Pts(r.r)), "fit")
             \cup Tag(\A i \in 1..Len(r.p) : r.q[i] = r.p[i] /\ Len(r.q) = Len(r.p), "unchanged")
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Errs(Trace[l]) IN IF e = {} THEN TRUE ELSE PrintT(<<"ERR", l, Trace[l].op, e>>)
Finished == l <= Len(Trace) \/ PrintT(<<"DONE", l - 1>>)
Spec == Init /\ [][Next]_l
=============================================================================
