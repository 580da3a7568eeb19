----------------------------- MODULE TraceResample -----------------------------
EXTENDS Resample, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
Tag(cond, t) == IF cond THEN {} ELSE {t}
Pts(s) == [i \in 1..Len(s) |-> <<s[i][1], s[i][2]>>]
Near(v, w, tol) == Abs(v[1]-w[1]) <= tol /\ Abs(v[2]-w[2]) <= tol
SamePts(s, t, tol) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Near(s[i], t[i], tol)
Big(v) == <<1000*v[1], 1000*v[2]>>
D2(a, b) == (a[1]-b[1])*(a[1]-b[1]) + (a[2]-b[2])*(a[2]-b[2])
LsqErrs(r) ==
    LET p == Pts(r.p)
        c == Pts(r.s)
        N == Len(p)
        A == Arcs(p)
        n == Steps(A[N], r.d)
        cl == p[1] = p[N]
        C(k) == c[(k % n) + 1]
        Sum6(k) == IF cl THEN <<C(k+n-1)[1] + 4*C(k)[1] + C(k+1)[1], C(k+n-1)[2] + 4*C(k)[2] + C(k+1)[2]>>
                   ELSE <<c[k][1] + 4*c[k+1][1] + c[k+2][1], c[k][2] + 4*c[k+1][2] + c[k+2][2]>>
    IN  IF n < 2
        THEN IF cl THEN Tag(/\ Len(c) = 3 /\ c[1] = Big(p[1]) /\ c[3] = Big(p[N])
                            /\ \E i \in 2..N : c[2] = Big(p[i]) /\ \A j \in 2..N : D2(p[j], p[1]) <= D2(p[i], p[1]), "short")
             ELSE Tag(c = <<Big(p[1]), Big(p[N])>>, "short")
        ELSE Tag(Len(c) = n + 1, "count")
             \cup (IF Len(c) # n + 1 THEN {}
                   ELSE Tag(IF cl THEN Near(c[1], c[n+1], 1) ELSE c[1] = Big(p[1]) /\ c[n+1] = Big(p[N]), "ends")
                        \cup Tag(IF cl THEN n >= 6 => \A k \in 0..(n-1) : Near(Sum6(k), Moment(p, A, n, k, TRUE), 400)
                                 ELSE \A k \in 2..(n-2) : Near(Sum6(k), Moment(p, A, n, k, FALSE), 100), "fit"))
(* Smoothing (Gaussian or exponential weights along the polyline).  The exponential filter  *)
(* rounds the length of its result in steps to the nearest number, so half steps may be     *)
(* rounded either way.                                                                      *)
SmoothErrs(r) ==
    LET p == Pts(r.p)
        c == Pts(r.s)
        N == Len(p)
        M == Len(c)
        cl == p[1] = p[N]
        straight == (\A i \in 1..N : p[i][1] = p[1][1]) \/ (\A i \in 1..N : p[i][2] = p[1][2])
        Dir == {<<1, 0>>, <<0, 1>>, <<1, 1>>, <<1, -1>>, <<2, 1>>, <<1, 2>>, <<2, -1>>, <<1, -2>>}
        Along(v, w) == v[1]*w[1] + v[2]*w[2]
        Lo(v) == FoldSet(LAMBDA i, m : MinI(m, Along(v, p[i])), Along(v, p[1]), 1..N)
        Hi(v) == FoldSet(LAMBDA i, m : MaxI(m, Along(v, p[i])), Along(v, p[1]), 1..N)
        Inside(v) == LET lo == 1000*Lo(v)  hi == 1000*Hi(v)
                     IN  \A k \in 1..M : lo - 5 <= Along(v, c[k]) /\ Along(v, c[k]) <= hi + 5
        A == Arcs(p)
        Longest == FoldSet(LAMBDA i, m : MaxI(m, A[i+1]-A[i]), 1, 1..(N-1))
    IN  IF N <= 2 THEN Tag(c = [i \in 1..N |-> Big(p[i])], "short")
        ELSE Tag(IF r.kind = "gauss" THEN M = Steps(A[N], r.d) + 1 ELSE M >= 2, "count")
             \cup (IF M < 2 THEN {} ELSE
                Tag(IF cl THEN c[1] = c[M] ELSE Near(c[1], Big(p[1]), 5) /\ Near(c[M], Big(p[N]), 5), "ends")
                \cup Tag(cl => \A v \in Dir : Inside(v), "inside")
                \cup Tag((straight /\ ~cl) => \A v \in {w \in {<<1, 0>>, <<0, 1>>} : Lo(w) = Hi(w)} : Inside(v), "straight")
                \cup Tag(IF Len(r.r) = M THEN SamePts(Pts(r.r), Reverse(c), 60*Longest)
                         ELSE r.kind = "exp" /\ Abs(Len(r.r) - M) = 1 /\ Near(Pts(r.r)[1], c[M], 5), "reversed"))
Errs(r) == CASE r.op = "linear" -> LET p == Pts(r.p) IN Tag(SamePts(Pts(r.s), LinearResampled(p, Arcs(p), r.d), 2), "linear")
             [] r.op = "lsq" -> LsqErrs(r)
             [] r.op = "smooth" -> SmoothErrs(r)
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Errs(Trace[l]) IN IF e = {} THEN TRUE ELSE PrintT(<<"ERR", l, Trace[l].op, e>>)
Finished == l <= Len(Trace) \/ PrintT(<<"DONE", l - 1>>)
Spec == Init /\ [][Next]_l
=============================================================================
