--------------------------- MODULE TraceWatersheds ---------------------------
EXTENDS Watersheds, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
Tag(cond, t) == IF cond THEN {} ELSE {t}
XY(c) == <<c[1], c[2]>>
Pts(s) == {XY(s[i]) : i \in 1..Len(s)}
All(f) == Pts(f[1]) \cup Pts(f[2]) \cup Pts(f[3])
CpErrs(r) ==
    LET f == r.f
        A == All(f)
        N == Len(f[1]) + Len(f[2]) + Len(f[3])
        M == All(r.m[1]) \cup All(r.m[2])
        d == r.dist + 3
        \* the second derivatives of quadratic splines jump between the facets
        Sure(c) == /\ Judged(c)
                   /\ r.deg = 2 => (AbsV((c[1] % 10000) - 5000) > 20 /\ AbsV((c[2] % 10000) - 5000) > 20)
    IN  Tag(\A k \in 1..3 : \A i \in 1..Len(f[k]) : Sure(f[k][i]) => Critical(f[k][i]), "gradient")
        \cup Tag(\A k \in 1..3 : \A i \in 1..Len(f[k]) : Sure(f[k][i]) => Kind(f[k][i]) = k, "kind")
        \cup Tag(\A v \in A : Inside(v, r.w, r.h, 3), "inside")
        \* no point is reported twice, not even as another kind
        \cup Tag(Cardinality(A) = N /\ \A u, v \in A : u # v => FarApart(u, v, r.dist - 3), "distinct")
        \cup Tag(\A p \in {r.m[1], r.m[2]} : Cardinality(All(p)) = Len(p[1]) + Len(p[2]) + Len(p[3]), "distinct")
        \* what is found from two parts of the image is what is found from all of it
        \cup Tag(CoveredBy(A, M, d) /\ CoveredBy(M, A, d), "mask")
        \* a search forgets what earlier searches have found
        \cup Tag(r.n = f, "again")
        \cup Tag(CoveredBy(A, All(r.o), d), "oversampling")
        \cup (IF r.wave = <<>> THEN {}
              ELSE Tag(\A k \in 1..3 : LET W == WavePoints(r.wave, r.w, r.h, k)
                                       IN  /\ Len(f[k]) = Cardinality(W)
                                           /\ CoveredBy(W, Pts(f[k]), 10) /\ CoveredBy(Pts(f[k]), W, 10), "wave"))
EdgeErrs(r) ==
    LET s == XY(r.sad[r.i])
        n == Len(r.p)
        P(i) == XY(r.p[i])
        k == r.k + 1
        wanted == r.sv >= r.t
        \* end e (its index in p, the neighbouring index and the maximum reported for it)
        EndOK(e, nb, m) == m > 0 => /\ m <= Len(r.max) /\ CloseTo(P(e), XY(r.max[m]), 2)
                                    /\ CloseTo(P(e), P(nb), 1003)
        up(i, j) == r.v[j] >= r.v[i] - 3
    IN  Tag(AbsV(r.sv - r.t) <= 2 \/ (r.none = 0) = wanted, "threshold")
        \cup (IF r.none = 1 THEN {}
              ELSE IF ~(k \in 1..n) \/ n < 3 THEN {"saddle"}
              ELSE Tag(CloseTo(P(k), s, 2) /\ k > 1 /\ k < n, "saddle")
                   \cup (IF k <= 1 \/ k >= n THEN {}
                         ELSE Tag(EndOK(1, 2, r.f) /\ EndOK(n, n-1, r.b), "ends")
                              \cup Tag(\A i \in 1..n : Inside(P(i), r.w, r.h, 1003), "inside")
                              \cup Tag(r.smooth = 0 \/ ((\A i \in 1..(k-1) : up(i+1, i)) /\ (\A i \in k..(n-1) : up(i, i+1))), "rising")
                              \* both halves start in opposite directions
                              \cup Tag((n > 3 /\ CloseTo(P(k-1), s, 1003) /\ CloseTo(P(k+1), s, 1003) /\ k > 2 /\ k < n-1)
                                       => CloseTo(<<P(k-1)[1] + P(k+1)[1], P(k-1)[2] + P(k+1)[2]>>, <<2*s[1], 2*s[2]>>, 4), "opposite")
                              \cup (IF r.wave = <<>> THEN {}
                                    ELSE LET E == WaveEnds(r.wave, s)
                                             got == {XY(r.max[m]) : m \in {x \in {r.f, r.b} : x > 0 /\ x <= Len(r.max)}}
                                         IN  Tag(((\A e \in E : Inside(e, r.w, r.h, 0)) /\ Inside(s, r.w, r.h, -10)) =>
                                                 (CoveredBy(E, got, 10) /\ CoveredBy(got, E, 10)), "wave"))))
Errs(r) == IF r.op = "cp" THEN CpErrs(r) ELSE EdgeErrs(r)
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Errs(Trace[l]) IN IF e = {} THEN TRUE ELSE PrintT(<<"ERR", l, Trace[l].op, e>>)
Finished == l <= Len(Trace) \/ PrintT(<<"DONE", l - 1>>)
Spec == Init /\ [][Next]_l
=============================================================================
