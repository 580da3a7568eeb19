---------------------------- MODULE TraceTangents ----------------------------
(* Directions, curvatures and smoothed values along polylines as the Python  *)
(* module computes them; histories of two parabola fits.                      *)
EXTENDS Tangents, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, F
Tag(cond, t) == IF cond THEN {} ELSE {t}
Pts(s) == [i \in 1..Len(s) |-> <<s[i][1], s[i][2]>>]
Near(x, y, tol) == Abs(x - y) <= tol
\* angle to the x axis in the sense of atan2: lower half before the upper one
AtanLess(u, v) == LET H(w) == IF w[2] < 0 THEN 0 ELSE IF w[2] = 0 THEN (IF w[1] > 0 THEN 1 ELSE 3) ELSE 2
                  IN  H(u) < H(v) \/ (H(u) = H(v) /\ Cross2(u, v) > 0)
Apply(r) == CASE r.op = "fit" -> <<<<>>, <<>>>>
              [] r.op = "add" -> [F EXCEPT ![r.a] = @ \o Pts(r.d)]
              [] r.op = "copy" -> [F EXCEPT ![r.a] = F[3 - r.a]]
              [] OTHER -> F
FitErrs(r, G) ==
    UNION {LET f == r.f[k]
               d == G[k]
           IN  Tag(f.n = Len(d), "count")
               \cup (IF f.q = <<>> THEN {}
                     ELSE Tag(FitOK(d, f.q), "fit")
                          \cup Tag(\A i \in 1..Len(f.v) : Near(f.v[i], Value(f.q, i-1), i*i + 2), "value")
                          \cup Tag(Near(f.e, Errors(d, f.q), ErrorTol(d, f.q)), "error")
                          \cup Tag(Near(f.e2, Errors(Pts(r.x), f.q), ErrorTol(Pts(r.x), f.q)), "error-list")
                          \cup Tag(Near(f.m * Len(d), f.e2, Len(d) + 1), "mean-error"))
           : k \in 1..Len(r.f)}
Errs(r, G) ==
    CASE r.op = "tan" ->
           IF Len(r.p) < 2*r.dx + 2*r.skip \/ r.dx < 1 THEN Tag(r.err = 1, "refused")
           ELSE IF r.err = 1 THEN {"accepted"} ELSE Tag(TangentsOK(Pts(r.p), r.dx, r.skip, r.r), "tangents")
      [] r.op = "curv" ->
           IF Len(r.p) < 2*r.dx + 2*r.skip \/ r.dx < 1 THEN Tag(r.err = 1, "refused")
           ELSE IF r.err = 1 THEN {"accepted"} ELSE Tag(CurvaturesOK(Pts(r.p), r.dx, r.skip, r.r), "curvatures")
      [] r.op = "chord" -> Tag(ChordsOK(Pts(r.p), r.s, r.r), "chords")
      [] r.op = "third" -> Tag(ThirdOK(Pts(r.p), r.s, r.r), "third-derivative")
      [] r.op = "smooth" -> Tag(SmoothOK(Pts(r.p), r.R, r.cyc = 1, r.r), "smooth-tangents")
                            \cup Tag(r.b = <<>> \/ OppositeOK(Pts(r.p), r.R, r.cyc = 1, r.r, r.b), "opposite")
      [] r.op = "append" ->
           LET n == Len(r.t1)
               first == IF n > 0 THEN r.t1[n][2] ELSE 0
           IN  Tag(/\ Len(r.r) >= n /\ \A i \in 1..n : r.r[i] = r.t1[i]
                   /\ SameTangents(SubSeq(r.r, n+1, Len(r.r)), Appended(r.t2, r.off, r.len), first), "append")
               \cup Tag(r.ret = r.off + Abs(r.len), "offset")
      [] r.op = "compose" -> Tag(SameTangents(r.r, Composed(r.ls, 1, 0), 0), "compose")
      [] r.op = "conv" ->
           Tag(/\ Len(r.r) = Len(r.v) /\ \A i \in 1..Len(r.v) : r.r[i][1] = r.v[i][1], "positions")
           \cup (IF Len(r.r) # Len(r.v) THEN {}
                 ELSE Tag(r.order = 0 => \A i \in 1..Len(r.v) : Near(r.r[i][2], Smoothed(r.v, r.v[i][1], r.s), 12), "smoothed")
                      \cup Tag(r.order = 1 => \A i \in 1..Len(r.v) : Near(r.r[i][2], Derived(r.v, i, r.s), 30), "derivative")
                      \cup Tag((r.order > 0 /\ Cardinality({r.v[i][2] : i \in 1..Len(r.v)}) = 1) => \A i \in 1..Len(r.v) : Near(r.r[i][2], 0, 1), "constant")
                      \cup Tag(\A i \in 1..Len(r.v) : Near(r.r[i][2], (IF r.order % 2 = 1 THEN -1 ELSE 1) * r.m[i], 1), "mirrored"))
      [] r.op = "equi" ->
           LET n == CeilDiv(r.v[Len(r.v)][1], r.dist)
           IN  Tag(Len(r.r) = n /\ \A i \in 1..Len(r.r) : r.r[i][1] = (i-1) * r.dist, "positions")
               \cup Tag(\A i \in 1..Len(r.r) : Near(r.r[i][2], Smoothed(r.v, r.r[i][1], r.s), 12), "smoothed")
      [] r.op = "theta" ->
           Tag(\A i, j \in 1..Len(r.v) : (r.v[i][3] < r.v[j][3] - 1) => AtanLess(r.v[i], r.v[j]), "order")
           \cup Tag(\A i, j \in 1..Len(r.v) : AtanLess(r.v[i], r.v[j]) => r.v[i][3] < r.v[j][3], "order")
           \cup Tag(\A i \in 1..Len(r.v) : Abs(r.v[i][3]) <= 2000000, "range")
      [] OTHER -> FitErrs(r, G)
Init == l = 1 /\ F = <<<<>>, <<>>>>
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET r == Trace[l]
               G == TLCEval(Apply(r))
               e == Errs(r, G)
           IN  /\ F' = G
               /\ IF e = {} THEN TRUE ELSE PrintT(<<"ERR", l, r.op, e>>)
Finished == l <= Len(Trace) \/ PrintT(<<"DONE", l - 1>>)
Spec == Init /\ [][Next]_<<l, F>>
=============================================================================
