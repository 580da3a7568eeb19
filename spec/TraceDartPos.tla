----------------------------- MODULE TraceDartPos -----------------------------
EXTENDS DartPos, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ds, skip       \* ds: slot -> [P, Q, s]; skip: after a disagreement, until the next "new"
Tag(cond, t) == IF cond THEN {} ELSE {t}
Near(a, b, tol) == Abs(a - b) <= tol
Pts(q) == [i \in 1..Len(q) |-> <<q[i][1], q[i][2]>>]
\* everything the position says about itself; off = -1: the place is not determined
Says(P, Q, z, r) ==
    LET s == z.s
        L == IF s.end THEN 0 ELSE Q[s.i+1]
    IN  Tag((r.e = 1) = s.end, "end") \cup Tag(r.i = s.i, "segment")
        \cup Tag(<<r.ss[1], r.ss[2]>> = SegStart(P, s) /\ <<r.se[1], r.se[2]>> = SegEnd(P, s)
                 /\ Near(r.sl, T*L, 2), "ends")
        \cup (IF z.off < 0 THEN {}
              ELSE Tag(Near(r.al, T*StartArc(Q, s) + z.off, 2), "arclength")
                   \cup Tag(LET v == Place(P, Q, s, z.off) IN Near(r.x, v[1], 2) /\ Near(r.y, v[2], 2), "position"))
\* the circle is left between the segment's start (inside) and its end
Intersect(P, Q, s, r) ==
    LET c == <<r.a[1], r.a[2]>>  r2 == r.a[3]
        n == Leave(P, s, c, r2)
        judged == ~n.end /\ D2(SegStart(P, n), c) < r2
        off == r.al - T*StartArc(Q, n)
        v == Place(P, Q, n, off)
        h == T \div 100
        dx == (r.x \div h) - 100*c[1]  dy == (r.y \div h) - 100*c[2]
    IN  [z |-> [s |-> n, off |-> IF n.end THEN 0 ELSE -1, r |-> IF n.end THEN (IF s.end THEN BOOLEAN ELSE {FALSE}) ELSE {TRUE}],
         errs |-> IF n.end /\ D2(P[Len(P)], c) >= r2 THEN {}      \* was at the end, outside the circle
                  ELSE IF ~judged THEN {}
                  ELSE Tag(0 <= off + 2 /\ off <= T*Q[n.i+1] + 2, "arclength")
                       \cup Tag(0 <= off + 2 /\ off <= T*Q[n.i+1] + 2 => Near(r.x, v[1], 3) /\ Near(r.y, v[2], 3), "position")
                       \cup Tag(Near(dx*dx + dy*dy, r2*10000, 6*Isqrt(r2*10000) + 20), "circle")]
Step(d, r) ==
    LET go(z) == [s |-> z.s, errs |-> Tag((r.r = 1) \in z.r, "result") \cup Says(d.P, d.Q, z, r)]
    IN
    CASE r.op = "next" -> go(NextSeg(d.P, d.s))
      [] r.op = "prev" -> go(PrevSeg(d.P, d.s))
      [] r.op = "arc" -> go(GotoArc(d.P, d.Q, d.s, r.a[1]))
      [] r.op = "leave" -> go(LeaveCircle(d.P, d.Q, d.s, <<r.a[1], r.a[2]>>, r.a[3]))
      [] r.op = "isect" -> LET i == Intersect(d.P, d.Q, d.s, r)  g == go(i.z)
                           IN  [s |-> g.s, errs |-> g.errs \cup i.errs]
Init == l = 1 /\ ds = <<>> /\ skip = FALSE
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET r == Trace[l]
           IN  IF r.op = "new"
               THEN LET P == Pts(r.p)  Q == Lens(P)
                        e == Tag(LensExact(P), "driver") \cup Tag(r.d = r.dl, "dart")
                             \cup Says(P, Q, [s |-> At(0), off |-> 0], r)
                    IN  /\ IF e = {} THEN TRUE ELSE PrintT(<<"ERR", l, r.op, e>>)
                        /\ ds' = (0 :> [P |-> P, Q |-> Q, s |-> At(0)]) /\ skip' = (e # {})
               ELSE IF skip THEN UNCHANGED <<ds, skip>>
               ELSE IF r.op = "copy" THEN ds' = (r.a[1] :> ds[r.k]) @@ ds /\ skip' = skip
               ELSE LET g == Step(ds[r.k], r)
                    IN  /\ IF g.errs = {} THEN TRUE ELSE PrintT(<<"ERR", l, r.op, g.errs>>)
                        /\ ds' = [ds EXCEPT ![r.k].s = g.s] /\ skip' = (g.errs # {})
Finished == l <= Len(Trace) \/ PrintT(<<"DONE", l - 1>>)
Spec == Init /\ [][Next]_<<l, ds, skip>>
=============================================================================
