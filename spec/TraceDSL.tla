------------------------------- MODULE TraceDSL -------------------------------
EXTENDS DSL, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
Tag(cond, t) == IF cond THEN {} ELSE {t}
Set(s) == {<<s[i][1], s[i][2]>> : i \in 1..Len(s)}
Win(r) == ((-r)..r) \X ((-r)..r)
Same(q, n, d) == q[1]*d = n*q[2]      \* rational q equals n/d

AddErrs(r) ==
    LET Q == Append(r.p, r.n)
    IN  Tag((r.ok = 1) = Straight(Q), "accept")
        \cup Tag(r.ok = 1 => \A i \in 1..Len(Q) : On(r.l1, Q[i]), "contains")
        \cup Tag(r.ok = 1 => 0 <= r.l1[1] /\ r.l1[1] <= r.l1[2] /\ r.l1[2] >= 1 /\ r.l1[2] <= Len(Q), "octant")
        \cup Tag(r.ok = 0 => r.l1 = r.l0, "rejected")
\* the part of the geometry that does not need rational numbers
Geom4Errs(r) ==
    LET W == Win(r.r)
        w == Width8(r.l)
    IN  Tag(r.w = w, "width")
        \cup Tag(Set(r.c) = {p \in W : On(r.l, p)}, "contains")
        \cup Tag(Set(r.mx) = {p \in W : On(r.l, <<-p[1], p[2]>>)}, "mirrorX")
        \cup Tag(Set(r.my) = {p \in W : On(r.l, <<p[1], -p[2]>>)}, "mirrorY")
        \cup Tag(Set(r.mxy) = {p \in W : On(r.l, <<-p[1], -p[2]>>)}, "mirrorXY")
        \* the shear (x, y) -> (x - y, y) takes steps (1,0), (1,1) to (1,0), (0,1)
        \cup Tag(Set(r.c4) = {p \in W : On(r.l, <<p[1]+p[2], p[2]>>)} /\ r.fw = w, "fourconnected")
GeomErrs(r) ==
    LET w == Width8(r.l)
    IN  Geom4Errs(r)
        \cup Tag(Same(r.sl, r.l[1], r.l[2]), "slope")
        \cup Tag(/\ Same(r.au, -r.l[3], r.l[2]) /\ Same(r.al, -(r.l[3] + w - 1), r.l[2])
                 /\ Same(r.ac, -(2*r.l[3] + w - 1), 2*r.l[2]), "intercept")
\* the tangent covers d steps to both sides and could not be extended; 0 may be answered if
\* the neighbourhood does not show two directions to begin with
TangentErrs(r) ==
    LET cl == r.cl = 1
        P == Around(r.c, r.i, r.d)
    IN  IF r.d = 0
        THEN Tag(Cardinality(CodesAround(r.c, r.i, 1)) = 2 => ~Symmetric(r.c, r.i, 1, cl), "tangent-none")
        ELSE Tag(Symmetric(r.c, r.i, r.d, cl), "tangent-straight")
             \cup Tag(\A k \in 1..Len(P) : On(r.l, P[k]), "tangent-contains")
             \cup Tag(~Symmetric(r.c, r.i, r.d + 1, cl), "tangent-maximal")
Errs(r) == CASE r.op = "add" -> AddErrs(r) [] r.op = "geom4" -> Geom4Errs(r) \cup Tag(r.e8 = 1 /\ r.e4 = 0, "connectivity")
             [] r.op = "geom" -> GeomErrs(r) [] r.op = "tangent" -> TangentErrs(r)
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Errs(Trace[l]) IN IF e = {} THEN TRUE ELSE PrintT(<<"ERR", l, Trace[l].op, e>>)
Finished == l <= Len(Trace) \/ PrintT(<<"DONE", l - 1>>)
Spec == Init /\ [][Next]_l
=============================================================================
