----------------------------- MODULE TraceValues -----------------------------
(* Histories of two rectangles or boxes of the Python module, grids, rounding *)
EXTENDS Values, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, R
Tag(cond, t) == IF cond THEN {} ELSE {t}
Tup(r) == <<r[1], r[2], r[3], r[4]>>
P2(p) == <<p[1], p[2]>>
\* the state after the step: as reported where only the set is determined, else computed
Apply(r) ==
    CASE r.op = "values" -> <<<<0, 0, 0, 0>>, <<0, 0, 0, 0>>>>
      [] r.op = "step" -> IF r.f \in SetOps THEN [R EXCEPT ![r.w] = Tup(r.s[r.w])]
                          ELSE [R EXCEPT ![r.w] = Moved(@, r.f, P2(r.a), P2(r.b))]
      [] r.op = "dup" -> [R EXCEPT ![r.w] = R[3 - r.w]]
      [] OTHER -> R
Answers(r, G) ==
    LET h == r.h
    IN  UNION {LET v == G[k]
                   o == G[3 - k]
                   E == TLCEval(Elems(v, h))
                   q == r.q[k]
               IN  Tag(Tup(r.s[k]) = v, "coordinates")
                   \cup Tag(P2(q.size) = <<v[3]-v[1], v[4]-v[2]>>, "size")
                   \cup Tag((q.empty = 1) = (E = {}), "empty")
                   \cup Tag(E # {} => q.area = Area(v), "area")
                   \cup Tag(\A i \in 1..Len(r.at) : (q.has[i] = 1) = (P2(r.at[i]) \in E), "contains")
                   \cup Tag((q.all = 1) = (Elems(o, h) \subseteq E), "contains-all")
                   \cup Tag(E # {} => (q.meets = 1) = (Elems(o, h) \cap E # {}), "intersects")
                   \cup Tag((q.eq = 1) = (v = o) /\ (q.ne = 1) = (v # o), "equal")
                   \cup Tag(Around(Tup(q.or), E \cup Elems(o, h), h), "join")
                   \cup Tag(Around(Tup(q.and), E \cap Elems(o, h), h), "intersection")
                   \cup Tag(Tup(q.copy) = v, "pickled")
                   \cup (IF h = 1 THEN Tag([i \in 1..Len(q.mesh) |-> P2(q.mesh[i])] = RowMajor(v), "mesh")
                                       \cup Tag(P2(q.item) = <<v[1] + r.at[1][1], v[2] + r.at[1][2]>>, "item")
                                       \cup Tag(Tup(q.box) = v, "box")
                         ELSE Tag(Tup(q.rect) = <<v[1], v[2], v[3]+1, v[4]+1>>, "rect"))
               : k \in 1..2}
Errs(r, G) ==
    CASE r.op \in {"values", "step", "dup"} ->
           Answers(r, G)
           \cup (IF r.op = "step" /\ r.f \in SetOps
                 THEN Tag(Around(G[r.w], Combined(R[r.w], R[3-r.w], r.f, P2(r.a), r.h), r.h), "set-operation") ELSE {})
      [] r.op = "round" ->
           Tag(P2(r.pos) = <<Round8(r.v[1]), Round8(r.v[2])>>, "intPos")
           \cup Tag(Tup(r.box) = <<Round8(r.v[1]), Round8(r.v[2]), Round8(r.v[3]) + 1, Round8(r.v[4]) + 1>>, "intPos-box")
           \cup Tag(P2(r.near) = <<Away8(r.v[1]), Away8(r.v[2])>>, "conversion")
      [] r.op = "pair" ->
           Tag(P2(r.get) = P2(r.v) /\ r.len = 2 /\ P2(r.xy) = P2(r.v), "items")
           \cup Tag(r.bad = 1, "index")
           \cup Tag(P2(r.set) = [P2(r.v) EXCEPT ![r.i] = r.x], "assignment")
           \cup Tag(P2(r.sum) = <<r.v[1] + r.u[1], r.v[2] + r.u[2]>> /\ P2(r.dif) = <<r.v[1] - r.u[1], r.v[2] - r.u[2]>>, "arithmetic")
           \cup Tag(P2(r.isum) = P2(r.sum) /\ P2(r.idif) = P2(r.dif) /\ P2(r.neg) = <<-r.v[1], -r.v[2]>>, "arithmetic")
           \cup Tag((r.eq = 1) = (P2(r.v) = P2(r.u)) /\ (r.ne = 1) = (P2(r.v) # P2(r.u)), "equal")
           \cup Tag(P2(r.copy) = P2(r.v), "pickled")
           \cup Tag((r.v[1] >= 0 /\ r.v[2] >= 0) => r.area = r.v[1] * r.v[2], "area")
           \cup Tag([i \in 1..Len(r.mesh) |-> P2(r.mesh[i])] = RowMajor(<<0, 0, r.v[1], r.v[2]>>), "mesh")
Init == l = 1 /\ R = <<<<0, 0, 0, 0>>, <<0, 0, 0, 0>>>>
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET r == Trace[l]
               G == TLCEval(Apply(r))
               e == Errs(r, G)
           IN  /\ R' = G
               /\ IF e = {} THEN TRUE ELSE PrintT(<<"ERR", l, r.op, e>>)
Finished == l <= Len(Trace) \/ PrintT(<<"DONE", l - 1>>)
Spec == Init /\ [][Next]_<<l, R>>
=============================================================================
