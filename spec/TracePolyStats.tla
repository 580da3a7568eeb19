---------------------------- MODULE TracePolyStats ----------------------------
EXTENDS PolyStats, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, S, T
Tag(cond, t) == IF cond THEN {} ELSE {t}
Near(x, y, tol) == x - y <= tol /\ y - x <= tol
Apply(rec) ==
    LET a == rec.a
        k == a[1] + 1
    IN  CASE rec.op = "new" -> <<<<>>, <<>>, <<>>>>
          [] rec.op = "add" -> [S EXCEPT ![k] = Add(S[k], a[2], a[3])]
          [] rec.op = "merge" -> [S EXCEPT ![k] = Merged(S[k], S[a[2]+1])]
          [] rec.op = "restore" -> [S EXCEPT ![k] = S[a[2]+1]]
          [] rec.op = "poly" -> [S EXCEPT ![k] = OfPolyline(rec.p, T)]
          [] OTHER -> S
LookErrs(s, r) ==
    Tag(IF s = <<>> THEN r.av = 0
        ELSE Near(r.av * Total(s), Sum(s), 2 * Total(s)), "average")
    \cup (IF s = <<>> THEN {}
          ELSE Tag(r.mi = Min(Values(s)), "minimum") \cup Tag(r.ma = Max(Values(s)), "maximum")
               \cup Tag(\A i \in 1..Len(r.q) : r.q[i][2] = Quantile(s, r.q[i][1]), "quantile"))
Errs(rec, N) == UNION {LookErrs(N[rec.o[i]+1], rec.s[i]) : i \in 1..Len(rec.o)}
Init == l = 1 /\ S = <<<<>>, <<>>, <<>>>> /\ T = <<>>
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET rec == Trace[l]
               N == Apply(rec)
               e == Errs(rec, N)
           IN  /\ (IF e = {} THEN TRUE ELSE PrintT(<<"ERR", l, rec.op, e>>))
               /\ S' = N
               /\ T' = IF rec.op = "new" THEN rec.t ELSE T
Finished == l <= Len(Trace) \/ PrintT(<<"DONE", l - 1>>)
Spec == Init /\ [][Next]_<<l, S, T>>
=============================================================================
