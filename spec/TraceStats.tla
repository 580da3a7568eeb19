----------------------------- MODULE TraceStats -----------------------------
(* FaceColorStatistics recorded from the implementation: st[id] is the         *)
(* statistics object of the specification, driven by the events of the map.    *)
EXTENDS Stats, SequencesExt, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, prev
vars == <<l, st, prev>>
AbsI(v) == IF v < 0 THEN -v ELSE v
\* equal up to the precision of the numbers in use: exact, or (single precision) 1/tol
Eq(a, b, tol) == IF tol = 0 THEN a = b ELSE AbsI(a - b) <= 2 + AbsI(b) \div tol
Tag(cond, t) == IF cond THEN {} ELSE {t}
Rec(r, id) == CHOOSE x \in ToSet(r.fs) : x.id = id
Ids(r) == {x.id : x \in ToSet(r.fs)}
\* the pixels (1..W*H, row by row) of each face
OwnOf(x) == LET fs == {p[1] : p \in ToSet(x.px)}
            IN  [f \in fs |-> {i \in 1..Len(x.lab) : x.lab[i] = f}]
\* ---- events: <<statistics, pending faces>>
Event(acc, e, W) ==
    CASE e.k = "pmf" -> <<acc[1], <<e.a[1], e.a[2]>>>>
      [] e.k = "qmf" -> <<Merged(acc[1], acc[2][1], acc[2][2], e.a[1]), <<>>>>
      [] e.k = "ap"  -> <<Associated(acc[1], e.a[1], {p[2]*W + p[1] + 1 : p \in {q \in ToSet(e.a[3]) : TRUE}}), acc[2]>>
      [] OTHER -> acc
Drive(s, evs, W) == FoldSeq(LAMBDA e, acc : Event(acc, e, W), <<s, <<>>>>, evs)[1]

Model(r) ==
    LET old == DOMAIN st
        W == IF r.op = "fs" THEN r.w ELSE 0
        now == CASE r.op = "map" -> {}
                 [] r.op = "fs" -> old \cup {r.a[1]}
                 [] r.op = "fsx" -> old \ {r.a[1]}
                 [] r.op = "fsc" -> old \cup {r.a[2]}
                 [] OTHER -> old
        cur(id) == st[id]
        make(id) ==
          IF r.op = "fs" /\ id = r.a[1]
          THEN [k |-> r.k, att |-> TRUE, w |-> r.w, const |-> r.a[4] = 0,
                tol |-> IF "tol" \in DOMAIN r THEN r.tol ELSE 0,
                s |-> NewStats(r.a[2], [i \in 1..Len(r.img) |-> r.img[i]], OwnOf(Rec(r, id)))]
          ELSE IF r.op = "fsc" /\ id = r.a[2]
          THEN [cur(r.a[1]) EXCEPT !.k = r.a[3], !.att = TRUE]
          ELSE IF r.op = "fsd" /\ id = r.a[1] THEN [cur(id) EXCEPT !.att = FALSE]
          ELSE IF cur(id).att /\ cur(id).k = r.k /\ r.ev # <<>>
          THEN [cur(id) EXCEPT !.s = Drive(cur(id).s, r.ev, cur(id).w)]
          ELSE cur(id)
    IN  [id \in now |-> make(id)]

\* ---- one statistics object (x as recorded, m as specified, y as recorded before)
NA == -2000000000                     \* not asked
Face(m, e) ==    \* e = <<label, count, sum, n^2 variance, n(n-1) unbiased variance>>
    LET f == e[1]  t == m.s.tr[f]
        c == m.s.img[1]
    IN  IF f \notin m.s.samp
        THEN Tag(e[2] = t[1], "pixelcount") \cup Tag(e[3] \in {t[2], NA}, "average")
             \cup Tag(e[4] = NA \/ (Eq(e[4], t[1]*t[3] - t[2]*t[2], m.tol) /\ Eq(e[5], e[4], m.tol)), "variance")
        ELSE IF m.const THEN Tag(e[3] \in {c*e[2], NA} /\ (e[4] = NA \/ Eq(e[4], 0, m.tol)), "sampled") ELSE {}
Object(x, m) ==
    IF ~m.att THEN {}
    ELSE LET own == OwnOf(x) IN
         Tag(x.m2 = m.s.min, "minsamplecount") \cup Tag(x.ok, "consistency")
         \cup Tag(x.ssc = Cardinality(m.s.samp), "supersampledcount")
         \cup IF own # m.s.own THEN {"owned"}
              ELSE IF {e[1] : e \in ToSet(x.f)} # DOMAIN own THEN {"faces"}
              ELSE UNION {Face(m, e) : e \in ToSet(x.f)}
Same(x, id) == \* detached statistics do not change any more
    LET y == {z \in ToSet(prev) : z.id = id} IN \A z \in y : z.f = x.f /\ z.ssc = x.ssc
Region(r, x, m) ==
    Tag(\A i \in 1..Len(r.q) :
          LET f == x.lab[i] IN
          IF f < 0 THEN r.q[i] = 0
          ELSE f \in m.s.samp \/ m.s.tr[f][1] = 0 \/
               LET t == m.s.tr[f]  d == r.q[i]*t[1] - 1000*t[2] IN d <= t[1] /\ -d <= t[1], "regionimage")
Diffs(r, m) ==
    Tag(\A q \in ToSet(r.q) :
          q[1] \in m.s.samp \/ q[2] \in m.s.samp
          \/ Eq(q[3], AbsI(m.s.tr[q[1]][2]*m.s.tr[q[2]][1] - m.s.tr[q[2]][2]*m.s.tr[q[1]][1]), m.tol), "meandiff")
    \cup Tag(\A q \in ToSet(r.q) : q[4] = 0 \/ q[5] = 0
               \/ AbsI(q[6] - (q[4]*q[5]) \div (q[4]+q[5])) <= 1, "areahomogeneity")
    \cup Tag(\A q \in ToSet(r.q) : q[4] = 0 \/ q[5] = 0      \* homogeneity = difference * sqrt(area part)
               \/ (IF q[8] = 1 THEN AbsI(q[7] - q[6]) <= 2 ELSE q[7] = 0), "homogeneity")
Errs(r, new) ==
    Tag(r.r.k # "exc" \/ r.op \in {"mf", "rb", "me", "re", "sp", "init", "sort", "sigma", "sorte", "spl", "edge", "rin", "relabel", "mfc"}, "exception")
    \cup (IF Ids(r) # DOMAIN new THEN {"objects"}
          ELSE UNION {LET x == Rec(r, id) IN
                 Object(x, new[id])
                 \cup (IF new[id].att \/ r.op = "fsd" THEN {} ELSE Tag(Same(x, id), "detached"))
                 \cup (IF r.op = "fsr" /\ r.a[1] = id THEN Region(r, x, new[id]) ELSE {})
                 \cup (IF r.op = "fsq" /\ r.a[1] = id THEN Diffs(r, new[id]) ELSE {})
                 : id \in DOMAIN new})
Init == l = 1 /\ st = <<>> /\ prev = <<>>
\* after a disagreement the objects concerned are dropped from the specification's state
\* by skipping to the next map
NextMap(i) == LET later == {j \in (i+1)..Len(Trace) : Trace[j].op = "map"}
              IN  IF later = {} THEN Len(Trace) + 1 ELSE Min(later)
Next == /\ l <= Len(Trace)
        /\ LET r == Trace[l]  new == Model(r)  e == Errs(r, new)
           IN  IF e = {} THEN l' = l + 1 /\ st' = new /\ prev' = r.fs
               ELSE PrintT(<<"ERR", l, r.op, e>>) /\ l' = NextMap(l) /\ st' = <<>> /\ prev' = <<>>
Finished == l <= Len(Trace) \/ PrintT(<<"DONE", l - 1>>)
Spec == Init /\ [][Next]_vars
=============================================================================
