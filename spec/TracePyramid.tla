---------------------------- MODULE TracePyramid ----------------------------
(* Histories of pyramids recorded from the implementation.                    *)
EXTENDS CellReport, Pyramid, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
vars == <<l, level, top, depth>>
Meta == {"op", "d", "r", "n", "ix", "own", "k", "ms", "from", "lv"}
State(r) == [k \in (DOMAIN r) \ Meta |-> r[k]]
\* elementary operations, on maps [W, H, px] (results: surviving label and map)
Elem(op, M, x) ==
    LET D == Darts(M)  sg == Sigma(M, D)
        can == CASE op = "rin" -> CanRemoveNode(M, x) [] op = "mf" -> CanMergeFaces(M, x)
                 [] op = "rb" -> CanRemoveBridge(M, x) [] op = "me" -> CanMergeEdges(M, x, D, sg)
        res == CASE op = "rin" -> RemoveNode(M, x) [] op = "mf" -> MergeFaces(M, x)
                 [] op = "rb" -> RemoveBridge(M, x) [] op = "me" -> MergeEdges(M, x, sg)
    IN  IF can THEN {<<z[1], [W |-> M.W, H |-> M.H, px |-> z[2]]>> : z \in res} ELSE {}
Isolated(M, n) == \A x \in Darts(M) : NodeOf(M, x) # n
\* removal of the node n if nothing is attached to it any more
Tidy(M, n) == IF Isolated(M, n) THEN (CHOOSE z \in Elem("rin", M, -1 - n) : TRUE)[2] ELSE M
Results(op, M, x) ==
    CASE op \in {"rin", "mf", "rb", "me"} -> Elem(op, M, x)
      [] op = "re" -> Elem("mf", M, x) \cup Elem("rb", M, x)
      [] op = "rewe" -> LET ends == {NodeOf(M, y) : y \in {z \in Darts(M) : EdgeOf(M, z) = EdgeOf(M, x)}}
                            n1 == CHOOSE n \in ends : TRUE
                            n2 == CHOOSE n \in ends : ends = {n1, n}
                        IN  IF x < 0 THEN {}
                            ELSE {<<z[1], LET t == Tidy(z[2], n1) IN IF n1 = n2 THEN t ELSE Tidy(t, n2)>>
                                  : z \in Elem("mf", M, x) \cup Elem("rb", M, x)}
\* number of elementary operations reported to the statistics
Steps(op, M, N) == IF op = "rewe"
                   THEN 1 + Cardinality({v \in {M.px[i] : i \in 1..Len(M.px)} : v % 4 = Vertex})
                          - Cardinality({v \in {N.px[i] : i \in 1..Len(N.px)} : v % 4 = Vertex})
                   ELSE 1
Shape(r) == [W |-> r.W, H |-> r.H, px |-> r.px]
OpErrs(r) ==
    LET res == Results(r.op, Shape(top), r.d)
    IN  IF res = {} THEN Tag(r.r = -1, "accepted") \cup Tag(State(r) = top, "changed")
        ELSE IF r.r = -1 THEN {"refused"}
        ELSE Tag(<<r.r, Shape(r)>> \in res, "result") \cup Tag(r.calls = top.calls + Steps(r.op, top, r), "statistics")
             \cup Problems(r)
OK(r) == r.r # -1
IsOp(r) == r.op \in {"rin", "mf", "rb", "me", "re", "rewe"}
Reached(r) ==      \* the level approached in a limited number of steps
    LET S == State(r) IN
    /\ r.ix + 1 \in 1..Len(level)
    /\ S = level[r.ix + 1]
    /\ (r.r = 1) = (r.ix = r.k)
    /\ r.ix <= r.k
    /\ r.from <= r.k /\ r.ix # r.k => r.ix >= r.from
Step(r) ==
    CASE r.op = "new" -> Base(State(r))
      [] IsOp(r) -> IF OK(r) THEN Perform(State(r)) ELSE Fail
      [] r.op = "begin" -> Begin
      [] r.op = "change" -> Change
      [] r.op = "end" -> End
      [] r.op = "cut" -> Cut(r.k)
      [] OTHER -> UNCHANGED pvars
\* what is observed after the step (primed variables: the model after it)
After(r) ==
    LET n == Len(level') + (IF depth' > 0 THEN 1 ELSE 0)
    IN  Tag(r.n = n, "levelcount") \cup Tag(r.own = 1, "pyramid")
        \cup CASE r.op \in {"get", "goto"} -> Tag(State(r) = level[r.k + 1], "level") \cup Tag(r.ix = r.k, "index")
               [] r.op = "approach" -> Tag(Reached(r), "approach")
               [] OTHER -> Tag(State(r) = top', "top") \cup Tag(r.ix = Len(level') - 1, "index")
Errs(r) == CASE IsOp(r) -> OpErrs(r)
             [] r.op = "new" -> Problems(r)
             [] OTHER -> {}
Init == l = 1 /\ level = <<>> /\ top = <<>> /\ depth = 0
Next ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ LET r == Trace[l] IN
       /\ Step(r)
       /\ LET e == Errs(r) \cup After(r)
          IN  IF e = {} THEN TRUE ELSE PrintT(<<"ERR", l, r.op, e>>)
Finished == l <= Len(Trace) \/ PrintT(<<"DONE", l - 1>>)
Spec == Init /\ [][Next]_vars
=============================================================================
