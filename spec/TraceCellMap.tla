---------------------------- MODULE TraceCellMap ----------------------------
(* Records of pixel maps: "build" (a map built from an image, or the refusal), *)
(* and histories: "new", operations ("rin", "mf", "rb", "me"), copies.         *)
EXTENDS CellReport, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, cur, saved

(****************************** construction ******************************)
Built(r) ==
    LET K == Construction([w |-> r.w, h |-> r.h, img |-> r.img, cv |-> r.cv = 1])
        A == 0..(K.W*K.H - 1)
        ty == [p \in A |-> r.px[p+1] % 4]
        cells(t) == {{p \in A : r.px[p+1] = v} : v \in {u \in {r.px[i] : i \in 1..Len(r.px)} : u % 4 = t}}
        \* each circle carries one node pixel
        stop == {p \in UNION K.circles : ty[p] = Vertex}
    IN  IF K.bad THEN (IF r.r = "refused" THEN {} ELSE {"accepted"})
        ELSE IF r.r # "ok" THEN {r.r}
        ELSE IF ~(r.W = K.W /\ r.H = K.H /\ Len(r.px) = K.W*K.H) THEN {"size"}
        ELSE IF ~K.scope THEN {}
        ELSE Tag(\A c \in K.circles : Cardinality(c \cap stop) = 1, "circles")
             \cup Tag(cells(Vertex) = K.nodes \cup {{p} : p \in stop}, "nodecells")
             \cup Tag(cells(Line) = {e \ stop : e \in K.edges}, "edgecells")
             \cup Tag(cells(Region) = K.faces, "facecells")
             \cup Tag(r.px[1] = 0, "outer")
             \cup Problems(r)
             \cup (IF "imp" \in DOMAIN r THEN Tag(r.imp.px = r.px, "import") \cup {"import-" \o t : t \in Problems(r.imp)} ELSE {})

(******************************* histories ********************************)
State(r) == [k \in (DOMAIN r) \ {"op", "d", "r"} |-> r[k]]
Op(r) ==
    LET M == cur
        D == Darts(M)
        sg == Sigma(M, D)
        x == r.d
        can == CASE r.op = "rin" -> CanRemoveNode(M, x)
                 [] r.op = "mf" -> CanMergeFaces(M, x)
                 [] r.op = "rb" -> CanRemoveBridge(M, x)
                 [] r.op = "me" -> CanMergeEdges(M, x, D, sg)
        res == CASE r.op = "rin" -> RemoveNode(M, x)
                 [] r.op = "mf" -> MergeFaces(M, x)
                 [] r.op = "rb" -> RemoveBridge(M, x)
                 [] r.op = "me" -> MergeEdges(M, x, sg)
    IN  IF ~can THEN Tag(r.r = -1, "accepted") \cup Tag(State(r) = cur, "changed")
        ELSE IF r.r = -1 THEN {"refused"}
        ELSE Tag(<<r.r, r.px>> \in res, "result") \cup Problems(r)
Problem(r) ==
    CASE r.op = "build" -> Built(r)
      [] r.op = "new" -> Problems(r)
      [] r.op \in {"copy", "assign"} -> Tag(State(r) = cur, "copy")
      [] r.op = "swap" -> Tag(State(r) = saved, "swap")
      [] OTHER -> Op(r)
None == [px |-> <<>>]
Init == l = 1 /\ cur = None /\ saved = None
Next ==
    /\ l <= Len(Trace)
    /\ LET r == Trace[l]
           e == Problem(r)
       IN  /\ IF e = {} THEN TRUE ELSE PrintT(<<"ERR", l, r.op, e>>)
           /\ CASE r.op = "build" -> UNCHANGED <<cur, saved>>
                [] r.op = "new" -> cur' = State(r) /\ saved' = None
                [] r.op \in {"copy", "assign"} -> saved' = State(r) /\ UNCHANGED cur
                [] r.op = "swap" -> cur' = State(r) /\ saved' = cur
                [] OTHER -> cur' = State(r) /\ UNCHANGED saved
    /\ l' = l + 1
Finished == l <= Len(Trace) \/ PrintT(<<"DONE", l - 1>>)
Spec == Init /\ [][Next]_<<l, cur, saved>>
=============================================================================
