---------------------------- MODULE TraceCrackMap ----------------------------
(* Each record is one image with the map built from it, and (unless the edges *)
(* were moved before initialisation) the map with its edges moved to          *)
(* mid-crack positions.  Logged coordinates are doubled corner coordinates.   *)
EXTENDS CrackMap, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
Tag(cond, t) == IF cond THEN {} ELSE {t}
Pts(s) == [i \in 1..Len(s) |-> <<s[i][1], s[i][2]>>]
Even(s) == \A i \in 1..Len(s) : s[i][1] % 2 = 0 /\ s[i][2] % 2 = 0
Halve(s) == [i \in 1..Len(s) |-> <<s[i][1] \div 2, s[i][2] \div 2>>]

\* first point after the start / before the end, seen from the node
DartDir(e, k) ==   \* k = 1: forward dart, 2: backward dart (directions on either geometry)
    LET p == Pts(e.p)
        a == IF k = 1 THEN p[1] ELSE p[Len(p)]
        b == IF k = 1 THEN p[2] ELSE p[Len(p)-1]
    IN  <<b[1]-a[1], b[2]-a[2]>>
\* planar order: the successor of each dart is the next one counter-clockwise
SigmaOK(M, degOnly2) ==
    LET D == {<<e.l, 1>> : e \in ToSet(M.edges)} \cup {<<-e.l, 2>> : e \in ToSet(M.edges)}
        edge == [x \in {e.l : e \in ToSet(M.edges)} |-> CHOOSE e \in ToSet(M.edges) : e.l = x]
        E(d) == edge[Abs(d[1])]
        Node(d) == IF d[2] = 1 THEN E(d).s ELSE E(d).e
        Succ(d) == E(d).n[d[2]]
        V(d) == DartDir(E(d), d[2])
        Quad(v) == CASE v[1] > 0 /\ v[2] = 0 -> 0 [] v[1] = 0 /\ v[2] < 0 -> 1 [] v[1] < 0 /\ v[2] = 0 -> 2
                     [] v[1] = 0 /\ v[2] > 0 -> 3 [] OTHER -> 9
        K(d) == IF d[2] = 1 THEN 1 ELSE 2
    IN  \A d \in D : LET A == {x \in D : Node(x) = Node(d)}
                     IN  IF Cardinality(A) <= 2
                         THEN Succ(d) = (IF Cardinality(A) = 1 THEN d[1] ELSE (CHOOSE x \in A : x # d)[1])
                         ELSE LET q == Quad(V(d))
                                  next == CHOOSE x \in A \ {d} : \A y \in A \ {d} :
                                            (Quad(V(x)) - q + 4) % 4 <= (Quad(V(y)) - q + 4) % 4
                              IN  /\ \A x \in A : Quad(V(x)) # 9
                                  /\ \A x, y \in A : x # y => Quad(V(x)) # Quad(V(y))
                                  /\ Succ(d) = next[1]
\* eight times the area of face f from the edges' geometry (sum over all contours)
RECURSIVE SumArea(_, _, _)
SumArea(es, f, i) ==
    IF i > Len(es) THEN 0
    ELSE LET a == IF es[i].lf # es[i].rf /\ (es[i].lf = f \/ es[i].rf = f) THEN Area2(Pts(es[i].p)) ELSE 0
         IN  (IF es[i].lf = f THEN a ELSE -a) + SumArea(es, f, i+1)

Structure(M) ==      \* ends of edges, counts, node degrees
    LET pos == [x \in {n[1] : n \in ToSet(M.nodes)} |->
                  LET n == CHOOSE m \in ToSet(M.nodes) : m[1] = x IN <<n[2], n[3], n[4]>>]
        es == ToSet(M.edges)
    IN  /\ M.nc = Len(M.nodes) /\ M.ec = Len(M.edges) /\ M.fc = Len(M.faces)
        /\ \A e \in es : /\ e.s \in DOMAIN pos /\ e.e \in DOMAIN pos /\ Len(e.p) >= 2
                         /\ e.p[1] = <<pos[e.s][1], pos[e.s][2]>>
                         /\ e.p[Len(e.p)] = <<pos[e.e][1], pos[e.e][2]>>
        /\ \A x \in DOMAIN pos : pos[x][3] = Cardinality({e \in es : e.s = x}) + Cardinality({e \in es : e.e = x})

FaceErrs(r, I) ==
    LET R == Regions(I)
        at == [p \in Pixels(I.w, I.h) |-> r.at[p[2]*I.w + p[1] + 1]]
        finite == {f \in ToSet(r.faces) : f[1] # 0}
    IN  Tag(/\ Len(r.faces) = Cardinality(R) + 1 /\ \E f \in ToSet(r.faces) : f[1] = 0
            /\ \A C \in R : Cardinality({at[p] : p \in C}) = 1
            /\ {at[p] : p \in DOMAIN at} = {f[1] : f \in finite}, "regions")
        \cup Tag(r.lab # <<>> => r.lab = r.at, "labelimage")
        \cup Tag((r.early = 0 /\ r.li = 1) => \A f \in finite : f[3] = Cardinality({p \in DOMAIN at : at[p] = f[1]}), "pixelarea")
        \cup Tag(r.early = 0 => \A f \in finite : f[2] = 8 * Cardinality({p \in DOMAIN at : at[p] = f[1]}), "area")
        \cup Tag(r.early = 0 => \A p \in DOMAIN at : r.src[at[p]+1] = L(I, p), "source")

\* the edges of the unmoved map
EdgeErrs(r, I) ==
    LET es == r.edges
        ok == \A i \in 1..Len(es) : Even(es[i].p) /\ UnitSteps(Halve(es[i].p))
        P == [i \in 1..Len(es) |-> Halve(es[i].p)]
        UC == [i \in 1..Len(es) |-> [k \in 1..(Len(P[i])-1) |-> Norm(P[i][k], DirOf(P[i][k], P[i][k+1]))]]
        at == [p \in Pixels(I.w, I.h) |-> r.at[p[2]*I.w + p[1] + 1]]
        At(p) == IF p \in DOMAIN at THEN at[p] ELSE 0
        N == {c \in Corners(I.w, I.h) : IsNode(I, c)}
        Lone(i) == P[i][1] \notin N
    IN  IF ~ok THEN {"steps"}
        ELSE Tag(/\ UNION {ToSet(UC[i]) : i \in 1..Len(es)} = Cracks(I)
                 /\ FoldSet(LAMBDA i, a : a + Len(UC[i]), 0, 1..Len(es)) = Cardinality(Cracks(I)), "cracks")
             \cup Tag(\A i \in 1..Len(es) :
                        /\ \A k \in 2..(Len(P[i])-1) :
                             /\ P[i][k] \notin N
                             /\ DirOf(P[i][k], P[i][k+1]) = Continue(I, P[i][k], DirOf(P[i][k-1], P[i][k]))
                        /\ Lone(i) => /\ es[i].s = es[i].e
                                      /\ LET n == Len(P[i])
                                         IN  DirOf(P[i][1], P[i][2]) = Continue(I, P[i][n], DirOf(P[i][n-1], P[i][n]))
                        /\ ~Lone(i) => P[i][Len(P[i])] \in N, "course")
             \cup Tag(/\ \A c \in N : Cardinality({k \in 1..Len(r.nodes) : <<r.nodes[k][2], r.nodes[k][3]>> = <<2*c[1], 2*c[2]>>}) = 1
                      /\ Len(r.nodes) = Cardinality(N) + Cardinality({i \in 1..Len(es) : Lone(i)})
                      /\ \A k \in 1..Len(r.nodes) : r.nodes[k][4] >= 3 \/ (r.nodes[k][4] = 2
                             /\ \E i \in 1..Len(es) : Lone(i) /\ es[i].s = r.nodes[k][1]), "nodes")
             \cup Tag(\A i \in 1..Len(es) : \A k \in 1..(Len(P[i])-1) :
                        LET d == DirOf(P[i][k], P[i][k+1])
                        IN  At(LeftPixel(P[i][k], d)) = es[i].lf /\ At(RightPixel(P[i][k], d)) = es[i].rf, "sides")
             \cup Tag(\A i \in 1..Len(es) : (es[i].b = 1) = (es[i].lf = 0 \/ es[i].rf = 0), "border")
             \cup Tag(\A i \in 1..Len(es) : es[i].len = 1000 * (Len(P[i]) - 1), "length")

\* b: map with moved edges, a: the map before
MidErrs(a, b) ==
    LET deg == [x \in {n[1] : n \in ToSet(a.nodes)} |-> (CHOOSE n \in ToSet(a.nodes) : n[1] = x)[4]]
        Move2(e) == e.s = e.e /\ deg[e.s] = 2
    IN  Tag(/\ Len(a.edges) = Len(b.edges)
            /\ \A i \in 1..Len(a.edges) :
                 LET x == a.edges[i]  y == b.edges[i]
                 IN  /\ x.l = y.l /\ x.s = y.s /\ x.e = y.e /\ x.lf = y.lf /\ x.rf = y.rf /\ x.b = y.b /\ x.n = y.n, "mid-topology")
        \cup Tag(/\ Len(a.nodes) = Len(b.nodes)
                 /\ \A i \in 1..Len(a.nodes) : /\ a.nodes[i][1] = b.nodes[i][1] /\ a.nodes[i][4] = b.nodes[i][4]
                                               /\ a.nodes[i][4] > 2 => a.nodes[i] = b.nodes[i], "mid-nodes")
        \cup Tag(\A i \in 1..Len(a.edges) : Pts(b.edges[i].p) = Midcracks(Halve(a.edges[i].p), Move2(a.edges[i])), "mid-geometry")
        \cup Tag(Len(a.faces) = Len(b.faces) /\ \A i \in 1..Len(a.faces) : a.faces[i][1] = b.faces[i][1] /\ a.faces[i][4] = b.faces[i][4], "mid-faces")
AreaOK(M) == \A f \in ToSet(M.faces) : f[2] = SumArea(M.edges, f[1], 1) \/ f[1] = 0
Errs(r) ==
    LET I == [w |-> r.w, h |-> r.h, img |-> r.img, eight |-> r.c8 = 1]
        S == Structure(r)
    IN  IF ~S THEN {"structure"}
        ELSE FaceErrs(r, I) \cup Tag(SigmaOK(r, FALSE), "order") \cup Tag(AreaOK(r), "face-area")
             \cup (IF r.early = 0
                   THEN EdgeErrs(r, I) \cup (IF Structure(r.mid)
                                             THEN MidErrs(r, r.mid) \cup Tag(SigmaOK(r.mid, FALSE), "mid-order")
                                                  \cup Tag(AreaOK(r.mid), "mid-area")
                                             ELSE {"mid-structure"})
                   ELSE Tag(\A e \in ToSet(r.edges) : (e.b = 1) = (e.lf = 0 \/ e.rf = 0), "border"))
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Errs(Trace[l]) IN IF e = {} THEN TRUE ELSE PrintT(<<"ERR", l, Trace[l].op, e>>)
Finished == l <= Len(Trace) \/ PrintT(<<"DONE", l - 1>>)
Spec == Init /\ [][Next]_l
=============================================================================
