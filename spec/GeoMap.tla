------------------------------- MODULE GeoMap -------------------------------
(***************************************************************************)
(* The sub-pixel map: an embedded planar graph with faces, described as a  *)
(* record m and transitions that are functions on such records, so that    *)
(* the same definitions serve for model checking (MCGeoMap), for script    *)
(* generation and for validating traces of the implementation              *)
(* (TraceGeoMap).                                                          *)
(*                                                                         *)
(*   m.W, m.H   image size                                                 *)
(*   m.np       node label -> position (quarter pixels)                    *)
(*   m.E        edge label -> [s, t, p, fl]  start/end node, points, flags *)
(*              (fl: set of flag bit numbers)                              *)
(*   m.prot     edge protection attached?                                  *)
(*   m.sg,m.iv  dart -> next / previous dart around its start node         *)
(*              (darts of edge e are e and -e; -e runs backwards)          *)
(*   m.srt      edges sorted?       m.ini   faces initialised?             *)
(*   m.F        existing face labels (0 = infinite face)                   *)
(*   m.lf       dart -> label of the face to its left                      *)
(*   m.li       label image present?                                       *)
(*   m.img      pixel -> face label or -(number of edges crossing it)      *)
(*   m.cov      edge -> set of image pixels crossed by it (if m.li)        *)
(*   m.lut      face label -> label it resolves to                         *)
(*                                                                         *)
(* Contours are not stored: the contours of face f are the phi orbits of   *)
(* the darts with m.lf = f.                                                *)
(***************************************************************************)
EXTENDS Geometry, Functions

EmptyMap(W, H) ==
    [prot |-> FALSE, W |-> W, H |-> H, np |-> <<>>, E |-> <<>>, sg |-> <<>>, iv |-> <<>>,
     srt |-> FALSE, ini |-> FALSE, F |-> {}, lf |-> <<>>,
     li |-> FALSE, img |-> <<>>, cov |-> <<>>, lut |-> <<>>]

\* ---------------------------------------------------------------- basics
Nodes(m) == DOMAIN m.np
Edges(m) == DOMAIN m.E
Darts(m) == DOMAIN m.sg
IsDart(m, d) == d # 0 /\ Abs(d) \in DOMAIN m.E
StartNode(m, d) == IF d > 0 THEN m.E[d].s ELSE m.E[-d].t
EndNode(m, d) == StartNode(m, -d)
DPts(m, d) == IF d > 0 THEN m.E[d].p ELSE Rev(m.E[-d].p)
Phi(m, d) == m.iv[-d]
LeftFace(m, d) == m.lf[d]
IsBridge(m, e) == m.lf[e] = m.lf[-e]
IsLoop(m, e) == m.E[e].s = m.E[e].t
DartsAt(m, n) == {d \in Darts(m) : StartNode(m, d) = n}
Isolated(m, n) == ~\E e \in Edges(m) : m.E[e].s = n \/ m.E[e].t = n
Degree(m, n) == Cardinality(DartsAt(m, n))

Drop(f, S) == [x \in (DOMAIN f) \ S |-> f[x]]
Put(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
InvPerm(f) == [x \in DOMAIN f |-> CHOOSE y \in DOMAIN f : f[y] = x]

\* the orbit of d under sigma / phi as a sequence starting with d
RECURSIVE PhiFrom(_, _, _, _), SigmaFrom(_, _, _, _)
PhiFrom(iv, d0, d, acc) ==
    IF (d = d0 /\ acc # <<>>) \/ Len(acc) > 2000 THEN acc
    ELSE PhiFrom(iv, d0, iv[-d], Append(acc, d))
SigmaFrom(sg, d0, d, acc) ==
    IF (d = d0 /\ acc # <<>>) \/ Len(acc) > 2000 THEN acc
    ELSE SigmaFrom(sg, d0, sg[d], Append(acc, d))
PhiOrbit(m, d) == PhiFrom(m.iv, d, d, <<>>)
SigmaOrbit(m, d) == SigmaFrom(m.sg, d, d, <<>>)

RECURSIVE PartitionPhi(_, _, _)
PartitionPhi(m, rest, acc) ==
    IF rest = {} THEN acc
    ELSE LET o == PhiOrbit(m, Min(rest))
         IN  PartitionPhi(m, rest \ Range(o), acc \cup {o})
\* all contours, each as the sequence of its darts (starting with the smallest)
Contours(m) == PartitionPhi(m, Darts(m), {})
ContoursOf(m, f) == {o \in Contours(m) : m.lf[o[1]] = f}

RECURSIVE ConcatDarts(_, _, _, _)
ConcatDarts(m, o, i, acc) ==
    IF i > Len(o) THEN acc
    ELSE ConcatDarts(m, o, i+1, acc \o (IF acc = <<>> THEN DPts(m, o[i]) ELSE Tail(DPts(m, o[i]))))
ContourPts(m, o) == ConcatDarts(m, o, 1, <<>>)
ContourArea2(m, o) == Area2(ContourPts(m, o))

SumOver(S, f(_)) == FoldSet(LAMBDA x, acc : f(x) + acc, 0, S)

DArea2(m, d) == IF d > 0 THEN Area2(m.E[d].p) ELSE -Area2(m.E[-d].p)
FaceArea2(m, f) == LET g(d) == DArea2(m, d) IN SumOver({d \in Darts(m) : m.lf[d] = f}, g)

OuterContour(m, f) == CHOOSE o \in ContoursOf(m, f) : ContourArea2(m, o) > 0
FaceBBox(m, f) == BBox(ContourPts(m, OuterContour(m, f)))

\* -------------------------------------------------- building the graph
AddNode(m, n, pos) == [m EXCEPT !.np = Put(m.np, n, pos)]

\* insert dart nd as sigma predecessor of dart succ (0: alone)
InsertPred(m, succ, nd) ==
    IF succ = 0 THEN [m EXCEPT !.sg = Put(m.sg, nd, nd), !.iv = Put(m.iv, nd, nd)]
    ELSE LET p == m.iv[succ]
         IN  [m EXCEPT !.sg = Put([m.sg EXCEPT ![p] = nd], nd, succ),
                       !.iv = Put([m.iv EXCEPT ![succ] = nd], nd, p)]
RemoveDart(m, d) ==
    LET s == m.sg[d]  p == m.iv[d]
    IN  IF s = d THEN [m EXCEPT !.sg = Drop(m.sg, {d}), !.iv = Drop(m.iv, {d})]
        ELSE [m EXCEPT !.sg = Drop([m.sg EXCEPT ![p] = s], {d}),
                       !.iv = Drop([m.iv EXCEPT ![s] = p], {d})]

\* a1, a2: the darts before which the new edge ends are inserted (0 for an isolated
\* node; an end attached to a node is inserted anywhere, so the caller picks a dart)
AddEdge(m, e, s, t, pts, a1, a2) ==
    LET m1 == [m EXCEPT !.E = Put(m.E, e, [s |-> s, t |-> t, p |-> pts, fl |-> {}])]
    IN  InsertPred(InsertPred(m1, a1, e), a2, -e)

\* direction in which dart d leaves its node
Dir(m, d) == LET p == DPts(m, d) IN <<p[2][1]-p[1][1], p[2][2]-p[1][2]>>
Ambiguous(m) == \E n \in Nodes(m) : \E d1, d2 \in DartsAt(m, n) :
                    d1 # d2 /\ SameAngle(Dir(m, d1), Dir(m, d2))
SortedOrbit(m, n) == SetToSortSeq(DartsAt(m, n), LAMBDA a, b : AngleLess(Dir(m, a), Dir(m, b)))
SortEdges(m) ==
    LET orb == [n \in Nodes(m) |-> SortedOrbit(m, n)]
        nx == [d \in Darts(m) |->
                 LET o == orb[StartNode(m, d)]
                     i == CHOOSE k \in 1..Len(o) : o[k] = d
                 IN  o[(i % Len(o)) + 1]]
    IN  [m EXCEPT !.sg = nx, !.iv = InvPerm(nx), !.srt = TRUE]

SetSigma(m, sg, sorted) == [m EXCEPT !.sg = sg, !.iv = InvPerm(sg), !.srt = sorted]

\* a legal cyclic order: every orbit is exactly the set of darts of one node
SigmaLegal(m) ==
    /\ DOMAIN m.sg = {e : e \in Edges(m)} \cup {-e : e \in Edges(m)}
    /\ DOMAIN m.iv = DOMAIN m.sg
    /\ \A d \in DOMAIN m.sg : m.sg[d] \in DOMAIN m.sg /\ m.iv[m.sg[d]] = d
    /\ \A n \in Nodes(m) : \A d \in DartsAt(m, n) :
          Range(SigmaOrbit(m, d)) = DartsAt(m, n)

\* ----------------------------------------------- faces and label image
AllPixels(m) == (0..(m.W-1)) \X (0..(m.H-1))
PixCentre(c) == <<U*c[1], U*c[2]>>

\* the face containing point v (not on an edge), from the contours alone
FaceAtPoint(m, cont, v) ==
    LET inside == {o \in cont : ContourArea2(m, o) > 0 /\ EvenOdd(v, ContourPts(m, o))}
    IN  IF inside = {} THEN 0
        ELSE LET o == CHOOSE o \in inside : \A q \in inside :
                          ContourArea2(m, o) <= ContourArea2(m, q)
             IN  m.lf[o[1]]

OnAnyEdge(m, v) == \E e \in Edges(m) : OnPolyline(v, m.E[e].p)

RECURSIVE CountIn(_, _, _)
CountIn(cov, S, c) == IF S = {} THEN 0
    ELSE LET e == CHOOSE x \in S : TRUE
         IN  (IF c \in cov[e] THEN 1 ELSE 0) + CountIn(cov, S \ {e}, c)
CoverCount(m, c) == CountIn(m.cov, DOMAIN m.cov, c)

CoverAll(m) == [e \in Edges(m) |-> CoverPixels(m.E[e].p, m.W, m.H)]

\* Expected image, from geometry and face labels only.
ExactImage(m, cov) ==
    LET cont == Contours(m)
        pos == {o \in cont : ContourArea2(m, o) > 0}
        tab == {[f |-> m.lf[o[1]], a |-> ContourArea2(m, o), p |-> ContourPts(m, o)] : o \in pos}
    IN  [c \in AllPixels(m) |->
           LET k == CountIn(cov, DOMAIN cov, c)
           IN  IF k > 0 THEN -k
               ELSE LET ins == {t \in tab : EvenOdd(PixCentre(c), t.p)}
                    IN  IF ins = {} THEN 0
                        ELSE (CHOOSE t \in ins : \A q \in ins : t.a <= q.a).f]

LabelImageOn(m) ==
    LET cov == CoverAll(m)
    IN  [m EXCEPT !.li = TRUE, !.cov = cov, !.img = ExactImage(m, cov),
                  !.lut = [f \in m.F |-> f]]
LabelImageOff(m) == [m EXCEPT !.li = FALSE, !.cov = <<>>, !.img = <<>>, !.lut = <<>>]

PixelArea(m, f) == Cardinality({c \in DOMAIN m.img : m.img[c] = f})

\* parent[o] for a contour o that is not the outer contour of a face: the innermost
\* positive contour strictly containing one of its points (0 if there is none)
ParentLabel(o, neg, pos) ==
    LET cands == {q \in pos : \E i \in 1..Len(o.p) : StrictlyInside(o.p[i], q.p)}
    IN  IF cands = {} THEN 0
        ELSE (CHOOSE q \in cands : \A r \in cands : q.a <= r.a).f

\* name: dart -> label (used for positive contours only; all darts of a contour
\* must have the same name).  Result: all faces with their contours.
InitFaces(m, name) ==
    LET cont == {[d |-> o, p |-> ContourPts(m, o), a |-> ContourArea2(m, o)] : o \in Contours(m)}
        pos == {[d |-> c.d, p |-> c.p, a |-> c.a, f |-> name[c.d[1]]] : c \in {x \in cont : x.a > 0}}
        neg == {c \in cont : c.a <= 0}
        par == [c \in neg |-> ParentLabel(c, neg, pos)]
        lf == [d \in Darts(m) |->
                 IF \E c \in pos : d \in Range(c.d)
                 THEN (CHOOSE c \in pos : d \in Range(c.d)).f
                 ELSE par[CHOOSE c \in neg : d \in Range(c.d)]]
    IN  [m EXCEPT !.ini = TRUE, !.F = {0} \cup {c.f : c \in pos}, !.lf = lf]

\* canonical names for model checking: smallest dart of the contour, shifted
CanonicalNames(m) == [d \in Darts(m) |->
    LET o == CHOOSE o \in Contours(m) : d \in Range(o)
    IN  IF Min(Range(o)) > 0 THEN Min(Range(o)) ELSE 100 - Min(Range(o))]
NamesLegal(m, name) ==
    LET pos == {o \in Contours(m) : ContourArea2(m, o) > 0}
    IN  /\ \A o \in pos : name[o[1]] > 0 /\ \A i \in 1..Len(o) : name[o[i]] = name[o[1]]
        /\ \A o, q \in pos : o # q => name[o[1]] # name[q[1]]

\* ------------------------------------------------------ Euler operations
DropNodes(m, S) == [m EXCEPT !.np = Drop(m.np, S)]

\* img after taking one coverage of the pixels in S away; uncovered ones get label f
Uncover(m, S, f) == [c \in DOMAIN m.img |->
    IF c \in S THEN (IF m.img[c] = -1 THEN f ELSE m.img[c] + 1) ELSE m.img[c]]
FreedPixels(m, e) == IF m.li THEN {c \in m.cov[e] : m.img[c] = -1} ELSE {}

RemoveEdgeTopology(m, e) ==
    LET m1 == RemoveDart(RemoveDart(m, e), -e)
    IN  [m1 EXCEPT !.E = Drop(m.E, {e}),
                   !.lf = IF m.ini THEN Drop(m.lf, {e, -e}) ELSE m.lf,
                   !.cov = IF m.li THEN Drop(m.cov, {e}) ELSE m.cov]

IsolatedAfter(m, e) ==     \* nodes isolated by removing edge e
    {n \in {m.E[e].s, m.E[e].t} : DartsAt(m, n) \subseteq {e, -e}}

MergeFacesOK(m, d) == m.ini /\ IsDart(m, d) /\ m.lf[d] # m.lf[-d]
\* surv in {left, right face}, the infinite face always survives
Survivors(m, d) == IF 0 \in {m.lf[d], m.lf[-d]} THEN {0} ELSE {m.lf[d], m.lf[-d]}
\* keep: nodes whose removal is vetoed
MergeFaces(m, d, surv, keep) ==
    LET e == Abs(d)
        gone == CHOOSE f \in {m.lf[d], m.lf[-d]} : f # surv
        iso == IsolatedAfter(m, e) \ keep
        m1 == RemoveEdgeTopology(m, e)
        m2 == [m1 EXCEPT !.lf = [x \in DOMAIN m1.lf |-> IF m1.lf[x] = gone THEN surv ELSE m1.lf[x]],
                         !.F = m.F \ {gone}]
        m3 == IF ~m.li THEN m2
              ELSE [m2 EXCEPT
                     !.img = LET im == Uncover(m, m.cov[e], surv)
                             IN  [c \in DOMAIN im |-> IF im[c] = gone THEN surv ELSE im[c]],
                     !.lut = [f \in DOMAIN m.lut |-> IF m.lut[f] = gone THEN surv ELSE m.lut[f]]]
    IN  DropNodes(m3, iso)

RemoveBridgeOK(m, d) == m.ini /\ IsDart(m, d) /\ m.lf[d] = m.lf[-d]
RemoveBridge(m, d, keep) ==
    LET e == Abs(d)
        iso == IsolatedAfter(m, e) \ keep
        m1 == RemoveEdgeTopology(m, e)
        m2 == IF ~m.li THEN m1 ELSE [m1 EXCEPT !.img = Uncover(m, m.cov[e], m.lf[d])]
    IN  DropNodes(m2, iso)

\* graph stage (no faces yet): the edge goes, its nodes stay
RemoveEdgeGraph(m, d) == RemoveEdgeTopology(m, Abs(d))

MergeEdgesOK(m, d) ==
    /\ IsDart(m, d)
    /\ Abs(m.sg[d]) # Abs(d)
    /\ m.sg[m.sg[d]] = d
\* ds: the dart of the surviving edge that starts at the merged node
MergeEdges(m, ds) ==
    LET do == m.sg[ds]
        es == Abs(ds)  eo == Abs(do)
        node == StartNode(m, ds)
        far == EndNode(m, do)
        path == Rev(DPts(m, do)) \o Tail(DPts(m, ds))     \* far -> node -> end of ds
        ne == IF ds > 0 THEN [s |-> far, t |-> m.E[es].t, p |-> path, fl |-> m.E[es].fl]
              ELSE [s |-> m.E[es].s, t |-> far, p |-> Rev(path), fl |-> m.E[es].fl]
        ren(x) == IF x = -do THEN ds ELSE x
        dom == (DOMAIN m.sg) \ {do, -do}
        old(x) == IF x = ds THEN -do ELSE x
        nsg == [x \in dom |-> ren(m.sg[old(x)])]
        niv == [x \in dom |-> ren(m.iv[old(x)])]
        both == IF m.li THEN m.cov[es] \cap m.cov[eo] ELSE {}
    IN  [m EXCEPT !.np = Drop(m.np, {node}),
                  !.E = Drop([m.E EXCEPT ![es] = ne], {eo}),
                  !.sg = nsg, !.iv = niv,
                  !.lf = IF m.ini THEN Drop(m.lf, {eo, -eo}) ELSE m.lf,
                  !.cov = IF m.li THEN Drop([m.cov EXCEPT ![es] = @ \cup m.cov[eo]], {eo}) ELSE m.cov,
                  !.img = IF m.li THEN [c \in DOMAIN m.img |-> IF c \in both THEN m.img[c] + 1 ELSE m.img[c]]
                          ELSE m.img]

SplitOK(m, e, i, ins) == e \in Edges(m) /\ i >= 0 /\ i < Len(m.E[e].p) - 1 /\ (ins \/ i > 0)
\* i: zero-based index of the segment; ins: insert point pt after point i, else split
\* at point i; nn, ne: labels of the new node and edge
SplitEdge(m, e, i, ins, pt, nn, ne) ==
    LET p0 == m.E[e].p
        p == IF ins THEN SubSeq(p0, 1, i+1) \o <<pt>> \o SubSeq(p0, i+2, Len(p0)) ELSE p0
        k == IF ins THEN i+2 ELSE i+1              \* one-based index of the split point
        p1 == SubSeq(p, 1, k)  p2 == SubSeq(p, k, Len(p))
        old == m.E[e]
        dom == (DOMAIN m.sg) \cup {ne, -ne}
        ren(x) == IF x = -e THEN -ne ELSE x
        src(x) == IF x = -ne THEN -e ELSE x
        nsg == [x \in dom |-> IF x = -e THEN ne ELSE IF x = ne THEN -e ELSE ren(m.sg[src(x)])]
        niv == [x \in dom |-> IF x = -e THEN ne ELSE IF x = ne THEN -e ELSE ren(m.iv[src(x)])]
        m1 == [m EXCEPT !.np = Put(m.np, nn, p[k]),
                        !.E = Put([m.E EXCEPT ![e] = [s |-> old.s, t |-> nn, p |-> p1, fl |-> old.fl]],
                                  ne, [s |-> nn, t |-> old.t, p |-> p2, fl |-> old.fl]),
                        !.sg = nsg, !.iv = niv,
                        !.lf = IF m.ini THEN Put(Put(m.lf, ne, m.lf[e]), -ne, m.lf[-e]) ELSE m.lf]
    IN  IF ~m.li THEN m1
        ELSE LET c1 == CoverPixels(p1, m.W, m.H)  c2 == CoverPixels(p2, m.W, m.H)
                 oc == m.cov[e]
                 \* c1 \cup c2 may differ from oc if the inserted point is off the line
                 base == [c \in DOMAIN m.img |-> IF c \in oc THEN m.img[c] + 1 ELSE m.img[c]]
             IN  [m1 EXCEPT !.cov = Put([m.cov EXCEPT ![e] = c1], ne, c2),
                            !.img = [c \in DOMAIN m.img |->
                                       base[c] - (IF c \in c1 THEN 1 ELSE 0) - (IF c \in c2 THEN 1 ELSE 0)]]

RemoveNodeOK(m, n) == n \in Nodes(m) /\ Isolated(m, n)

\* moving a node (no label image): moves exactly the attached edge ends
SetNodePos(m, n, pos) ==
    [m EXCEPT !.np = [m.np EXCEPT ![n] = pos],
              !.E = [e \in DOMAIN m.E |->
                       LET p == m.E[e].p  L == Len(m.E[e].p)
                       IN  [m.E[e] EXCEPT !.p = [i \in 1..L |->
                              IF (i = 1 /\ m.E[e].s = n) \/ (i = L /\ m.E[e].t = n) THEN pos ELSE p[i]]]]]

SetFlag(m, e, bit, on) == [m EXCEPT !.E = [m.E EXCEPT ![e] =
                              [@ EXCEPT !.fl = IF on THEN @ \cup {bit} ELSE @ \ {bit}]]]
\* flag bits 0..7 protect an edge
Protected(m, e) == m.E[e].fl \cap (0..7) # {}
MayRemoveEdge(m, d) == ~m.prot \/ ~Protected(m, Abs(d))
MayMergeEdges(m, d) == ~m.prot \/ m.E[Abs(d)].fl = m.E[Abs(m.sg[d])].fl

\* nl: old label -> new label (function on m.F, injective)
RelabelOK(m, nl, max) == /\ \A f \in m.F : nl[f] >= 0 /\ nl[f] < max
                         /\ \A f, g \in m.F : f # g => nl[f] # nl[g]
Relabel(m, nl) ==
    [m EXCEPT !.F = {nl[f] : f \in m.F},
              !.lf = [d \in DOMAIN m.lf |-> nl[m.lf[d]]],
              !.img = [c \in DOMAIN m.img |-> IF m.img[c] >= 0 THEN nl[m.img[c]] ELSE m.img[c]],
              !.lut = IF m.li THEN [f \in {nl[g] : g \in m.F} |-> f] ELSE m.lut]

\* ------------------------------------------------------------ invariants
CellsOK(m) ==
    /\ \A e \in Edges(m) : /\ e > 0
                           /\ m.E[e].s \in Nodes(m) /\ m.E[e].t \in Nodes(m)
                           /\ Len(m.E[e].p) >= 2
                           /\ m.E[e].p[1] = m.np[m.E[e].s]
                           /\ m.E[e].p[Len(m.E[e].p)] = m.np[m.E[e].t]
FacesOK(m) ==
    m.ini =>
      LET cont == Contours(m) IN
      /\ DOMAIN m.lf = DOMAIN m.sg
      /\ 0 \in m.F
      /\ \A d \in Darts(m) : m.lf[d] \in m.F
      /\ \A o \in cont : \A i \in 1..Len(o) : m.lf[o[i]] = m.lf[o[1]]
      /\ \A f \in m.F : Cardinality({o \in cont : m.lf[o[1]] = f /\ ContourArea2(m, o) > 0})
                          = (IF f = 0 THEN 0 ELSE 1)
RECURSIVE Reach(_, _)
Reach(m, S) == LET T == S \cup {m.E[e].t : e \in {x \in Edges(m) : m.E[x].s \in S}}
                          \cup {m.E[e].s : e \in {x \in Edges(m) : m.E[x].t \in S}}
               IN  IF T = S THEN S ELSE Reach(m, T)
RECURSIVE CountComponents(_, _)
CountComponents(m, N) == IF N = {} THEN 0
    ELSE 1 + CountComponents(m, N \ Reach(m, {CHOOSE n \in N : TRUE}))
Euler(m) == m.ini =>
    LET nn == {n \in Nodes(m) : ~Isolated(m, n)}
        C == CountComponents(m, nn)
    IN  /\ Cardinality(nn) - Cardinality(Edges(m)) + Cardinality(m.F) - C = 1
        /\ Cardinality(nn) - Cardinality(Edges(m)) + Cardinality(Contours(m)) - 2*C = 0
AreaBalance(m) == m.ini => LET g(f) == FaceArea2(m, f) IN SumOver(m.F, g) = 0
Nesting(m) ==      \* holes lie in the face that lists them
    m.ini => LET name == m.lf IN InitFaces(m, name).lf = m.lf
LabelsExact(m) == m.li => /\ m.cov = CoverAll(m)
                          /\ m.img = ExactImage(m, m.cov)
LutOK(m) == m.li => \A f \in DOMAIN m.lut : m.lut[f] \in m.F /\ (f \in m.F => m.lut[f] = f)

Integrity(m) == SigmaLegal(m) /\ CellsOK(m) /\ FacesOK(m) /\ Euler(m)
=============================================================================
