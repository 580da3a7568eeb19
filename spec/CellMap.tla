------------------------------- MODULE CellMap -------------------------------
(***************************************************************************)
(* The pixel-based map (src/cellimage).  A map M has M.W, M.H and          *)
(* M.px, a sequence of W*H values type + 4*label (row by row), with the    *)
(* types Region = 0, Line = 1 and Vertex = 2.  Pixels are numbered         *)
(* 0 .. W*H-1.  Directions 0..7 go counter-clockwise from east; the even   *)
(* ones are the direct neighbours.  A dart is v*8 + d: a vertex pixel v    *)
(* and the direction d of the line pixel in which the edge starts.         *)
(*                                                                         *)
(* Everything a map reports is a function of its pixels: this module       *)
(* defines that function, and each operation as a relabelling of pixels.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt
Region == 0  Line == 1  Vertex == 2
DX == <<1, 1, 0, -1, -1, -1, 0, 1>>
DY == <<0, -1, -1, -1, 0, 1, 1, 1>>
Direct == {0, 2, 4, 6}
Off(W) == [d \in 0..7 |-> DY[d+1]*W + DX[d+1]]

(************************ classification of pixels ************************)
\* S: the directions in which a contour pixel has contour neighbours
Turn(S, k) == {(d + k) % 8 : d \in S}
Mirror(S) == {(8 - d) % 8 : d \in S}
Class(S) == {Turn(S, k) : k \in Direct} \cup {Turn(Mirror(S), k) : k \in Direct}
Starts(S) == {d \in S : (d + 7) % 8 \notin S}           \* beginnings of the runs of S
RECURSIVE RunFrom(_, _)
RunFrom(S, d) == IF d \in S THEN {d} \cup RunFrom(S \ {d}, (d + 1) % 8) ELSE {}
Runs(S) == IF S = 0..7 THEN {S} ELSE {RunFrom(S, d) : d \in Starts(S)}
Blocks(S) == {d \in S \ Direct : (d + 1) % 8 \in S /\ (d + 7) % 8 \in S}
ArmDirs(S) == {d \in S : d \in Direct \/ ((d + 1) % 8 \notin S /\ (d + 7) % 8 \notin S)}
Gaps(S) == {R \in Runs((0..7) \ S) : R \cap Direct # {}}
Bits(n) == {d \in 0..7 : (n \div 2^d) % 2 = 1}
MustBeThinned == UNION {Class(Bits(n)) : n \in {15, 62, 55, 111, 63, 191}}
CornerClass == Class(Bits(54))
Config(S) ==
    IF S \in MustBeThinned THEN "error"
    ELSE IF S \in CornerClass THEN "error-or-line"
    ELSE IF Cardinality(Runs(S)) = 2 /\ Blocks(S) = {}
         THEN IF Cardinality(Gaps(S)) = 2 THEN "line"
              ELSE IF Cardinality(Gaps(S)) = 1 /\ Cardinality(ArmDirs(S)) = 2 THEN "vertex-or-line" ELSE "vertex"
    ELSE "vertex"
ConfigTable == [S \in SUBSET (0..7) |-> Config(S)]
\* cv: corners become vertices
TypeOf(S, cv) == LET c == ConfigTable[S]
                 IN  CASE c = "error" -> 3
                       [] c = "line" -> Line
                       [] c = "vertex" -> Vertex
                       [] c = "vertex-or-line" -> IF cv THEN Vertex ELSE Line
                       [] c = "error-or-line" -> IF cv THEN 3 ELSE Line

(***************************** connectedness ******************************)
RECURSIVE Reach(_, _, _)
Reach(nb, S, F) == LET N == (UNION {nb[p] : p \in F}) \ S
                   IN  IF N = {} THEN S ELSE Reach(nb, S \cup N, N)
RECURSIVE Parts(_, _)
Parts(nb, R) == IF R = {} THEN {}
                ELSE LET p == CHOOSE x \in R : TRUE
                         C == Reach(nb, {p}, {p})
                     IN  {C} \cup Parts(nb, R \ C)
\* neighbours within the set S (S must not include the outermost ring unless ring = TRUE)
Near(S, W, dirs) == LET off == Off(W) IN [p \in S |-> {p + off[d] : d \in dirs} \cap S]
\* the same for sets which may touch the image border
NearRing(S, W, dirs) ==
    LET off == Off(W)
    IN  [p \in S |-> {q \in {p + off[d] : d \in dirs} \cap S : (q % W) - (p % W) \in {-1, 0, 1}}]

(***************************** derived cells ******************************)
Ty(M, p) == M.px[p+1] % 4
Lb(M, p) == M.px[p+1] \div 4
All(M) == 0..(M.W*M.H - 1)
Contour(M) == {p \in All(M) : Ty(M, p) # Region}
\* q = p + off[d] is joined to p (both contour pixels)
Arm(M, p, d) == LET off == Off(M.W)
                IN  d \in Direct \/ (Ty(M, p + off[(d+1)%8]) = Region /\ Ty(M, p + off[(d+7)%8]) = Region)
Darts(M) ==
    LET off == Off(M.W)
        V == {p \in All(M) : Ty(M, p) = Vertex}
    IN  {x \in {v*8 + d : v \in V, d \in 0..7} : Ty(M, (x \div 8) + off[x % 8]) = Line /\ Arm(M, x \div 8, x % 8)}
\* walk counter-clockwise around the node until the next dart
RECURSIVE Around(_, _, _, _, _)
Around(M, D, off, v, d) ==
    LET e == (d + 1) % 8
        q == v + off[e]
    IN  IF Ty(M, q) = Vertex THEN Around(M, D, off, q, (e + 4) % 8)
        ELSE IF v*8 + e \in D THEN v*8 + e
        ELSE Around(M, D, off, v, e)
Sigma(M, D) == LET off == Off(M.W) IN [x \in D |-> Around(M, D, off, x \div 8, x % 8)]
EdgeOf(M, x) == Lb(M, (x \div 8) + Off(M.W)[x % 8])
NodeOf(M, x) == Lb(M, x \div 8)
SideFace(M, x, s) ==        \* s = 1: left, s = 7: right
    LET off == Off(M.W)
        p == (x \div 8) + off[((x % 8) + s) % 8]
        q == (x \div 8) + off[((x % 8) + 2*s) % 8]
    IN  IF Ty(M, p) = Region THEN Lb(M, p) ELSE Lb(M, q)
Orbit1(f, x) == LET RECURSIVE o(_, _)
                    o(S, y) == IF y \in S THEN S ELSE o(S \cup {y}, f[y])
                IN  o({}, x)
Box(S, W) == LET X == {p % W : p \in S}  Y == {p \div W : p \in S} IN <<Min(X), Min(Y), Max(X), Max(Y)>>
SumOf(S) == FoldSet(LAMBDA p, a : a + p, 0, S)
Inner(S, W, H) == {p \in S : p % W \in 2..(W-3) /\ p \div W \in 2..(H-3)}

(***************************** construction *******************************)
\* I: w, h, img (sequence of 0/1), cv.  The image gets a frame of contour pixels and
\* another one of the outer face.
Construction(I) ==
    LET w == I.w  h == I.h  W == w + 4  H == h + 4
        off == Off(W)
        A == 0..(W*H - 1)
        B == [p \in A |-> LET x == p % W  y == p \div W IN
                IF x \in {0, W-1} \/ y \in {0, H-1} THEN 0
                ELSE IF x \in {1, W-2} \/ y \in {1, H-2} THEN 1
                ELSE I.img[(y-2)*w + (x-2) + 1]]
        C == {p \in A : B[p] = 1}
        nbs == [p \in C |-> {d \in 0..7 : B[p + off[d]] = 1}]
        T0 == [p \in C |-> TypeOf(nbs[p], I.cv)]
        T1 == [T0 EXCEPT ![W + 1] = Vertex]
        \* a corner between two vertices belongs to their node
        between(p) == /\ \E d \in {0, 4} : p + off[d] \in C /\ T1[p + off[d]] = Vertex
                      /\ \E d \in {2, 6} : p + off[d] \in C /\ T1[p + off[d]] = Vertex
        T == [p \in C |-> IF T1[p] = Line /\ between(p) THEN Vertex ELSE T1[p]]
        armsOf == [p \in C |-> {p + off[d] : d \in ArmDirs(nbs[p])}]
        lines == {p \in C : T[p] = Line}
        edges == Parts([p \in lines |-> armsOf[p] \cap lines], lines)   \* lines joined through arms
        vert == {p \in C : T[p] = Vertex}
        nodes == Parts(Near(vert, W, 0..7), vert)
        hole == [n \in nodes |-> LET R == A \ n IN R \ Reach(NearRing(R, W, Direct), {0}, {0})]
        filled == UNION {hole[n] : n \in nodes}
        regs == {p \in A : B[p] = 0} \ filled
    IN  [W |-> W, H |-> H,
         bad |-> \E p \in C : T0[p] = 3,                          \* must be thinned further
         scope |-> \A n \in nodes : \A p \in hole[n] : B[p] = 0,   \* no contours within nodes
         nodes |-> {n \cup hole[n] : n \in nodes},
         edges |-> edges,
         circles |-> {e \in edges : \A p \in e : armsOf[p] \subseteq e},    \* closed without a node
         faces |-> Parts(NearRing(regs, W, Direct), regs)]

(***************************** operations *********************************)
Relabel(px, S, v) == [i \in DOMAIN px |-> IF i-1 \in S THEN v ELSE px[i]]
PixOf(M, t, l) == {p \in All(M) : M.px[p+1] = t + 4*l}
SurroundingFaces(M, n) ==
    LET off == Off(M.W) IN {Lb(M, q) : q \in {p + off[d] : p \in PixOf(M, Vertex, n), d \in Direct} \ PixOf(M, Vertex, n)}
Touch(M, n) == CHOOSE f \in SurroundingFaces(M, n) : TRUE
\* x: a dart of M, or -1-n for the isolated node n.  enabling conditions
CanRemoveNode(M, x) == x < 0
CanMergeFaces(M, x) == x >= 0 /\ SideFace(M, x, 1) # SideFace(M, x, 7)
CanRemoveBridge(M, x) == x >= 0 /\ SideFace(M, x, 1) = SideFace(M, x, 7)
CanMergeEdges(M, x, D, sg) == x >= 0 /\ sg[x] # x /\ sg[sg[x]] = x /\ EdgeOf(M, x) # EdgeOf(M, sg[x])
\* the possible results: (surviving cell, pixels)
RemoveNode(M, x) == LET n == -1 - x  f == Touch(M, n)
                    IN  {<<f, Relabel(M.px, PixOf(M, Vertex, n), Region + 4*f)>>}
MergeFaces(M, x) ==
    LET F == {SideFace(M, x, 1), SideFace(M, x, 7)}
    IN  {<<f, Relabel(M.px, PixOf(M, Line, EdgeOf(M, x)) \cup UNION {PixOf(M, Region, g) : g \in F}, Region + 4*f)>> : f \in F}
RemoveBridge(M, x) ==
    LET f == SideFace(M, x, 1)
    IN  {<<f, Relabel(M.px, PixOf(M, Line, EdgeOf(M, x)), Region + 4*f)>>}
MergeEdges(M, x, sg) ==
    LET E == {EdgeOf(M, x), EdgeOf(M, sg[x])}
    IN  {<<e, Relabel(M.px, PixOf(M, Vertex, NodeOf(M, x)) \cup UNION {PixOf(M, Line, g) : g \in E}, Line + 4*e)>> : e \in E}
=============================================================================
