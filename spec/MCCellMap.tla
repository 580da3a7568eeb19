------------------------------ MODULE MCCellMap ------------------------------
(* All boundary images of one size, all operations: the maps stay consistent.  *)
EXTENDS CellMap, TLC
CONSTANTS IW, IH
VARIABLES M, ncells
\* labels in the order of the smallest pixels; the outer face is 0
Rank(S) == [c \in S |-> Cardinality({d \in S : Min(d) < Min(c)})]
Pixels(K) ==
    LET A == 0..(K.W*K.H - 1)
        stop == {Min(c) : c \in K.circles}
        nodes == K.nodes \cup {{p} : p \in stop}
        edges == {e \ stop : e \in K.edges}
        rn == Rank(nodes)  re == Rank(edges)  rf == Rank(K.faces)
        val(p) == IF \E n \in nodes : p \in n THEN Vertex + 4*(1 + rn[CHOOSE n \in nodes : p \in n])
                  ELSE IF \E e \in edges : p \in e THEN Line + 4*(1 + re[CHOOSE e \in edges : p \in e])
                  ELSE Region + 4*rf[CHOOSE f \in K.faces : p \in f]
    IN  [i \in 1..(K.W*K.H) |-> val(i-1)]
Images == [1..(IW*IH) -> {0, 1}]
Cells(m) == {m.px[i] : i \in 1..Len(m.px)}
Init == \E img \in Images, cv \in BOOLEAN :
          LET K == Construction([w |-> IW, h |-> IH, img |-> img, cv |-> cv])
          IN  /\ ~K.bad /\ K.scope
              /\ M = [W |-> K.W, H |-> K.H, px |-> Pixels(K)]
              /\ ncells = 0
Moves(m) == LET D == Darts(m)  sg == Sigma(m, D)
                iso == {-1 - n : n \in {v \div 4 : v \in {u \in Cells(m) : u % 4 = Vertex}} \ {NodeOf(m, x) : x \in D}}
            IN  (UNION {RemoveNode(m, x) : x \in iso})
                \cup (UNION {MergeFaces(m, x) : x \in {y \in D : CanMergeFaces(m, y)}})
                \cup (UNION {RemoveBridge(m, x) : x \in {y \in D : CanRemoveBridge(m, y)}})
                \cup (UNION {MergeEdges(m, x, sg) : x \in {y \in D : CanMergeEdges(m, y, D, sg)}})
Next == \E z \in Moves(M) : M' = [M EXCEPT !.px = z[2]] /\ ncells' = Cardinality(Cells(M))
Spec == Init /\ [][Next]_<<M, ncells>>
Consistent ==
    LET A == All(M)
        vals == Cells(M)
        labels(t) == {v \div 4 : v \in {u \in vals : u % 4 = t}}
        pix == [v \in vals |-> {p \in A : M.px[p+1] = v}]
        D == Darts(M)
        sg == Sigma(M, D)
        ends == [e \in labels(Line) |-> {x \in D : EdgeOf(M, x) = e}]
        al == [x \in D |-> CHOOSE y \in ends[EdgeOf(M, x)] : y # x]
        phi == [x \in D |-> CHOOSE y \in D : sg[y] = al[x]]
        C == Contour(M)
        iso == labels(Vertex) \ {NodeOf(M, x) : x \in D}
    IN  /\ \A e \in labels(Line) : Cardinality(ends[e]) = 2
        /\ {sg[x] : x \in D} = D
        /\ \A x \in D : /\ NodeOf(M, sg[x]) = NodeOf(M, x)
                        /\ SideFace(M, phi[x], 1) = SideFace(M, x, 1)
                        /\ SideFace(M, al[x], 1) = SideFace(M, x, 7)
                        /\ Orbit1(sg, x) = {y \in D : NodeOf(M, y) = NodeOf(M, x)}
        /\ \A n \in iso : Cardinality(SurroundingFaces(M, n)) = 1
        /\ \A v \in vals : LET p == CHOOSE q \in pix[v] : TRUE
                               nb == IF v % 4 = Region THEN NearRing(pix[v], M.W, Direct) ELSE Near(pix[v], M.W, 0..7)
                           IN  Reach(nb, {p}, {p}) = pix[v]
        /\ Cardinality(labels(Vertex)) - Cardinality(labels(Line)) + Cardinality(labels(Region))
             = 1 + Cardinality(Parts(Near(C, M.W, 0..7), C))
\* every operation removes cells: all histories end
Progress == ncells = 0 \/ Cardinality(Cells(M)) < ncells
Constraint == TRUE
=============================================================================
