------------------------------ MODULE MCGeoMap ------------------------------
(***************************************************************************)
(* Exhaustive exploration of GeoMap: every map of a family of small        *)
(* initial maps, every elementary Euler operation on it, every choice of   *)
(* survivor, with and without a veto against removing nodes.  The listed   *)
(* properties are invariants of all reachable states and properties of all *)
(* steps.  With Gen = TRUE every transition is printed, identified by      *)
(* geometry instead of labels; the checks turn the transition graph into   *)
(* scripts that cover every transition and replay them on the              *)
(* implementation (whose choices of labels and survivors may differ).      *)
(*                                                                         *)
(* Initial maps: all subgraphs of an LW x LH lattice (cells of one pixel   *)
(* and a half, all nodes kept) and, in the first cell, nothing, a free     *)
(* triangle, a triangle joined to the lattice by a bridge, a closed loop   *)
(* at a lattice node, or two nested closed loops.                          *)
(***************************************************************************)
EXTENDS GeoMap, TLCExt
CONSTANTS LW, LH,       \* lattice nodes in x and y direction
          Decor,        \* set of decorations of the first cell
          MinEdges,     \* smallest number of lattice edges in an initial map
          Splits,       \* how many edge splits per behaviour
          Gen           \* print transitions?
VARIABLES M, sp, keep, mv
vars == <<M, sp, keep, mv>>

C == 10         \* cell size (quarter pixels)
IW == (C*(LW-1)) \div 4 + 2
IH == (C*(LH-1)) \div 4 + 2
O == 3          \* offset of the lattice
Pt(x, y) == <<O + C*x, O + C*y>>
Cells2 == (0..(LW-1)) \X (0..(LH-1))
NodeNo(c) == c[2]*LW + c[1]
Lattice == {<<c, <<c[1]+1, c[2]>> >> : c \in {x \in Cells2 : x[1] < LW-1}}
           \cup {<<c, <<c[1], c[2]+1>> >> : c \in {x \in Cells2 : x[2] < LH-1}}

Base == FoldSet(LAMBDA c, m : AddNode(m, NodeNo(c), Pt(c[1], c[2])), EmptyMap(IW, IH), Cells2)
\* an edge appended anywhere into the (still unsorted) orbits of its ends
Attach(m, e, s, t, pts) ==
    LET a(n, mm) == IF DartsAt(mm, n) = {} THEN 0 ELSE Min(DartsAt(mm, n))
        m1 == [m EXCEPT !.E = Put(m.E, e, [s |-> s, t |-> t, p |-> pts, fl |-> {}])]
        A == {d \in DOMAIN m.sg : StartNode(m, d) = s}
        m2 == InsertPred(m1, IF A = {} THEN 0 ELSE Min(A), e)
        B == {d \in DOMAIN m2.sg : StartNode(m2, d) = t}
    IN  InsertPred(m2, IF B = {} THEN 0 ELSE Min(B), -e)
NextEdge(m) == IF Edges(m) = {} THEN 1 ELSE 1 + Max(Edges(m))
NextNode(m) == 1 + Max(Nodes(m))
AddPts(m, s, t, pts) == Attach(m, NextEdge(m), s, t, pts)

RECURSIVE AddLattice(_, _)
AddLattice(m, S) ==
    IF S = {} THEN m
    ELSE LET x == CHOOSE x \in S : \A y \in S : NodeNo(x[1])*100 + NodeNo(x[2]) <= NodeNo(y[1])*100 + NodeNo(y[2])
         IN  AddLattice(AddPts(m, NodeNo(x[1]), NodeNo(x[2]), <<Pt(x[1][1], x[1][2]), Pt(x[2][1], x[2][2])>>), S \ {x})
Tri(m) == LET a == NextNode(m)  b == a+1
              p == <<O+2, O+2>>  q == <<O+8, O+4>>  r == <<O+4, O+8>>
              m1 == AddNode(AddNode(m, a, p), b, q)
          IN  AddPts(AddPts(m1, a, b, <<p, q>>), b, a, <<q, r, p>>)
Loop(m) == LET a == NextNode(m)  p == <<O+2, O+2>>
           IN  AddPts(AddNode(m, a, p), a, a, <<p, <<O+8, O+2>>, <<O+6, O+8>>, p>>)
Decorate(m, k) ==
    CASE k = 0 -> m
      [] k = 1 -> Tri(m)
      [] k = 2 -> LET t == Tri(m) IN AddPts(t, 0, NextNode(m), <<Pt(0, 0), <<O+2, O+2>> >>)
      [] k = 3 -> AddPts(m, 0, 0, <<Pt(0, 0), <<O+6, O+2>>, <<O+4, O+6>>, Pt(0, 0)>>)
      [] k = 4 -> LET l == Loop(m)  a == NextNode(l)  p == <<O+4, O+4>>
                  IN  AddPts(AddNode(l, a, p), a, a, <<p, <<O+6, O+4>>, <<O+5, O+6>>, p>>)
      [] k = 5 -> AddNode(m, NextNode(m), <<O+5, O+4>>)

Initials == {LET m0 == SortEdges(Decorate(AddLattice(Base, S), k))
                 m1 == InitFaces(m0, CanonicalNames(m0))
             IN  LabelImageOn(m1)
             : S \in {X \in SUBSET Lattice : Cardinality(X) >= MinEdges}, k \in Decor}

\* ------------------------------------------------------------------ moves
Seg(m, d) == LET p == DPts(m, d) IN <<p[1][1], p[1][2], p[2][1], p[2][2]>>
KeepNodes == IF keep THEN Nodes(M) ELSE {}
Mid(p, i) == <<(p[i][1] + p[i+1][1]) \div 2, (p[i][2] + p[i+1][2]) \div 2>>
\* splitting in the middle of the first segment does not change the geometry
Even(p) == (p[1][1] + p[2][1]) % 2 = 0 /\ (p[1][2] + p[2][2]) % 2 = 0
Moves(m) ==
    {[k |-> "mf", g |-> Seg(m, z[1]), m |-> MergeFaces(m, z[1], z[2], KeepNodes), a |-> z[1]]
       : z \in UNION {{<<d, f>> : f \in Survivors(m, d)} : d \in {x \in Edges(m) : MergeFacesOK(m, x)}}}
    \cup {[k |-> "rb", g |-> Seg(m, d), m |-> RemoveBridge(m, d, KeepNodes), a |-> d]
       : d \in {x \in Edges(m) : RemoveBridgeOK(m, x)}}
    \cup (IF keep THEN {} ELSE
          {[k |-> "me", g |-> Seg(m, d), m |-> MergeEdges(m, d), a |-> d] : d \in {x \in Darts(m) : MergeEdgesOK(m, x)}}
          \cup {[k |-> "rin", g |-> m.np[n], m |-> DropNodes(m, {n}), a |-> n] : n \in {x \in Nodes(m) : RemoveNodeOK(m, x)}})
    \cup (IF sp = 0 THEN {} ELSE
          {[k |-> "sp", g |-> Seg(m, z[1]) \o Mid(m.E[z[1]].p, 1),
            m |-> SplitEdge(m, z[1], 0, TRUE, Mid(m.E[z[1]].p, 1), NextNode(m) + 100, Max(Edges(m)) + 100), a |-> z[1]]
             : z \in {<<e>> : e \in {x \in Edges(m) : Even(m.E[x].p)}}})

\* ----------------------------------------------------- properties of steps
Cnt(m) == <<Cardinality(Nodes(m)), Cardinality(Edges(m)), Cardinality(m.F)>>
FA(m) == [f \in m.F |-> FaceArea2(m, f)]
PX(m) == [f \in m.F |-> PixelArea(m, f)]
SameArea(m, n, fs) == \A f \in fs : FaceArea2(m, f) = FaceArea2(n, f)
StepOK(m, z) ==
    LET n == z.m IN
    CASE z.k = "mf" ->
           LET e == z.a  gone == m.F \ n.F  surv == {m.lf[e], m.lf[-e]} \ gone IN
           /\ Cardinality(gone) = 1 /\ n.F \subseteq m.F /\ Cardinality(surv) = 1
           /\ 0 \in n.F
           /\ LET s == CHOOSE x \in surv : TRUE  g == CHOOSE x \in gone : TRUE
              IN  /\ FaceArea2(n, s) = FaceArea2(m, s) + FaceArea2(m, g)
                  /\ SameArea(m, n, n.F \ {s})
                  /\ Cardinality(ContoursOf(n, s)) <= Cardinality(ContoursOf(m, s)) + Cardinality(ContoursOf(m, g))
                  /\ n.lut[g] = s
           /\ Edges(n) = Edges(m) \ {e} /\ Nodes(n) \subseteq Nodes(m)
           /\ \A x \in Edges(n) : n.E[x] = m.E[x]
      [] z.k = "rb" ->
           /\ n.F = m.F /\ SameArea(m, n, m.F) /\ Edges(n) = Edges(m) \ {z.a}
           /\ \A x \in Edges(n) : n.E[x] = m.E[x]
           \* the boundary falls apart unless an end of the bridge was free
           /\ LET f == m.lf[z.a]  k == Cardinality(ContoursOf(n, f)) - Cardinality(ContoursOf(m, f))
                  fr == Cardinality({x \in {m.E[z.a].s, m.E[z.a].t} : Degree(m, x) = 1})
              IN  k = 1 - fr
      [] z.k = "me" ->
           /\ n.F = m.F /\ SameArea(m, n, m.F)
           /\ Cnt(n) = <<Cnt(m)[1] - 1, Cnt(m)[2] - 1, Cnt(m)[3]>>
           /\ \A c \in DOMAIN m.img : (m.img[c] >= 0) = (n.img[c] >= 0)
      [] z.k = "sp" ->
           /\ n.F = m.F /\ SameArea(m, n, m.F)
           /\ Cnt(n) = <<Cnt(m)[1] + 1, Cnt(m)[2] + 1, Cnt(m)[3]>>
           \* merging the two halves again restores the map
           /\ LET b == MergeEdges(n, -z.a)
              IN  /\ [b EXCEPT !.E = [b.E EXCEPT ![z.a] = m.E[z.a]]] = m
                  /\ Area2(b.E[z.a].p) = Area2(m.E[z.a].p)
      [] z.k = "rin" -> n = [m EXCEPT !.np = n.np] /\ Cardinality(Nodes(n)) = Cardinality(Nodes(m)) - 1

\* the map up to labels
Geo(m) == <<{{m.E[e].p, Rev(m.E[e].p)} : e \in Edges(m)}, Range(m.np), keep>>
GeoView == <<Geo(M), sp>>

Init == /\ M \in Initials /\ sp = Splits /\ keep \in BOOLEAN /\ mv = <<>>
        /\ (IF Gen THEN PrintT(<<"INI", TLCFP(Geo(M)), keep, IW, IH, [n \in Nodes(M) |-> M.np[n]],
                                 [e \in Edges(M) |-> <<M.E[e].s, M.E[e].t, M.E[e].p>>]>>) ELSE TRUE)
Next == \E z \in Moves(M) :
          /\ Assert(StepOK(M, z), <<"step property", z.k, z.g, M>>)
          /\ M' = z.m
          /\ sp' = IF z.k = "sp" THEN sp - 1 ELSE sp
          /\ keep' = keep /\ mv' = mv
          /\ (IF Gen THEN PrintT(<<"TR", TLCFP(Geo(M)), z.k, z.g, TLCFP(Geo(z.m))>>) ELSE TRUE)
Spec == Init /\ [][Next]_vars

I_Integrity == Integrity(M)
I_Area == AreaBalance(M)
I_Nesting == Nesting(M)
I_Labels == LabelsExact(M)
I_Lut == LutOK(M)
=============================================================================
