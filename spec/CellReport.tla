----------------------------- MODULE CellReport -----------------------------
(* What a pixel map reports about itself, compared to what follows from its   *)
(* pixels.  A report M has W, H, px and                                       *)
(*  nd, ed, fc: nodes, edges, faces (label l, bounds b, size s, ...),         *)
(*  dt: one row per dart (id, start, end, edge, left, right, sigma, sigma^-1, *)
(*      alpha, phi, phi^-1, equal after serialisation),                       *)
(*  nc, ec, fn: counts, ml: sizes of the label spaces.                        *)
EXTENDS CellMap, TLC
Tag(cond, t) == IF cond THEN {} ELSE {t}
\* the set of problems (empty iff the report is right)
Problems(M) ==
    LET W == M.W  H == M.H
        off == Off(W)
        A == All(M)
        T == [p \in A |-> M.px[p+1] % 4]
        inside == \A p \in A : (p % W \in {0, W-1} \/ p \div W \in {0, H-1}) => M.px[p+1] = 0
        vals == {M.px[i] : i \in 1..Len(M.px)}
        pix == [v \in vals |-> {p \in A : M.px[p+1] = v}]
        labels(t) == {v \div 4 : v \in {u \in vals : u % 4 = t}}
        D == Darts(M)
        sg == Sigma(M, D)
        eo == [x \in D |-> EdgeOf(M, x)]
        no == [x \in D |-> NodeOf(M, x)]
        lf == [x \in D |-> SideFace(M, x, 1)]
        rf == [x \in D |-> SideFace(M, x, 7)]
        ends == [e \in labels(Line) |-> {x \in D : eo[x] = e}]
        pairs == \A e \in labels(Line) : Cardinality(ends[e]) = 2
        al == [x \in D |-> CHOOSE y \in ends[eo[x]] : y # x]
        sgi == [x \in D |-> CHOOSE y \in D : sg[y] = x]
        bij == {sg[x] : x \in D} = D
        phi == [x \in D |-> sgi[al[x]]]
        cellOK(c, t) == LET v == t + 4*c.l IN
            /\ v \in vals
            /\ LET S == pix[v]  B == Inner(S, W, H) IN
               /\ c.b = Box(S, W)
               /\ (t = Region /\ c.l = 0) \/ c.s = Cardinality(S)
               /\ c.sc[1] = <<Cardinality(S), SumOf(S)>>
               /\ c.sc[2] = <<Cardinality(B), SumOf(B)>>
        lset(s) == {s[i].l : i \in 1..Len(s)}
        connected(S, dirs, ring) == LET nb == IF ring THEN NearRing(S, W, dirs) ELSE Near(S, W, dirs)
                                        p == CHOOSE x \in S : TRUE
                                    IN  Reach(nb, {p}, {p}) = S
        deg == [n \in labels(Vertex) |-> Cardinality({x \in D : no[x] = n})]
        iso == {n \in labels(Vertex) : deg[n] = 0}
        around == [n \in iso |-> SurroundingFaces(M, n)]
        RECURSIVE orbits(_)
        orbits(S) == IF S = {} THEN {} ELSE LET x == CHOOSE y \in S : TRUE  O == Orbit1(phi, x) IN {O} \cup orbits(S \ O)
        C == {p \in A : T[p] # Region}
        comps == Cardinality(Parts(Near(C, W, 0..7), C))
    IN  IF ~inside THEN {"frame"}
        ELSE IF \E p \in A : T[p] \notin {Region, Line, Vertex} THEN {"celltype"}
        ELSE
        Tag(lset(M.nd) = labels(Vertex) /\ Len(M.nd) = M.nc /\ M.nc = Cardinality(labels(Vertex)), "nodes")
        \cup Tag(lset(M.ed) = labels(Line) /\ Len(M.ed) = M.ec /\ M.ec = Cardinality(labels(Line)), "edges")
        \cup Tag(lset(M.fc) = labels(Region) /\ Len(M.fc) = M.fn /\ M.fn = Cardinality(labels(Region)), "faces")
        \cup Tag(\A i \in 1..Len(M.nd) : cellOK(M.nd[i], Vertex), "nodepixels")
        \cup Tag(\A i \in 1..Len(M.ed) : cellOK(M.ed[i], Line), "edgepixels")
        \cup Tag(\A i \in 1..Len(M.fc) : cellOK(M.fc[i], Region), "facepixels")
        \cup Tag(\A v \in vals : CASE v % 4 = Vertex -> connected(pix[v], 0..7, FALSE)
                                   [] v % 4 = Line -> connected(pix[v], 0..7, FALSE)
                                   [] OTHER -> connected(pix[v], Direct, TRUE), "connected")
        \cup Tag(\A p \in C : \A d \in 0..7 : T[p] = Vertex /\ T[p+off[d]] = Vertex => M.px[p+1] = M.px[p+off[d]+1], "nodesapart")
        \cup Tag(\A p \in A : T[p] = Region => \A d \in {0, 6} :
                    ((d = 0 /\ p % W < W-1) \/ (d = 6 /\ p \div W < H-1)) =>
                    (T[p+off[d]] = Region => M.px[p+1] = M.px[p+off[d]+1]), "facesapart")
        \cup Tag(M.ml[1] >= Max(labels(Vertex) \cup {0}) /\ M.ml[2] >= Max(labels(Line) \cup {0}) /\ M.ml[3] >= Max(labels(Region)), "maxlabels")
        \cup IF ~pairs THEN {"ends"} ELSE IF ~bij THEN {"sigma"} ELSE
        LET dt == [i \in 1..Len(M.dt) |-> M.dt[i]]
            O == orbits(D)
        IN  Tag({dt[i][1] : i \in 1..Len(dt)} = D /\ Len(dt) = Cardinality(D), "darts")
            \cup Tag(\A i \in 1..Len(dt) : LET x == dt[i][1] IN x \in D =>
                    /\ dt[i][2] = no[x] /\ dt[i][3] = no[al[x]] /\ dt[i][4] = eo[x]
                    /\ dt[i][5] = lf[x] /\ dt[i][6] = rf[x]
                    /\ dt[i][7] = sg[x] /\ dt[i][8] = sgi[x] /\ dt[i][9] = al[x]
                    /\ dt[i][10] = phi[x] /\ dt[i][11] = al[sg[x]] /\ dt[i][12] = 1, "dartmoves")
            \cup Tag(\A i \in 1..Len(M.nd) : LET n == M.nd[i] IN n.l \in labels(Vertex) =>
                    /\ n.d = deg[n.l] /\ n.an = n.l
                    /\ IF deg[n.l] = 0 THEN n.a = -1 - n.l /\ {n.af[1], n.af[2]} = around[n.l] ELSE n.a \in D /\ no[n.a] = n.l, "degree")
            \cup Tag(\A i \in 1..Len(M.ed) : LET e == M.ed[i] IN e.l \in labels(Line) =>
                    /\ {e.st, e.en} = ends[e.l]
                    /\ e.lp = (IF \A x, y \in ends[e.l] : no[x] = no[y] THEN 1 ELSE 0)
                    /\ e.br = (IF \A x \in ends[e.l] : lf[x] = rf[x] THEN 1 ELSE 0), "edgeends")
            \cup Tag(\A x \in D : lf[phi[x]] = lf[x] /\ rf[x] = lf[al[x]], "sides")
            \cup Tag(\A n \in iso : Cardinality(around[n]) = 1, "isolated")
            \cup Tag(\A i \in 1..Len(M.fc) : LET f == M.fc[i]
                                                 own == {o \in O : \E x \in o : lf[x] = f.l}
                                                 in == {n \in iso : around[n] = {f.l}}
                                             IN /\ Len(f.c) = Cardinality(own) + Cardinality(in)
                                                /\ \A o \in own : \E k \in 1..Len(f.c) : f.c[k] \in o
                                                /\ \A n \in in : \E k \in 1..Len(f.c) : f.c[k] = -1 - n, "contours")
            \cup Tag(M.nc - M.ec + M.fn = 1 + comps, "euler")
=============================================================================
