---------------------------- MODULE TraceCourses ----------------------------
(* Each record: a graph, the dart order found by sortEdgesEventually(), and   *)
(* (op "split") the graph after splitParallelEdges() and initializeMap().     *)
(* Input points are quarter pixels, positions after splitting 1/64 pixels.    *)
EXTENDS Courses, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
Tag(cond, t) == IF cond THEN {} ELSE {t}
Pts(s) == [i \in 1..Len(s) |-> <<s[i][1], s[i][2]>>]

Rotations(s) == {[i \in 1..Len(s) |-> s[((i + r - 1) % Len(s)) + 1]] : r \in 0..(Len(s)-1)}
\* o is a rotation of the flattened s, where the sets in s may come in any order
RECURSIVE Fits(_, _)
Fits(o, s) ==
    IF s = <<>> THEN o = <<>>
    ELSE LET k == Cardinality(s[1])
         IN  /\ Len(o) >= k /\ ToSet(SubSeq(o, 1, k)) = s[1]
             /\ Fits(SubSeq(o, k+1, Len(o)), Tail(s))
FitsCyc(o, s) == (o = <<>> /\ s = <<>>) \/ (\E r \in Rotations(o) : Fits(r, s))
Backward(o, r) ==        \* backward walk = reversed forward walk from the same dart
    Len(o) = Len(r) /\ \A i \in 1..Len(o) : r[i] = o[IF i = 1 THEN 1 ELSE Len(o) + 2 - i]

Graph(r) ==
    LET E == ToSet(r.edges)
        byl == TLCEval([x \in Labels(E) |-> CHOOSE e \in E : e.l = x])
        D == Darts(E)
        P == TLCEval([d \in D |-> IF d > 0 THEN TLCEval(Pts(byl[d].p)) ELSE TLCEval(Rev(TLCEval(Pts(byl[-d].p))))])
        node == TLCEval([d \in D |-> IF d > 0 THEN byl[d].s ELSE byl[-d].t])
        N == {n[1] : n \in ToSet(r.nodes)}
    IN  [E |-> E, D |-> D, P |-> P, node |-> node, N |-> N,
         DN |-> TLCEval([n \in N |-> {d \in D : node[d] = n}]),
         F |-> TLCEval([x \in Labels(E) |-> byl[x].f])]

Orders(G) == [n \in G.N |-> IF G.DN[n] = {} THEN <<>> ELSE Order(G.P, G.DN[n], 1)]

SortErrs(r, G, O) ==
    LET orb == ToSet(r.orb)
        uns == {x \in UNION {ToSet(O[n]) : n \in G.N} : Cardinality(x) > 1}
    IN  Tag(/\ {x.n : x \in orb} = G.N
            /\ \A x \in orb : FitsCyc(x.d, O[x.n]), "order")
        \cup Tag(\A x \in orb : Backward(x.d, x.r), "inverse")
        \cup Tag(r.sorted = 1 /\ ("si" \in DOMAIN r => r.si = 1), "mode")   \* si: splits planned iff asked for
        \cup Tag(Len(r.uns) = Cardinality(uns) /\ {ToSet(x) : x \in ToSet(r.uns)} = uns
                 /\ \A x \in ToSet(r.uns) : Cardinality(ToSet(x)) = Len(x), "unsortable")

\* ---------------------------------------------------------------- splitting
Near(p, q, t) == (p[1]-q[1])*(p[1]-q[1]) + (p[2]-q[2])*(p[2]-q[2]) <= t*t
Big(p) == <<16*p[1], 16*p[2]>>

SplitErrs(r, G, O) ==
    LET tol == (r.step * 64 * 3) \div 200 + 3        \* one and a half steps, in 1/64 px
        B == TLCEval(UNION {BranchesOf(G.P, n, G.DN[n], 1) : n \in G.N})
        pos == TLCEval([x \in {b.pl : b \in B} \cup {<<n>> : n \in G.N} |->
                  IF Len(x) = 1 THEN LET c == CHOOSE m \in ToSet(r.nodes) : m[1] = x[1] IN <<c[2], c[3]>>
                  ELSE x[2][Len(x[2])]])
        info == TLCEval([x \in {b.pl : b \in B} |-> CHOOSE b \in B : b.pl = x])
        orb == ToSet(r.orb2)
        new == {x \in orb : x.n \notin G.N}
        cand(x) == {b \in B : Near(x.p, Big(pos[b.pl]), tol)}
        counts == /\ G.N \subseteq {x.n : x \in orb}
                  /\ Cardinality(new) >= Cardinality(B)
                  /\ \A x \in new : Cardinality(cand(x)) = 1
                  /\ UNION {cand(x) : x \in new} = B
                  /\ \A x \in orb : x.n \in G.N => x.p = Big(pos[<<x.n>>])
                  /\ r.nc = Cardinality(orb) /\ r.ec = Len(r.edges2)
                  /\ r.ec = Cardinality(G.E) + Cardinality(new)
    IN  IF ~counts THEN {"places"}
        ELSE LET place == TLCEval([n \in {x.n : x \in orb} |->
                             IF n \in G.N THEN <<n>> ELSE (CHOOSE b \in cand(CHOOSE x \in new : x.n = n) : TRUE).pl])
                 E2 == ToSet(r.edges2)
                 byl == TLCEval([x \in Labels(E2) |-> CHOOSE e \in E2 : e.l = x])
                 from(d) == IF d > 0 THEN byl[d].s ELSE byl[-d].t
                 P2(d) == TLCEval(IF d > 0 THEN Pts(byl[d].p) ELSE Rev(Pts(byl[-d].p)))
                 npos == TLCEval([n \in {x.n : x \in orb} |-> (CHOOSE x \in orb : x.n = n).p])
                 stubs(x) ==     \* expected cyclic sequence of darts at x
                     LET pl == place[x.n]
                     IN  IF Len(pl) = 1
                         THEN LET s == IF G.DN[x.n] = {} THEN <<>> ELSE Leaving(G.P, G.DN[x.n], 1)
                              IN  [i \in 1..Len(s) |-> Stub(G.P, G.node, G.DN, G.F, x.n, s[i], 1)]
                         ELSE LET b == info[pl]
                                  n == pl[1]
                                  s == Leaving(G.P, b.D, b.k)
                                  \* the place before b
                                  up == {c \in B : c.pl[1] = n /\ c.k < b.k /\ SubSeq(pl[2], 1, c.k) = c.pl[2]}
                                  pk == IF up = {} THEN 1 ELSE Max({c.k : c \in up})
                                  back == [to |-> IF up = {} THEN <<n>> ELSE <<n, SubSeq(pl[2], 1, pk)>>,
                                           pts |-> Rev(SubSeq(pl[2], pk+1, b.k-1)),
                                           fl |-> FoldSet(LAMBDA y, acc : acc | G.F[Abs(y)], 0, b.D)]
                              IN  <<back>> \o [i \in 1..Len(s) |-> Stub(G.P, G.node, G.DN, G.F, n, s[i], b.k)]
                 \* every expected point is passed, in this order, and no core point is elsewhere
                 SamePts(imp, ex) == /\ Len(imp) >= Len(ex)
                                     /\ LET at == [i \in 1..Len(ex) |-> {j \in 1..Len(imp) : Near(imp[j], Big(ex[i]), 3)}]
                                        IN  /\ \A i \in 1..Len(ex) : at[i] # {}
                                            /\ \A i \in 1..(Len(ex)-1) : Min(at[i]) < Min(at[i+1])
                 Match(d, st) == /\ place[from(-d)] = st.to
                                 /\ SamePts(P2(d), st.pts)
                                 /\ byl[Abs(d)].f = st.fl
                 \* A branching may be represented by several nodes less than the tolerance
                 \* apart (a dart that turns off sharply is recognised one step earlier than
                 \* the others); the edges between them are contracted.
                 inner(d) == Len(place[from(d)]) = 2 /\ place[from(d)] = place[from(-d)]
                             /\ \A p \in ToSet(P2(d)) : Near(p, Big(pos[place[from(d)]]), tol)
                 succ == TLCEval([d \in UNION {ToSet(x.d) : x \in orb} |->
                            LET x == CHOOSE y \in orb : d \in ToSet(y.d)
                                i == CHOOSE j \in 1..Len(x.d) : x.d[j] = d
                            IN  x.d[(i % Len(x.d)) + 1]])
                 RECURSIVE Around(_, _, _)
                 Around(d, first, acc) ==     \* outer darts from first on, around the cluster
                     IF (d = first /\ acc # <<>>) \/ Len(acc) > 2 * Len(r.edges2) THEN acc
                     ELSE IF inner(d) THEN Around(succ[-d], first, acc)
                     ELSE Around(succ[d], first, Append(acc, d))
                 Cyc(x) == LET st == TLCEval(stubs(x))
                               nodes == {y \in orb : place[y.n] = place[x.n]}
                               outer == {d \in UNION {ToSet(y.d) : y \in nodes} : ~inner(d)}
                           IN  IF outer = {} THEN st = <<>>
                               ELSE LET a == CHOOSE d \in outer : TRUE
                                        o == TLCEval(Around(a, a, <<>>))
                                    IN  /\ Len(o) = Len(st) /\ ToSet(o) = outer
                                        /\ Cardinality(outer) = Len(o)
                                        /\ \E w \in Rotations(o) : \A i \in 1..Len(st) : Match(w[i], st[i])
             IN  Tag(\A x \in orb : \A i \in 1..Len(x.d) : Abs(x.d[i]) \in DOMAIN byl /\ from(x.d[i]) = x.n, "attached")
                 \cup Tag(\A e \in E2 : Len(e.p) >= 2 /\ <<e.p[1][1], e.p[1][2]>> = npos[e.s]
                                        /\ <<e.p[Len(e.p)][1], e.p[Len(e.p)][2]>> = npos[e.t], "ends")
                 \cup Tag(\A x \in orb : Backward(x.d, x.r), "inverse2")
                 \cup (IF \A x \in orb : \A i \in 1..Len(x.d) : Abs(x.d[i]) \in DOMAIN byl
                       THEN Tag(\A x \in orb : Cyc(x), "network") ELSE {})

\* number of connected components of the graph
RECURSIVE Comps(_, _)
Comps(N, A) ==
    IF N = {} THEN 0
    ELSE LET n == CHOOSE x \in N : TRUE
             RECURSIVE Reach(_)
             Reach(S) == LET T == S \cup {a[2] : a \in {b \in A : b[1] \in S}} IN IF T = S THEN S ELSE Reach(T)
         IN  1 + Comps(N \ Reach({n}), A)

InitErrs(r, G) ==
    LET used == {n \in G.N : G.DN[n] # {}}
        C == Comps(used, {<<G.node[d], G.node[-d]>> : d \in G.D})
        V == Cardinality(ToSet(r.orb2)) - Cardinality(G.N \ used)
        sum == FoldSet(LAMBDA f, acc : acc + f[2], 0, ToSet(r.faces))
    IN  Tag(r.cons = 1, "consistency")
        \cup Tag(r.fc = Len(r.faces) /\ r.fc = r.ec - V + C + 1, "faces")
        \cup Tag(Abs(sum) <= Len(r.faces) + 1, "areas")
        \cup Tag(FoldSet(LAMBDA f, acc : acc + f[3], 0, ToSet(r.faces)) = (r.fc - 1) + C, "contours")

Errs(r) ==
    LET G == TLCEval(Graph(r))
        O == TLCEval(Orders(G))
        s == SortErrs(r, G, O)
    IN  s \cup (IF r.op = "split" /\ s = {} THEN SplitErrs(r, G, O) \cup InitErrs(r, G) ELSE {})
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Errs(Trace[l]) IN IF e = {} THEN TRUE ELSE PrintT(<<"ERR", l, Trace[l].op, e>>)
Finished == l <= Len(Trace) \/ PrintT(<<"DONE", l - 1>>)
Spec == Init /\ [][Next]_l
=============================================================================
