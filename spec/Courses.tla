------------------------------ MODULE Courses ------------------------------
(* Edges that share courses: the order of the darts around their nodes, and  *)
(* the network that is left when every shared course becomes one edge.       *)
(* A graph is given by its edges (label -> start, end, flags, points); two   *)
(* edges that leave a node share a course as long as their points agree.     *)
EXTENDS Geometry, Bitwise

Labels(E) == {e.l : e \in E}
Darts(E) == Labels(E) \cup {-x : x \in Labels(E)}

\* direction u comes before v, both counted counter-clockwise (as seen in the
\* image) from the direction b, exclusive
SideOf(b, u) ==                 \* 0: less than half a turn from b, 1: opposite, 2: more
    LET c == -(b[1]*u[2] - b[2]*u[1])
    IN  IF c > 0 THEN 0 ELSE IF c < 0 THEN 2 ELSE IF b[1]*u[1] + b[2]*u[2] < 0 THEN 1 ELSE -1
Before(b, u, v) ==
    IF SideOf(b, u) # SideOf(b, v) THEN SideOf(b, u) < SideOf(b, v)
    ELSE -(u[1]*v[2] - u[2]*v[1]) > 0
Sub(a, b) == <<a[1]-b[1], a[2]-b[2]>>

\* P: dart -> points.  D: darts that agree in their first k points.
NextPts(P, D, k) == {P[d][k+1] : d \in {x \in D : Len(P[x]) > k}}
Diverge(P, D, k) == Cardinality(NextPts(P, D, k)) > 1
AnyPt(P, D, k) == P[CHOOSE d \in D : TRUE][k]
\* the classes of darts in which D leaves its k-th point, in the order seen from
\* the way they came (from the right-hand horizontal at a node)
Leaving(P, D, k) ==
    LET c == AnyPt(P, D, k)
        b == IF k = 1 THEN <<1, 0>> ELSE Sub(AnyPt(P, D, k-1), c)
        s == SetToSortSeq(NextPts(P, D, k), LAMBDA x, y : Before(b, Sub(x, c), Sub(y, c)))
    IN  TLCEval([i \in 1..Len(s) |-> {d \in D : P[d][k+1] = s[i]}])

\* the darts of D in their cyclic order, as a sequence of sets (more than one
\* element: they never diverge)
RECURSIVE Order(_, _, _)
Order(P, D, k) ==
    IF Cardinality(D) = 1 THEN <<D>>
    ELSE IF NextPts(P, D, k) = {} THEN <<D>>
    ELSE LET s == Leaving(P, D, k)
         IN  FoldSeq(LAMBDA c, acc : acc \o Order(P, c, k+1), <<>>, s)

\* ------------------------------------------------- the network of courses
\* A place is a node <<n>> or a branching <<n, prefix>> of darts of node n.
RECURSIVE BranchesOf(_, _, _, _)
BranchesOf(P, n, D, k) ==       \* set of [place, darts, k]
    IF Cardinality(D) <= 1 THEN {}
    ELSE IF Diverge(P, D, k)
         THEN (IF k = 1 THEN {} ELSE {[pl |-> <<n, SubSeq(P[CHOOSE d \in D : TRUE], 1, k)>>, D |-> D, k |-> k]})
              \cup UNION {BranchesOf(P, n, {d \in D : P[d][k+1] = x}, k+1) : x \in NextPts(P, D, k)}
         ELSE BranchesOf(P, n, D, k+1)

\* the last place on dart d that it shares with other darts of its node
RECURSIVE LastShared(_, _, _, _, _)
LastShared(P, n, D, k, d) ==    \* [place, k]
    LET N == NextPts(P, D, k)
        C == {x \in D : P[x][k+1] = P[d][k+1]}
        here == [pl |-> IF k = 1 THEN <<n>> ELSE <<n, SubSeq(P[d], 1, k)>>, k |-> k]
        first == Cardinality(D) > 1 /\ Cardinality(N) > 1
        rest == IF Cardinality(C) = 1 THEN [pl |-> <<>>, k |-> 0] ELSE LastShared(P, n, C, k+1, d)
    IN  IF rest.k > 0 THEN rest
        ELSE IF first \/ k = 1 THEN here ELSE [pl |-> <<>>, k |-> 0]

\* where the course of the darts C, leaving after their k-th point, ends:
\* the place, the points strictly between and the flags of the edge
RECURSIVE NextBranch(_, _, _, _)
NextBranch(P, n, C, k) ==
    IF Diverge(P, C, k) THEN k ELSE NextBranch(P, n, C, k+1)
Stub(P, node, DN, F, n, C, k) ==
    LET d == CHOOSE x \in C : TRUE
        fl == FoldSet(LAMBDA x, acc : acc | F[Abs(x)], 0, C)
    IN  IF Cardinality(C) = 1
        THEN LET w == node[-d]
                 far == LastShared(P, w, DN[w], 1, -d)
             IN  [to |-> far.pl, pts |-> SubSeq(P[d], k+1, Len(P[d]) - far.k), fl |-> fl]
        ELSE LET k2 == NextBranch(P, n, C, k+1)
             IN  [to |-> <<n, SubSeq(P[d], 1, k2)>>, pts |-> SubSeq(P[d], k+1, k2-1), fl |-> fl]
=============================================================================
