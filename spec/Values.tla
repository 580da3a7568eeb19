------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* Rectangles of pixels and boxes of points as values: a rectangle <<x0,   *)
(* y0, x1, y1>> is the set of its pixels (the end being exclusive), a box  *)
(* the set of its points (the end being inclusive; points on a grid        *)
(* suffice).  h tells how far the end is beyond the last element.  Every   *)
(* query is answered by that set; joining and intersecting are the         *)
(* bounding rectangle of the union and the intersection of the sets.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
Elems(r, h) == (r[1]..(r[3]-h)) \X (r[2]..(r[4]-h))
Empty(r, h) == Elems(r, h) = {}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Bounds(S, h) == <<MinOf({p[1] : p \in S}), MinOf({p[2] : p \in S}), MaxOf({p[1] : p \in S}) + h, MaxOf({p[2] : p \in S}) + h>>
\* r is the smallest rectangle around S (any empty one if S is empty)
Around(r, S, h) == IF S = {} THEN Empty(r, h) ELSE r = Bounds(S, h)
Area(r) == (r[3]-r[1]) * (r[4]-r[2])
\* row by row, like reading
RowMajor(r) == LET w == r[3]-r[1] IN IF Empty(r, 1) THEN <<>>
               ELSE [i \in 1..Area(r) |-> <<r[1] + ((i-1) % w), r[2] + ((i-1) \div w)>>]
\* the result of an operation that sets coordinates
Moved(r, op, a, b) ==
    CASE op = "make" -> <<a[1], a[2], b[1], b[2]>>
      [] op = "begin" -> <<a[1], a[2], r[3], r[4]>>
      [] op = "end" -> <<r[1], r[2], a[1], a[2]>>
      [] op = "moveTo" -> <<a[1], a[2], r[3]+a[1]-r[1], r[4]+a[2]-r[2]>>
      [] op = "moveBy" -> <<r[1]+a[1], r[2]+a[2], r[3]+a[1], r[4]+a[2]>>
      [] op = "size" -> <<r[1], r[2], r[1]+a[1], r[2]+a[2]>>
      [] op = "addSize" -> <<r[1], r[2], r[3]+a[1], r[4]+a[2]>>
      [] op = "border" -> <<r[1]-a[1], r[2]-a[2], r[3]+a[1], r[4]+a[2]>>
\* the set of an operation on sets; s: the other rectangle
Combined(r, s, op, a, h) ==
    CASE op = "or" -> Elems(r, h) \cup Elems(s, h)
      [] op = "and" -> Elems(r, h) \cap Elems(s, h)
      [] op = "orPoint" -> Elems(r, h) \cup {a}
      [] op = "andPoint" -> Elems(r, h) \cap {a}
SetOps == {"or", "and", "orPoint", "andPoint"}
\* nearest integer of x/8, halves upwards
Round8(x) == (x + 4) \div 8
\* nearest integer of x/8, halves away from zero
Away8(x) == IF x < 0 THEN -((-x + 4) \div 8) ELSE (x + 4) \div 8
=============================================================================
