------------------------------- MODULE CrackMap -------------------------------
(***************************************************************************)
(* What the crack-edge map of a label image is.  Pixels are <<x, y>> with  *)
(* 0 <= x < w, 0 <= y < h; corners <<x, y>> with 0 <= x <= w, 0 <= y <= h, *)
(* corner <<x, y>> being the upper left corner of pixel <<x, y>>.          *)
(* Directions: 0 = east, 1 = north, 2 = west, 3 = south (counter-clockwise *)
(* as seen in the image).                                                  *)
(***************************************************************************)
EXTENDS Geometry
Pixels(w, h) == (0..(w-1)) \X (0..(h-1))
Corners(w, h) == (0..w) \X (0..h)
\* label of pixel p, or none outside of the image
L(I, p) == IF p[1] < 0 \/ p[2] < 0 \/ p[1] >= I.w \/ p[2] >= I.h THEN -1 ELSE I.img[p[2]*I.w + p[1] + 1]
Step(d) == CASE d = 0 -> <<1, 0>> [] d = 1 -> <<0, -1>> [] d = 2 -> <<-1, 0>> [] d = 3 -> <<0, 1>>
Move(c, d) == <<c[1] + Step(d)[1], c[2] + Step(d)[2]>>
\* the pixels left and right of the unit crack leaving corner c in direction d
LeftPixel(c, d) == CASE d = 0 -> <<c[1], c[2]-1>> [] d = 1 -> <<c[1]-1, c[2]-1>> [] d = 2 -> <<c[1]-1, c[2]>> [] d = 3 -> c
RightPixel(c, d) == CASE d = 0 -> c [] d = 1 -> <<c[1], c[2]-1>> [] d = 2 -> <<c[1]-1, c[2]-1>> [] d = 3 -> <<c[1]-1, c[2]>>
\* a crack is part of the map iff it separates pixels of different labels (or the outside)
Crack(I, c, d) == L(I, LeftPixel(c, d)) # L(I, RightPixel(c, d))
Dirs(I, c) == {d \in 0..3 : Crack(I, c, d)}
\* which diagonal pair of pixels is connected through corner c ("none" if four or less
\* regions simply meet there)
Diag(I, c) ==
    LET ul == L(I, <<c[1]-1, c[2]-1>>)  ur == L(I, <<c[1], c[2]-1>>)
        dl == L(I, <<c[1]-1, c[2]>>)    dr == L(I, c)
        a == ul = dr  b == ur = dl
    IN  IF ~I.eight \/ Dirs(I, c) # 0..3 THEN "none"
        ELSE IF a /\ b THEN (IF ur > dr THEN "upright" ELSE "upleft")
        ELSE IF a THEN "upleft" ELSE IF b THEN "upright" ELSE "none"
\* points where at least three edge ends meet
IsNode(I, c) == Cardinality(Dirs(I, c)) >= 3 /\ Diag(I, c) = "none"
\* the direction in which the course entering c in direction d continues
Continue(I, c, d) ==
    LET back == (d + 2) % 4
    IN  CASE Diag(I, c) = "upleft" -> (CASE d = 1 -> 2 [] d = 0 -> 3 [] d = 2 -> 1 [] d = 3 -> 0)
          [] Diag(I, c) = "upright" -> (CASE d = 0 -> 1 [] d = 3 -> 2 [] d = 2 -> 3 [] d = 1 -> 0)
          [] OTHER -> CHOOSE x \in Dirs(I, c) \ {back} : TRUE

\* connected regions: function from pixels to a representative pixel
Nbrs(I, p) ==
    {q \in Pixels(I.w, I.h) : \/ \E d \in 0..3 : q = Move(p, d) /\ L(I, q) = L(I, p)
                              \/ q = <<p[1]+1, p[2]+1>> /\ Diag(I, q) = "upleft"
                              \/ q = <<p[1]-1, p[2]-1>> /\ Diag(I, p) = "upleft"
                              \/ q = <<p[1]-1, p[2]+1>> /\ Diag(I, <<p[1], q[2]>>) = "upright"
                              \/ q = <<p[1]+1, p[2]-1>> /\ Diag(I, <<q[1], p[2]>>) = "upright"}
RECURSIVE Component(_, _, _)
Component(nb, S, F) ==      \* S: reached, F: frontier
    LET N == (UNION {nb[p] : p \in F}) \ S
    IN  IF N = {} THEN S ELSE Component(nb, S \cup N, N)
RECURSIVE RegionsOf(_, _)
RegionsOf(nb, R) ==
    IF R = {} THEN {}
    ELSE LET p == CHOOSE x \in R : TRUE
             C == Component(nb, {p}, {p})
         IN  {C} \cup RegionsOf(nb, R \ C)
Regions(I) == LET P == Pixels(I.w, I.h)
                  nb == [p \in P |-> Nbrs(I, p)]
              IN  RegionsOf(nb, P)
\* all cracks, each once (east- and southward)
Cracks(I) == {<<c, d>> \in Corners(I.w, I.h) \X {0, 3} :
                LET e == Move(c, d) IN e[1] <= I.w /\ e[2] <= I.h /\ Crack(I, c, d)}
DirOf(a, b) == CHOOSE d \in 0..3 : Move(a, d) = b
UnitSteps(p) == \A i \in 1..(Len(p)-1) : \E d \in 0..3 : Move(p[i], d) = p[i+1]
Norm(c, d) == IF d \in {0, 3} THEN <<c, d>> ELSE <<Move(c, d), (d + 2) % 4>>
\* mid-crack geometry of an edge, in doubled coordinates; move: the end node moves, too
Midcracks(p, move) ==
    LET n == Len(p)
        m == [i \in 1..(n-1) |-> <<p[i][1] + p[i+1][1], p[i][2] + p[i+1][2]>>]
    IN  IF move THEN <<m[n-1]>> \o m ELSE <<<<2*p[1][1], 2*p[1][2]>>>> \o m \o <<<<2*p[n][1], 2*p[n][2]>>>>
=============================================================================
