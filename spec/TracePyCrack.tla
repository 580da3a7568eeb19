----------------------------- MODULE TracePyCrack -----------------------------
(* The crack edges of label images as seen through the Python module: the    *)
(* connection bits of all pixel corners, and the map built from the image.   *)
EXTENDS CrackMap, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
Tag(cond, t) == IF cond THEN {} ELSE {t}
Has(v, b) == (v \div b) % 2 = 1
Errs(r) ==
    LET I == [w |-> r.w, h |-> r.h, img |-> r.img, eight |-> r.c8 = 1]
        C == Cracks(I)
        R == Regions(I)
        at == [p \in Pixels(I.w, I.h) |-> r.at[p[2]*I.w + p[1] + 1]]
        Conn(c, d) == Norm(c, d) \in C
    IN  Tag(\A c \in Corners(I.w, I.h) :
              LET v == r.cc[c[1]+1][c[2]+1]
              IN  /\ v \in 0..15
                  /\ Has(v, 1) = Conn(c, 0) /\ Has(v, 2) = Conn(c, 3) /\ Has(v, 4) = Conn(c, 2) /\ Has(v, 8) = Conn(c, 1), "connections")
        \cup Tag(r.size = <<r.w, r.h>> /\ r.raw = <<r.n[1], r.n[2]>> /\ r.n[1] = Len(r.edges), "counts")
        \cup Tag(FoldSet(LAMBDA i, a : a + Len(r.edges[i]) - 1, 0, 1..Len(r.edges)) = Cardinality(C)
                 /\ \A i \in 1..Len(r.edges) : \A k \in 1..(Len(r.edges[i])-1) :
                      LET a == r.edges[i][k]  b == r.edges[i][k+1]
                          p == <<a[1] \div 2, a[2] \div 2>>  q == <<b[1] \div 2, b[2] \div 2>>
                      IN  /\ a[1] % 2 = 0 /\ a[2] % 2 = 0 /\ b[1] % 2 = 0 /\ b[2] % 2 = 0
                          /\ UnitSteps(<<p, q>>) /\ Norm(p, DirOf(p, q)) \in C, "cracks")
        \cup Tag(/\ r.n[3] = Cardinality(R) + 1
                 /\ \A K \in R : Cardinality({at[p] : p \in K}) = 1
                 /\ Cardinality({at[p] : p \in DOMAIN at}) = Cardinality(R), "regions")
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Errs(Trace[l]) IN IF e = {} THEN TRUE ELSE PrintT(<<"ERR", l, Trace[l].op, e>>)
Finished == l <= Len(Trace) \/ PrintT(<<"DONE", l - 1>>)
Spec == Init /\ [][Next]_l
=============================================================================
