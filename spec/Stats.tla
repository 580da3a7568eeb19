-------------------------------- MODULE Stats --------------------------------
(***************************************************************************)
(* Statistics of the faces of a map under modification.  A statistics      *)
(* object st is a record                                                   *)
(*   min   faces with less pixels are estimated by sub-pixel sampling      *)
(*   img   the image: pixel -> value                                       *)
(*   own   face -> set of the pixels labelled with it                      *)
(*   samp  the faces whose statistics are (still) estimates                *)
(*   tr    face -> <<count, sum, sum of squares>>, maintained              *)
(*         incrementally; meaningful for the faces outside samp            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt

Plus(a, b) == <<a[1]+b[1], a[2]+b[2], a[3]+b[3]>>
Of(img, px) == FoldSet(LAMBDA p, acc : <<acc[1]+1, acc[2]+img[p], acc[3]+img[p]*img[p]>>, <<0, 0, 0>>, px)

\* the infinite face 0 is never sampled
NewStats(min, img, own) ==
    [min |-> min, img |-> img, own |-> own,
     samp |-> {f \in DOMAIN own \ {0} : Cardinality(own[f]) < min},
     tr |-> [f \in DOMAIN own |-> Of(img, own[f])]]

\* what a face contributes when its estimate is replaced by its pixels
Exact(st, f) == IF f \in st.samp THEN Of(st.img, st.own[f]) ELSE st.tr[f]

\* faces a and b become the face s (s is one of them)
Merged(st, a, b, s) ==
    LET gone == IF s = a THEN b ELSE a
        px == st.own[a] \cup st.own[b]
        stays == a \in st.samp /\ b \in st.samp /\ Cardinality(px) < st.min
        keep == DOMAIN st.own \ {gone}
    IN  [st EXCEPT !.own = [f \in keep |-> IF f = s THEN px ELSE st.own[f]],
                   !.samp = (st.samp \ {a, b}) \cup (IF stays THEN {s} ELSE {}),
                   !.tr = [f \in keep |-> IF f = s THEN Plus(Exact(st, a), Exact(st, b)) ELSE st.tr[f]]]

\* pixels that belonged to no face are given to face f
Associated(st, f, px) ==
    LET own2 == st.own[f] \cup px
        becomes == f \in st.samp /\ Cardinality(own2) >= st.min
    IN  [st EXCEPT !.own[f] = own2,
                   !.samp = IF becomes THEN st.samp \ {f} ELSE st.samp,
                   !.tr[f] = IF becomes THEN Of(st.img, own2) ELSE Plus(st.tr[f], Of(st.img, px))]

\* ---- properties of a statistics object
Truthful(st) == \A f \in DOMAIN st.own \ st.samp : st.tr[f] = Of(st.img, st.own[f])
OnlySmallSampled(st) == \A f \in st.samp : Cardinality(st.own[f]) < st.min
Disjoint(st) == \A f, g \in DOMAIN st.own : f # g => st.own[f] \cap st.own[g] = {}
=============================================================================
