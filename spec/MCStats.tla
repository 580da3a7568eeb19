------------------------------- MODULE MCStats -------------------------------
(* All histories of merges and pixel associations on small maps: the           *)
(* incremental statistics stay truthful, and a copy detached at any moment     *)
(* keeps describing the map of that moment.                                    *)
EXTENDS Stats
CONSTANTS Pixels, Faces, Values, Mins
VARIABLES st, free, snap
vars == <<st, free, snap>>
None == <<>>
Init == /\ \E img \in [Pixels -> Values], at \in [Pixels -> Faces \cup {-1}], m \in Mins :
              /\ st = NewStats(m, img, [f \in Faces |-> {p \in Pixels : at[p] = f}])
              /\ free = {p \in Pixels : at[p] = -1}
        /\ snap = None
Merge(a, b, s) == st' = Merged(st, a, b, s) /\ UNCHANGED <<free, snap>>
Assoc(f, px) == st' = Associated(st, f, px) /\ free' = free \ px /\ UNCHANGED snap
Detach == snap = None /\ snap' = <<st>> /\ UNCHANGED <<st, free>>
Next == \/ \E a, b \in DOMAIN st.own : a # b /\ \E s \in {a, b} : Merge(a, b, s)
        \/ \E f \in DOMAIN st.own, px \in SUBSET free : px # {} /\ Assoc(f, px)
        \/ Detach
Spec == Init /\ [][Next]_vars
TypeOK == st.samp \subseteq DOMAIN st.own /\ DOMAIN st.tr = DOMAIN st.own /\ 0 \notin st.samp
Incremental == Truthful(st) /\ (snap # None => Truthful(snap[1]))
Small == OnlySmallSampled(st)
Partition == Disjoint(st) /\ UNION {st.own[f] : f \in DOMAIN st.own} \cup free = Pixels
\* statistics never get worse: a face that is exact stays exact
NoRelapse == [][\A f \in DOMAIN st'.own : f \in DOMAIN st.own /\ f \in st'.samp => f \in st.samp]_vars
=============================================================================
