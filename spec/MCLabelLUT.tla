------------------------------ MODULE MCLabelLUT ------------------------------
EXTENDS LabelLUT
CONSTANT N
VARIABLE t
Init == \E n \in 1..N : t = New(n)
Next == \/ \E f, to \in Labels(t) : MergeOK(t, f, to) /\ t' = Merge(t, f, to)
        \/ t.n < N /\ t' = AppendLabel(t)
Spec == Init /\ [][Next]_t
Inv == Partition(t)
\* merging unites exactly the two classes
Unites == [][\A r \in Reps(t) \ Reps(t)' :
               \E s \in Reps(t)' : Class(t', s) = Class(t, s) \cup Class(t, r)]_t
=============================================================================
