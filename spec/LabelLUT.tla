------------------------------- MODULE LabelLUT -------------------------------
(***************************************************************************)
(* The table of merged labels.  The state is the number of labels and the  *)
(* history of merges; what a label resolves to is defined by following the *)
(* merges one after another, independently of any table.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* t.n: labels 0..n-1;  t.h: sequence of merges <<from, to>>
New(n) == [n |-> n, h |-> <<>>]
RECURSIVE Resolve(_, _, _)
Resolve(h, i, x) == IF i > Len(h) THEN x
                    ELSE Resolve(h, i+1, IF h[i][1] = x THEN h[i][2] ELSE x)
Rep(t, x) == Resolve(t.h, 1, x)
Labels(t) == 0..(t.n - 1)
Reps(t) == {x \in Labels(t) : Rep(t, x) = x}
Class(t, r) == {x \in Labels(t) : Rep(t, x) = r}

MergeOK(t, f, to) == f # to /\ {f, to} \subseteq Reps(t)
Merge(t, f, to) == [t EXCEPT !.h = Append(t.h, <<f, to>>)]
AppendLabel(t) == [t EXCEPT !.n = t.n + 1]

\* ---- properties
Partition(t) == /\ UNION {Class(t, r) : r \in Reps(t)} = Labels(t)
                /\ \A r, s \in Reps(t) : r # s => Class(t, r) \cap Class(t, s) = {}
                /\ \A x \in Labels(t) : Rep(t, x) \in Reps(t)
=============================================================================
