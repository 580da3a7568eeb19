------------------------------- MODULE Pyramid -------------------------------
(***************************************************************************)
(* The segmentation pyramid: a base level and a history of operations.     *)
(* Only what the pyramid promises is modelled: `level' is the sequence of  *)
(* all finished levels, `top' the level being worked on, and `depth' the   *)
(* nesting depth of composite operations.  Checkpoints do not exist here:  *)
(* they must not be observable.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences
VARIABLES level, top, depth
pvars == <<level, top, depth>>
Base(s) == level' = <<s>> /\ top' = s /\ depth' = 0
\* an operation that turns the topmost level into s
Perform(s) == /\ top' = s
              /\ level' = IF depth = 0 THEN Append(level, s) ELSE level
              /\ UNCHANGED depth
Fail == UNCHANGED pvars
Begin == depth' = depth + 1 /\ UNCHANGED <<level, top>>
\* the last operation becomes the first one of a composite
Change == /\ depth > 0 \/ Len(level) > 1
          /\ level' = IF depth = 0 THEN SubSeq(level, 1, Len(level) - 1) ELSE level
          /\ depth' = depth + 1
          /\ UNCHANGED top
End == /\ depth > 0
       /\ depth' = depth - 1
       /\ level' = IF depth = 1 THEN Append(level, top) ELSE level
       /\ UNCHANGED top
Cut(k) == /\ depth = 0
          /\ level' = SubSeq(level, 1, k + 1)
          /\ top' = level'[k + 1]
          /\ UNCHANGED depth
\* while a composite is being formed, its level counts already
Count == Len(level) + (IF depth > 0 THEN 1 ELSE 0)
TopIndex == Len(level) - 1
=============================================================================
