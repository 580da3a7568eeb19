------------------------------ MODULE MCPyramid ------------------------------
(* The pyramid with checkpoints, as it is built, refines the pyramid without.  *)
(* A level's content is abstracted to the sequence of elementary operations    *)
(* that led to it; histories hold such sequences (one per level).              *)
EXTENDS Pyramid, FiniteSets, TLC
CONSTANTS Ops, MaxLevels, Interval, MaxDepth, MaxElem
VARIABLES hist,      \* sequence of sequences of operations (the last one open if depth > 0)
          chk,       \* checkpoints: function from level index to content
          topIndex,  \* number of finished operations
          topState, nextChk
ivars == <<hist, chk, topIndex, topState, nextChk>>
RECURSIVE Concat(_, _, _)
Concat(h, a, b) == IF a > b THEN <<>> ELSE h[a] \o Concat(h, a + 1, b)
\* the content of level k, reached from the last checkpoint at or before it
Replay(k) == LET c == CHOOSE i \in DOMAIN chk : i <= k /\ \A j \in DOMAIN chk : j <= k => j <= i
             IN  chk[c] \o Concat(hist, c + 1, k)
Store(i, s) == IF i \in DOMAIN chk THEN chk ELSE chk @@ (i :> s)
Due(s) == Len(s) >= nextChk
MCInit == /\ level = << <<>> >> /\ top = <<>> /\ depth = 0
          /\ hist = <<>> /\ chk = (0 :> <<>>) /\ topIndex = 0 /\ topState = <<>> /\ nextChk = Interval
DoOp(o) ==
    /\ Len(top) < MaxElem
    /\ Len(level) <= MaxLevels
    /\ LET s == Append(topState, o) IN
       /\ Perform(s)
       /\ topState' = s
       /\ IF depth = 0
          THEN /\ hist' = Append(hist, <<o>>)
               /\ topIndex' = topIndex + 1
               /\ chk' = IF Due(s) THEN Store(topIndex', s) ELSE chk
               /\ nextChk' = IF Due(s) THEN Len(s) + Interval ELSE nextChk
          ELSE /\ hist' = [hist EXCEPT ![Len(hist)] = Append(@, o)]
               /\ UNCHANGED <<topIndex, chk, nextChk>>
DoBegin == /\ depth < MaxDepth /\ Len(level) <= MaxLevels /\ Begin
           /\ hist' = IF depth = 0 THEN Append(hist, <<>>) ELSE hist
           /\ UNCHANGED <<chk, topIndex, topState, nextChk>>
DoChange == /\ depth < MaxDepth /\ Change
            /\ topIndex' = IF depth = 0 THEN topIndex - 1 ELSE topIndex
            /\ chk' = IF depth = 0 THEN [i \in (DOMAIN chk) \ {topIndex} |-> chk[i]] ELSE chk
            /\ UNCHANGED <<hist, topState, nextChk>>
DoEnd == /\ End
         /\ IF depth = 1
            THEN /\ topIndex' = topIndex + 1
                 /\ chk' = IF Due(topState) THEN Store(topIndex', topState) ELSE chk
                 /\ nextChk' = IF Due(topState) THEN Len(topState) + Interval ELSE nextChk
            ELSE UNCHANGED <<topIndex, chk, nextChk>>
         /\ UNCHANGED <<hist, topState>>
DoCut == \E k \in 0..(Len(level) - 2) :
         /\ Cut(k)
         /\ topIndex' = k /\ topState' = Replay(k)
         /\ hist' = SubSeq(hist, 1, k)
         /\ chk' = [i \in {j \in DOMAIN chk : j <= k} |-> chk[i]]
         /\ LET c == CHOOSE i \in DOMAIN chk' : \A j \in DOMAIN chk' : j <= i
            IN  nextChk' = Len(chk'[c]) + Interval
MCNext == (\E o \in Ops : DoOp(o)) \/ DoBegin \/ DoChange \/ DoEnd \/ DoCut
MCSpec == MCInit /\ [][MCNext]_<<pvars, ivars>>
\* every finished level is reached exactly, and the indices agree
LevelsExact == \A k \in 0..(Len(level) - 1) : Replay(k) = level[k + 1]
IndexOK == topIndex = TopIndex /\ topState = top /\ Len(hist) + 1 = Count
ChkOK == 0 \in DOMAIN chk /\ \A i \in DOMAIN chk : i <= topIndex
=============================================================================
