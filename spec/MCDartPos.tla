------------------------------ MODULE MCDartPos ------------------------------
(* All short darts with integral segment lengths, all movements: the position stays on the
   dart, movements are monotonic, and going to an arc length depends on that length only.  *)
EXTENDS DartPos
CONSTANTS MaxPts
VARIABLES P, s, arc      \* arc: current arc length in 1/T
Steps == {<<3, 4>>, <<4, -3>>, <<-5, 0>>, <<0, 6>>, <<-4, 3>>}
RECURSIVE Darts(_)
Darts(n) == IF n = 1 THEN {<< <<0, 0>> >>}
            ELSE {Append(d, <<d[Len(d)][1] + v[1], d[Len(d)][2] + v[2]>>) : d \in Darts(n-1), v \in Steps}
Init == P \in UNION {Darts(n) : n \in 2..MaxPts} /\ s = At(0) /\ arc = 0
Q == Lens(P)
Tot == Upto(Q, Len(Q))
Go(z) == s' = z.s /\ arc' = T*StartArc(Q, z.s) + z.off /\ UNCHANGED P
Next == \/ Go(NextSeg(P, s))
        \/ Go(PrevSeg(P, s))
        \/ \E a \in -1..(Tot + 1) : Go(GotoArc(P, Q, s, 10*a))
        \/ \E c \in {P[1], P[Len(P)], <<1, 1>>}, r2 \in {1, 25, 30, 100} : Go(LeaveCircle(P, Q, s, c, r2))
Spec == Init /\ [][Next]_<<P, s, arc>>
OnDart == LET off == arc - T*StartArc(Q, s)
              v == Place(P, Q, s, off)
          IN  /\ LensExact(P)
              /\ s.i \in 0..LastSeg(P) /\ 0 <= arc /\ arc <= T*Tot
              /\ s.end => arc = T*Tot
              /\ off >= 0 /\ (~s.end => off <= T*Q[s.i+1])
              /\ LET a == SegStart(P, s)  b == SegEnd(P, s)
                 IN  /\ T*MinI(a[1], b[1]) - 1 <= v[1] /\ v[1] <= T*MaxI(a[1], b[1]) + 1
                     /\ T*MinI(a[2], b[2]) - 1 <= v[2] /\ v[2] <= T*MaxI(a[2], b[2]) + 1
Undo == \A z \in {NextSeg(P, s)} : TRUE \in z.r => PrevSeg(P, z.s).s = s
Memoryless == \A a \in 0..Tot : GotoArc(P, Q, s, 10*a) = GotoArc(P, Q, At(0), 10*a)
=============================================================================
