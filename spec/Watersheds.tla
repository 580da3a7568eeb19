----------------------------- MODULE Watersheds -----------------------------
(***************************************************************************)
(* Critical points of a smooth image and flow lines from its saddles.      *)
(* A critical point is <<x, y, gx, gy, hxx, hxy, hyy>>: position and       *)
(* gradient in 1/10000, Hessian in 1/100, the latter two measured in the   *)
(* image by the observer.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt
AbsV(x) == IF x < 0 THEN -x ELSE x
Det(c) == c[5]*c[7] - c[6]*c[6]
\* the Newton step from c is at most 1/1000 pixel: c is where the gradient vanishes
\* (not judged where the image is nearly flat or the Hessian nearly singular)
Judged(c) == AbsV(Det(c)) > 400
Critical(c) == LET d == Det(c)
                   sx == c[6]*c[4] - c[7]*c[3]
                   sy == c[6]*c[3] - c[5]*c[4]
                   slack == 4*(AbsV(c[5]) + AbsV(c[6]) + AbsV(c[7]) + 100)
               IN  10*AbsV(sx) <= AbsV(d) + slack /\ 10*AbsV(sy) <= AbsV(d) + slack
\* kinds: 1 minimum, 2 saddle, 3 maximum
Kind(c) == IF Det(c) < 0 THEN 2 ELSE IF c[5] + c[7] > 0 THEN 1 ELSE 3
Inside(v, w, h, tol) == v[1] >= -tol /\ v[2] >= -tol /\ v[1] <= 10000*(w-1) + tol /\ v[2] <= 10000*(h-1) + tol
\* squared distance of positions in 1/10000 exceeds what TLC can represent for distant points
FarApart(u, v, d) == \/ AbsV(u[1]-v[1]) > d \/ AbsV(u[2]-v[2]) > d
                     \/ (u[1]-v[1])*(u[1]-v[1]) + (u[2]-v[2])*(u[2]-v[2]) > d*d
CloseTo(u, v, d) == ~FarApart(u, v, d)
\* every point of S is one of T or closer than d to one of them
CoveredBy(S, T, d) == \A u \in S : \E v \in T : CloseTo(u, v, d)

(* Waves sa*cos(pi x/a) + sb*cos(pi y/b), given as <<a, b, sa, sb>>, lengths *)
(* in 1/10000: critical points at (k*a, l*b).                               *)
WaveMax(s, k) == IF k % 2 = 0 THEN s > 0 ELSE s < 0
WaveKind(wv, k, n) == LET p == WaveMax(wv[3], k)  q == WaveMax(wv[4], n)
                      IN  IF p /\ q THEN 3 ELSE IF p \/ q THEN 2 ELSE 1
WavePoints(wv, w, h, kind) == {<<wv[1]*k, wv[2]*n>> : <<k, n>> \in
                                 {t \in (0..((10000*(w-1)) \div wv[1])) \X (0..((10000*(h-1)) \div wv[2])) : WaveKind(wv, t[1], t[2]) = kind}}
\* the maxima on both sides of the saddle at s in the direction in which the wave rises
WaveEnds(wv, s) == LET k == (s[1] + wv[1] \div 2) \div wv[1]
                   IN  IF WaveMax(wv[3], k)
                       THEN {<<s[1], s[2] - wv[2]>>, <<s[1], s[2] + wv[2]>>}
                       ELSE {<<s[1] - wv[1], s[2]>>, <<s[1] + wv[1], s[2]>>}
=============================================================================

