----------------------------- MODULE TraceGeoMap -----------------------------
(***************************************************************************)
(* Validates recorded histories of the implementation against GeoMap: the  *)
(* specification computes every next state itself; choices the             *)
(* specification leaves open (labels of new cells, which of two merged     *)
(* cells survives, names of the faces, where an edge is inserted into an   *)
(* unsorted orbit) are read from the record but must be legal.  Every      *)
(* disagreement is reported as                                             *)
(*     <<"ERR", line, operation, {components that disagree}>>.             *)
(***************************************************************************)
EXTENDS GeoMap, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,      \* next record
          ms,     \* slot -> map
          skip    \* TRUE after a structural disagreement, until the next "map"
vars == <<l, ms, skip>>

Pow2 == [b \in 0..15 |-> 2^b]
BitSet(lo, hi) == {b \in 0..15 : (lo \div Pow2[b]) % 2 = 1}
                  \cup {16 + b : b \in {c \in 0..15 : (hi \div Pow2[c]) % 2 = 1}}
Tag(cond, t) == IF cond THEN {} ELSE {t}
Pts(s) == [i \in 1..Len(s) |-> <<s[i][1], s[i][2]>>]

\* ------------------------------------------------ comparing whole states
NodesMatch(m, s) ==
    /\ Len(s.n) = Cardinality(Nodes(m))
    /\ \A i \in 1..Len(s.n) : LET r == s.n[i] IN
         /\ r[1] \in Nodes(m)
         /\ m.np[r[1]] = <<r[2], r[3]>>
OrbitAnchors(m, s) ==
    \A i \in 1..Len(s.n) : LET r == s.n[i] IN
         r[1] \in Nodes(m) =>
           LET deg == Degree(m, r[1]) IN
           /\ r[5] = deg
           /\ IF deg = 0 THEN r[4] = 0
              ELSE IsDart(m, r[4]) /\ StartNode(m, r[4]) = r[1]
EdgesMatch(m, s) ==
    /\ Len(s.e) = Cardinality(Edges(m))
    /\ \A i \in 1..Len(s.e) : LET r == s.e[i] IN
         /\ r[1] \in Edges(m)
         /\ m.E[r[1]].s = r[2] /\ m.E[r[1]].t = r[3]
GeometryMatch(m, s) ==
    \A i \in 1..Len(s.e) : LET r == s.e[i] IN
         r[1] \in Edges(m) => m.E[r[1]].p = Pts(r[8])
FlagsMatch(m, s) ==
    \A i \in 1..Len(s.e) : LET r == s.e[i] IN
         r[1] \in Edges(m) => m.E[r[1]].fl = BitSet(r[6], r[7])
SigmaMatch(m, s) ==
    /\ Len(s.sg) = Cardinality(Darts(m))
    /\ \A i \in 1..Len(s.sg) : LET r == s.sg[i] IN
         /\ r[1] \in Darts(m)
         /\ m.sg[r[1]] = r[2] /\ m.iv[r[1]] = r[3]
         /\ m.iv[-r[1]] = r[4] /\ -m.sg[r[1]] = r[5]
         /\ StartNode(m, r[1]) = r[6] /\ EndNode(m, r[1]) = r[7]
LeftFacesMatch(m, s) ==
    /\ \A i \in 1..Len(s.sg) : LET r == s.sg[i] IN
         r[1] \in Darts(m) =>
           IF m.ini THEN m.lf[r[1]] = r[8] /\ m.lf[-r[1]] = r[9]
           ELSE r[8] = -1 /\ r[9] = -1
    /\ \A i \in 1..Len(s.e) : LET r == s.e[i] IN
         r[1] \in Edges(m) =>
           IF m.ini THEN m.lf[r[1]] = r[4] /\ m.lf[-r[1]] = r[5]
           ELSE r[4] = -1 /\ r[5] = -1
FaceSetMatch(m, s) == /\ Len(s.f) = Cardinality(m.F)
                      /\ \A i \in 1..Len(s.f) : s.f[i][1] \in m.F
\* one anchor per contour, the outer contour first
AnchorsMatch(m, s) ==
    \A i \in 1..Len(s.f) : LET r == s.f[i] IN
      r[1] \in m.F =>
        LET an == r[2]
            mine == {d \in Darts(m) : m.lf[d] = r[1]}
        IN  /\ \A j \in 1..Len(an) : an[j] \in mine
            /\ LET orb == [j \in 1..Len(an) |-> PhiOrbit(m, an[j])]
                   rg == [j \in 1..Len(an) |-> Range(orb[j])]
               IN  /\ \A j \in 1..Len(an), k \in 1..Len(an) : j < k => an[k] \notin rg[j]
                   /\ UNION {rg[j] : j \in 1..Len(an)} = mine
                   /\ r[1] # 0 => Len(an) > 0 /\ ContourArea2(m, orb[1]) > 0
            /\ r[4] = Len(an) - (IF r[1] = 0 THEN 0 ELSE 1)
CountsMatch(m, s) ==
    /\ s.cnt[1] = Cardinality(Nodes(m)) /\ s.cnt[2] = Cardinality(Edges(m))
    /\ s.cnt[3] = Cardinality(m.F)
    /\ \A n \in Nodes(m) : n < s.cnt[4]
    /\ \A e \in Edges(m) : e < s.cnt[5]
    /\ \A f \in m.F : f < s.cnt[6]
ModeMatch(m, s) == s.ini = m.ini /\ s.srt = m.srt /\ s.li = m.li
LabelsMatch(m, s) ==
    m.li => /\ Len(s.lab) = m.W * m.H
            /\ \A x \in 0..(m.W-1), y \in 0..(m.H-1) : s.lab[y*m.W + x + 1] = m.img[<<x, y>>]
PixelAreasMatch(m, s) ==
    m.li => \A i \in 1..Len(s.f) : s.f[i][1] \in m.F => s.f[i][3] = PixelArea(m, s.f[i][1])
LutMatch(m, s) ==
    m.li => \A f \in DOMAIN m.lut : f+1 <= Len(s.lut) /\ s.lut[f+1] = m.lut[f]

\* structural components: after a disagreement here the rest of the trace is skipped
Structural == {"node", "edge", "geometry", "sigma", "leftface", "faceset", "mode", "accept"}
StateErrs(m, s) ==
    LET base == Tag(NodesMatch(m, s), "node") \cup Tag(EdgesMatch(m, s), "edge")
        rest == Tag(GeometryMatch(m, s), "geometry") \cup Tag(FlagsMatch(m, s), "flags")
           \cup Tag(SigmaMatch(m, s), "sigma") \cup Tag(LeftFacesMatch(m, s), "leftface")
           \cup Tag(FaceSetMatch(m, s), "faceset") \cup Tag(CountsMatch(m, s), "count")
           \cup Tag(ModeMatch(m, s), "mode") \cup Tag(OrbitAnchors(m, s), "nodeanchor")
        one == base \cup rest
        two == IF one \cap Structural = {}
               THEN Tag(AnchorsMatch(m, s), "anchor") \cup Tag(LabelsMatch(m, s), "label")
                    \cup Tag(PixelAreasMatch(m, s), "pixarea") \cup Tag(LutMatch(m, s), "lut")
               ELSE {}
    IN  one \cup two

\* ------------------------------------------------------ helpers on records
Veto(rec, h) == \E i \in 1..Len(rec.veto) : rec.veto[i] = h
Kinds(ev) == [i \in 1..Len(ev) |-> ev[i].k]
CountsOf(m) == <<Cardinality(Nodes(m)), Cardinality(Edges(m)), Cardinality(m.F)>>
CountsEq(e, m) == <<e.c[1], e.c[2], e.c[3]>> = CountsOf(m)
KeepSet(m, rec) == IF Veto(rec, "rn") THEN Nodes(m) ELSE {}
RecPixels(e) == {<<e.a[3][i][1], e.a[3][i][2]>> : i \in 1..Len(e.a[3])}

\* result of a transition: new map, errors
Res(m, errs) == [m |-> m, errs |-> errs]
Refused(m, rec, evs, k) ==      \* nothing changes, result kind k
    Res(m, Tag(rec.r.k = k, IF rec.r.k = "ok" THEN "accept" ELSE "result")
           \cup Tag(Kinds(rec.ev) = evs, "event"))

\* -------------------------------------- elementary operations (event groups)
\* A group is the list of events of one elementary operation.
RECURSIVE SkipRn(_, _)
SkipRn(ev, i) == IF i <= Len(ev) /\ ev[i].k = "rn" THEN SkipRn(ev, i+1) ELSE i
At(ev, i, k) == i <= Len(ev) /\ ev[i].k = k

\* events of a successful mergeFaces/removeBridge: ev[i] is the pre event, m the map
\* before, m2 after, f the face that got everything
EdgeRemovalEvents(m, m2, ev, i, j, f, iso, freed) ==
    LET rns == {ev[x].a[1] : x \in (i+1)..(j-1)}
    IN  /\ CountsEq(ev[i], m)
        /\ rns = iso /\ j - i - 1 = Cardinality(iso)
        /\ ev[j].a[1] = f /\ CountsEq(ev[j], m2)
        /\ IF freed = {} THEN ~At(ev, j+1, "ap")
           ELSE /\ At(ev, j+1, "ap")
                /\ LET a == ev[j+1].a IN
                   /\ a[1] = f
                   /\ RecPixels(ev[j+1]) = freed /\ Len(a[3]) = Cardinality(freed)
                   /\ m2.li => a[2] = PixelArea(m2, f)
                /\ CountsEq(ev[j+1], m2)

\* Step(m, rec, ev, i): the elementary operation starting at event i.
\* Result: [m, next (index after the group), ok (succeeded?), errs]
Group(m, rec, ev, i) ==
    LET k == ev[i].k
        bad == [m |-> m, next |-> i+1, ok |-> FALSE, errs |-> {"event"}]
        failed(reason) == [m |-> m, next |-> i+1, ok |-> FALSE, errs |-> Tag(reason, "refused")]
    IN
    CASE k = "pmf" ->
           LET d == ev[i].a[1]
               j == SkipRn(ev, i+1)
           IN  IF ~MergeFacesOK(m, d) THEN bad
               ELSE IF ~At(ev, j, "qmf") THEN failed(Veto(rec, "pmf") \/ ~MayRemoveEdge(m, d))
               ELSE LET f == ev[j].a[1]
                        iso == IsolatedAfter(m, Abs(d))
                        m2 == MergeFaces(m, d, f, KeepSet(m, rec))
                    IN  IF f \notin Survivors(m, d) THEN bad
                        ELSE [m |-> m2,
                              next |-> IF At(ev, j+1, "ap") THEN j+2 ELSE j+1, ok |-> TRUE,
                              errs |-> Tag(~Veto(rec, "pmf") /\ MayRemoveEdge(m, d), "veto")
                                 \cup Tag(m.lf[d] = f /\ EdgeRemovalEvents(m, m2, ev, i, j, f, iso,
                                              FreedPixels(m, Abs(d))), "event")]
      [] k = "prb" ->
           LET d == ev[i].a[1]
               j == SkipRn(ev, i+1)
           IN  IF ~RemoveBridgeOK(m, d) THEN bad
               ELSE IF ~At(ev, j, "qrb") THEN failed(Veto(rec, "prb") \/ ~MayRemoveEdge(m, d))
               ELSE LET f == m.lf[d]
                        iso == IsolatedAfter(m, Abs(d))
                        m2 == RemoveBridge(m, d, KeepSet(m, rec))
                    IN  [m |-> m2, next |-> IF At(ev, j+1, "ap") THEN j+2 ELSE j+1, ok |-> TRUE,
                         errs |-> Tag(~Veto(rec, "prb") /\ MayRemoveEdge(m, d), "veto")
                            \cup Tag(EdgeRemovalEvents(m, m2, ev, i, j, f, iso, FreedPixels(m, Abs(d))), "event")]
      [] k = "pme" ->
           LET d == ev[i].a[1]
           IN  IF ~MergeEdgesOK(m, d) THEN bad
               ELSE IF ~At(ev, i+1, "rn") \/ ev[i+1].a[1] # StartNode(m, d)
                    THEN failed(Veto(rec, "pme") \/ ~MayMergeEdges(m, d))
               ELSE IF ~At(ev, i+2, "qme")
                    THEN [failed(Veto(rec, "rn")) EXCEPT !.next = i+2]
               ELSE LET s == ev[i+2].a[1]
                        ds == IF Abs(d) = s THEN d ELSE m.sg[d]
                        m2 == MergeEdges(m, ds)
                    IN  IF Abs(ds) # s THEN bad
                        ELSE [m |-> m2, next |-> i+3, ok |-> TRUE,
                              errs |-> Tag(~Veto(rec, "pme") /\ ~Veto(rec, "rn") /\ MayMergeEdges(m, d), "veto")
                                 \cup Tag(d = ds /\ CountsEq(ev[i], m) /\ CountsEq(ev[i+1], m)
                                          /\ CountsEq(ev[i+2], m2), "event")]
      [] k = "rn" ->
           LET n == ev[i].a[1]
           IN  IF ~RemoveNodeOK(m, n) THEN bad
               ELSE IF Veto(rec, "rn") THEN failed(TRUE)
               ELSE [m |-> DropNodes(m, {n}), next |-> i+1, ok |-> TRUE,
                     errs |-> Tag(CountsEq(ev[i], m), "event")]
      [] OTHER -> bad

RECURSIVE FoldGroups(_, _, _, _, _, _)
FoldGroups(m, rec, ev, i, n, errs) ==
    IF i > Len(ev) \/ errs # {} THEN [m |-> m, n |-> n, errs |-> errs]
    ELSE LET g == Group(m, rec, ev, i)
         IN  FoldGroups(g.m, rec, ev, g.next, IF g.ok THEN n+1 ELSE n, errs \cup g.errs)

\* an elementary operation called directly: exactly one group, kind and dart as asked
Direct(m, rec, kind, legal, darts, resultOK(_, _)) ==
    IF ~legal THEN Refused(m, rec, <<>>, "exc")
    \* pf: the protection was connected before the observer, which then is not asked
    ELSE IF rec.ev = <<>> /\ rec.r.k = "null" /\ "pf" \in DOMAIN rec /\ rec.pf
            /\ (IF kind = "pme" THEN ~MayMergeEdges(m, rec.a[1]) ELSE kind # "rn" /\ ~MayRemoveEdge(m, rec.a[1]))
         THEN Res(m, {})
    ELSE IF rec.r.k = "exc" \/ Len(rec.ev) = 0 THEN Res(m, {"result"})
    ELSE IF rec.ev[1].k # kind \/ rec.ev[1].a[1] \notin darts THEN Res(m, {"event"})
    ELSE LET g == Group(m, rec, rec.ev, 1)
         IN  Res(g.m, g.errs \cup Tag(g.next = Len(rec.ev) + 1, "event")
                      \cup Tag(IF g.ok THEN rec.r.k = "ok" /\ resultOK(g.m, rec.r.v)
                               ELSE rec.r.k = "null", "result"))

DoMergeFaces(m, rec) ==
    LET d == rec.a[1]
        ok(m2, v) == \E i \in 1..Len(rec.ev) : rec.ev[i].k = "qmf" /\ rec.ev[i].a[1] = v
    IN  Direct(m, rec, "pmf", MergeFacesOK(m, d), {d, -d}, ok)
DoRemoveBridge(m, rec) ==
    LET d == rec.a[1]
        ok(m2, v) == v = m.lf[d]
    IN  Direct(m, rec, "prb", RemoveBridgeOK(m, d), {d, -d}, ok)
DoMergeEdges(m, rec) ==
    LET d == rec.a[1]
        ok(m2, v) == v = rec.ev[Len(rec.ev)].a[1]
    IN  Direct(m, rec, "pme", MergeEdgesOK(m, d), IF MergeEdgesOK(m, d) THEN {d, m.sg[d]} ELSE {}, ok)
DoRemoveEdge(m, rec) ==
    LET d == rec.a[1]
    IN  IF m.ini THEN (IF m.lf[d] = m.lf[-d] THEN DoRemoveBridge(m, rec) ELSE DoMergeFaces(m, rec))
        ELSE Res(RemoveEdgeGraph(m, d), Tag(rec.r.k = "null", "result") \cup Tag(rec.ev = <<>>, "event"))
DoRemoveNode(m, rec) ==
    IF ~RemoveNodeOK(m, rec.a[1]) THEN Refused(m, rec, <<>>, "exc")
    ELSE LET ok(m2, v) == TRUE
         IN  Direct(m, rec, "rn", TRUE, {rec.a[1]}, ok)

DoSplit(m, rec) ==
    LET e == rec.a[1]  i == rec.a[2]  ins == Len(rec.a) > 2
        pt == IF ins THEN <<rec.a[3], rec.a[4]>> ELSE <<0, 0>>
        ev == rec.ev
    IN  IF ~SplitOK(m, e, i, ins) THEN Refused(m, rec, <<>>, "exc")
        ELSE IF rec.r.k # "ok" THEN Res(m, {"result"})
        ELSE LET ne == rec.r.v
                 \* the new node is the record's start node of the new edge
                 cand == {x \in 1..Len(rec.s.e) : rec.s.e[x][1] = ne}
             IN  IF ne \in Edges(m) \/ ne <= 0 \/ cand = {} THEN Res(m, {"result"})
                 ELSE LET nn == rec.s.e[CHOOSE x \in cand : TRUE][2]
                      IN  IF nn \in Nodes(m) THEN Res(m, {"node"})
                          ELSE LET m2 == SplitEdge(m, e, i, ins, pt, nn, ne)
                               IN  Res(m2, Tag(/\ Kinds(ev) = <<"psp", "qsp">>
                                               /\ ev[1].a[1] = e /\ ev[1].a[2] = i
                                               /\ ev[1].a[3] = (IF ins THEN 1 ELSE 0)
                                               /\ ins => <<ev[1].a[4], ev[1].a[5]>> = pt
                                               /\ ev[2].a[1] = e /\ ev[2].a[2] = ne
                                               /\ CountsEq(ev[1], m) /\ CountsEq(ev[2], m2), "event"))

\* ---------------------------------------------------------- building phase
RecSg(rec) == LET S == rec.s.sg IN [d \in {S[i][1] : i \in 1..Len(S)} |->
                 S[CHOOSE i \in 1..Len(S) : S[i][1] = d]]

DoAddNode(m, rec) ==
    LET n == rec.r.v
    IN  IF rec.r.k # "ok" THEN Res(m, {"result"})
        ELSE IF n \in Nodes(m) THEN Res(m, {"node"})
        ELSE Res(AddNode(m, n, <<rec.a[1], rec.a[2]>>),
                 Tag(Len(rec.a) > 2 => n >= rec.a[3], "label-request"))

\* the orbit of old darts is undisturbed
RECURSIVE NextOld(_, _, _, _)
NextOld(sg, d, new, n) == IF n = 0 THEN d
    ELSE IF sg[d] \in new THEN NextOld(sg, sg[d], new, n-1) ELSE sg[d]

DoAddEdge(m, rec) ==
    LET a == rec.a
        okA == IF a[1] = 1 THEN IsDart(m, a[2]) ELSE a[2] \in Nodes(m) /\ (~m.srt \/ Isolated(m, a[2]))
        okB == IF a[3] = 1 THEN IsDart(m, a[4]) ELSE a[4] \in Nodes(m) /\ (~m.srt \/ Isolated(m, a[4]))
    IN  IF m.ini \/ ~okA \/ ~okB THEN Refused(m, rec, <<>>, "exc")
        ELSE IF rec.r.k # "ok" THEN Res(m, {"result"})
        ELSE
        LET e == rec.r.v
            np == (Len(a) - 5) \div 2
            pts == [i \in 1..np |-> <<a[4 + 2*i], a[5 + 2*i]>>]
            s == IF a[1] = 1 THEN StartNode(m, a[2]) ELSE a[2]
            t == IF a[3] = 1 THEN StartNode(m, a[4]) ELSE a[4]
            R == RecSg(rec)
        IN  IF e \in Edges(m) \/ e <= 0 \/ DOMAIN R # (Darts(m) \cup {e, -e}) THEN Res(m, {"edge"})
            ELSE
            LET nsg == [d \in DOMAIN R |-> R[d][2]]
                niv == [d \in DOMAIN R |-> R[d][3]]
                m2 == [m EXCEPT !.E = Put(m.E, e, [s |-> s, t |-> t, p |-> pts, fl |-> {}]),
                                !.sg = nsg, !.iv = niv]
            IN  IF \E d \in DOMAIN nsg : nsg[d] \notin DOMAIN nsg \/ niv[d] \notin DOMAIN nsg
                THEN Res(m, {"sigma"})
                ELSE Res(m2,
                  Tag(SigmaLegal(m2), "sigma")
                  \cup Tag(\A d \in Darts(m) : NextOld(nsg, d, {e, -e}, 3) = m.sg[d], "sigma")
                  \cup Tag((a[1] = 1 /\ ~(a[3] = 1 /\ a[4] = a[2])) =>
                              NextOld(nsg, e, {-e}, 2) = a[2], "sigma")
                  \cup Tag((a[3] = 1 /\ ~(a[1] = 1 /\ a[4] = a[2])) =>
                              NextOld(nsg, -e, {e}, 2) = a[4], "sigma")
                  \cup Tag((a[1] = 1 /\ a[3] = 1 /\ a[4] = a[2]) =>
                              IF Area2(pts) < 0 THEN nsg[-e] = e /\ nsg[e] = a[2]
                              ELSE nsg[e] = -e /\ nsg[-e] = a[2], "sigma")
                  \cup Tag(a[5] > 0 => e >= a[5], "label-request"))

\* a refused sort may leave some orbits sorted already, but every orbit legal
DoSort(m, rec) ==
    IF m.ini THEN Refused(m, rec, <<>>, "exc")
    ELSE IF Ambiguous(m)
         THEN LET R == RecSg(rec)
                  nsg == [d \in DOMAIN R |-> R[d][2]]
                  niv == [d \in DOMAIN R |-> R[d][3]]
                  m2 == [m EXCEPT !.sg = nsg, !.iv = niv]
              IN  IF rec.r.k # "exc" THEN Res(m, {"accept"})
                  ELSE IF DOMAIN R # Darts(m) \/ (\E d \in DOMAIN nsg : nsg[d] \notin DOMAIN nsg \/ niv[d] \notin DOMAIN nsg)
                       THEN Res(m, {"sigma"})
                  ELSE Res(m2, Tag(SigmaLegal(m2), "sigma"))
    ELSE Res(SortEdges(m), Tag(rec.r.k = "ok", "result"))

DoSigma(m, rec) ==      \* a = <<sorted, slack, d1, s1, d2, s2, ...>>
    IF m.ini THEN Refused(m, rec, <<>>, "exc")
    ELSE LET n == (Len(rec.a) - 2) \div 2
             sg == [d \in Darts(m) |-> rec.a[4 + 2*((CHOOSE i \in 0..(n-1) : rec.a[3 + 2*i] = d))]]
         IN  Res(SetSigma(m, sg, rec.a[1] = 1), Tag(rec.r.k = "ok", "result"))

DoInit(m, rec) ==
    IF m.ini THEN Refused(m, rec, <<>>, "exc")
    ELSE IF ~m.srt /\ Ambiguous(m) THEN DoSort(m, rec)
    ELSE IF rec.r.k # "ok" THEN Res(m, {"result"})
    ELSE LET m1 == IF m.srt THEN m ELSE SortEdges(m)
             R == RecSg(rec)
         IN  IF DOMAIN R # Darts(m1) THEN Res(m, {"edge"})
             ELSE LET name == [d \in DOMAIN R |-> R[d][8]]
                  IN  IF ~NamesLegal(m1, name) THEN Res(m, {"leftface"})
                      ELSE LET m2 == InitFaces(m1, name)
                           IN  Res(IF rec.a[1] = 1 THEN LabelImageOn(m2) ELSE m2, {})

DoLabelImage(m, rec) ==
    LET on == rec.a[1] = 1
    IN  IF on = m.li THEN Res(m, Tag(rec.r.k = "ok", "result"))
        ELSE IF on /\ m.W * m.H = 0 THEN Refused(m, rec, <<>>, "exc")
        ELSE Res(IF on THEN LabelImageOn(m) ELSE LabelImageOff(m), Tag(rec.r.k = "ok", "result"))

DoRelabel(m, rec, size) ==      \* a = <<max, new0, new1, ...>>, size: number of label slots
    IF ~m.ini \/ Len(rec.a) - 1 # size THEN Refused(m, rec, <<>>, "exc")
    ELSE LET nl == [f \in m.F |-> rec.a[2 + f]]
         IN  IF ~RelabelOK(m, nl, rec.a[1]) THEN Refused(m, rec, <<>>, "exc")
             ELSE Res(Relabel(m, nl), Tag(rec.r.k = "ok", "result"))

\* -------------------------------------------------------- compound operations
NodeMergeable(m, n) ==
    LET D == DartsAt(m, n)
    IN  Cardinality(D) = 2 /\ \A d \in D : Abs(m.sg[d]) # Abs(d)
LeftoverIsolated(m, rec, N) == \E n \in N \cap Nodes(m) : Isolated(m, n) /\ ~Veto(rec, "rn")
LeftoverDegree2(m, rec, N) ==
    \E n \in N \cap Nodes(m) :
       /\ NodeMergeable(m, n)
       /\ ~Veto(rec, "rn") /\ ~Veto(rec, "pme")
       /\ \A d \in DartsAt(m, n) : MayMergeEdges(m, d)
Attempted(rec, kinds, e) == \E i \in 1..Len(rec.ev) :
                               rec.ev[i].k \in kinds /\ Abs(rec.ev[i].a[1]) = e

Compound(m, rec, post(_, _)) ==
    LET g == FoldGroups(m, rec, rec.ev, 1, 0, {})
    IN  Res(g.m, g.errs \cup (IF g.errs = {} THEN post(g.m, g.n) ELSE {}))

DoMergeCompletely(m, rec) ==
    LET d == rec.a[1]
        legal == m.ini /\ IsDart(m, d) /\ m.lf[d] # m.lf[-d]
    IN  IF ~legal THEN Refused(m, rec, <<>>, "exc")
        ELSE LET common == {e \in Edges(m) : {m.lf[e], m.lf[-e]} = {m.lf[d], m.lf[-d]}}
                 N == UNION {{m.E[e].s, m.E[e].t} : e \in common}
                 post(m2, n) ==
                    LET first == {i \in 1..Len(rec.ev) : rec.ev[i].k = "qmf"}
                    IN  Tag(\A e \in common : e \in Edges(m2) => Attempted(rec, {"pmf", "prb"}, e), "complete")
                        \cup Tag(first = {} \/ (Edges(m2) \cap common # {})
                                  \/ Cardinality(m2.F) = Cardinality(m.F) - 1, "complete")
                        \cup Tag(IF first = {} THEN rec.r.k = "null"
                                 ELSE rec.r.k = "ok" /\ rec.r.v = rec.ev[Min(first)].a[1], "result")
                        \cup Tag(~LeftoverIsolated(m2, rec, N), "complete")
                        \cup Tag(rec.a[2] = 1 => ~LeftoverDegree2(m2, rec, N), "complete")
                        \cup Tag(\A i \in 1..Len(rec.ev) :
                                   /\ rec.ev[i].k \in {"pmf", "prb"} => Abs(rec.ev[i].a[1]) \in common
                                   /\ rec.ev[i].k = "pme" => rec.a[2] = 1
                                   /\ rec.ev[i].k = "rn" => rec.ev[i].a[1] \in N, "complete")
             IN  IF \E e \in common : Protected(m, e) THEN Refused(m, rec, <<>>, "null")
                 ELSE Compound(m, rec, post)

OnlyKinds(rec, K) == \A i \in 1..Len(rec.ev) : rec.ev[i].k \in K
DoRemoveIsolated(m, rec) ==
    LET post(m2, n) == Tag(rec.r.k = "ok" /\ rec.r.v = n, "result")
                       \cup Tag(OnlyKinds(rec, {"rn"}) /\ ~LeftoverIsolated(m2, rec, Nodes(m2)), "complete")
    IN  Compound(m, rec, post)
DoMergeDegree2(m, rec) ==
    LET post(m2, n) == Tag(rec.r.k = "ok" /\ rec.r.v = n, "result")
                       \cup Tag(OnlyKinds(rec, {"rn", "pme", "qme"})
                                /\ ~LeftoverDegree2(m2, rec, Nodes(m2)), "complete")
    IN  Compound(m, rec, post)
\* a removal that was asked for and did not happen must have been refused
BridgesDone(m, m2, rec, S) ==
    /\ \A e \in S : e \in Edges(m2) => (Veto(rec, "prb") \/ ~MayRemoveEdge(m, e))
    /\ \A e \in Edges(m) \ S : e \in Edges(m2)
DoRemoveBridges(m, rec, S) ==
    LET post(m2, n) == Tag(rec.r.k = "ok" /\ rec.r.v = n, "result")
                       \cup Tag(OnlyKinds(rec, {"prb", "rn", "qrb", "ap"}) /\ BridgesDone(m, m2, rec, S), "complete")
    IN  Compound(m, rec, post)
DoRemoveEdges(m, rec) ==
    LET S == {rec.a[i] : i \in 1..Len(rec.a)}
        post(m2, n) ==
           Tag(rec.r.k = "ok" /\ rec.r.v = n, "result")
           \cup Tag(/\ \A e \in S : e \in Edges(m2) =>
                          ~MayRemoveEdge(m, e) \/ (Veto(rec, "prb") /\ m2.lf[e] = m2.lf[-e]) \/ Veto(rec, "pmf")
                    /\ \A i \in 1..Len(rec.ev) : rec.ev[i].k \in {"pmf", "prb"} => Abs(rec.ev[i].a[1]) \in S
                    /\ ~LeftoverIsolated(m2, rec, Nodes(m2))
                    /\ ~LeftoverDegree2(m2, rec, Nodes(m2)), "complete")
    IN  IF ~m.ini \/ ~(S \subseteq Edges(m)) THEN Res(m, {})   \* not driven
        ELSE Compound(m, rec, post)

\* ------------------------------------------------------------------ queries
Near(x, y, tol) == Abs(x - y) <= tol
\* the pixels filled by the scanlines of a face are those entirely inside its outer contour;
\* pixels crossed by bridges only are left open
FilledOK(m, f, S) ==
    LET o == CHOOSE q \in ContoursOf(m, f) : ContourArea2(m, q) > 0
        orb == ToSet(o)
        p == ContourPts(m, o)
        hard == TLCEval(UNION {CoverPixels(m.E[Abs(d)].p, m.W, m.H) : d \in {d \in orb : -d \notin orb}})
        soft == TLCEval(UNION {CoverPixels(m.E[Abs(d)].p, m.W, m.H) : d \in {d \in orb : -d \in orb}})
    IN  \A x \in AllPixels(m) :
           LET in == (x[2]*m.W + x[1]) \in S
           IN  IF x \in hard THEN ~in ELSE IF x \in soft THEN TRUE ELSE in = EvenOdd(PixCentre(x), p)
\* partial queries: values that were not asked for
NA == -2000000000
CacheErrs(m, c) ==
    Tag(\A i \in 1..Len(c.e) : LET r == c.e[i] IN
          r[1] \in Edges(m) /\ (r[2] # NA => Near(r[2], Length(m.E[r[1]].p), Len(m.E[r[1]].p))), "edgelength")
    \cup Tag(\A i \in 1..Len(c.e) : LET r == c.e[i] IN r[1] \in Edges(m) /\ r[3] \in {NA, Area2(m.E[r[1]].p)}, "edgearea")
    \cup Tag(\A i \in 1..Len(c.e) : LET r == c.e[i] IN
          r[1] \in Edges(m) /\ (r[4] # NA => <<r[4], r[5], r[6], r[7]>> = BBox(m.E[r[1]].p)), "edgebbox")
    \cup Tag(\A i \in 1..Len(c.f) : LET r == c.f[i] IN r[1] \in m.F /\ (r[2] # NA => r[2] = FaceArea2(m, r[1])), "facearea")
    \cup Tag(\A i \in 1..Len(c.f) : LET r == c.f[i] IN
          r[1] \in m.F /\ ((r[1] # 0 /\ r[3] # NA) => <<r[3], r[4], r[5], r[6]>> = FaceBBox(m, r[1])), "facebbox")
    \cup Tag(\A i \in 1..Len(c.c) : LET r == c.c[i]
                                        o == PhiOrbit(m, r[1])
                                        p == ContourPts(m, o)
                                        a2 == Area2(p)
                                        len == Length(p)
                                        x == IF a2 = 0 THEN 0 ELSE (len*len) \div Abs(a2)
                                    IN  /\ r[2] = a2 /\ r[4] = a2
                                        /\ Near(r[3], len, Len(p) + Len(o)) /\ Near(r[5], len, Len(p))
                                        /\ r[6] = Len(p) /\ r[7] = Len(p) - 1
                                        /\ (a2 # 0 /\ x < 1000000) =>
                                              /\ Sgn(r[8]) = Sgn(a2)
                                              /\ Near(4 * Abs(r[8]), (x * 1019) \div 1000, 20 + x \div 30),
             "contour")
    \cup Tag(\A i \in 1..Len(c.sl) : LET r == c.sl[i]
                 pix == [j \in 1..Len(r[2]) |->
                          {<<x, r[2][j][1]>> : x \in {x \in r[2][j][2]..(r[2][j][3]-1) : x >= 0 /\ x < m.W
                                                          /\ r[2][j][1] >= 0 /\ r[2][j][1] < m.H}}]
             IN  /\ r[1] \in Edges(m)
                 /\ \A j, k \in 1..Len(r[2]) : j < k => pix[j] \cap pix[k] = {}
                 /\ UNION {pix[j] : j \in 1..Len(r[2])} = CoverPixels(m.E[r[1]].p, m.W, m.H), "scanlines")
    \cup Tag("fl" \in DOMAIN c => \A i \in 1..Len(c.fl) : LET r == c.fl[i] IN
                 r[1] \in m.F \ {0} /\ r[2] = Len(r[3]) /\ FilledOK(m, r[1], ToSet(r[3])), "facefill")

FaceAtErrs(m, rec) ==
    LET v == <<rec.a[1], rec.a[2]>>
    IN  IF OnAnyEdge(m, v) THEN {}
        ELSE IF rec.r.k # "ok" \/ "q" \notin DOMAIN rec THEN {"faceat"}
        ELSE LET f == FaceAtPoint(m, Contours(m), v)
             IN  Tag(rec.r.k = "ok" /\ rec.r.v = f /\ rec.q[1] = f, "faceat")
                 \cup Tag({rec.q[i] : i \in 2..Len(rec.q)} = {f} /\ Len(rec.q) = 2, "contains")

\* drawLabelImage: the label image, with -1 for all pixels crossed by edges or (a[1] = 0)
\* with the face at the pixel's centre
DrawnErrs(m, rec) ==
    LET img == IF m.li THEN m.img ELSE LET cov == TLCEval(CoverAll(m)) IN TLCEval(ExactImage(m, cov))
        cont == Contours(m)
    IN  IF rec.r.k # "ok" \/ "q" \notin DOMAIN rec THEN {"drawn"}
        ELSE Tag(/\ Len(rec.q) = m.W * m.H
                 /\ \A c \in AllPixels(m) :
                      LET v == rec.q[c[2]*m.W + c[1] + 1]
                          p == PixCentre(c)
                      IN  IF img[c] >= 0 THEN v = img[c]
                          ELSE IF rec.a[1] = 1 THEN v = -1
                          ELSE OnAnyEdge(m, p) \/ v = FaceAtPoint(m, cont, p), "drawn")

Dist2(a, b) == (a[1]-b[1])*(a[1]-b[1]) + (a[2]-b[2])*(a[2]-b[2])
NearErrs(m, rec) ==
    LET v == <<rec.a[1], rec.a[2]>>
        ds == {Dist2(v, m.np[n]) : n \in Nodes(m)}
        lim == Len(rec.a) > 2
    IN  IF rec.r.k = "null"
        THEN Tag(ds = {} \/ (lim /\ Min(ds) >= rec.a[3]), "nearest")
        ELSE Tag(rec.r.k = "ok" /\ rec.r.v \in Nodes(m) /\ Dist2(v, m.np[rec.r.v]) = Min(ds)
                 /\ (lim => Min(ds) <= rec.a[3]), "nearest")

\* a copy or a pickled and restored map: equal, with equal face flags and attributes.
\* Restoring forgets past merges (the label table starts afresh) and the protection,
\* unless the protection object itself was pickled.
Unprotected(m) == [m EXCEPT !.prot = FALSE]
Restored(m, keep) == [m EXCEPT !.lut = IF m.li THEN [f \in m.F |-> f] ELSE m.lut, !.prot = m.prot /\ keep]
CopyErrs(m2, rec) ==
    IF "s2" \notin DOMAIN rec THEN {}
    ELSE StateErrs(m2, rec.s2)
         \cup Tag(ToSet(rec.ff) = ToSet(rec.ff2), "faceflags")
         \cup Tag(rec.at[1] = rec.at[2], "attribute")

\* orbits, iterators and accessors of the Python interface
OrbErrs(m, rec) ==
    LET d == rec.a[1]  q == rec.q
    IN  Tag(/\ q[1] = PhiOrbit(m, d) /\ q[2] = SigmaOrbit(m, d) /\ q[3] = <<d, -d>>
            /\ Pts(q[4]) = DPts(m, d) /\ Pts(q[5]) = m.E[Abs(d)].p
            /\ q[6] = <<IF m.ini /\ m.lf[d] = m.lf[-d] THEN 1 ELSE 0, IF StartNode(m, d) = EndNode(m, d) THEN 1 ELSE 0,
                        Abs(d), StartNode(m, d), EndNode(m, d)>>
                       \o (IF m.ini THEN <<m.lf[d], m.lf[-d]>> ELSE <<>>), "orbit")
        \cup (IF Len(q) < 7 THEN {}
              ELSE LET e == Abs(d)
                       cp == ContourPts(m, PhiOrbit(m, d))
                   IN  Tag(/\ q[7] = <<-d, d, e, Area2(DPts(m, d)), e, StartNode(m, e), EndNode(m, e), 1, 1, 1, 1>>
                                     \o (IF m.ini THEN <<m.lf[e], m.lf[-e]>> ELSE <<>>)
                           /\ Pts(q[8][1]) = DPts(m, d) /\ Pts(q[8][3]) = cp /\ Pts(q[8][2]) = Tail(cp), "orbit"))
FaceIterErrs(m, rec) ==
    LET q == rec.q
    IN  Tag(/\ ToSet(q[1]) = m.F \ {0} /\ Len(q[1]) = Cardinality(m.F) - 1
            /\ ToSet(q[2]) = m.F /\ Len(q[2]) = Cardinality(m.F)
            /\ \A i \in 1..Len(q[3]) :
                  /\ Len(q[3][i][2]) = Cardinality({o \in Contours(m) : m.lf[o[1]] = q[3][i][1]})
                  /\ q[3][i][3] = IF q[3][i][1] = 0 THEN q[3][i][2] ELSE Tail(q[3][i][2])
            /\ Len(q) > 3 =>
                 /\ {q[4][i][1] : i \in 1..Len(q[4])} = m.F \ {0}
                 /\ \A i \in 1..Len(q[4]) : \E j \in 1..Len(q[3]) : q[3][j][1] = q[4][i][1] /\ q[3][j][2][1] = q[4][i][2]
                 /\ ToSet(q[5][1]) = Nodes(m) /\ ToSet(q[5][2]) = Edges(m) /\ (m.ini => ToSet(q[5][3]) = m.F)
                 /\ q[6][1] = 1 /\ q[6][2] = 1 /\ (m.ini => q[6][3] = 1)
                 /\ \A i \in 1..Len(q[7]) :     \* references held since the last query
                      (q[7][i][3] = 1) <=> (q[7][i][2] \in CASE q[7][i][1] = 0 -> Nodes(m) [] q[7][i][1] = 1 -> Edges(m) [] OTHER -> m.F), "iterator")
SigmaMappingErrs(m, rec) ==
    Tag(/\ rec.r.v = 1
        \* entries of removed darts have no meaning
        /\ {<<d, m.sg[d]>> : d \in Darts(m)} \subseteq {<<rec.q[i][1], rec.q[i][2]>> : i \in 1..Len(rec.q)}, "iterator")

\* a second observer sees exactly what the first one sees while it is connected (a refused
\* operation need not be announced to everybody), and nothing otherwise
IsSubSeq(a, b) ==
    LET R[i \in 0..Len(a), j \in 0..Len(b)] ==
          IF i = 0 THEN TRUE ELSE IF j = 0 THEN FALSE
          ELSE (a[i] = b[j] /\ R[i-1, j-1]) \/ R[i, j-1]
    IN  R[Len(a), Len(b)]
ObserverErrs(m, rec) ==
    IF "o" \notin DOMAIN rec THEN {}
    ELSE LET seen == SelectSeq(Kinds(rec.ev), LAMBDA k : k \in ToSet(rec.o.k))
         IN  Tag(IF ~rec.o.c THEN rec.o.ev = <<>>
                 \* what the first observer refuses is not passed on
                 ELSE IF ~m.prot THEN rec.o.ev = SelectSeq(seen, LAMBDA k : k \notin ToSet(rec.veto))
                 ELSE IsSubSeq(rec.o.ev, seen), "observer")

\* ---------------------------------------------------------------- one record
Step(mm, rec, oldcnt) ==
    LET op == rec.op
        q(errs) == Res(mm, errs \cup Tag(rec.ev = <<>>, "event"))
    IN
    CASE op = "map"    -> Res(EmptyMap(rec.a[1], rec.a[2]), {})
      [] op = "node"   -> DoAddNode(mm, rec)
      [] op = "edge"   -> DoAddEdge(mm, rec)
      [] op = "sort"   -> DoSort(mm, rec)
      [] op = "sigma"  -> DoSigma(mm, rec)
      [] op = "init"   -> DoInit(mm, rec)
      [] op \in {"sorte", "spl"} -> Refused(mm, rec, <<>>, "exc")    \* only called on initialised maps
      [] op = "li"     -> DoLabelImage(mm, rec)
      [] op = "mf"     -> DoMergeFaces(mm, rec)
      [] op = "rb"     -> DoRemoveBridge(mm, rec)
      [] op = "re"     -> DoRemoveEdge(mm, rec)
      [] op = "me"     -> DoMergeEdges(mm, rec)
      [] op = "sp"     -> DoSplit(mm, rec)
      [] op = "rin"    -> DoRemoveNode(mm, rec)
      [] op = "flag"   -> Res(SetFlag(mm, rec.a[1], rec.a[2], rec.a[3] = 1), Tag(rec.r.k = "ok", "result"))
      [] op = "prot"   -> Res([mm EXCEPT !.prot = rec.a[1] = 1], Tag(rec.r.k = "ok", "result"))
      [] op = "relabel" -> DoRelabel(mm, rec, oldcnt[6])
      [] op = "setpos" -> Res(SetNodePos(mm, rec.a[1], <<rec.a[2], rec.a[3]>>), Tag(rec.r.k = "ok", "result"))
      [] op = "mfc"    -> DoMergeCompletely(mm, rec)
      [] op = "rins"   -> DoRemoveIsolated(mm, rec)
      [] op = "md2"    -> DoMergeDegree2(mm, rec)
      [] op = "rbs"    -> DoRemoveBridges(mm, rec, {e \in Edges(mm) : IsBridge(mm, e)})
      [] op = "rbl"    -> DoRemoveBridges(mm, rec, {rec.a[i] : i \in 1..Len(rec.a)})
      [] op = "rme"    -> DoRemoveEdges(mm, rec)
      [] op = "copy"   -> q(Tag(rec.r.k = "ok", "result") \cup CopyErrs(Unprotected(mm), rec))
      [] op = "pickle" -> q(Tag(rec.r.k = "ok", "result") \cup CopyErrs(Restored(mm, rec.a[3] = 1), rec))
      [] op = "protp"  -> q(Tag(rec.r.k = "ok" /\ rec.r.v = 1, "result"))
      [] op = "fflag"  -> q(Tag(rec.r.k = "ok" /\ rec.r.v = 1, "result"))
      [] op = "use"    -> q({})
      [] op = "drop"   -> q({})
      [] op = "cache"  -> q(IF "c" \in DOMAIN rec THEN CacheErrs(mm, rec.c) ELSE {"result"})
      [] op = "cc"     -> q(Tag(rec.r.k = "ok" /\ rec.r.v = 1, "consistency"))
      [] op = "obs"    -> q(Tag(rec.r.k = "ok", "result"))
      [] op = "orb"    -> q(IF rec.r.k = "ok" THEN OrbErrs(mm, rec) ELSE {"result"})
      [] op = "fi"     -> q(IF rec.r.k = "ok" THEN FaceIterErrs(mm, rec) ELSE {"result"})
      [] op = "sm"     -> q(IF rec.r.k = "ok" THEN SigmaMappingErrs(mm, rec) ELSE {"result"})
      [] op = "dli"    -> q(DrawnErrs(mm, rec))
      [] op = "faceAt" -> q(FaceAtErrs(mm, rec))
      [] op = "near"   -> q(NearErrs(mm, rec))

\* oldcnt: last known counts (for the number of face label slots)
CntOf(rec, old) == IF "s" \in DOMAIN rec THEN rec.s.cnt ELSE old

\* representation choices of the last known state: contour anchors and node anchors
Repr(s) == <<[i \in 1..Len(s.f) |-> <<s.f[i][1], s.f[i][2]>>], [i \in 1..Len(s.n) |-> <<s.n[i][1], s.n[i][4]>>]>>
ReprOf(rec, old) == IF "s" \in DOMAIN rec THEN Repr(rec.s) ELSE old
\* a refused operation does not even change these
Elementary == {"mf", "rb", "re", "me", "rin", "sp", "relabel"}
RefusalErrs(rec, old) ==
    IF rec.op \in Elementary /\ rec.r.k # "ok" /\ "s" \in DOMAIN rec /\ old # <<>>
    THEN Tag(Repr(rec.s) = old, "refused") ELSE {}

Zero == <<0, 0, 0, 0, 0, 0>>
Init == l = 1 /\ ms = <<>> /\ skip = TRUE

Report(rec, errs) == IF errs = {} THEN TRUE ELSE PrintT(<<"ERR", l, rec.op, errs>>)

Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET rec == Trace[l]
       IN  IF rec.op = "map"
           THEN LET st == Step([x |-> 0], rec, Zero)
                    errs == StateErrs(st.m, rec.s)
                IN  /\ Report(rec, errs)
                    /\ ms' = (0 :> [m |-> st.m, c |-> rec.s.cnt, a |-> Repr(rec.s)])
                    /\ skip' = (errs # {})
           ELSE IF skip THEN UNCHANGED <<ms, skip>>
           ELSE LET k == rec.k
                    cur == ms[k]
                    st == Step(cur.m, rec, cur.c)
                    errs == st.errs \cup ObserverErrs(cur.m, rec) \cup RefusalErrs(rec, cur.a) \cup (IF "s" \in DOMAIN rec THEN StateErrs(st.m, rec.s) ELSE {})
                    new == [m |-> st.m, c |-> CntOf(rec, cur.c), a |-> ReprOf(rec, cur.a)]
                    there == IF "s2" \in DOMAIN rec THEN Repr(rec.s2) ELSE <<>>
                IN  /\ Report(rec, errs)
                    /\ skip' = (errs \cap Structural # {})
                    /\ ms' = CASE rec.op = "copy" -> Put(Put(ms, k, new), rec.a[1], [new EXCEPT !.m = Unprotected(@), !.a = there])
                               [] rec.op = "pickle" -> Put(Put(ms, k, new), rec.a[1],
                                     [m |-> Restored(new.m, rec.a[3] = 1), c |-> IF "s2" \in DOMAIN rec THEN rec.s2.cnt ELSE new.c, a |-> there])
                               [] rec.op = "drop" -> Drop(ms, {rec.a[1]})
                               [] OTHER -> Put(ms, k, new)

Spec == Init /\ [][Next]_vars
Finished == l <= Len(Trace) \/ PrintT(<<"DONE", l - 1>>)
=============================================================================
