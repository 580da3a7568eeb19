"""Script driver for the Python module: the same script language and the same records as
geodriver.cxx (see spec/TraceGeoMap.tla), but every operation, query and callback goes
through the Python bindings.  Usage: pydriver.py MODULEDIR SCRIPT OUT"""
import copy, gc, json, math, os, pickle, random, signal, sys
sys.path.insert(0, sys.argv[1])
import numpy as np
import vigra          # noqa: F401  (registers the array converters)
import geomap
from geomap import GeoMap, Size2D

U = 4.0
STATS = bool(os.environ.get("PYD_STATS"))       # face statistics: records of spec/TraceStats.tla
out = open(sys.argv[3], "w")


def it(i):
    r = []
    while True:
        try:
            r.append(i.next())
        except StopIteration:
            return r


def q4(v):
    q = v * U
    r = math.floor(q + .5) if math.isfinite(q) else 999999
    return r if abs(q - r) < 1e-6 and abs(r) <= 1000000 else 999999


def rnd(v):
    return math.floor(v + .5) if math.isfinite(v) and abs(v) < 2e7 else 20000000


def lab(v):
    return -1 if v == 0xffffffff else v


events, vetoes, slots = [], set(), {}
cur = 0


class Refusal(Exception):
    pass


class Slot:
    raising = ()                # hooks that refuse operations by raising an exception

    def __init__(self, m):
        self.map, self.prot, self.attr = m, None, None
        G = GeoMap
        self.cb = [
            G.addMergeFacesCallbacks(m, self.pmf, self.qmf),
            G.addRemoveBridgeCallbacks(m, self.prb, self.qrb),
            G.addMergeEdgesCallbacks(m, self.pme, self.qme),
            G.addRemoveNodeCallback(m, self.rn),
            G.addSplitEdgeCallbacks(m, self.psp, self.qsp),
            G.addAssociatePixelsCallback(m, self.ap)]

    # a second observer, connected and disconnected at will
    log2 = []
    obs = ()
    kinds = []                  # what the second observer listens to
    pf = False                  # protection connected before the observers

    def observe(self, how):
        m, G = self.map, GeoMap
        if how in (1, 3, 4) and not self.obs:   # all, only before, only after the operations
            self.kinds = []

            def see(k):
                def f(*a):
                    Slot.log2.append(k)
                    return True
                if how == 3 and k[0] == "q" or how == 4 and k[0] == "p":
                    return None
                self.kinds.append(k)
                return f

            self.obs = [G.addMergeFacesCallbacks(m, see("pmf"), see("qmf")),
                        G.addRemoveBridgeCallbacks(m, see("prb"), see("qrb")),
                        G.addMergeEdgesCallbacks(m, see("pme"), see("qme")),
                        G.addRemoveNodeCallback(m, see("rn")),
                        G.addSplitEdgeCallbacks(m, see("psp"), see("qsp")),
                        G.addAssociatePixelsCallback(m, see("ap"))]
            assert all(c.connected() for c in self.obs)
        elif how == 0:
            for c in self.obs:
                c.disconnect()
                assert not c.connected()
            self.obs = ()
        elif how == 2:
            self.obs = ()
            gc.collect()

    held = ()

    def heldCells(self):
        """Python references to cells outlive these; <<kind, label, still part of the map?>>"""
        r = [[k, l, int(c.initialized())] for k, l, c in self.held]
        m = self.map
        self.held = ([(0, x.label(), x) for x in it(m.nodeIter())] + [(1, x.label(), x) for x in it(m.edgeIter())]
                     + ([(2, x.label(), x) for x in it(m.faceIter())] if m.mapInitialized() else []))
        return r

    def close(self):
        self.held = ()
        self.observe(0)
        for c in self.cb:
            c.disconnect()
        self.cb = []
        if self.prot:
            self.prot.detachHooks()
        self.prot = self.map = None

    def ev(self, k, *a):
        m = self.map
        events.append(dict(k=k, a=list(a), c=[m.nodeCount, m.edgeCount, m.faceCount]))
        if k in vetoes and k in self.raising:
            raise Refusal(k)
        return k not in vetoes

    def pmf(self, d):
        return self.ev("pmf", *([d.leftFaceLabel(), d.rightFaceLabel(), d.leftFace().pixelArea(), d.rightFace().pixelArea()]
                                if STATS else [d.label()]))
    def qmf(self, f): self.ev("qmf", f.label())
    def prb(self, d): return self.ev("prb", d.label())
    def qrb(self, f): self.ev("qrb", f.label())
    def pme(self, d): return self.ev("pme", d.label())
    def qme(self, e): self.ev("qme", e.label())
    def rn(self, n): return self.ev("rn", n.label())

    def psp(self, e, i, p):
        self.ev("psp", e.label(), i, 0 if p is None else 1, *((0, 0) if p is None else (q4(p[0]), q4(p[1]))))

    def qsp(self, e, n): self.ev("qsp", e.label(), n.label())

    def ap(self, f, px):
        self.ev("ap", f.label(), f.pixelArea(), [[p[0], p[1]] for p in px])


def state(m):
    ini = m.mapInitialized()
    n, e, sg, f = [], [], [], []
    for x in it(m.nodeIter()):
        deg = x.degree()
        ok = (x.hasDegree(deg) and x.hasMinDegree(deg) and not x.hasMinDegree(deg+1) and not x.hasDegree(deg+1)
              and x.isIsolated() == (deg == 0))
        p = x.position()
        n.append([x.label(), q4(p[0]), q4(p[1]), 0 if deg == 0 else x.anchor().label(), deg if ok else -1])
    for x in it(m.edgeIter()):
        e.append([x.label(), x.startNodeLabel(), x.endNodeLabel(), lab(x.leftFaceLabel()), lab(x.rightFaceLabel()),
                  x.flags() & 0xffff, x.flags() >> 16, [[q4(x[i][0]), q4(x[i][1])] for i in range(len(x))]])
        for s in (1, -1):
            d = m.dart(s * x.label())
            sg.append([d.label(), d.clone().nextSigma().label(), d.clone().prevSigma().label(),
                       d.clone().nextPhi().label(), d.clone().prevPhi().label(),
                       d.startNodeLabel(), d.endNodeLabel(), lab(d.leftFaceLabel()), lab(d.rightFaceLabel())])
    if ini:
        for x in it(m.faceIter()):
            f.append([x.label(), [d.label() for d in it(x.contours())], x.pixelArea(), x.holeCount()])
    li = m.hasLabelImage()
    img, lut = [], []
    if li:
        a = m.labelImage()
        w, h = m.imageSize()
        img = [int(a[x, y]) for y in range(h) for x in range(w)]
        t = m.faceLabelLUT()
        lut = [t[i] for i in range(len(t))]
    return dict(n=n, e=e, sg=sg, f=f,
                cnt=[m.nodeCount, m.edgeCount, m.faceCount, m.maxNodeLabel(), m.maxEdgeLabel(), m.maxFaceLabel()],
                ini=ini, srt=m.edgesSorted(), li=li, lab=img, lut=lut)


def bbox(b):
    return [q4(b.begin()[0]), q4(b.begin()[1]), q4(b.end()[0]), q4(b.end()[1])]


NA = -2000000000


def asked(seed, label):
    return 7 if seed < 0 else random.Random(seed * 1009 + label).choice([0, 1, 2, 4, 4, 5, 7, 0])


def caches(m, what, seed=-1):
    e, f, c, sl = [], [], [], []
    if "e" in what:
        for x in it(m.edgeIter()):
            q = asked(seed, x.label() + 1000)
            e.append([x.label(), rnd(x.length()*100) if q & 1 else NA, rnd(x.partialArea()*32) if q & 2 else NA]
                     + (bbox(x.boundingBox()) if q & 4 else [NA, 0, 0, 0]))
    if "f" in what and m.mapInitialized():
        for x in it(m.faceIter()):
            q = asked(seed, x.label())
            f.append([x.label(), rnd(x.area()*32) if q & 2 else NA]
                     + ((bbox(x.boundingBox()) if q & 4 else [NA, 0, 0, 0]) if x.label() else []))
    if "c" in what and m.mapInitialized():
        for x in it(m.faceIter()):
            for d in it(x.contours()):
                a, p = geomap.contourArea(d), geomap.contourPoly(d)
                c.append([d.label(), rnd(a*32), rnd(geomap.contourLength(d)*100), rnd(p.partialArea()*32),
                          rnd(p.length()*100), len(p), len(p)-1,
                          rnd(geomap.isoperimetricQuotient(d)*1000) if a else 0])
    r = dict(e=e, f=f, c=c, sl=sl)
    if "s" in what:
        W, H = m.imageSize()
        for x in it(m.edgeIter()):
            t = x.scanLines()
            sl.append([x.label(), [[y, t[y][j].begin, t[y][j].end] for y in range(t.startIndex(), t.endIndex()) for j in range(len(t[y]))]])
        r["fl"] = []
        if m.mapInitialized():
            for x in it(m.faceIter(True)):
                im = np.zeros((W, H), np.float32)
                n = geomap.fillScannedPoly(x.scanLines(), im, 1.0)
                r["fl"].append([x.label(), int(n), [y*W + i for y in range(H) for i in range(W) if im[i, y]]])
    return r


def faceflags(m):
    return [[f.label(), f.flags() & 0xfffffff] for f in it(m.faceIter())] if m.mapInitialized() else []


def emit(op, a, r, st, extra):
    rec = dict(op=op, k=cur, a=a, veto=sorted(vetoes), r=r, ev=list(events),
               o=dict(c=bool(slots[cur].obs), k=slots[cur].kinds, ev=list(Slot.log2)), pf=slots[cur].pf, **extra)
    Slot.log2.clear()
    if STATS:
        rec["fs"] = statsRecord()
    elif st:
        rec["s"] = state(slots[cur].map)
    out.write(json.dumps(rec, separators=(",", ":")) + "\n")
    out.flush()
    events.clear()


def ok(v):
    return dict(k="ok", v=int(v))


NULL = dict(k="null", v=0)


def labelOf(c):
    return NULL if c is None else ok(c.label())


def raises(f, *a, what=(RuntimeError, IndexError)):
    try:
        f(*a)
        return False
    except what:
        return True


# ------------------------------------------------------------ face statistics
class Stat:
    """st: the Python object; k: slot of its map; rgb: channels v, 2v, 3v instead of v"""
    def __init__(self, st, m, k, att, mn, rgb):
        self.st, self.map, self.k, self.att, self.min, self.rgb = st, m, k, att, mn, rgb

    def value(self, v):
        """One number for gray and RGB values, nan if the channels do not fit together."""
        if not self.rgb:
            return float(v)
        return float(v[0]) if all(abs(v[i] - (i+1)*v[0]) <= 1e-4*abs(v[0]) + 1e-5 for i in range(3)) else float("nan")

    def norm(self):
        return 255 * math.sqrt(2) / (math.sqrt(14) if self.rgb else 1)


stats = {}


def statImage(m, seed, mod, rgb):
    W, H = m.imageSize()
    g = random.Random(seed)
    v = [g.randrange(mod) if mod else seed % 16 for _ in range(W*H)]
    a = np.zeros((W, H, 3) if rgb else (W, H), np.float32)
    for y in range(H):
        for x in range(W):
            a[x, y] = [v[y*W+x]*c for c in (1, 2, 3)] if rgb else v[y*W+x]
    return v, vigra.taggedView(a, "xyc" if rgb else "xy")


def statsRecord():
    r = []
    for i in sorted(stats):
        s = stats[i]
        t, m, f, good = s.st, s.map, [], True
        a, (W, H) = m.labelImage(), m.imageSize()
        lab = [int(a[x, y]) for y in range(H) for x in range(W)]
        region = t.regionImage() if s.rgb and s.att else None
        for l in range(m.maxFaceLabel()):
            fn = t.functor(l)
            if fn is None:
                good &= raises(t.average, l, what=ValueError) and raises(t.pixelCount, l, what=ValueError) and raises(t.variance, l, True, what=ValueError)
                continue
            k = t.pixelCount(l)
            good &= fn.pixelCount() == k
            if s.rgb:       # there is no converter for RGB values: means from the region image, no variances
                px = [i for i in range(W*H) if lab[i] == l] if region is not None else []
                f.append([l, int(k), rnd(s.value(region[px[0] % W, px[0] // W]) * k) if px else NA, NA, NA])
                continue
            if k:
                good &= t[l] == t.average(l) and fn.average() == t.average(l) and fn.variance(False) == t.variance(l, False)
            f.append([l, int(k), rnd(t[l] * k) if k else 0, rnd(t.variance(l, False) * k*k) if k else 0,
                      rnd(t.variance(l, True) * k*(k-1)) if k > 1 else 0])
        if s.att:
            good &= t.checkConsistency() and t.map().faceCount == m.faceCount
            good &= all(raises(f, l, what=IndexError) for f in (t.average, t.functor, t.pixelCount) for l in (m.maxFaceLabel(), 100000))
        r.append(dict(id=i, k=s.k, att=s.att, min=s.min, m2=t.minSampleCount(), ssc=t.superSampledCount(), ok=bool(good),
                      px=[[x.label(), x.pixelArea()] for x in it(m.faceIter())], f=f, lab=lab))
    return r


def statOp(op, a, m):
    W, H = m.imageSize()
    if op == "fs":
        rgb = a[2] % 3 == 0
        v, img = statImage(m, a[2], a[3], rgb)
        st = (geomap.FaceRGBStatistics if rgb else geomap.FaceGrayStatistics)(m, img, a[1])
        stats[a[0]] = Stat(st, m, cur, True, a[1], rgb)
        return dict(w=W, img=v, tol=2000)
    s = stats[a[0]]
    if op == "fsd":
        s.st.detachHooks()
        s.att = False
    elif op == "fsx":
        del stats[a[0]], s
        gc.collect()
    elif op == "fsc":
        t = copy.deepcopy(s.st)
        slots[a[2]] = Slot(t.map())
        stats[a[1]] = Stat(t, t.map(), a[2], True, s.min, s.rgb)
    elif op == "fsr":
        W, H = s.map.imageSize()
        i, j = s.st.regionImage(), s.st.regionImage(s.map.labelImage())
        good = i.shape == j.shape and bool((np.asarray(i) == np.asarray(j)).all())
        return dict(q=[rnd(s.value(i[x, y])*1000) if good else 20000000 for y in range(H) for x in range(W)])
    elif op == "fsq":
        q = []
        for e in it(s.map.edgeIter()):
            l1, l2 = e.leftFaceLabel(), e.rightFaceLabel()
            n1, n2 = s.st.pixelCount(l1), s.st.pixelCount(l2)
            if not n1 or not n2:
                continue
            d = s.map.dart(e.label())
            df = s.st.faceMeanDiff(d) * s.norm()
            x = [l1, l2, rnd(df*n1*n2), 0, 0, 0, 0, 0]
            if l1 and l2 and l1 != l2:
                h = s.st.faceHomogeneity(d) * s.norm()
                x[3:] = [rnd(d.leftFace().area()*32), rnd(d.rightFace().area()*32), rnd(s.st.faceAreaHomogeneity(d)*32),
                         rnd((h/df)**2*32) if df > 1e-3 else rnd(h*1000), int(df > 1e-3)]
            q.append(x)
        return dict(q=q)
    return {}


def cellGetters(m):
    return [(m.node, m.maxNodeLabel()), (m.edge, m.maxEdgeLabel()), (m.face, m.maxFaceLabel() if m.mapInitialized() else 0)]


def accessors(m, d, e):
    n, o = len(d), d.clone().nextAlpha()
    return [o.label(), d.label(), d.guaranteedEdge().label(), rnd(d.partialArea()*32), e.dart().label(), e.startNode().label(),
            e.endNode().label(),
            int(d == m.dart(d.label()) and not d != m.dart(d.label()) and d != o and not d == o and e == m.edge(e.label())),
            int(e.initialized() and d.startNode().initialized() and d.endNode().initialized()),
            int(all(tuple(d[i-n]) == tuple(d[i]) for i in range(n)) and raises(d.__getitem__, n) and raises(d.__getitem__, -n-1)),
            int(d.map().edgeCount == m.edgeCount and [bool(e.flag(1 << i)) for i in range(32)] == [bool(e.flags() >> i & 1) for i in range(32)]),
            ] + ([e.leftFace().label(), e.rightFace().label()] if m.mapInitialized() else [])


def perform(op, a):
    """-> (result, with state?, extra fields)"""
    global cur
    m = slots[cur].map if cur in slots else None
    if op == "map":
        stats.clear()
        for s in slots.values():
            s.close()
        slots.clear()
        cur = 0
        slots[0] = Slot(GeoMap(imageSize=Size2D(a[0], a[1])))
        return ok(0), True, {}
    if op == "node":
        p = (a[0]/U, a[1]/U)
        return labelOf(m.addNode(p, a[2]) if len(a) > 2 else m.addNode(p)), True, {}
    if op == "edge":
        pts = [(a[i]/U, a[i+1]/U) for i in range(5, len(a), 2)]
        s = m.dart(a[1]) if a[0] else m.node(a[1])
        t = m.dart(a[3]) if a[2] else m.node(a[3])
        if a[0] == a[2] == 0 and (a[1] + a[3]) % 3 == 0:
            return labelOf(m.addEdge(a[1], a[3], pts, a[4])), True, {}
        return labelOf(m.addEdge(s, t, pts, a[4])), True, {}
    if op == "sort":
        m.sortEdgesDirectly()
        return ok(0), True, {}
    if op == "sigma":
        half = m.maxEdgeLabel() - 1 + a[1]
        sm = [0] * (2*half + 1)
        for i in range(2, len(a)-1, 2):
            sm[half + a[i]] = a[i+1]
        m.setSigmaMapping(sm, bool(a[0]))
        return ok(0), True, {}
    if op == "init":
        m.initializeMap(bool(a[0]))
        return ok(0), True, {}
    if op == "li":
        m.setHasLabelImage(bool(a[0]))
        return ok(0), True, {}
    if op == "mf":
        return labelOf(m.mergeFaces(m.dart(a[0]))), True, {}
    if op == "rb":
        return labelOf(m.removeBridge(m.dart(a[0]))), True, {}
    if op == "re":
        return labelOf(m.removeEdge(m.dart(a[0]))), True, {}
    if op == "me":
        return labelOf(m.mergeEdges(m.dart(a[0]))), True, {}
    if op == "sp":
        if len(a) > 2:
            return labelOf(m.splitEdge(m.edge(a[0]), a[1], (a[2]/U, a[3]/U))), True, {}
        return labelOf(m.splitEdge(m.edge(a[0]), a[1])), True, {}
    if op == "rin":
        return ok(1) if m.removeIsolatedNode(m.node(a[0])) else NULL, True, {}
    if op == "flag":
        m.edge(a[0]).setFlag(1 << a[1], bool(a[2]))
        return ok(0), True, {}
    if op == "fflag":
        m.face(a[0]).setFlag(1 << a[1], bool(a[2]))
        good = bool(m.face(a[0]).flag(1 << a[1])) == bool(a[2])
        return ok(good), True, {}
    if op == "setpos":
        m.node(a[0]).setPosition((a[1]/U, a[2]/U))
        return ok(0), True, {}
    if op == "mfc":
        return labelOf(geomap.mergeFacesCompletely(m.dart(a[0]), bool(a[1]))), True, {}
    if op == "rins":
        return ok(geomap.removeIsolatedNodes(m)), True, {}
    if op == "md2":
        return ok(geomap.mergeDegree2Nodes(m)), True, {}
    if op == "rbs":
        return ok(geomap.removeBridges(m)), True, {}
    if op == "rme":
        return ok(geomap.removeEdges(m, list(a))), True, {}
    if op == "prot":
        s = slots[cur]
        if a[0]:
            if not (s.prot and s.prot.map()):
                s.prot, s.pf = geomap.EdgeProtection(m), False
        elif s.prot:
            if len(a) > 1 and a[1]:
                s.prot = None            # destroyed while attached
                gc.collect()
            else:
                s.prot.detachHooks()
        return ok(0), True, {}
    if op == "protp":                    # pickling a detached protection
        p = geomap.EdgeProtection()
        q = pickle.loads(pickle.dumps(p, a[0]))
        return ok(q.map() is None), False, {}
    if op == "copy":
        m.tag = slots[cur].attr
        n = copy.deepcopy(m) if len(a) > 1 and a[1] else copy.copy(m)
        if a[0] in slots:
            slots.pop(a[0]).close()
        slots[a[0]] = Slot(n)
        slots[a[0]].attr = getattr(n, "tag", None)
        return ok(0), True, dict(s2=state(n), ff=faceflags(m), ff2=faceflags(n),
                                 at=[m.tag or 0, n.tag or 0])
    if op == "pickle":                   # slot protocol viaProtection
        m.tag = slots[cur].attr
        if a[0] in slots:
            slots.pop(a[0]).close()
        if a[2]:
            p = pickle.loads(pickle.dumps(slots[cur].prot, a[1]))
            n = p.map()
        else:
            p, n = None, pickle.loads(pickle.dumps(m, a[1]))
        slots[a[0]] = Slot(n)
        slots[a[0]].prot, slots[a[0]].pf = p, p is not None
        slots[a[0]].attr = getattr(n, "tag", None)
        return ok(0), True, dict(s2=state(n), ff=faceflags(m), ff2=faceflags(n),
                                 at=[m.tag or 0, getattr(n, "tag", 0) or 0])
    if op == "obs":
        slots[cur].observe(a[0])
        return ok(0), True, {}
    if op in ("fs", "fsd", "fsx", "fsc", "fsr", "fsq"):
        return ok(0), True, statOp(op, a, m)
    if op == "orb":
        d = m.dart(a[0])
        pts = lambda p: [[q4(x[0]), q4(x[1])] for x in p]
        e = d.edge()
        return ok(0), False, dict(q=[
            [x.label() for x in it(d.phiOrbit())], [x.label() for x in it(d.sigmaOrbit())],
            [x.label() for x in it(d.alphaOrbit())], pts([d[i] for i in range(len(d))]),
            pts([e[i] for i in range(len(e))]),
            [int(e.isBridge()), int(e.isLoop()), d.edgeLabel(), d.startNode().label(), d.endNode().label()]
            + ([d.leftFace().label(), d.rightFace().label()] if m.mapInitialized() else []),
            accessors(m, d, e), [pts(it(d.__iter__())), pts(it(geomap.ContourPointIter(d))), pts(it(geomap.ContourPointIter(d, True)))]])
    if op == "fi":
        return ok(0), False, dict(q=[[f.label() for f in it(m.faceIter(True))],
                                     [f.label() for f in it(m.faceIter())],
                                     [[f.label(), [d.label() for d in it(f.contours())],
                                       [d.label() for d in it(f.holeContours())]] for f in it(m.faceIter())],
                                     [[f.label(), f.contour().label()] for f in it(m.faceIter(True))],
                                     [[i for i in range(n) if get(i) is not None] for get, n in cellGetters(m)],
                                     [int(raises(get, n)) for get, n in cellGetters(m)],
                                     slots[cur].heldCells()])
    if op == "sm":
        s = m.sigmaMapping()
        h = len(s) // 2
        return ok(len(s) % 2), False, dict(q=[[i - h, s[i]] for i in range(len(s)) if s[i]])
    if op == "use":
        cur = a[0]
        return ok(0), True, {}
    if op == "drop":
        slots.pop(a[0]).close()
        gc.collect()
        return ok(0), True, {}
    if op == "cache":
        return ok(0), False, dict(c=caches(m, ["e", "f", "c", "s", "ef", "efcs"][a[0]], a[1] if len(a) > 1 else -1))
    if op == "cc":
        return ok(m.checkConsistency()), False, {}
    if op == "faceAt":
        p = (a[0]/U, a[1]/U)
        f = m.faceAt(p).label()
        return ok(f), False, dict(q=[f] + [x.label() for x in it(m.faceIter()) if x.contains(p)])
    if op == "dli":
        img = geomap.drawLabelImage(m, bool(a[0]))
        W, H = m.imageSize()
        return ok(0), False, dict(q=[int(img[x, y]) for y in range(H) for x in range(W)])
    if op == "near":
        p = (a[0]/U, a[1]/U)
        return labelOf(m.nearestNode(p, a[2]/(U*U)) if len(a) > 2 else m.nearestNode(p)), False, {}
    sys.stderr.write("unknown op %s\n" % op)
    os._exit(3)


def run(op, a):
    sys.stderr.write("@ %s [%s]\n" % (op, ",".join(map(str, a))))
    sys.stderr.flush()
    signal.alarm(30)
    st, extra = True, {}
    # an exception in a callback of an elementary operation cancels it and arrives here
    # (not judged: the removal of a node that is part of the removal of an edge)
    Slot.raising = dict(mf=["pmf"], rb=["prb"], me=["pme", "rn"], rin=["rn"]).get(op, []) if sum(a) % 2 == 0 else []
    try:
        r, st, extra = perform(op, a)
        if any(e["k"] in vetoes and e["k"] in Slot.raising for e in events):
            r = dict(k="lost", v=0)
    except Refusal as e:
        r = NULL
    except Exception as e:
        r = dict(k="exc", v=0)
        if os.environ.get("GD_VERBOSE"):
            sys.stderr.write("exception: %r\n" % e)
        st = op not in ("faceAt", "near", "cc", "cache", "protp", "orb", "fi", "sm", "dli")
    emit(op, a, r, st, extra)
    signal.alarm(0)


# ------------------------------------------------------------- random driving
def darts(m, kind):
    r = []
    for e in it(m.edgeIter()):
        for s in (-1, 1):
            d = m.dart(s * e.label())
            if kind == 1 and e.isBridge() or kind == 2 and not e.isBridge():
                continue
            if kind == 3:
                x = d.clone().nextSigma()
                if x.edgeLabel() == d.edgeLabel() or x.nextSigma().label() != d.label():
                    continue
            r.append(d.label())
    return r


def one(g, prof):
    m = slots[cur].map
    c = g.choice(prof)
    W, H = m.imageSize()
    if c in "mbxeC":
        ds = darts(m, dict(m=1, b=2, x=0, e=3, C=1)[c])
        if not ds:
            return False
        d = g.choice(ds)
        run(dict(m="mf", b="rb", x="re", e="me", C="mfc")[c], [d] + ([g.randrange(2)] if c == "C" else []))
    elif c in "sS":
        ds = darts(m, 0)
        if not ds:
            return False
        e = abs(g.choice(ds))
        p = m.edge(e)
        n = len(p)
        if c == "s" and n > 2:
            run("sp", [e, g.randint(1, n-2)])
            return True
        i = g.randrange(n-1)
        x, y = (p[i][0] + p[i+1][0])*U/2, (p[i][1] + p[i+1][1])*U/2
        if x != int(x) or y != int(y) or (x, y) == (p[i][0]*U, p[i][1]*U):
            return False
        run("sp", [e, i, int(x), int(y)])
    elif c == "n":
        ns = [x.label() for x in it(m.nodeIter()) if x.isIsolated()]
        if not ns:
            return False
        run("rin", [g.choice(ns)])
    elif c == "l":
        run("li", [g.randrange(2)])
    elif c in "fP":
        ds = darts(m, 0)
        if not ds:
            return False
        b = g.randrange(8) if c == "P" else g.choice([g.randint(8, 15), g.randrange(19), g.randint(20, 31)])
        run("flag", [abs(g.choice(ds)), b, int(g.random() < .65)])
    elif c == "J":
        fs = [f.label() for f in it(m.faceIter())]
        run("fflag", [g.choice(fs), g.randrange(20), int(g.random() < .75)])
    elif c == "D":
        run("md2", [])
    elif c == "N":
        run("rins", [])
    elif c == "B":
        run("rbs", [])
    elif c == "E":
        ds = sorted({abs(d) for d in darts(m, 0)})
        if not ds:
            return False
        pct = g.uniform(.1, .7)
        s = [d for d in ds if g.random() < pct]
        g.shuffle(s)
        run("rme", s)
    elif c == "o":
        v = g.randrange(2)
        run("prot", [v] if v or g.random() < .5 else [v, 1])
    elif c == "O":
        run("prot", [1])
    elif c == "q":
        run("cache", [g.choice([0, 1, 4, 4]), g.randrange(100000)] if g.randrange(2) else [g.randrange(6)])
    elif c == "c":
        run("cc", [])
    elif c == "I":
        run("dli", [g.randrange(2)])
    elif c == "p":
        for _ in range(3):
            run("faceAt", [g.randrange(4*W) - 2, g.randrange(4*H) - 2])
    elif c == "d":
        for _ in range(2):
            a = [g.randrange(4*W + 8) - 6, g.randrange(4*H + 8) - 6]
            run("near", a + ([g.randrange(60)] if g.random() < .5 else []))
    elif c == "a":
        run("node", [g.randrange(4*W + 8) - 6, g.randrange(4*H + 8) - 6]
            + ([m.maxNodeLabel() + g.randrange(4)] if g.random() < .3 else []))
    elif c == "i":
        k, mx = g.randrange(6), m.maxEdgeLabel()
        if k < 3 and mx > 1:
            run(g.choice(["mf", "rb", "me"]), [g.randint(1, mx-1) * g.choice([1, -1])])
        elif k == 3:
            run("init", [0])
        elif k == 4:
            run("sort", [])
        else:
            ds = darts(m, 0)
            if not ds:
                return False
            e = abs(g.choice(ds))
            run("sp", [e, len(m.edge(e)) - 1 + g.randrange(3)])
    elif c == "V":
        h = g.choice(["pmf", "prb", "pme", "rn"])
        vetoes.symmetric_difference_update({h})
    elif c == "v":
        vetoes.clear()
    elif c in "yj":
        if g.random() < .5:
            slots[cur].attr = g.randrange(1000)
        k = g.randrange(3)
        k = (k + 1) % 3 if k == cur else k
        pr = slots[cur].prot
        if c == "y":
            run("copy", [k, g.randrange(2)])
        else:
            run("pickle", [k, g.randint(0, pickle.HIGHEST_PROTOCOL),
                           int(pr is not None and pr.map() is not None and g.random() < .4)])
        if g.random() < .4 and k in slots:
            run("use", [k])
    elif c == "A":
        run("obs", [g.randrange(5)])
    elif c == "t":
        k = g.randrange(3)
        ds = darts(m, 0)
        if k == 0 and ds:
            run("orb", [g.choice(ds)])
        elif k == 1:
            run("fi", [])
        else:
            run("sm", [])
    elif c == "W":
        run("protp", [g.randint(0, pickle.HIGHEST_PROTOCOL)])
    elif c == "u":
        run("use", [g.choice(sorted(slots))])
    elif c == "F":
        i = g.randrange(3)
        if i in stats or not m.hasLabelImage():
            return False
        b = [e.boundingBox() for e in it(m.edgeIter())]     # VIGRA's splines need some pixels around the geometry
        tiny = min(W, H) < 8 or any(x.begin()[0] <= -1 or x.begin()[1] <= -1 or x.end()[0] > W or x.end()[1] > H for x in b)
        ds = []
        for l in darts(m, 1):
            d = m.dart(l)
            if d.leftFaceLabel() and d.rightFaceLabel() and d.leftFace().pixelArea() and d.rightFace().pixelArea():
                ds.append(l)
        if not tiny and ds and g.random() < .75:    # the faces of some edge have just (not) enough pixels together
            l = min(g.choices(ds, k=4), key=lambda x: m.edge(abs(x)).length())
            d = m.dart(l)
            run("fs", [i, min(200, d.leftFace().pixelArea() + d.rightFace().pixelArea() + g.randrange(2)),
                       g.randrange(10000), 0 if g.random() < .2 else 16])
            if g.random() < .6:
                run("mf", [l])
        else:
            run("fs", [i, 0 if tiny or g.random() < .3 else g.randint(1, g.choice([4, 40])), g.randrange(10000), g.choice([0, 2, 16, 16, 16])])
    elif c in "GHKgh":
        ids = [i for i in stats if stats[i].att]
        if not ids:
            return False
        i = g.choice(ids)
        if c == "K":
            i2, k = g.randrange(3), g.randrange(3)
            if i2 in stats or k in slots:
                return False
            run("fsc", [i, i2, k])
        else:
            if c == "H" and g.random() < .5:
                i = min(stats)
            run(dict(G="fsd", H="fsx", g="fsr", h="fsq")[c], [i])
    elif c == "z":
        ks = [k for k in slots if k != cur and not any(s.k == k for s in stats.values())]
        if not ks:
            return False
        run("drop", [g.choice(ks)])
    else:
        return False
    return True


def onalarm(*_):
    sys.stderr.write("HANG\n")
    sys.stderr.flush()
    os._exit(14)


signal.signal(signal.SIGALRM, signal.SIG_DFL)      # also ends a hang inside the library
for line in open(sys.argv[2]):
    w = line.split()
    if not w or w[0].startswith("#"):
        continue
    if w[0] == "rand":
        g, n, miss = random.Random(int(w[1])), int(w[2]), 0
        while n > 0 and miss < 30:
            if one(g, w[3]):
                n, miss = n-1, 0
            else:
                miss += 1
        vetoes.clear()
    elif w[0] == "veto":
        (vetoes.add if int(w[2]) else vetoes.discard)(w[1])
    else:
        run(w[0], [int(x) for x in w[1:]])
out.close()
stats.clear()
for s in slots.values():
    s.close()
slots.clear()
gc.collect()
sys.stderr.write("DONE\n")
