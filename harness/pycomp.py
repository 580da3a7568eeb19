"""Drives the components of the Python module other than maps.
Usage: pycomp.py MODULEDIR OUT MODE SEED COUNT SHARD NSHARDS
  poly:  histories of edits of geomap.Polygon objects      (spec/TracePyPolygon.tla)
  hull:  convexHull, simplifyPolygon                       (spec/TraceHull.tla)
  scan:  scanPoly and what is drawn with the scanlines     (spec/TraceScan.tla)
  lut:   LabelLUT                                          (spec/TraceLabelLUT.tla)
  dsl:   DigitalStraightLine8, tangentDSL                  (spec/TraceDSL.tla)
  crack: crackConnectionImage, crackEdgeGraph              (spec/TracePyCrack.tla)
  stats: PolylineStatistics, QuantileStatistics            (spec/TracePolyStats.tla)
  spws:  SubPixelWatersheds2/3/5                           (spec/TraceWatersheds.tla)
  dpos:  DartPosition                                      (spec/TraceDartPos.tla)
  sort:  sortEdgesEventually, splitParallelEdges           (spec/TraceCourses.tla)
  tan:   tangents, curvatures and smoothing along polylines (spec/TraceTangents.tla)
Coordinates are logged in quarter pixels unless noted."""
import copy, json, math, os, pickle, random, signal, sys
sys.path.insert(0, sys.argv[1])
try:
    import numpy as np
    import vigra          # noqa: F401  (registers the array converters)
except ImportError as e:
    sys.stderr.write("%s\n" % e)
    sys.exit(3)
import geomap
from geomap import Polygon

U = 4.0
out = open(sys.argv[2], "w")
mode, seed, count, shard, nshards = sys.argv[3], int(sys.argv[4]), int(sys.argv[5]), int(sys.argv[6]), int(sys.argv[7])
g = random.Random(seed)
records = 0


signal.signal(signal.SIGALRM, signal.SIG_DFL)      # also ends a hang inside the library


def at(op):
    sys.stderr.write("@ %s\n" % op)
    sys.stderr.flush()
    signal.alarm(20)


def line(rec):
    global records
    out.write(json.dumps(rec, separators=(",", ":")) + "\n")
    out.flush()
    records += 1


def chance(p):
    return g.randrange(100) < p


def q4(v):
    q = v * U
    r = math.floor(q + .5) if math.isfinite(q) else 999999
    return r if abs(q - r) < 1e-6 and abs(r) <= 1000000 else 999999


def rnd(v):
    return math.floor(v + .5) if math.isfinite(v) and abs(v) < 2e7 else 20000000


def vec(x, y, how=None):
    """A point in one of the accepted forms."""
    v = (x / U, y / U)
    how = g.randrange(3) if how is None else how
    return v if how == 0 else list(v) if how == 1 else np.array(v)


def it(i):
    r = []
    while len(r) < 20000:
        try:
            r.append(i.next())
        except StopIteration:
            return r
    return r


def pts(p):
    """The points, read by one of the ways there are."""
    k = g.randrange(3)
    l = [p[i] for i in range(len(p))] if k == 0 else list(p) if k == 1 else [p[i] for i in range(-len(p), 0)]
    if len(l) != len(p):
        l.append((99, 99))
    return [[q4(v[0]), q4(v[1])] for v in l]


# ------------------------------------------------------------------ poly
class Poly:
    def __init__(self):
        self.P = [Polygon(), Polygon(), Polygon()]
        self.rec("new", [0])

    def rec(self, op, a, **kw):
        line(dict(op=op, a=a, p=[pts(p) for p in self.P], **kw))

    def guarded(self, op, a, f, post=None):
        """Run f; record whether it was refused."""
        at("%s %s" % (op, a))
        try:
            r, e = f(), 0
        except IndexError:
            r, e = None, 1
        except Exception as x:
            r, e = None, 2
            sys.stderr.write("%r\n" % x)
        if e == 0 and post is not None:
            post(r)
        return r, e

    def query(self, k, mask):
        p = self.P[k]
        at("query %d %d" % (k, mask))
        q = dict(l=-1, ar=[], b=[], c=-1, arc=[], cen=[], np=[], co=[])
        if mask & 1:
            q["l"] = rnd(p.length() * 100)
        if mask & 2:
            q["ar"] = [rnd(p.partialArea() * 32)]
        if mask & 4 and len(p):
            b = p.boundingBox()
            q["b"] = [q4(b.begin()[0]), q4(b.begin()[1]), q4(b.end()[0]), q4(b.end()[1])]
        if mask & 8:
            q["c"] = int(p.closed())
        if mask & 16 and len(p):
            q["arc"] = [rnd(a * 100) for a in p.arcLengthList()]
        if mask & 32 and len(p) > 2 and p.closed() and p.partialArea() != 0:
            c = geomap.centroid(p)
            q["cen"] = [rnd(c[0] * 100), rnd(c[1] * 100)]
        if mask & 64 and len(p) > 1:
            x, y = g.randint(-8, 20), g.randint(-8, 20)
            n = p.nearestPoint(vec(x, y))
            q["np"] = [x, y, rnd(n[0] * 400), rnd(n[1] * 400)]
        if mask & 128:
            x, y = g.randint(-2, 14), g.randint(-2, 14)
            try:
                q["co"] = [x, y, int(p.contains(vec(x, y)))]
            except RuntimeError:
                q["co"] = [x, y, 2]
        repr(p)
        self.rec("query", [k, mask], q=q)

    def point(self, k):
        p = self.P[k]
        if len(p) and chance(25):
            v = p[g.randrange(len(p))]
            return q4(v[0]), q4(v[1])
        return g.randint(-7, 12), g.randint(-7, 12)

    def index(self, n):
        c = g.randrange(10)
        if c < 4:
            return g.randrange(n) if n else 0
        if c < 7:
            return -g.randint(1, n) if n else -1
        return g.choice([n, n + 1, -n - 1, -n - 2, 0, -1, n - 1, 1000, -1000])

    def step(self):
        P = self.P
        k, j = g.randrange(3), g.randrange(3)
        p = P[k]
        n = len(p)
        c = g.randrange(21)
        x, y = self.point(k)
        if c < 3:
            at("push")
            p.append(vec(x, y))
            self.rec("push", [k, x, y])
        elif c == 3:
            if j == k or n + len(P[j]) > 14:
                return
            at("extend")
            p.extend(P[j] if chance(60) else [tuple(v) for v in P[j]])
            self.rec("extend", [k, j])
        elif c in (4, 5):
            if n > 12:
                return
            i = g.choice([0, n, n + 1, n + 2, g.randint(0, n), g.randint(0, n)])
            r, e = self.guarded("ins", [k, i], lambda: p.insert(i, vec(x, y)))
            self.rec("ins", [k, i, x, y], e=e)
        elif c in (6, 7):
            i = self.index(n)

            def f():
                del p[i]
            r, e = self.guarded("del", [k, i, n], f)
            self.rec("del", [k, i], e=e)
        elif c in (8, 9):
            i = self.index(n)

            def f():
                p[i] = vec(x, y)
            r, e = self.guarded("set", [k, i], f)
            self.rec("set", [k, i, x, y], e=e)
        elif c == 10:
            i = self.index(n)
            r, e = self.guarded("get", [k, i], lambda: p[i])
            self.rec("get", [k, i], e=e, r=[] if e else [q4(r[0]), q4(r[1])])
        elif c == 11:
            if j == k:
                return
            i = self.index(n)

            def post(r):
                P[j] = r
            r, e = self.guarded("split", [k, i], lambda: p.split(i), post)
            self.rec("split", [k, i, j], e=e)
        elif c in (12, 13):
            lo, hi = self.index(n), self.index(n)
            nl, nh = chance(20), chance(20)

            def post(r):
                P[j] = r
            r, e = self.guarded("slice", [k, lo, hi], lambda: p[None if nl else lo:None if nh else hi], post)
            self.rec("slice", [k, j, 0 if nl else lo, n if nh else hi], e=e)
        elif c == 14:
            at("rev")
            p.reverse()
            self.rec("rev", [k])
        elif c == 15:
            if j == k:
                return
            at("swap")
            p.swap(P[j])
            self.rec("swap", [k, j])
        elif c == 16:
            if j == k:
                return
            at("copy")
            h = g.randrange(5)
            P[k] = (Polygon(P[j]) if h == 0 else Polygon([tuple(v) for v in P[j]]) if h == 1 else copy.copy(P[j]) if h == 2
                    else pickle.loads(pickle.dumps(P[j], g.choice([0, 1, 2]))) if h == 3 else copy.deepcopy(P[j]))
            self.rec("copy", [k, j])
        elif c == 17:
            if n and max(max(abs(v[0]), abs(v[1])) for v in p) > 12:
                return
            at("move")
            dx, dy = g.randint(-6, 6), g.randint(-6, 6)
            P[j] = Polygon(p + vec(dx, dy))
            self.rec("move", [k, j, dx, dy])
        elif c == 18:
            if n and max(max(abs(v[0]), abs(v[1])) for v in p) > 6:
                return
            at("scale")
            m = g.choice([-1, 0, 1, 2, 2])
            P[j] = Polygon(p * float(m))
            self.rec("scale", [k, j, m])
        elif c == 19:
            at("round")
            self.rec("round", [k], r=[[int(v[0]), int(v[1])] for v in p.roundToInteger()])
        elif c == 20:
            at("isect")
            if n == 0 or n and max(max(abs(v[0]), abs(v[1])) for v in p) > 12:
                return
            q = [(q4(v[0]), q4(v[1])) for v in p]
            for _ in range(20):
                a, b = (g.randint(-4, 16), g.randint(-4, 16)), (g.randint(-4, 16), g.randint(-4, 16))
                if chance(40):
                    b = (a[0], b[1]) if chance(50) else (b[0], a[1])
                if a == b:
                    continue
                # points on the line are only well-defined for axis-parallel lines
                if a[0] != b[0] and a[1] != b[1] and any((v[0]-a[0])*(b[1]-a[1]) == (v[1]-a[1])*(b[0]-a[0]) for v in q):
                    continue
                r = geomap.intersectLine(p, vec(*a), vec(*b))
                self.rec("isect", [k, a[0], a[1], b[0], b[1]],
                         r=[[[rnd(v[0] * 400), rnd(v[1] * 400)] for v in part] for part in r])
                break

    def walk(self, n):
        for _ in range(n):
            self.step()
            if chance(40):
                self.query(g.randrange(3), 255 if chance(40) else g.randrange(256))
        for k in range(3):
            self.query(k, 255)


def polyMode():
    for _ in range(count):
        Poly().walk(30)


# ------------------------------------------------------------------ hull
def hullMode():
    for _ in range(count):
        n = g.randint(17, 40) if chance(30) else g.randint(2, 16)
        R = g.randint(1, 4) if chance(40) else g.randint(4, 40)
        v = [(g.randint(-R, R), g.randint(-R, R)) for _ in range(n)]
        if chance(50):
            v.append(v[0])
        p = [vec(*q, how=0) for q in v]
        if chance(70):
            p = Polygon(p)
        at("hull %s" % v)
        line(dict(op="hull", p=[list(q) for q in v], h=pts(geomap.convexHull(p))))
        q = (g.randint(0, 20), g.randint(0, 20))
        w, dx, dy = [], g.randint(-3, 3), g.randint(-3, 3)
        for _ in range(g.randint(2, 20)):
            w.append(q)
            if chance(20):
                dx, dy = g.randint(-3, 3), g.randint(-3, 3)
            q = (q[0] + dx + g.randint(-1, 1), q[1] + dy + g.randint(-1, 1))
        if chance(30):
            w.append(w[0])
        eps, step = g.randrange(14), g.randint(1, 30) if chance(40) else 0
        at("simplify %s %d %d" % (w, eps, step))
        p = Polygon([vec(*q, how=0) for q in w])
        r = geomap.simplifyPolygon(p, eps / U, step / U) if step else geomap.simplifyPolygon(p, eps / U)
        line(dict(op="simplify", p=[list(q) for q in w], e=eps, st=step, r=pts(r)))


# ------------------------------------------------------------------ scan
def cr(a, b, c):
    return (b[0]-a[0])*(c[1]-a[1]) - (b[1]-a[1])*(c[0]-a[0])


def sg(v):
    return (v > 0) - (v < 0)


def on(v, a, b):
    return (cr(a, b, v) == 0 and min(a[0], b[0]) <= v[0] <= max(a[0], b[0])
            and min(a[1], b[1]) <= v[1] <= max(a[1], b[1]))


def meet(a, b, c, d):
    if on(c, a, b) or on(d, a, b) or on(a, c, d) or on(b, c, d):
        return True
    return sg(cr(a, b, c)) * sg(cr(a, b, d)) < 0 and sg(cr(c, d, a)) * sg(cr(c, d, b)) < 0


def simple(p):
    n = len(p)
    if len(set(p)) < n:
        return False
    for i in range(n):
        a, b = p[i], p[(i+1) % n]
        for j in range(i+1, n):
            c, d = p[j], p[(j+1) % n]
            if j == i + 1 or (i == 0 and j == n - 1):
                s, u, w = (b, a, d) if j == i + 1 else (a, b, c)
                if cr(s, u, w) == 0 and (u[0]-s[0])*(w[0]-s[0]) + (u[1]-s[1])*(w[1]-s[1]) > 0:
                    return False
            elif meet(a, b, c, d):
                return False
    return True


def area2(p):
    return sum(p[(i+1) % len(p)][0]*p[i][1] - p[(i+1) % len(p)][1]*p[i][0] for i in range(len(p)))


def pick(x0, y0, x1, y1):
    x, y = g.randint(x0, x1), g.randint(y0, y1)
    if chance(40):
        x = x // 2 * 2
    if chance(40):
        y = y // 4 * 4 + 2
    return x, y


def randomSimple(n, *box):
    while True:
        p = [pick(*box) for _ in range(3)]
        if area2(p) == 0 or not simple(p):
            continue
        for _ in range(40):
            if len(p) >= n:
                break
            q = list(p)
            q.insert(g.randrange(len(p)) + 1, pick(*box))
            if simple(q):
                p = q
        return p if area2(p) > 0 else p[::-1]


def spans(sl):
    r = []
    for y in range(sl.startIndex(), sl.endIndex()):
        for j in range(len(sl[y])):
            s = sl[y][j]
            r.append([y, s.begin, s.end])
    if len(sl) != sl.endIndex() - sl.startIndex():
        r.append([999, 0, 1])
    for bad in (sl.startIndex() - 1, sl.endIndex()):
        try:
            sl[bad]
            r.append([998, 0, 1])
        except IndexError:
            pass
    return r


def points(sl):
    return [[int(v[0]), int(v[1])] for v in it(sl.points())]


def painted(f, sl, W, H):
    im = np.full((W, H), 7, np.float32)
    try:
        n = f(sl, im, 100.0)
    except RuntimeError:
        return dict(px=[], n=-1, o=0)
    return dict(px=[[x, y] for x in range(W) for y in range(H) if im[x, y] == 100], n=int(n),
                o=sum(1 for v in im.flat if v not in (7, 100)))


def emitLine(v, W, H, y0, y1):
    p = Polygon([vec(*q, how=0) for q in v])
    at("line %s" % v)
    a, b = geomap.scanPoly(p), geomap.scanPoly(p, y1 - y0, y0)
    line(dict(op="line", p=[list(q) for q in v], W=W, H=H, y0=y0, y1=y1, sp=spans(a), it=points(a), spb=spans(b), itb=points(b),
              d=painted(geomap.drawScannedPoly, a, W, H), db=painted(geomap.drawScannedPoly, b, W, H)))


def emitArea(v, W, H):
    v = v + [v[0]]
    p = Polygon([vec(*q, how=0) for q in v])
    at("area %s" % v)
    a, b = geomap.scanPoly(p), geomap.scanPoly(p, H)
    f = painted(geomap.fillScannedPoly, a, W, H)
    probes = []
    for _ in range(6):
        x, y = g.randint(-6, 4*W + 2), g.randint(-6, 4*H + 2)
        c = int(p.contains(vec(x, y)))
        probes.append([x, y, c, c])
    line(dict(op="area", p=[list(q) for q in v], W=W, H=H, f=f, fb=painted(geomap.fillScannedPoly, b, W, H), fr=f,
              d=painted(geomap.drawScannedPoly, a, W, H), v=probes))


def emitMark(W, H):
    """Marking edges in a label image and taking the marks away again."""
    lab = [[g.randrange(4) for y in range(H)] for x in range(W)]
    im = np.array(lab, np.float32).reshape(W, H)
    rec = dict(op="mark", W=W, H=H, ini=lab, steps=[])
    marked = []
    at("mark")
    for _ in range(g.randint(2, 8)):
        if marked and chance(45):
            v = marked.pop(g.randrange(len(marked)))
            sub = g.randint(10, 15)
            r = geomap.removeEdgeFromLabelImage(geomap.scanPoly(Polygon([vec(*q, how=0) for q in v])), im, float(sub))
            ret, kind = [[int(q[0]), int(q[1])] for q in r], 1
        else:
            n, x, y = g.randint(1, 4), g.randint(-6, 4*W + 4), g.randint(-6, 4*H + 4)
            v = [(x, y)]
            for _ in range(n):
                v.append(pick(-6, -6, 4*W + 4, 4*H + 4))
            geomap.markEdgeInLabelImage(geomap.scanPoly(Polygon([vec(*q, how=0) for q in v])), im)
            marked.append(v)
            ret, kind, sub = [], 0, 0
        rec["steps"].append(dict(k=kind, p=[list(q) for q in v], s=sub, r=ret,
                                 im=[[int(im[x, y]) for y in range(H)] for x in range(W)]))
    line(rec)


def scanMode():
    for _ in range(count):
        large = chance(2)
        W, H = (g.randint(10, 18), g.randint(10, 18)) if large else (g.randint(1, 8), g.randint(1, 8))
        x, y = g.randint(-8, 4*W + 6), g.randint(-8, 4*H + 6)
        v = []
        local = chance(50)
        for _ in range(g.randint(8, 20) if large else g.randint(1, 6)):
            v.append((x, y))
            nx, ny = pick(x - 5, y - 5, x + 5, y + 5) if local else pick(-8, -8, 4*W + 6, 4*H + 6)
            x, y = (x if chance(15) else nx), (y if chance(15) else ny)
        y0 = g.randint(-2, H)
        emitLine(v, W, H, y0, y0 + g.randint(0, H))
        emitArea(randomSimple(g.randint(3, 7), -6, -6, 4*W + 4, 4*H + 4), W, H)
        emitMark(W, H)


# ------------------------------------------------------------------- lut
def lutMode():
    def rec(op, a, b, l):
        lut = [l[i] for i in range(len(l))]
        if chance(30) and len(l):
            lut = [l[i] for i in range(-len(l), 0)]
        if chance(20):
            l = copy.copy(l) if chance(50) else copy.deepcopy(l)
        for bad in (len(l), -len(l) - 1):
            try:
                l[bad]
                lut.append(777)
            except IndexError:
                pass
        line(dict(d=0, op=op, a=a, b=b, lut=lut, m=[[i] + it(l.merged(i)) for i in range(len(l)) if l[i] == i]))

    for w in range(count):
        n = g.randint(2, 14)
        at("new")
        l = geomap.LabelLUT(n)
        kept = None
        rec("new", n, 0, l)
        for _ in range(20):
            c = g.randrange(20)
            if c == 0:
                k = g.randrange(12)
                at("init")
                l.initIdentity(k)
                rec("init", k, 0, l)
            elif c <= 3:
                at("append")
                l.appendOne()
                rec("append", 0, 0, l)
            elif c == 4:
                # go on with a copy, leaving the original (which is modified to show that nothing is shared)
                at("copy")
                o = l
                l = copy.copy(l) if chance(50) else copy.deepcopy(l)
                o.appendOne()
            else:
                r = [j for j in range(len(l)) if l[j] == j]
                if len(r) < 2:
                    continue
                a, b = g.sample(r, 2)
                at("relabel")
                l.relabel(a, b)
                rec("relabel", a, b, l)


# ------------------------------------------------------------------- dsl
def dslMode():
    L8 = geomap.DigitalStraightLine8

    def ln(l):
        return [l.a, l.b, l.pos]

    def clone(l):
        return pickle.loads(pickle.dumps(l)) if chance(30) else L8(l.a, l.b, l.pos)

    def window(l, r=5):
        return [[x, y] for y in range(-r, r+1) for x in range(-r, r+1) if l.contains(x, y)]

    def chain(n):
        den = g.randint(1, 25)
        num, off = g.randint(0, den), g.randrange(den)
        r = [(num*(i+1) + off)//den - (num*i + off)//den for i in range(n)]
        if chance(50):
            r[g.randrange(n)] ^= 1
        return r

    for _ in range(count):
        n = g.randint(4, 24)
        c = chain(n)
        l, p = L8(c[0], 1, 0), [(0, 0)]
        f = 0
        for code in c:
            end = chance(60) or f == 0
            q, o = (p[-1], p[0]) if end else (p[0], p[-1])
            q = (q[0]+1, q[1]+code) if end else (q[0]-1, q[1]-code)
            f += 1
            at("add %s %s" % (p, q))
            t = clone(l)
            t.pos = t.pos - t(o[0], o[1])
            b = ln(t)
            ok = t.addPoint(q[0]-o[0], q[1]-o[1])
            if ok or b != ln(t):
                t.pos = t.pos + t(o[0], o[1])
            else:
                t = clone(l)
            line(dict(op="add", p=[list(v) for v in p], n=list(q), l0=ln(l), ok=int(ok), l1=ln(t)))
            l = t
            if not ok:
                break
            if end:
                p.append(q)
            else:
                p.insert(0, q)
        at("geom %s" % ln(l))
        x, y, xy, fc = clone(l), clone(l), clone(l), l.convertToFourConnected()
        if chance(30):
            fc = pickle.loads(pickle.dumps(fc))
        x.mirrorX()
        y.mirrorY()
        xy.mirrorXY()
        line(dict(op="geom4", l=ln(l), w=l.width(), fw=fc.width(), r=5, c=window(l), mx=window(x), my=window(y), mxy=window(xy),
                  c4=window(fc), e8=int(l.eightConnected()), e4=int(fc.eightConnected())))
        for _ in range(3):
            n = g.randint(3, 16)
            v, base = chain(n), g.randrange(4)
            v = [(base + k) & 3 for k in v]
            if chance(50):
                for k in range(n - g.randint(1, n // 2), n):
                    v[k] = (v[k] + 1) & 3
            closed = chance(40) and len(set(v)) == 4
            i = g.randrange(n) if closed else g.randint(1, n - 1)
            at("tangent %s %d %d" % (v, i, closed))
            t, d = geomap.tangentDSL(v, i, closed)
            line(dict(op="tangent", c=v, i=i, cl=int(closed), d=d or 0, l=ln(t)))


# ----------------------------------------------------------------- crack
def crackMode():
    def run(w, h, img, eight):
        at("crack %d %d %s %d" % (w, h, img, eight))
        im = np.array(img, np.int32).reshape(h, w).T
        cc = np.asarray(geomap.crackConnectionImage(im.astype(np.float32))).reshape(w + 1, h + 1)
        m = geomap.crackEdgeGraph(im, bool(eight)) if not eight or chance(50) else geomap.crackEdgeGraph(im)
        raw = [m.edgeCount, m.nodeCount]
        m.sortEdgesDirectly()
        m.initializeMap(chance(50))
        edges = [[[rnd((v[0] + .5) * 2), rnd((v[1] + .5) * 2)] for v in e] for e in it(m.edgeIter())]
        line(dict(op="crack", w=w, h=h, c8=int(eight), img=img, cc=[[int(cc[x, y]) for y in range(h+1)] for x in range(w+1)],
                  size=[m.imageSize()[0], m.imageSize()[1]], raw=raw, n=[m.edgeCount, m.nodeCount, m.faceCount], edges=edges,
                  at=[m.faceAt((x, y)).label() for y in range(h) for x in range(w)]))

    idx = 0
    for w, h, n in ((1, 1, 1), (2, 1, 2), (1, 3, 2), (2, 2, 3), (3, 2, 2), (2, 3, 2)):
        for c in range(n ** (w*h)):
            for eight in (0, 1):
                idx += 1
                if idx % nshards == shard:
                    run(w, h, [c // n**i % n for i in range(w*h)], eight)
    for _ in range(count):
        w, h, n = g.randint(1, 7), g.randint(1, 7), g.randint(2, 4)
        if chance(3):
            w, h = g.choice([(g.randint(9, 15), g.randint(2, 8)), (g.randint(2, 8), g.randint(9, 15))])
        style = g.randrange(3)
        img = [g.randrange(n) for _ in range(w*h)]
        for k in range(w*h):
            x, y = k % w, k // w
            if style == 1 and chance(85):
                img[k] = (x + y) % 2
            elif style == 2 and chance(90):
                img[k] = min(x, y, w-1-x, h-1-y) % n
        if chance(30):
            img = [[0, 3, 255, 256, 70001][k] for k in img]
        run(w, h, img, chance(60))


# ----------------------------------------------------------------- stats
def statsMode():
    Q = {0: geomap.PolylineStatistics, 1: geomap.QuantileStatistics}
    im = np.array([[g.randint(-8, 8) for _ in range(7)] for _ in range(7)], np.float32)
    siv = vigra.sampling.SplineImageView5(im)
    table = [[rnd(siv(x / 2., y / 2.) * 1000) for y in range(13)] for x in range(13)]

    def look(s, n):
        """n: how many contributions there are (0: nothing can be asked)."""
        r = dict(av=rnd(s.average() * 1000), mi=0, ma=0, q=[])
        if n:
            r["mi"], r["ma"] = rnd(s.min() * 1000), rnd(s.max() * 1000)
            if isinstance(s, Q[1]):
                r["q"] = [[k, rnd(s.quantile(k / 8.) * 1000)] for k in range(1, 9)]
        return r

    for _ in range(count):
        kinds = [g.randrange(2) for _ in range(3)]
        at("new")
        S, n = [Q[k]() for k in kinds], [0, 0, 0]

        def rec(op, a, **kw):
            order = g.sample(range(3), g.randrange(4))      # unseen objects keep their internal state
            line(dict(op=op, a=a, s=[look(S[i], n[i]) for i in order], o=order, **kw))

        rec("new", kinds, t=table)
        for _ in range(14):
            k = g.randrange(3)
            c = g.randrange(10)
            if c < 5:
                v, l = g.randint(-12, 12) if chance(60) else -g.randint(1, 9), g.randint(1, 9)
                at("add")
                S[k](v / 4., float(l))
                n[k] += 1
                rec("add", [k, v * 250, l])
            elif c < 7:
                j = g.choice([j for j in range(3) if kinds[j] == kinds[k] or kinds[k] == 0])
                if j == k:
                    continue
                at("merge")
                S[k].merge(S[j])
                n[k] += n[j]
                rec("merge", [k, j])
            elif c < 9:
                at("pickle")
                j = g.choice([j for j in range(3) if kinds[j] == kinds[k]])
                if j != k and chance(60):       # the state of another object is restored into this one
                    S[k].__setstate__(S[j].__getstate__())
                    n[k] = n[j]
                    rec("restore", [k, j])
                    continue
                S[k] = pickle.loads(pickle.dumps(S[k], 2)) if chance(70) else copy.copy(S[k])
                rec("pickle", [k])
            else:
                p = [[g.randint(0, 6), g.randint(0, 6)]]
                for _ in range(g.randint(1, 5)):
                    x, y = p[-1]
                    d = g.choice([(a, 0) for a in range(-6, 7) if a] + [(0, a) for a in range(-6, 7) if a]
                                 + [(a, b) for a in (-3, 3) for b in (-4, 4)] + [(a, b) for a in (-4, 4) for b in (-3, 3)])
                    if 0 <= x + d[0] <= 6 and 0 <= y + d[1] <= 6:
                        p.append([x + d[0], y + d[1]])
                at("poly %s" % p)
                S[k] = Q[kinds[k]](Polygon([(float(a), float(b)) for a, b in p]), siv)
                n[k] = len(p) - 1
                rec("poly", [k], p=p)


# ----------------------------------------------------------------- spws
def spwsMode():
    """Critical points and flow lines; coordinates in 1/10000, gradient 1/10000, Hessian 1/100, values 1/1000."""
    def image(w, h, style, deg):
        if style == 0:
            return np.array([[g.randint(-15, 15) for _ in range(h)] for _ in range(w)], np.float32), []
        if style == 1:                      # smooth hills
            im = np.zeros((w, h), np.float32)
            for _ in range(g.randint(1, 4)):
                cx, cy, a, s2 = g.uniform(0, w-1), g.uniform(0, h-1), g.choice([-20, 12, 20]), g.uniform(1, 6)
                for x in range(w):
                    for y in range(h):
                        im[x, y] += a * math.exp(-((x-cx)**2 + (y-cy)**2) / 2 / s2)
            return im, []
        A = [3, 4] if deg == 2 else [3, 4, 3.5]     # waves: critical points exactly on a lattice
        a, b = g.choice(A), g.choice(A)
        sa, sb = g.choice([-1, 1]) * g.randint(5, 15), g.choice([-1, 1]) * g.randint(5, 15)
        na, nb = (g.randint(2, 3) if k == 4 else 3 if k == 3 else 2 * g.randint(1, 2) for k in (a, b))
        im = np.array([[sa * math.cos(math.pi * x / a) + sb * math.cos(math.pi * y / b) for y in range(int(nb*b) + 1)]
                       for x in range(int(na*a) + 1)], np.float32)
        return im, [int(10000*a), int(10000*b), sa, sb]

    for _ in range(count):
        deg = g.choice([2, 3, 5])
        style = g.randrange(3)
        im, wave = image(g.randint(8, 10), g.randint(8, 10), style, deg)    # (spline views of smaller images are not safe)
        w, h = im.shape
        siv = getattr(vigra.sampling, "SplineImageView%d" % deg)(im)
        cls = getattr(geomap, "SubPixelWatersheds%d" % deg)

        def make(over=2, dist=1e-3):
            s = cls(im)
            s.cpOversampling, s.minCPDist = over, dist
            return s

        def pos(v):
            return [rnd(v[0] * 10000), rnd(v[1] * 10000)]

        def cps(s):
            r = []
            for l in (s.minima(), s.saddles(), s.maxima()):
                if l[0] is not None:
                    r.append([[999999] * 7])
                    continue
                r.append([])
                for v in l[1:]:
                    x, y = min(max(v[0], 0.), w - 1.), min(max(v[1], 0.), h - 1.)
                    r[-1].append(pos(v) + [rnd(siv.dx(x, y) * 10000), rnd(siv.dy(x, y) * 10000), rnd(siv.dxx(x, y) * 100),
                                           rnd(siv.dxy(x, y) * 100), rnd(siv.dyy(x, y) * 100)])
            return r

        dist = g.choice([1e-3, 1e-3, 0.1, 0.5])
        at("cp %d %s %g %s" % (deg, list(im.shape), dist, im.tolist()))
        s = make(dist=dist)
        full = cps(s)
        at("cp mask")
        mask = np.array([[1 if chance(50) else 0 for _ in range(h)] for _ in range(w)], np.float32)
        parts, again = [], []
        t = make(dist=dist)
        for m in (mask, 1 - mask):
            if chance(40):
                t = make(dist=dist)
            t.findCriticalPoints(m)
            parts.append(cps(t))
        for _ in range(g.randint(1, 2)):
            t.findCriticalPoints()
            again = cps(t)
        at("cp over")
        over = cps(make(4, dist))
        line(dict(op="cp", deg=deg, w=w, h=h, dist=rnd(dist * 10000), wave=wave, f=full, m=parts, n=again, o=over))
        if dist > 1e-3:
            continue
        sv = [rnd(siv(min(max(v[0], 0.), w-1.), min(max(v[1], 0.), h-1.)) * 1000) for v in s.saddles()[1:]]
        thr = g.choice(sv) + g.choice([-50, 50]) if sv else 0
        at("edges %s" % thr)
        for i, e in enumerate(s.edges(thr / 1000.)):
            rec = dict(op="edge", w=w, h=h, smooth=int(style > 0), wave=wave, i=i+1, t=thr, sv=sv[i], sad=[p[:2] for p in full[1]], max=[p[:2] for p in full[2]])
            if e is None:
                rec.update(none=1, f=0, b=0, p=[], k=0, v=[])
            else:
                f, b, pts, k = e
                rec.update(none=0, f=f, b=b, k=k, p=[pos(v) for v in pts],
                           v=[rnd(siv(min(max(v[0], 0.), w-1.), min(max(v[1], 0.), h-1.)) * 1000) for v in pts])
            line(rec)


# --------------------------------------------------------------------- dart positions
def dposMode():
    big = lambda v: math.floor(v + .5) if math.isfinite(v) and abs(v) < 1e9 else 999999999

    def says(d):
        p, s, e = d(), d.segmentStart(), d.segmentEnd()
        return dict(e=int(d.atEnd()), i=d.segmentIndex(), al=big(d.arcLength()*U*1000), x=big(p[0]*U*1000), y=big(p[1]*U*1000),
                    ss=[big(s[0]*U), big(s[1]*U)], se=[big(e[0]*U), big(e[1]*U)], sl=big(d.segmentLength()*U*1000))

    py = [(3, 4), (4, 3), (5, 12), (12, 5), (8, 15), (6, 8), (1, 0), (0, 1), (7, 0), (0, 9), (2, 0), (20, 0)]
    for _ in range(count):
        p, total = [(g.randint(0, 60), g.randint(0, 60))], 0
        for _ in range(1 if chance(30) else g.randint(1, 7)):
            v = g.choice(py)
            p.append((p[-1][0] + g.choice([-1, 1])*v[0], p[-1][1] + g.choice([-1, 1])*v[1]))
            total += int(math.hypot(*v) + .5)
        m = geomap.GeoMap(imageSize=geomap.Size2D(40, 40))
        for k in range(g.randrange(3)):
            m.addNode((100 + k, 100))
        a = m.addNode((p[0][0]/U, p[0][1]/U))
        b = a if p[-1] == p[0] and chance(80) else m.addNode((p[-1][0]/U, p[-1][1]/U))
        e = m.addEdge(a, b, [(x/U, y/U) for x, y in p])
        label = e.label() * g.choice([-1, 1])
        q = p[::-1] if label < 0 else p
        at("new")
        pos = {0: geomap.DartPosition(m.dart(label))}
        line(dict(op="new", p=[list(x) for x in q], d=label, dl=pos[0].dartLabel(), **says(pos[0])))
        for _ in range(g.randint(3, 14)):
            k, what = g.randrange(len(pos)), g.randrange(100)
            d = pos[k]
            if what < 36:
                op, ar = ("next", []) if what < 18 else ("prev", [])
                at(op)
                r = d.gotoNextSegment() if what < 18 else d.gotoPrevSegment()
            elif what < 64:
                t = g.choice([10*total, -g.randint(1, 40), 10*total + g.randint(1, 50), 10*g.randint(0, total), 10*g.randint(0, total),
                              g.randint(0, 10*total), g.randint(0, 10*total), 0])
                op, ar = "arc", [t]
                at("arc %d" % t)
                r = d.gotoArcLength(t/10./U)
            elif what < 94:
                c = g.choice(q) if chance(60) else (q[0][0] + g.randint(-12, 12), q[0][1] + g.randint(-12, 12))
                if chance(40):
                    c = (big(d()[0]*U), big(d()[1]*U))
                r2 = g.randint(1, 30)*g.randint(1, 30) if chance(50) else g.randint(1, 400)
                op, ar = ("leave" if what < 78 else "isect"), [c[0], c[1], r2]
                at("%s %s" % (op, ar))
                r = (d.leaveCircle if what < 78 else d.intersectCircle)((c[0]/U, c[1]/U), r2/U/U)
            else:
                to = g.randrange(3)
                if to != k and to <= len(pos):
                    pos[to] = copy.copy(d)
                    line(dict(op="copy", k=k, a=[to]))
                continue
            line(dict(op=op, k=k, a=ar, r=int(r), **says(d)))


# ------------------------------------------------------------- sorting parallel edges
def sortMode():
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "gen"))
    import courses
    q = lambda v: math.floor(v * 64 + .5)

    def orbits(m):
        r = []
        for n in each(m.nodeIter()):
            ds = [[], []]
            if not n.isIsolated():
                a = n.anchor()
                for i in (0, 1):
                    d = a.clone()
                    while len(ds[i]) < 500:
                        ds[i].append(d.label())
                        d = d.prevSigma() if i else d.nextSigma()
                        if d == a:
                            break
            x = n.position()
            r.append(dict(n=n.label(), p=[q(x[0]), q(x[1])], d=ds[0], r=ds[1]))
        return r

    m, amp = None, 0
    for l in courses.script("py%d_%d" % (seed, shard), count).split("\n"):
        w = l.split()
        if not w:
            continue
        op, a = w[0], [int(x) for x in w[1:]]
        at(l[:300])
        if op == "map":
            m, amp, nodes, edges, rest, prefs = geomap.GeoMap(imageSize=geomap.Size2D(a[0], a[1])), 0, [], [], {}, None
        elif op == "node":
            nodes.append([m.addNode((a[0]/U, a[1]/U)).label(), a[0], a[1]])
        elif op == "jit":
            amp = a[1] / 512.
        elif op == "edge":
            pts, p = [a[i:i+2] for i in range(4, len(a), 2)], []
            for i, (x, y) in enumerate(pts):
                v = (x/U, y/U)
                if amp and 0 < i < len(pts)-1:
                    v = (v[0] + amp*g.uniform(-1, 1), v[1] + amp*g.uniform(-1, 1))
                if amp and i and chance(33):
                    t = g.randint(1, 9)/10.
                    p.append((p[-1][0]*(1-t) + v[0]*t, p[-1][1]*(1-t) + v[1]*t))
                p.append(v)
            e = m.addEdge(m.node(a[0]), m.node(a[1]), p)
            if a[2]:
                e.setFlag(a[2])
            edges.append(dict(l=e.label(), s=a[0], t=a[1], f=a[2], p=pts))
        elif op == "sort":
            u = m.sortEdgesEventually(a[0]/100., a[1]/100., bool(a[2])) if not a[2] or chance(60) else m.sortEdgesEventually(stepDist=a[0]/100., minDist=a[1]/100.)
            rest.update(step=a[0], sorted=int(m.edgesSorted()), uns=[list(x) for x in u], orb=orbits(m))
            info = m._internalSplitInfo()
            rest["si"] = int((info is not None) == bool(a[2]))
        elif op == "pref":
            m.setEdgePreferences([g.randrange(1000)/1000. for _ in range(m.maxEdgeLabel())])
        elif op == "split":
            m.splitParallelEdges()
            rest.update(nc=m.nodeCount, ec=m.edgeCount, orb2=orbits(m),
                        edges2=[dict(l=e.label(), s=e.startNodeLabel(), t=e.endNodeLabel(), f=e.flags(), p=[[q(e[i][0]), q(e[i][1])] for i in range(len(e))])
                                for e in each(m.edgeIter())])
        elif op == "init":
            m.initializeMap(bool(a[0]))
            rest.update(cons=int(m.checkConsistency()), fc=m.faceCount,
                        faces=[[f.label(), math.floor(f.area()*32 + .5), len(each(f.contours()))] for f in each(m.faceIter())])
        elif op == "end":
            line(dict(op="split" if "edges2" in rest else "sort", nodes=nodes, edges=edges, **rest))
            m = None


# --------------------------------------------------------------- tangents
def tanMode():
    A, H = 10000, math.pi / 8

    def pairs(r):
        return [[rnd(a * 100), rnd(v * A)] for a, v in r]

    def free(n):
        """Any points, sometimes repeated."""
        p = [[g.randint(0, 40), g.randint(0, 40)] for _ in range(n)]
        for i in range(1, n):
            if chance(8):
                p[i] = list(p[g.randrange(i)])
        return p

    def steps(n):
        """Segments of integral length."""
        p = [[g.randint(0, 20), g.randint(0, 20)]]
        while len(p) < n:
            k = g.randint(1, 10)
            s = g.choice([(k, 0), (-k, 0), (0, k), (0, -k), (3, 4), (-4, 3), (8, -6), (-6, -8), (9, 12), (4, -3)])
            p.append([p[-1][0] + s[0], p[-1][1] + s[1]])
        return p

    def arg(p):
        v = [(x/U, y/U) for x, y in p]
        return g.choice([v, Polygon(v)]) if v else v

    def call(f, *a):
        try:
            return pairs(f(*a)), 0
        except ValueError:
            return [], 1

    for _ in range(count):
        c = g.randrange(12)
        if c < 2:
            p, dx, skip = free(g.randint(1, 14)), g.randint(0, 4) if chance(20) else g.randint(1, 3), g.randint(0, 2)
            for op, f in (("tan", geomap.tangentList), ("curv", geomap.curvatureList)):
                at("%s %s %d %d" % (op, p, dx, skip))
                r, err = call(f, arg(p), dx, skip)
                line(dict(op=op, p=p, dx=dx, skip=skip, r=r, err=err))
        elif c < 4:
            p = steps(g.randint(2, 9))
            if chance(40):      # closed: back along the axes
                x, y = p[0]
                for q in ([x, p[-1][1]], [x, y]):
                    if q != p[-1]:
                        p.append(q)
            total = sum(math.hypot(a[0]-b[0], a[1]-b[1]) for a, b in zip(p, p[1:]))
            s = g.randint(1, max(1, min(int(total) - 1, 30)))
            if total <= s:
                continue
            at("chord %s %d" % (p, s))
            r = geomap.tangentListChord([(x/U, y/U) for x, y in p], [g.choice([.5, 1., 2.]) for _ in p], s/U)
            line(dict(op="chord", p=p, s=s, r=pairs(r)))
            if 2*s < total:
                at("third %s %d" % (p, s))
                line(dict(op="third", p=p, s=s, r=[[rnd(a*100), rnd(x*1000)] for a, x in geomap.thirdDerivativeOfPolygon([(x/U, y/U) for x, y in p], s/U)]))
        elif c < 6:
            way = g.randrange(4)
            n = g.randint(3, 14)
            p, a = [[g.randint(0, 40), g.randint(0, 40)]], g.uniform(0, 6.3)
            for _ in range(n-1):
                a += g.uniform(-.7, 1.) if way != 2 else 6.28/n
                k = g.randint(3, 9)
                q = [p[-1][0] + rnd(k*math.cos(a)), p[-1][1] + rnd(k*math.sin(a))]
                p.append(q if q != p[-1] else [q[0] + 1, q[1]])
            s = g.choice([2, 3, 4]) if way % 2 == 0 else g.randint(3, 5)
            total = sum(math.hypot(a[0]-b[0], a[1]-b[1]) for a, b in zip(p, p[1:])) / U
            longest = max(math.hypot(a[0]-b[0], a[1]-b[1]) for a, b in zip(p, p[1:])) / U
            R = math.ceil(3*(s + 1)/U) + longest
            if total <= 2*R + 1 or (way == 2 and p[0] == p[-1]):
                continue
            if way in (1, 3) and (p[0] == p[-1] or 2.4*s/U <= longest):      # no neighbours within reach
                continue
            at("smooth %d %s %d" % (way, p, s))
            conf = [g.choice([.5, 1., 2.]) for _ in p]
            scales = [g.choice([s, s + 1])/U for _ in p]

            def smoothed(p, conf, scales):
                v = [(x/U, y/U) for x, y in p]
                return (geomap.tangentListGaussianReflective(arg(p), s/U) if way == 0 else
                        geomap.tangentListNormalizedGaussian(v, conf, s/U) if way == 1 else
                        geomap.tangentListNormalizedGaussianVariableScale(v, conf, scales) if way == 3 else
                        geomap.tangentListGaussianCyclic(arg(p), s/U))
            arcs = [0.]
            for x, y in zip(p, p[1:]):
                arcs.append(arcs[-1] + math.hypot(x[0]-y[0], x[1]-y[1]) / U)
            close = math.hypot(p[0][0]-p[-1][0], p[0][1]-p[-1][1]) / U
            ring = arcs + [total + close]
            dists = [0.] + [min(abs(x-y) for x, y in ((ring[i], ring[i-1]), (ring[i+1], ring[i]))) / 2 for i in range(1, len(arcs))] + [arcs[1]/2, close/2, (ring[-2] - ring[-3])/2]
            copies = arcs + [-x for x in arcs] + [2*total - x for x in arcs] + [x - total - close for x in arcs] + [x + total + close for x in arcs]
            reach = [2.5*x for x in scales] + [2.5*s/U] if way % 2 else list(range(int(3*s/U) - 1, int(3*s/U) + 4))
            # the filter is cut off: points exactly at its end may be in or out
            tie = any(abs(abs(x + e*d - y) - k) < 1e-6 for x in arcs for y in copies for d in dists for e in (-1, 1) for k in reach)
            r = smoothed(p, conf, scales)
            b = [] if tie else smoothed(p[::-1], conf[::-1], scales[::-1])
            line(dict(op="smooth", p=p, R=rnd((R + .05) * 100), cyc=int(way == 2), r=pairs(r), b=pairs(b)))
        elif c < 8:
            def tangents():
                arc, r = 0, []
                for _ in range(g.randint(0, 4)):
                    arc += g.randint(0, 5)
                    r.append([arc, g.randint(-20, 20) * 1000])
                return r, arc + g.randint(1, 5)

            def give(t):
                return [(a / U, x / 1000. * H) for a, x in t]

            def take(t):
                return [[q4(a), rnd(x / H * 1000)] for a, x in t]

            if chance(50):
                (t1, off), (t2, ln) = tangents(), tangents()
                ln = -ln if chance(50) else ln
                at("append %s %d %s %d" % (t1, off, t2, ln))
                r = give(t1)
                ret = geomap.appendTangentList(r, off / U, give(t2), ln / U)
                line(dict(op="append", t1=t1, off=off, t2=t2, len=ln, r=take(r), ret=q4(ret)))
            else:
                ls = [list(tangents()) for _ in range(g.randint(0, 4))]
                for x in ls:
                    x[1] *= g.choice([1, -1])
                at("compose %s" % ls)
                r = geomap.composeTangentLists([(give(t), n / U) for t, n in ls])
                line(dict(op="compose", ls=ls, r=take(r)))
        elif c < 10:
            pos, v = 0, []
            const = chance(25)
            for _ in range(g.randint(1, 14)):
                v.append([pos, g.randint(-8, 8) if not const or not v else v[0][1]])
                pos += 4 if chance(60) else g.randint(1, 8)
            s, order = g.randint(4, 10), g.choice([0, 0, 1, 1, 2, 3])
            at("conv %s %d %d" % (v, s, order))
            give = [(a / U, float(x)) for a, x in v]
            vecs = chance(30)
            if vecs:       # the same for vectors
                give = [(a, (x, -2*x)) for a, x in give]
            first = (lambda x: x[0] if abs(x[1] + 2*x[0]) < 1e-6 else 1e4) if vecs else float
            if chance(75):
                r = geomap.gaussianConvolveByArcLength(give, s/U, order) if order or chance(50) else geomap.gaussianConvolveByArcLength(give, s/U)
                back = geomap.gaussianConvolveByArcLength([(v[-1][0]/U - a, x) for a, x in give[::-1]], s/U, order)
                line(dict(op="conv", v=v, s=s, order=order, r=[[q4(a), rnd(first(x)*1000)] for a, x in r], m=[rnd(first(x)*1000) for a, x in back][::-1]))
            elif len(v) > 1:
                dist = g.randint(1, 9)
                r = geomap.equidistantGaussians(give, s/U, dist/U)
                line(dict(op="equi", v=v, s=s, dist=dist, r=[[q4(a), rnd(first(x)*1000)] for a, x in r]))
        elif chance(4):
            v = [(x, y) for x in range(-4, 5) for y in range(-4, 5) if x or y]
            v = g.sample(v, 40)
            at("theta %s" % v)
            k = g.choice([.25, 1., 1000.])
            line(dict(op="theta", v=[[x, y, rnd(geomap.angleTheta(y*k, x*k) * 1000000)] for x, y in v]))
        else:
            F, last = [None, geomap.ParabolaFit(), geomap.ParabolaFit()], [None, 0, 0]
            D = [None, [], []]

            def rec(op, a, **kw):
                x = [[g.randint(0, 6), g.randint(-24, 24)] for _ in range(g.randint(1, 4))]
                xl = [(float(p), th/8.) for p, th in x]
                fs = []
                for k in (1, 2):
                    f = dict(n=F[k].count, q=[], v=[], e=0, e2=0, m=0)
                    if len(set(p for p, _ in D[k])) >= 3 and (op == "end" or chance(60)):
                        f.update(q=[rnd(y*1000) for y in F[k].parabolaParams()], v=[rnd(F[k].parabola(float(i))*1000) for i in range(5)],
                                 e=rnd(F[k].sumOfSquaredErrors()*1000), e2=rnd(F[k].sumOfSquaredErrors(xl)*1000), m=rnd(F[k].meanSquaredError(xl)*1000))
                    fs.append(f)
                line(dict(op=op, a=a, f=fs, x=x, **kw))

            rec("fit", 1)
            for _ in range(g.randint(2, 6)):
                k = g.randint(1, 2)
                if chance(15):
                    at("copy %d" % k)
                    F[k] = geomap.ParabolaFit(F[3-k])
                    last[k], D[k] = last[3-k], list(D[3-k])
                    rec("copy", k)
                    continue
                d, turns = [], []
                for _ in range(g.randint(0, 4)):
                    last[k] = max(-24, min(24, last[k] + g.randint(-20, 20)))
                    d.append([g.randint(0, 6), last[k]])
                    turns.append(g.choice([0, 0, 1, -1, 2]))
                if len(D[k]) + len(d) > 12:
                    continue
                D[k] += d
                at("add %d %s" % (k, d))
                F[k].addTangentList([(float(p), th/8. + 2*math.pi*n) for (p, th), n in zip(d, turns)])
                rec("add", k, d=d)
            rec("end", 0)


def each(i):
    r = []
    while True:
        try:
            r.append(i.next())
        except StopIteration:
            return r


# --------------------------------------------------------------- splines
def splineMode():
    dirs = [(3, 4), (4, 3), (5, 0), (1, 0), (2, 0), (3, 0), (4, 0)]
    dirs = [(a*x, b*y) for x, y in dirs for a in (1, -1) for b in (1, -1)]
    dirs = sorted(set(dirs + [(y, x) for x, y in dirs]))
    for _ in range(count):
        n = g.randint(1, 9)
        p = [[g.randint(-9, 9), g.randint(-9, 9)]]
        for _ in range(n):
            d = g.choice(dirs) if not chance(6) else (0, 0)
            p.append([p[-1][0] + d[0], p[-1][1] + d[1]])
        if chance(45):                                # back to the start
            while p[-1] != p[0]:
                d = [p[0][k] - p[-1][k] for k in (0, 1)]
                k = 0 if d[0] and (not d[1] or chance(50)) else 1
                s = max(-5, min(5, d[k]))
                p.append([p[-1][0] + (s if k == 0 else 0), p[-1][1] + (s if k == 1 else 0)])
        steps = sum(int(math.hypot(a[0]-b[0], a[1]-b[1]) + .5) for a, b in zip(p, p[1:]))
        if steps == 0 or steps > 60:
            continue
        ns = [steps // q for q in (1, 2, 4) if steps % q == 0]
        n = g.choice(ns) if not chance(8) else g.choice([0, 1, 2])
        if n > 40 or (len(p) < 4 and not chance(20)):
            continue
        U1 = g.choice([1, 1, 4, .5])
        poly = Polygon([(x/U1, y/U1) for x, y in p])
        at("spline %s %d" % (p, n))
        try:
            r, err = geomap.polygonSplineControlPoints(poly, n), 0
        except RuntimeError:
            r, err = [], 1

        def fix(x):
            return int(max(-400000, min(400000, rnd(x * U1 * 1000) if x == x else 400000)))
        line(dict(op="spline", p=p, n=n, err=err, q=[[rnd(poly[i][0]*U1), rnd(poly[i][1]*U1)] for i in range(len(poly))],
                  r=[[fix(r[i][0]), fix(r[i][1])] for i in range(len(r))]))


# --------------------------------------------------------------- values
def valueMode():
    Rect2D, Size2D, Box = geomap.Rect2D, geomap.Size2D, geomap.BoundingBox

    def val():
        return [g.randint(-3, 5), g.randint(-3, 5)]

    def xy(p):
        return [int(p[0]), int(p[1])]

    def mesh(m):
        r, it = [], geomap.meshIter(m)
        while len(r) < 200:
            try:
                r.append(xy(it.next()))
            except StopIteration:
                break
        return r

    def rect(r):
        return [r.left(), r.top(), r.right(), r.bottom()] if isinstance(r, Rect2D) else xy(r.begin()) + xy(r.end())

    for _ in range(count):
        c = g.randrange(4)
        if c == 0:
            v = [g.randint(-60, 60) for _ in range(4)]
            if chance(30):
                v = [8*x + 4 for x in v]
            at("round %s" % v)
            f = [x / 8. for x in v]
            rr = Rect2D(0, 0, 1, 1)
            rr.moveTo((f[0], f[1]))
            line(dict(op="round", v=v, pos=xy(geomap.intPos((f[0], f[1]))), near=xy(rr.upperLeft()),
                      box=rect(geomap.intPos(Box((f[0], f[1]), (f[2], f[3]))))))
        elif c == 1:
            v, u = val(), val() if not chance(20) else None
            u = list(v) if u is None else u
            at("pair %s %s" % (v, u))
            a, b = Size2D(*v), Size2D(*u)
            d, i, x = Size2D(*v), g.randint(1, 2), g.randint(-9, 9)
            d[i-1] = x
            ia, ib = Size2D(*v), Size2D(*v)
            ia += b
            ib -= b
            bad = 0
            for k in (2, -1, 7):
                for f in (lambda: a[k], lambda: a.__setitem__(k, 1)):
                    try:
                        f()
                    except IndexError:
                        bad += 1
            line(dict(op="pair", v=v, u=u, i=i, x=x, get=[a[0], a[1]], len=len(a), xy=[a.width, a.height] if chance(50) else [a.x, a.y],
                      bad=int(bad == 6), set=xy(d), sum=xy(a + tuple(u)), dif=xy(a - tuple(u)), isum=xy(ia), idif=xy(ib), neg=xy(-a),
                      eq=int(a == b), ne=int(a != b), copy=xy(pickle.loads(pickle.dumps(a))), area=a.area(), mesh=mesh(a)))
        else:
            h = c - 2
            at("values %d" % h)
            T = (lambda a, b: Rect2D(a[0], a[1], b[0], b[1])) if h else (lambda a, b: Box(tuple(a), tuple(b)))
            s = [T([0, 0], [0, 0]), T([0, 0], [0, 0])]

            def report(op, **rest):
                pts = [val() for _ in range(4)]
                q = []
                for k in (0, 1):
                    v, o = s[k], s[1-k]
                    d = dict(size=xy(v.size()), empty=int(v.isEmpty()), area=int(v.area()),
                             has=[int(v.contains(tuple(p))) for p in pts], all=int(v.contains(o)), meets=int(v.intersects(o)),
                             eq=int(v == o), ne=int(v != o), **{"or": rect(v | o), "and": rect(v & o)},
                             copy=rect(pickle.loads(pickle.dumps(v))))
                    if h:
                        if [v.width(), v.height()] != d["size"] or xy(v.upperLeft()) + xy(v.lowerRight()) != rect(v):
                            d["size"] = [10**6, 10**6]
                        if any(int(tuple(p) in v) != x for p, x in zip(pts, d["has"])):
                            d["has"] = [2] * 4
                        d.update(mesh=mesh(v), item=xy(v[tuple(pts[0])]), box=rect(Box(v)))
                    else:
                        d.update(rect=rect(geomap.intPos(v)))
                    q.append(d)
                line(dict(op=op, h=h, s=[rect(s[0]), rect(s[1])], at=pts, q=q, **rest))
            report(op="values")
            for _ in range(g.randint(3, 10)):
                w = g.randrange(2)
                r = s[w]
                if chance(8):
                    at("dup %d" % w)
                    s[w] = T(*(lambda x: (x[:2], x[2:]))(rect(s[1-w])))
                    report(op="dup", w=w+1)
                    continue
                f = g.choice(["make", "make", "begin", "end", "moveTo", "moveBy", "size", "addSize", "border", "or", "and", "orPoint"] + ["andPoint"] * h)
                a, b = val(), val()
                if f == "size":
                    a = [abs(x) for x in a]
                if f in ("addSize", "border"):
                    a = [g.randint(-2, 2), g.randint(-2, 2)]
                at("step %s %d %s %s" % (f, w, a, b))
                p = tuple(a)
                two = chance(50)
                if f == "make":
                    s[w] = T(a, b)
                elif f == "begin":
                    (r.setUpperLeft if h else r.setBegin)(p)
                elif f == "end":
                    (r.setLowerRight if h else r.setEnd)(p)
                elif f == "moveTo":
                    r.moveTo(*p) if h and two else r.moveTo(p)
                elif f == "moveBy":
                    r.moveBy(*p) if h and two else r.moveBy(p)
                elif f == "size":
                    r.setSize(*p) if h and two else r.setSize(p)
                elif f == "addSize":
                    r.addSize(p)
                elif f == "border":
                    if h:
                        r.addBorder(*p)
                    elif two:
                        r.addBorder(float(a[0]))
                        a[1] = a[0]
                    else:
                        r.addBorder(p)
                elif f == "or":
                    r |= s[1-w]
                elif f == "and":
                    r &= s[1-w]
                elif f == "orPoint":
                    r |= p
                elif f == "andPoint":
                    r &= p
                report(op="step", f=f, w=w+1, a=a, b=b)


dict(value=valueMode, spline=splineMode, tan=tanMode, dpos=dposMode, sort=sortMode, poly=polyMode, hull=hullMode, scan=scanMode, lut=lutMode, dsl=dslMode, crack=crackMode, stats=statsMode, spws=spwsMode)[mode]()
out.close()
sys.stderr.write("DONE %d\n" % records)
