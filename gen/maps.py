"""Generators of valid inputs for the GeoMap driver (scripts, see harness/geodriver.cxx).
Coordinates are integers in quarter pixels."""
import random


def cross(a, b, c):
    return (b[0]-a[0])*(c[1]-a[1]) - (b[1]-a[1])*(c[0]-a[0])


def on_seg(p, a, b):
    return (cross(a, b, p) == 0 and min(a[0], b[0]) <= p[0] <= max(a[0], b[0])
            and min(a[1], b[1]) <= p[1] <= max(a[1], b[1]))


def seg_conflict(a, b, c, d):
    """Do segments a-b and c-d meet anywhere but in a shared end point?"""
    shared = {a, b} & {c, d}
    if len(shared) == 2:
        return True
    if len(shared) == 1:
        s = next(iter(shared))
        x = b if a == s else a
        y = d if c == s else c
        # overlap only if collinear and on the same side
        return cross(s, x, y) == 0 and (x[0]-s[0])*(y[0]-s[0]) + (x[1]-s[1])*(y[1]-s[1]) > 0
    o1, o2 = cross(a, b, c), cross(a, b, d)
    o3, o4 = cross(c, d, a), cross(c, d, b)
    if ((o1 > 0) != (o2 > 0)) and ((o3 > 0) != (o4 > 0)) and o1 and o2 and o3 and o4:
        return True
    return on_seg(c, a, b) or on_seg(d, a, b) or on_seg(a, c, d) or on_seg(b, c, d)


class PMap:
    """A plane graph: points, and edges given as point sequences between nodes."""

    def __init__(self, W, H):
        self.W, self.H = W, H
        self.nodes = []      # positions
        self.edges = []      # (start node, end node, [points])

    def segments(self):
        for s, t, p in self.edges:
            for i in range(len(p)-1):
                yield p[i], p[i+1]

    def planar(self):
        segs = list(self.segments())
        for i in range(len(segs)):
            if segs[i][0] == segs[i][1]:
                return False
            for j in range(i):
                if seg_conflict(*segs[i], *segs[j]):
                    return False
        # isolated nodes off all edges, nodes distinct
        if len(set(self.nodes)) != len(self.nodes):
            return False
        used = {n for e in self.edges for n in e[:2]}
        inner = {q for e in self.edges for q in e[2][1:-1]}
        for i, p in enumerate(self.nodes):
            if p in inner:
                return False
            if i not in used and any(on_seg(p, a, b) for a, b in segs):
                return False
        return True


def lattice_map(rng, n=4, pitch=None, jitter=None, keep=None, diag=0.3, contract=0.6,
                W=None, H=None, iso=0.0, frame=False):
    """Random plane graph from a jittered lattice (frame: its border is complete)."""
    pitch = pitch or rng.choice([8, 10, 12])
    jitter = rng.choice([0, 1, 2, 3]) if jitter is None else jitter
    keep = keep if keep is not None else rng.choice([0.45, 0.6, 0.75, 0.9, 1.0])
    ny = max(2, n + rng.randint(-1, 0))
    off = rng.choice([-6, 0, 1, 2, 4, 6])
    pts = {}
    for y in range(ny):
        for x in range(n):
            pts[x, y] = (off + x*pitch + rng.randint(-jitter, jitter),
                         off + y*pitch + rng.randint(-jitter, jitter))
    segs = []

    def add(a, b):
        for c, d in segs:
            if seg_conflict(pts[a], pts[b], pts[c], pts[d]):
                return
        segs.append((a, b))
    cand = []
    for y in range(ny):
        for x in range(n):
            if x+1 < n:
                cand.append(((x, y), (x+1, y)))
            if y+1 < ny:
                cand.append(((x, y), (x, y+1)))
            if x+1 < n and y+1 < ny and rng.random() < diag:
                cand.append(((x, y), (x+1, y+1)) if rng.random() < .5 else ((x+1, y), (x, y+1)))
    rng.shuffle(cand)
    if frame:
        onb = lambda a, b: (a[0] == b[0] and a[0] in (0, n-1)) or (a[1] == b[1] and a[1] in (0, ny-1))
        for a, b in cand:
            if onb(a, b):
                add(a, b)
    for a, b in cand:
        if rng.random() < keep and (a, b) not in segs:
            add(a, b)
    m = from_segments(rng, pts, segs, contract, iso)
    size = 1 + (off + (n-1)*pitch) // 4
    m.W = W or max(1, size + rng.randint(-2, 2))
    m.H = H or max(1, 1 + (off + (ny-1)*pitch) // 4 + rng.randint(-2, 2))
    return m


def from_segments(rng, pts, segs, contract, iso=0.0):
    """Contract degree-two chains (each inner node with the given probability)."""
    adj = {}
    for a, b in segs:
        adj.setdefault(a, []).append(b)
        adj.setdefault(b, []).append(a)
    isnode = {v: (len(ns) != 2 or rng.random() >= contract) for v, ns in adj.items()}
    # every cycle needs a node
    seen = set()
    for v in sorted(adj):
        if v in seen:
            continue
        comp, stack = [], [v]
        seen.add(v)
        while stack:
            u = stack.pop()
            comp.append(u)
            for w in adj[u]:
                if w not in seen:
                    seen.add(w)
                    stack.append(w)
        if not any(isnode[u] for u in comp):
            isnode[rng.choice(comp)] = True
    m = PMap(0, 0)
    idx = {}
    for v in sorted(adj):
        if isnode[v]:
            idx[v] = len(m.nodes)
            m.nodes.append(pts[v])
    done = set()
    for v in sorted(adj):
        if not isnode[v]:
            continue
        for w in adj[v]:
            if (v, w) in done:
                continue
            path = [v, w]
            done.add((v, w))
            while not isnode[path[-1]]:
                u = path[-1]
                nxt = [x for x in adj[u] if x != path[-2]]
                # degree two, simple graph: exactly one continuation
                path.append(nxt[0])
            done.add((path[-1], path[-2]))
            m.edges.append((idx[path[0]], idx[path[-1]], [pts[u] for u in path]))
    for v in sorted(pts):
        if v not in adj and rng.random() < iso:
            m.nodes.append(pts[v])
    return m


def rings_map(rng, W=12, H=12):
    """Nested closed polygons, some of them several nodes, sometimes joined by bridges."""
    m = PMap(W, H)
    depth = rng.randint(2, 4)
    cx, cy = 2*W + rng.randint(-1, 1), 2*H + rng.randint(-1, 1)
    r = 2*min(W, H) - rng.randint(1, 3)
    prev = None
    for lev in range(depth):
        if r < 3:
            break
        c = max(1, r - rng.randint(0, r // 2))
        poly = [(cx+r, cy-c//2), (cx+c//2, cy-r), (cx-c//2, cy-r), (cx-r, cy-c//2),
                (cx-r, cy+c//2), (cx-c//2, cy+r), (cx+c//2, cy+r), (cx+r, cy+c//2)]
        poly = [p for i, p in enumerate(poly) if p != poly[i-1]]
        k = rng.choice([1, 1, 2, 3])
        start = rng.randrange(len(poly))
        poly = poly[start:] + poly[:start]
        cuts = sorted(rng.sample(range(1, len(poly)), min(k-1, len(poly)-1)))
        cuts = [0] + cuts + [len(poly)]
        base = len(m.nodes)
        for c0 in cuts[:-1]:
            m.nodes.append(poly[c0])
        closed = poly + [poly[0]]
        for i in range(len(cuts)-1):
            m.edges.append((base+i, base+(i+1) % (len(cuts)-1), closed[cuts[i]:cuts[i+1]+1]))
        if prev is not None and rng.random() < 0.4:
            a, b = m.nodes[prev], m.nodes[base]
            if a != b:
                m.edges.append((prev, base, [a, b]))
                if not m.planar():
                    m.edges.pop()
        prev = base
        r -= rng.choice([2, 3, 4, 6])
    return m if m.planar() else rings_map(rng, W, H)


def islands_map(rng, W=14, H=12):
    """An outer frame with several separate small components inside and outside."""
    m = PMap(W, H)
    def add_poly(poly, closed=True):
        b = len(m.nodes)
        m.nodes.append(poly[0])
        if closed:
            m.edges.append((b, b, poly + [poly[0]]))
        else:
            m.nodes.append(poly[-1])
            m.edges.append((b, b+1, poly))
        if not m.planar():
            m.edges.pop()
            del m.nodes[b:]
    x1, y1 = 4*W-rng.randint(6, 10), 4*H-rng.randint(6, 10)
    add_poly([(2, 2), (2, y1), (x1, y1), (x1, 2)] if rng.random() < .5 else [(2, 2), (x1, 2), (x1, y1), (2, y1)])
    for _ in range(rng.randint(3, 9)):
        x, y = rng.randint(-2, 4*W), rng.randint(-2, 4*H)
        w, h = rng.randint(1, 12), rng.randint(1, 12)
        t = rng.random()
        if t < .5:
            add_poly([(x, y), (x+w, y+rng.randint(-1, 1)), (x+w, y+h), (x, y+h)])
        elif t < .7:
            add_poly([(x, y), (x+w, y+h)], False)
        elif t < .85:
            add_poly([(x, y), (x+w, y), (x+w, y+h)], False)
        else:
            m.nodes.append((x, y))
            if not m.planar():
                m.nodes.pop()
    return m


def thin_ring_map(rng, W=12, H=12):
    """A ring whose area is smaller than that of the disc inside it (plus things inside)."""
    m = PMap(W, H)
    x0, y0 = rng.randint(2, 5), rng.randint(2, 5)
    s = 4*min(W, H) - 8 - rng.randint(0, 3)
    g = rng.choice([1, 2])

    def loop(poly, k=1):
        b = len(m.nodes)
        m.nodes.append(poly[0])
        m.edges.append((b, b, poly + [poly[0]]))
    loop([(x0, y0), (x0, y0+s), (x0+s, y0+s), (x0+s, y0)])
    loop([(x0+g, y0+g), (x0+s-g, y0+g), (x0+s-g, y0+s-g), (x0+g, y0+s-g)])
    if rng.random() < .7:
        loop([(x0+g+4, y0+g+4), (x0+g+9, y0+g+4), (x0+g+7, y0+g+9)])
    if rng.random() < .5:
        loop([(x0+g+12, y0+g+12), (x0+g+16, y0+g+12), (x0+g+16, y0+g+17), (x0+g+12, y0+g+15)])
    return m if m.planar() else thin_ring_map(rng, W, H)


def framed_map(rng, size=5):
    """A frame with trees, bridges and islands inside."""
    return lattice_map(rng, n=rng.randint(4, size), keep=rng.choice([.25, .35, .45, .6]), contract=.4,
                       iso=rng.choice([0, .3]), frame=True)


def any_map(rng, size=4):
    t = rng.random()
    if t < .12:
        m = framed_map(rng, size+1)
    elif t < .55:
        m = lattice_map(rng, n=rng.randint(2, size), iso=rng.choice([0, .3]))
    elif t < .72:
        m = rings_map(rng, rng.randint(8, 13), rng.randint(8, 13))
    elif t < .88:
        m = islands_map(rng, rng.randint(8, 14), rng.randint(8, 12))
    else:
        m = thin_ring_map(rng)
    return m


def subdivide(rng, m, n=6, amp=1):
    """Give some edges many more points (as long as they stay plane)."""
    for i, (s, t, p) in enumerate(m.edges):
        if rng.random() < .5:
            continue
        q = [p[0]]
        for a, b in zip(p, p[1:]):
            k = rng.randint(2, n)
            for j in range(1, k):
                c = (a[0] + (b[0]-a[0])*j//k + rng.randint(-amp, amp), a[1] + (b[1]-a[1])*j//k + rng.randint(-amp, amp))
                if c != q[-1] and c != b:
                    q.append(c)
            q.append(b)
        m.edges[i] = (s, t, q)
        if not m.planar():
            m.edges[i] = (s, t, p)
    return m


def hub_map(rng):
    """A node with many spokes, a rim around it, and another hub beside it."""
    import math
    m = PMap(rng.randint(24, 30), rng.randint(20, 26))
    for cx, cy, r in [(44, 44, 40)] + ([(104, 40, 16)] if rng.random() < .6 else []):
        k, c = rng.randint(9, 18), len(m.nodes)
        m.nodes.append((cx, cy))
        ring = []
        for j in range(k):
            a = 2*math.pi*(j + .25*rng.random())/k
            p = (cx + round(r*math.cos(a)), cy + round(r*math.sin(a)))
            if p not in ring:
                ring.append(p)
        base = len(m.nodes)
        for j, p in enumerate(ring):
            m.nodes.append(p)
            m.edges.append((c, base+j, [(cx, cy), p]))
            if not m.planar():
                m.edges.pop()
        for j, p in enumerate(ring):
            if rng.random() < .85:
                m.edges.append((base+j, base+(j+1) % len(ring), [p, ring[(j+1) % len(ring)]]))
                if not m.planar():
                    m.edges.pop()
    return m


def archipelago_map(rng):
    """A face with very many holes."""
    m = PMap(rng.randint(22, 30), rng.randint(20, 26))
    x1, y1 = 4*m.W - 6, 4*m.H - 6
    m.nodes.append((3, 3))
    m.edges.append((0, 0, [(3, 3), (3, y1), (x1, y1), (x1, 3), (3, 3)]))
    for gx in range(8, x1-9, 13):
        for gy in range(8, y1-9, 13):
            x, y = gx + rng.randint(0, 3), gy + rng.randint(0, 3)
            b, t = len(m.nodes), rng.random()
            if t < .7:
                p = [(x, y), (x+rng.randint(3, 7), y+rng.randint(0, 1)), (x+rng.randint(5, 8), y+rng.randint(5, 8)), (x, y+rng.randint(4, 8))]
                m.nodes.append(p[0])
                m.edges.append((b, b, p + [p[0]]))
            elif t < .9:
                m.nodes += [(x, y), (x+rng.randint(1, 8), y+rng.randint(-2, 8))]
                m.edges.append((b, b+1, [m.nodes[b], m.nodes[b+1]]))
            else:
                m.nodes.append((x, y))
    return m


def large_map(rng):
    t = rng.random()
    if t < .3:
        m = hub_map(rng)
    elif t < .55:
        m = archipelago_map(rng)
    else:
        m = lattice_map(rng, n=rng.randint(5, 7), pitch=rng.choice([10, 14]), keep=rng.choice([.6, .8, 1]), contract=.7)
        m = subdivide(rng, m, rng.choice([4, 8]))
    return m if m.planar() else large_map(rng)


def dirkey(p, q):
    """Exact angular key is not needed: only used for explicit sigma maps."""
    import math
    return math.atan2(-(q[1]-p[1]), q[0]-p[0])


def close_directions(rng, k):
    """k directions of which neighbouring ones span a parallelogram of area one: their angles
    differ by about 1e-9, but they are different."""
    from math import gcd
    while True:
        a, b = rng.randint(9000, 15000), rng.randint(9000, 15000)
        if rng.random() < .5:
            a = rng.randint(1, 300)
        if gcd(a, b) == 1:
            break
    c = pow(b, -1, a) if a > 1 else 1       # b*c = 1 (mod a):  a*d - b*c = -1 with d = (b*c-1)/a
    d = (b*c - 1)//a
    dirs = [(a, b)]
    while len(dirs) < k:
        p = dirs[-1]
        q = (p[0]+c, p[1]+d)
        if (c, d) == (0, 0) or max(q) > 22000:
            break
        dirs.append(q)
    sx, sy, sw = rng.choice([-1, 1]), rng.choice([-1, 1]), rng.random() < .5
    dirs = [(x*sx, y*sy) for x, y in dirs]
    if sw:
        dirs = [(y, x) for x, y in dirs]
    rng.shuffle(dirs)
    return dirs


def script(m, rng, li=True, sort=None, dart_anchors=0.2, label_gap=0.1, init=True, unit=0):
    """Lines that build map m and initialise it. Node/edge insertion order, direction,
    anchors and label gaps are random."""
    out = ["map %d %d" % (m.W, m.H) + (" %d" % unit if unit else "")]
    label = {}
    order = list(range(len(m.nodes)))
    rng.shuffle(order)
    nl = 0
    for n in order:
        if rng.random() < label_gap:
            nl += rng.randint(1, 3)
            out.append("node %d %d %d" % (*m.nodes[n], nl))
        else:
            out.append("node %d %d" % m.nodes[n])
        label[n] = nl
        nl += 1
    es = list(m.edges)
    rng.shuffle(es)
    el = 1
    big = rng.random() < 0.25
    darts = {}       # node -> darts
    dirs = {}
    for s, t, p in es:
        if rng.random() < .5:
            s, t, p = t, s, p[::-1]
        gap = 0
        if rng.random() < label_gap or (big and el < 30):
            gap = el + (rng.randint(1, 3) if not big or el > 1 else rng.choice([40, 46, 48, 49, 95, 105, 205]))
            el = gap
        a = (0, label[s])
        b = (0, label[t])
        if darts.get(s) and rng.random() < dart_anchors:
            a = (1, rng.choice(darts[s]))
        if darts.get(t) and rng.random() < dart_anchors:
            b = (1, rng.choice(darts[t]))
            if s == t and a[0] == 1 and rng.random() < .5:
                b = a
        out.append("edge %d %d %d %d %d %s" % (*a, *b, gap, " ".join("%d %d" % q for q in p)))
        darts.setdefault(s, []).append(el)
        darts.setdefault(t, []).append(-el)
        dirs[el] = (p[0], p[1])
        dirs[-el] = (p[-1], p[-2])
        el += 1
    how = sort if sort is not None else rng.choice(["sort", "none", "none", "sigma"])
    if how == "sort":
        out.append("sort")
    elif how == "sigma":
        pairs = []
        for n, ds in darts.items():
            ds = sorted(ds, key=lambda d: dirkey(*dirs[d]))
            for i, d in enumerate(ds):
                pairs += [d, ds[(i+1) % len(ds)]]
        out.append("sigma 1 %d %s" % (rng.choice([0, 0, 3]), " ".join(map(str, pairs))))
    if init:
        out.append("init %d" % (1 if li else 0))
    return out
