"""Graphs whose edges share courses (C25): a plane straight-line network in which every
node owns a tree of streets; every edge runs along the tree of its start node, over one
street of its own, and along the tree of its end node.  Coordinates are quarter pixels."""
import math
import random
import maps


def network(rng):
    n = rng.randint(2, 5)
    pitch = rng.choice([8, 10, 12, 16])
    jit = rng.choice([0, 0, 1, 2])
    ny = rng.randint(2, 4)
    pts = {(x, y): (8 + x*pitch + rng.randint(-jit, jit), 8 + y*pitch + rng.randint(-jit, jit))
           for x in range(n) for y in range(ny)}
    cand = []
    for x, y in pts:
        for d in ((1, 0), (0, 1), (1, 1), (1, -1)):
            q = (x + d[0], y + d[1])
            if q in pts and rng.random() < (.9 if 0 in d else .5):
                cand.append(((x, y), q))
    rng.shuffle(cand)
    segs = []
    keep = rng.choice([.6, .8, 1, 1])
    for a, b in cand:
        if rng.random() < keep and not any(maps.seg_conflict(pts[a], pts[b], pts[c], pts[d]) for c, d in segs):
            segs.append((a, b))
    return pts, segs, (n, ny, pitch)


def angle(p, q):
    return math.atan2(-(q[1]-p[1]), q[0]-p[0])


def clean(pts, segs, minlen, amin):
    res, adj = [], {}
    for a, b in segs:
        if math.dist(pts[a], pts[b]) < 4*minlen:
            continue
        ok = True
        for u, v in ((a, b), (b, a)):
            for w in adj.get(u, []):
                d = abs(angle(pts[u], pts[v]) - angle(pts[u], pts[w]))
                if min(d, 2*math.pi - d) < amin:
                    ok = False
        if ok:
            res.append((a, b))
            adj.setdefault(a, []).append(b)
            adj.setdefault(b, []).append(a)
    return res, adj


def course_map(rng):
    step, mind = rng.choice([.2, .25, .3]), rng.choice([.01, .02, .05])
    dup = rng.random() < .25
    exact = dup or rng.random() < .5
    if not exact:
        # courses that agree but for less than minDist: no sharp turns, where a dart that
        # has already turned would seem to diverge from one that has not
        step = rng.choice([.21, .27, .31])
    pts, segs, (n, ny, pitch) = network(rng)
    segs, adj = clean(pts, segs, 3.3*step, max(.35, 2.2*math.atan2(mind, step)))
    vs = sorted(adj)
    if not vs:
        return None
    def smooth(u, v, w):     # may a course run from u over v to w?
        d = abs(angle(pts[u], pts[v]) - angle(pts[v], pts[w]))
        return exact or min(d, 2*math.pi - d) < 1.4
    frac = rng.choice([.1, .2, .35, .6])
    roots = [v for v in vs if rng.random() < frac]
    parent, root = {}, {r: r for r in roots}
    while len(root) < len(vs):
        fr = sorted((v, w) for v in vs if v not in root for w in adj[v] if w in root
                    and (w not in parent or smooth(parent[w], w, v)))
        if not fr:
            r = rng.choice([v for v in vs if v not in root])
            roots.append(r)
            root[r] = r
            continue
        v, w = rng.choice(fr)
        parent[v], root[v] = w, root[w]
    tree = {frozenset(x) for x in parent.items()}
    label = {r: i for i, r in enumerate(roots)}

    def path(v):             # from the root to v
        p = [v]
        while v in parent:
            v = parent[v]
            p.append(v)
        return p[::-1]
    edges = []
    used = set()
    for a, b in segs:
        if frozenset((a, b)) in tree:
            continue
        if rng.random() < .5:
            a, b = b, a
        if any(u in parent and not smooth(parent[u], u, v) for u, v in ((a, b), (b, a))):
            continue
        pa, pb = path(a), path(b)
        used |= set(pa) | set(pb)
        edges.append([label[root[a]], label[root[b]], [pts[v] for v in pa + pb[::-1]]])
    rng.shuffle(edges)
    if dup:
        for _ in range(rng.randint(1, 3)):
            dang = [v for v in vs if v not in used and v in parent and parent[v] in roots]
            if dang and rng.random() < .5:      # out and back: its two darts never diverge
                v = rng.choice(dang)
                used.add(v)
                u = parent[v]
                edges.append([label[u], label[u], [pts[u], pts[v], pts[u]]])
            elif edges:
                s, t, p = rng.choice(edges)
                edges.append([s, t, list(p)] if rng.random() < .5 else [t, s, list(p[::-1])])
        rng.shuffle(edges)
    W, H = 5 + (n*pitch)//4, 5 + (ny*pitch)//4
    out = ["map %d %d" % (W, H)]
    for r in roots:
        out.append("node %d %d" % pts[r])
    if not exact:
        out.append("jit %d %d" % (rng.randrange(10**6), rng.choice([0, 1, 2])))
    for s, t, p in edges:
        out.append("edge %d %d %d %d %s" % (s, t, rng.choice([0, 0, 1, 2, 4, 6]), len(p), " ".join("%d %d" % q for q in p)))
    split = not dup and rng.random() < .9
    out.append("sort %d %d %d" % (round(step*100), round(mind*100), 1 if split else rng.choice([0, 1])))
    if split:
        if rng.random() < .3:
            out.append("pref %d" % rng.randrange(10**6))
        out.append("split")
        out.append("init %d" % rng.randint(0, 1))
    out.append("end")
    return out


def script(seed, n):
    rng = random.Random("courses/%s" % seed)
    out = []
    while n:
        m = course_map(rng)
        if m:
            out += m
            n -= 1
    return "\n".join(out) + "\n"


if __name__ == "__main__":
    import sys
    print(script(sys.argv[1], int(sys.argv[2])), end="")
