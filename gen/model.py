"""Scripts from the behaviours of spec/MCGeoMap.tla: TLC prints the transition graph (cells
identified by geometry), this module covers all its transitions with paths."""
import re
import maps


def _ints(s):
    return [int(x) for x in re.findall(r"-?\d+", s)]


def _points(s):
    v = _ints(s)
    return list(zip(v[::2], v[1::2]))


class Graph:
    def __init__(self, out):
        """out: TLC's output"""
        self.init, self.succ = {}, {}
        for m in re.finditer(r'<<\s*"INI",\s*(-?\d+),\s*(TRUE|FALSE),\s*(\d+),\s*(\d+),(.*?)>>(?=\s*\n<<|\s*\n[A-Z])', out, re.S):
            fp, keep, W, H, rest = m.groups()
            nodes, edges = self._cells(rest)
            mm = maps.PMap(int(W), int(H))
            mm.nodes, mm.edges = nodes, edges
            self.init[int(fp)] = (keep == "TRUE", mm)
        for m in re.finditer(r'<<"TR", (-?\d+), "(\w+)", <<([-\d, ]*)>>, (-?\d+)>>', out):
            a, k, g, b = m.groups()
            self.succ.setdefault(int(a), set()).add((k, tuple(_ints(g)), int(b)))
        self.succ = {a: sorted(s) for a, s in self.succ.items()}
        self.transitions = sum(map(len, self.succ.values()))

    @staticmethod
    def _cells(rest):
        # the node function, then the edge function (a sequence or k :> v @@ ...)
        rest = re.sub(r"\s+", " ", rest)
        i = rest.index(")") + 1 if rest.lstrip().startswith("(") else None
        if i is None:       # <<>>-like sequence of nodes cannot occur: nodes start at 0
            raise ValueError(rest)
        nodes = {}
        for k, x, y in re.findall(r"(\d+) :> <<(-?\d+), (-?\d+)>>", rest[:i]):
            nodes[int(k)] = (int(x), int(y))
        n = max(nodes) + 1
        assert sorted(nodes) == list(range(n))
        edges = []
        for s, t, p in re.findall(r"<<(\d+), (\d+), <<((?:<<-?\d+, -?\d+>>(?:, )?)+)>> ?>>", rest[i:]):
            edges.append((int(s), int(t), _points(p)))
        return [nodes[k] for k in range(n)], edges

    def paths(self, rng, part=0, parts=1):
        """(initial state, keep, [(kind, geometry), ...]): together they take every transition
        reachable from the initial states of this part."""
        inits = sorted(self.init)
        rng.shuffle(inits)
        taken, dead = set(), set()      # dead: everything reachable has been taken
        for f in sorted(inits[part::parts], key=lambda f: f in dead):
            while f not in dead:
                path, states, s = [], [f], f
                while True:
                    ts = self.succ.get(s, ())
                    fresh = [t for t in ts if (s, t) not in taken]
                    if not fresh:
                        fresh = [t for t in ts if t[2] not in dead]
                    if not fresh:
                        break
                    t = rng.choice(fresh)
                    taken.add((s, t))
                    path.append(t)
                    s = t[2]
                    states.append(s)
                for s in reversed(states):
                    if all((s, t) in taken and t[2] in dead for t in self.succ.get(s, ())):
                        dead.add(s)
                if path:
                    yield f, path


def scripts(graph, rng, part, parts, limit):
    """Lines for geodriver: paths of the graph, grouped by initial map; the map is built once
    and copied for all paths but the last. At most about limit operations."""
    out, n, last = [], 0, None
    group = []

    def flush():
        if not group:
            return
        keep, m = graph.init[group[0][0]]
        out.extend(maps.script(m, rng, li=rng.random() < .7))
        if keep:
            out.append("veto rn 1")
        for i, (f, path) in enumerate(group):
            one = i + 1 == len(group)
            if not one:
                out.extend(["copy 1", "use 1"])
            for k, g, _ in path:
                g = list(g)
                if k in ("mf", "rb") and rng.random() < .5:
                    g = g[2:4] + g[:2]
                out.append("g %s %s" % (k, " ".join(map(str, g))))
            if not one:
                out.extend(["use 0", "drop 1"])
        if keep:
            out.append("veto rn 0")
        del group[:]

    for f, path in graph.paths(rng, part, parts):
        if group and (group[0][0] != f or len(group) >= 12):
            flush()
        if n > limit:
            break
        group.append((f, path))
        n += len(path) + 4
    flush()
    return out, n
