"""Checks of the sub-pixel map (C01-C13, C16, C17): random and model-generated histories
are executed by harness/geodriver.cxx on the real code and validated with TLC against
spec/GeoMap.tla (TraceGeoMap)."""
import concurrent.futures as cf
import json, os, random, re, sys
from lib import *
sys.path.insert(0, os.path.join(VERIF, "gen"))
import maps, model

STRUCT = {"node", "edge", "geometry", "sigma", "leftface", "faceset", "mode", "accept",
          "nodeanchor", "anchor", "count", "consistency"}
STATE = STRUCT | {"flags", "label", "pixarea", "lut"}
CACHE = {"edgelength", "edgearea", "edgebbox", "facearea", "facebbox", "contour", "scanlines", "facefill"}

class _All:
    def __contains__(self, x):
        return True


ALL = _All()

# property -> profiles (random operation mixes), ops whose disagreements count whatever
# they are, tags that count whatever the operation, map kind, operations per map
P = {
 "C01": dict(gen="MCGeoMap.tla", models=["MCGeoMap.tla:MCGeoMapFull"], prof=["mbxesSnlfrwyuCDNBEcci", "xxeessSSwcc", "mbxeRVvikEBDNca"], ops=[], tags=STRUCT,
             steps=25),
 "C02": dict(prof=["iii", "ppic", "mbxcpi"], ops=["init", "map", "sort", "sorte", "spl", "sigma", "edge"], tags={"leftface", "faceset", "anchor", "faceat", "contains", "consistency", "count", "mode", "refused"},
             steps=4, kind="nested", unit=.3),
 "C03": dict(prof=["", "xe", ""], ops=["sort", "sigma", "edge", "init"], tags={"sigma"}, steps=3, kind="graph"),
 "C04": dict(gen="MCGeoMap.tla", prof=["mmmxxlSq", "mmmbewlcq", "mmmmyuiV"], ops=["mf", "re"], tags=STATE | CACHE, steps=20),
 "C05": dict(gen="MCGeoMap.tla", prof=["bbbxxmlSq", "bbbbsSelcq", "bbmmyuiV"], ops=["rb", "re"], tags=STATE | CACHE, steps=20, kind="tree"),
 "C06": dict(gen="MCGeoMap.tla:MCGeoMapSplit", prof=["seSeSeq", "sSeemblqf", "sSeeVvfyuiD"], ops=["sp", "me"], tags=STATE | CACHE, steps=25),
 "C07": dict(gen="MCGeoMap.tla", prof=["mbxesSLlqI", "mmmbbeeSSsrI", "lxxxsSeCEDII"], ops=["li", "dli"], tags={"label", "pixarea", "lut", "scanlines"}, steps=25, li=.9, unit=0),
 "C08": dict(prof=["VvmbxesnVviiii", "VmbesSnViCEBDNk", "iiiimbesSnlOPP"], ops=[], tags={"event", "result", "refused", "veto", "accept", "complete"} | STATE, steps=25),
 "C09": dict(prof=["mbxesSQQQ", "qmqbqeqsqSqwqw", "QQwwmbxQlyu"], ops=["cache"], tags=CACHE, steps=30),
 "C10": dict(prof=["pppmxbs", "ppplLmxes", "pppwwmC"], ops=["faceAt"], tags={"faceat", "contains"}, steps=25),
 "C11": dict(prof=["ddddwwwnaa", "dddwwxxnaasSe", "ddwwyuzmbnasN"], ops=["near", "setpos", "rin", "node"], tags={"nearest", "node", "edge", "geometry", "nodeanchor"}, steps=30),
 "C12": dict(prof=["yyuuuzmbxesSnlfrwQ", "yuyumbxesSclpd", "yyuuuzzCEBDPOlr"], ops=["copy", "use", "drop"], tags=ALL, steps=30),
 "C13": dict(prof=["rrRRmbxelpQ", "rrrmmmxxsLcp", "RRRRmyuQl"], ops=["relabel"], tags=ALL, steps=25),
 "C16": dict(prof=["PPPPOOombxes", "PPPoOmbxeCEBDk", "PfPfOeeeDsyu"], ops=["prot"], tags={"veto", "refused", "accept", "complete", "event", "result"} | STATE, steps=30),
 "C17": dict(prof=["CDNBEksS", "CCEEkkmxsf", "VvCDNBEkEkPO"], ops=["mfc", "rins", "md2", "rbs", "rbl", "rme"], tags=STATE | {"complete", "result", "event", "accept"}, steps=15),
 "C23": dict(prof=["mbxesSnmm", "mmmmmxxxghCE", "FGHKmmmmuuxxxghbe", "mmmVvxmxmEhFui", "FKumxxmxmCmg", "mmmmBDNExmxmgF"], ops=None, tags=ALL, steps=14, li=1.0,
             trace="TraceStats.tla", unit=0, flags=["-DGD_STATS"], models=["MCStats.tla"], first="F",
             need=["fs", "fsd", "fsx", "fsc", "fsr", "fsq", "mf", "mfc"]),
 "C35": dict(prof=["mbxesSnmmgh", "mmmmmxxxghCE", "FGHKmmmmuuxxxghbe", "mmmVvxmxmEhFui", "FKumxxmxmCmgGHyuz", "mmmmBDNExmxmgF"], ops=None, tags=ALL, steps=14, li=1.0,
             trace="TraceStats.tla", unit=0, py=True, env=["PYD_STATS=1"], first="F",
             need=["fs", "fsd", "fsx", "fsc", "fsr", "fsq", "mf", "mfc"]),
 "C24": dict(prof=["jjjmbxesSJJf", "jjjumbxesSnlJCDNBEo", "jjuulJJfPcpq", "jjjWoOPPmbxuj"], ops=["pickle", "protp", "fflag"],
             tags=ALL, steps=20, py=True, unit=0, pickle_graph=.4,
             need=["pickle", "protp", "fflag"]),
 "C28": dict(prof=["mbxesSnlCDNBEttiyuA", "VvAmbxesSnAi", "oOPPmbxesSAoCE", "pdqcattmbyuzI"], ops=None, tags=ALL, steps=22, py=True, unit=0,
             need=["mf", "rb", "me", "sp", "re", "mfc", "md2", "rins", "rbs", "rme", "orb", "fi", "sm", "obs", "copy", "near", "faceAt", "cache", "prot", "dli"]),
}


def graph_script(rng):
    """Graph stage only: bundles at few nodes, some with coinciding first segments."""
    out = []
    m = maps.lattice_map(rng, n=rng.randint(2, 4), diag=1.0, keep=rng.choice([.8, 1.0]),
                         jitter=rng.choice([0, 1, 2, 3]))
    amb = rng.random() < .3
    if amb and m.edges:
        # let some edge share the first segment direction of another one
        for _ in range(rng.randint(1, 2)):
            s, t, p = rng.choice(m.edges)
            q = p[1]
            m.nodes.append((q[0] + rng.choice([1, 2]), q[1] + rng.choice([-1, 1])))
            k = rng.choice([1, 1, 2])
            d = (q[0]-p[0][0], q[1]-p[0][1])
            m.edges.append((s, len(m.nodes)-1, [p[0], (p[0][0]+k*d[0], p[0][1]+k*d[1]), m.nodes[-1]]))
    far = rng.random() < .2
    if far:     # directions that differ by about 1e-9
        m.nodes, m.edges = [], []
        for _ in range(rng.randint(1, 2)):
            c = len(m.nodes)
            cx, cy = rng.randint(0, 400), rng.randint(0, 400)
            m.nodes.append((cx, cy))
            for d in maps.close_directions(rng, rng.randint(2, 6)):
                m.nodes.append((cx+d[0], cy+d[1]))
                m.edges.append((c, len(m.nodes)-1, [(cx, cy), m.nodes[-1]]))
        return maps.script(m, rng, li=False, sort="sort", dart_anchors=.5, init=False)
    # star with many directions, incl. axis-parallel and nearly equal ones
    if rng.random() < .6:
        c = len(m.nodes)
        cx, cy = 200, 200
        m.nodes.append((cx, cy))
        dirs, seen = [], set()
        from math import gcd
        for _ in range(rng.randint(3, 14)):
            r = rng.choice([1, 2, 3, 8, 40])
            d = (rng.randint(-r, r), rng.randint(-r, r))
            if d == (0, 0):
                continue
            g = gcd(abs(d[0]), abs(d[1]))
            key = (d[0]//g, d[1]//g)
            if key in seen:
                continue
            seen.add(key)
            k = rng.choice([1, 1, 2, 3])
            e = (cx+k*d[0], cy+k*d[1])
            if e in m.nodes:
                continue
            m.nodes.append(e)
            m.edges.append((c, len(m.nodes)-1, [(cx, cy), e]))
    how = rng.choice(["sort", "none", "sort"]) if amb else rng.choice(["sort", "sigma", "none"])
    lines = maps.script(m, rng, li=False, sort=how, dart_anchors=.5, init=rng.random() < .5 and not amb)
    if amb:
        lines.append("init 0")
    elif rng.random() < .3 and how == "sort" and not lines[-1].startswith("init"):
        lines.append("sort")
    return lines


def make_script(rng, cfg, nmaps, profile, large=False):
    out = []
    for _ in range(nmaps):
        kind = cfg.get("kind", "any")
        if kind == "graph" and not large and rng.random() < .8:
            out += graph_script(rng)
            continue
        t = rng.random()
        if large:
            m = maps.large_map(rng)
        elif kind == "nested" and t < .75:
            m = rng.choice([maps.rings_map, maps.islands_map, maps.thin_ring_map])(rng)
        elif kind == "tree" and t < .5:
            m = maps.framed_map(rng)
        elif kind == "tree" and t < .7:
            m = maps.lattice_map(rng, n=rng.randint(3, 5), keep=rng.choice([.3, .4, .5]), iso=.2)
        else:
            m = maps.any_map(rng)
        unit = rng.choice([-5, -2, 3, 5, 7, 9]) if rng.random() < cfg.get("unit", .12) else 0
        sc = maps.script(m, rng, li=not unit and rng.random() < cfg.get("li", .6), unit=unit)
        if rng.random() < cfg.get("pickle_graph", 0) and not kind == "graph":
            i, k = rng.randint(1, len(sc)), 0       # go on building on a restored map
            for _ in range(rng.randint(1, 2)):
                sc[i:i] = ["pickle %d %d 0" % (1 - k, rng.randint(0, 5)), "use %d" % (1 - k), "drop %d" % k]
                i, k = i + 3, 1 - k
        out += sc
        if cfg.get("first"):
            if rng.random() < .6:   # short edges: their removal may not free any pixel
                out.append("rand %d %d S" % (rng.randrange(10**6), rng.randint(4, 20)))
            out.append("rand %d 1 %s" % (rng.randrange(10**6), cfg["first"]))
        if profile:
            out.append("rand %d %d %s" % (rng.randrange(10**6), cfg["steps"], profile))
    return out


def build_python(chk):
    """The extension module of the working tree, and the command that drives it."""
    b = os.path.join(REPO, "src", "python_bindings")
    srcs = [os.path.join(b, f) for f in sorted(os.listdir(b)) if f.endswith(".cxx")] + geomap_sources()
    vi = "/usr/lib/python3/dist-packages/vigra"
    core = [os.path.join(vi, f) for f in os.listdir(vi) if f.startswith("vigranumpycore")]
    import glob
    build(chk.work, "geomap.so", srcs, opt=("-O0", "-D_GLIBCXX_ASSERTIONS", "-fPIC", "-std=gnu++14"),
          flags=["-DAVOID_DUPLICATE_DEFINITION_FROM_VIGRANUMPYCORE", "-DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION",
                 "-I" + b, "-I" + os.path.join(REPO, "src", "geomap"),
                 *["-I" + d for d in glob.glob("/usr/include/python3.*")],
                 "-I/usr/lib/python3/dist-packages/numpy/core/include"],
          libs=["-shared", "-Wl,-rpath," + vi, *core, *glob.glob("/usr/lib/x86_64-linux-gnu/libboost_python3*.so"),
                "-lvigraimpex"])
    return ["/usr/bin/python3", os.path.join(VERIF, "harness", "pydriver.py"), chk.work]


def build_driver(chk, cfg):
    if cfg.get("py"):
        return [*(["/usr/bin/env", *cfg["env"]] if cfg.get("env") else []), *build_python(chk)]
    inc = os.path.join(REPO, "src", "geomap")
    return build(chk.work, "geodriver", [os.path.join(VERIF, "harness", "geodriver.cxx")] + geomap_sources(),
                 flags=["-I" + inc] + cfg.get("flags", []), libs=["-lvigraimpex"])


def parse_err(raw):
    # <line>, "<op>", {"tag", ...}
    m = re.match(r'(\d+), "(\w+)", \{(.*)\}$', raw)
    return int(m.group(1)), m.group(2), set(re.findall(r'"([\w-]+)"', m.group(3)))


def concrete_script(trace_lines, upto):
    """The recorded operations from the last "map" up to record number upto (1-based)."""
    recs = []
    for l in trace_lines[:upto]:
        try:
            recs.append(json.loads(l))
        except ValueError:
            m = re.match(r'\{"op":"(\w+)","k":(-?\d+),"a":\[([^\]]*)\],"veto":\[([^\]]*)\]', l)
            if m:
                recs.append(dict(op=m.group(1), a=[int(x) for x in m.group(3).split(",") if x],
                                 veto=json.loads("[" + m.group(4) + "]")))
    start = max([i for i, r in enumerate(recs) if r["op"] == "map"] or [0])
    out, vet = [], set()
    for r in recs[start:]:
        nv = set(r["veto"])
        for v in sorted(nv - vet):
            out.append("veto %s 1" % v)
        for v in sorted(vet - nv):
            out.append("veto %s 0" % v)
        vet = nv
        out.append(" ".join([r["op"]] + [str(x) for x in r["a"]]))
    return out


def run_shard(chk, cfg, exe, name, lines):
    """Driver + TLC on one script. Returns dict(n, errs, crash, trace)."""
    sf = os.path.join(chk.work, name + ".txt")
    tf = os.path.join(chk.work, name + ".ndjson")
    open(sf, "w").write("\n".join(lines) + "\n")
    rc, out, err = run_driver(exe, [sf, tf], chk.limit())
    if rc == 1 and "Error: No module named" in err:
        raise CheckError("pydriver.py failed: " + err[-1500:])
    res = dict(n=0, errs=[], crash=None, trace=tf, skipped=False)
    tl = open(tf, errors="replace").read().split("\n") if os.path.exists(tf) else []
    if rc != 0 or "DONE" not in err:
        last = [l for l in err.split("\n") if l.startswith("@ ")]
        if rc == 3:
            raise CheckError("driver rejected its script: " + err[-300:])
        res["crash"] = dict(rc=rc, op=last[-1][2:] if last else "?", err=err[-1500:])
        # keep only complete records
        good = [l for l in tl if l.endswith("}") and _json_ok(l)]
        open(tf, "w").write("\n".join(good) + "\n")
        tl = good
        if not good:
            return res
    res["n"], errs, outside = check_trace(chk.work, cfg.get("trace", "TraceGeoMap.tla"), tf, chk.limit())
    res["errs"] = [parse_err(e) for e in errs]
    if outside and not res["crash"]:
        k, text = outside
        op = (json.loads(tl[k-1])["op"] if 0 < k <= len(tl) else "?")
        res["errs"] = [(k or len(tl), op, {"unspecified"})]
        log(text)
    return res


def _json_ok(l):
    try:
        json.loads(l)
        return True
    except ValueError:
        return False


def relevant(cfg, op, tags):
    if cfg["tags"] is ALL or op in cfg["ops"] or "unspecified" in tags:
        return True
    return bool(tags & set(cfg["tags"]))


def generated(chk, cfg, out, quick):
    """Scripts covering the transition graph that TLC printed."""
    graph = model.Graph(out)
    if not graph.transitions:
        raise CheckError("MCGeoMap printed no transitions")
    parts, limit = (3, 30000) if quick else (8, 60000)
    res, n = [], 0
    for i in range(parts):
        lines, k = model.scripts(graph, random.Random("%s/%d/gen/%d" % (chk.pid, chk.seed, i)), i, parts, limit)
        res.append(("gen%d" % i, lines))
        n += k
    chk.cov["generated"] = dict(initial_maps=len(graph.init), states=len(graph.succ), transitions=graph.transitions,
                                scripts=sum(len(l) for _, l in res))
    return res


def run(chk, replay=None):
    cfg = P[chk.pid]
    quick = chk.tier == "quick"
    exe = build_driver(chk, cfg)
    if replay:
        scripts = [("replay", [l for l in open(replay).read().split("\n") if l and not l.startswith("#")])]
    else:
        scripts = []
        rounds = 1 if quick else 12
        nmaps = {True: max(10, int(720 / cfg["steps"])) if cfg["steps"] > 6 else 60,
                 False: max(20, int(2000 / cfg["steps"])) if cfg["steps"] > 6 else 160}[quick]
        for r in range(rounds):
            for s in range(8):
                rng = random.Random("%s/%d/%d/%d" % (chk.pid, chk.seed, r, s))
                prof = cfg["prof"][s % len(cfg["prof"])]
                sc = make_script(rng, cfg, nmaps, prof)
                if s % 2 == r % 2:
                    sc += make_script(rng, dict(cfg, steps=min(cfg["steps"], 15)), 1, prof, True)
                scripts.append(("s%d_%d" % (r, s), sc))
    ops, nrec, nmapsrun = {}, 0, 0
    samples = []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        models = start_models(chk, ex, cfg) if not replay else []
        if cfg.get("gen") and not replay:
            genmodel = start_models(chk, ex, dict(models=[cfg["gen"]]))
        futs = {ex.submit(run_shard, chk, cfg, exe, n, l): n for n, l in scripts}
        if cfg.get("gen") and not replay:
            futs.update({ex.submit(run_shard, chk, cfg, exe, n, l): n
                         for n, l in generated(chk, cfg, genmodel[0][1].result(), quick)})
            models += genmodel
        for f in cf.as_completed(futs):
            n, res = futs[f], f.result()
            nrec += res["n"]
            tl = open(res["trace"], errors="replace").read().split("\n")
            for l in tl:
                m = re.match(r'\{"op":"(\w+)"', l)
                if m:
                    ops[m.group(1)] = ops.get(m.group(1), 0) + 1
            if res["crash"]:
                c = res["crash"]
                what = ("HANG" if c["rc"] in (14, -14, 124) else "CRASH") + " in operation %s (exit %d)\n%s" % (c["op"], c["rc"], c["err"])
                sc = concrete_script(tl, len(tl))
                m = re.match(r"(\w+) \[(.*)\]", c["op"])
                if m:
                    sc.append(" ".join([m.group(1)] + m.group(2).split(",")))
                chk.violation(what, "# %s\n" % what.replace("\n", "\n# ") + "\n".join(sc) + "\n")
            for line, op, tags in res["errs"]:
                if len(chk.violations) >= 10:
                    break
                if not relevant(cfg, op, tags):
                    log("  (not this property) %s line %d: %s %s" % (n, line, op, sorted(tags)))
                    continue
                sc = concrete_script(tl, line)
                what = "operation %s: implementation and specification disagree on %s" % (sc[-1], sorted(tags))
                chk.violation(what, "# %s\n# record: %s\n" % (what, tl[line-1][:3000]) + "\n".join(sc) + "\n")
            if len(samples) < 3:
                k = [i for i, l in enumerate(tl) if l.startswith('{"op":"map"')][1:2]
                if k:
                    samples.append(concrete_script(tl, k[0])[-40:])
            if not res["crash"] and not res["errs"]:
                os.unlink(res["trace"])
            if chk.violations and quick:
                stop_all()
                return
        finish_models(chk, models)
    chk.cov["samples"] = samples
    chk.cov["states"] += nrec
    chk.cov["transitions"] += nrec
    chk.cov["traces_validated_against_impl"] += ops.get("map", 0)
    chk.cov["operations"] = ops
    if not replay:
        need = [o for o in cfg.get("need", cfg["ops"]) if o not in ops]
        if need and not chk.violations:
            raise CheckError("vacuous run: operations never executed: %s" % need)
