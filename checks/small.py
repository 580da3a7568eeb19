"""Checks of the smaller components: one driver, one trace specification and (where the
component has a state space of its own) one exhaustively checked model per property."""
import concurrent.futures as cf
import json, os, re, sys
from lib import *

H = lambda f: os.path.join(VERIF, "harness", f)


CELL = ["src/cellimage/foureightsegmentation.cxx"]


def _lut(q, seed):
    w = 400 if q else 3000
    sh = [["5", "5", str(seed), "0", "0"]] if not q else [["4", "4", str(seed), "0", "0"]]
    return sh + [["0", "0", str(seed*100+i), str(w), "25"] for i in range(3 if q else 7)]


def _poly(mode, nq, nt, qs=6, ts=8):
    def f(q, seed):
        k = qs if q else ts
        return [[mode, str(seed*1000+i), str(nq if q else nt), str(i), str(k)] for i in range(k)]
    return f


def _dsl(q, seed):
    k = 5 if q else 8
    n, d = (80, 7) if q else (600, 9)
    r = [["grow", str(seed*100+i), str(n), str(d), str(i), str(k)] for i in range(k)]
    k = 2
    return r + [["tangent", str(seed*100+i), str(4000 if q else 60000), str(8 if q else 10), str(i), str(k)] for i in range(k)]


def _crack(q, seed):
    k = 8
    return [[str(seed*1000+i), str(70 if q else 1500), "1" if q else "2", str(i), str(k)] for i in range(k)]


def _cell(mode, nq, nt):
    def f(q, seed):
        k = 7 if q else 8
        return [[mode, str(seed*1000+i), str(nq if q else nt), "1" if q else "2", str(i), str(k)] for i in range(k)]
    return f


def _poly_n(nq, nt):
    return lambda q, seed: [[str(seed*1000), str(nq if q else nt), str(i), "8"] for i in range(7 if q else 8)]


def _course(q, seed):
    k = 7 if q else 8
    return [["%d_%d" % (seed, i), str(1500 if q else 20000)] for i in range(k)]


def _course_script(args):
    sys.path.insert(0, os.path.join(VERIF, "gen"))
    import courses
    return courses.script(args[0], int(args[1]))


def _py(**modes):
    """mode -> (shards, count) of the quick tier; the thorough tier does 25 times as much."""
    def f(q, seed):
        return [[m, str(seed*1000+i), str(n if q else 25*n), str(i), str(k)]
                for m, (k, n) in modes.items() for i in range(k)]
    return f


# property -> driver sources, driver arguments per shard (quick?, seed), trace module, models
T = {
 "C14": dict(src=["lutdriver.cxx"], shards=_lut, trace="TraceLabelLUT.tla", models=["MCLabelLUT.tla"],
             ops=["new", "relabel", "append", "init"]),
 "C18": dict(src=["polydriver.cxx"], shards=_poly("edit", 400, 6000, 7), trace="TracePolygon.tla", start=["new"],
             ops=["new", "push", "extend", "ins", "insr", "erase", "set", "split", "rev", "swap", "copy", "clear", "query"]),
 "C19": dict(src=["polydriver.cxx"], shards=_poly("scan", 1500, 15000, 7), trace="TraceScan.tla", ops=["line", "area", "ring"]),
 "C27": dict(src=["polydriver.cxx"], shards=_poly("hull", 1500, 20000, 7), trace="TraceHull.tla", ops=["hull", "simplify"]),
 "C15": dict(src=["crackdriver.cxx"], shards=_crack, trace="TraceCrackMap.tla", geomap=True, ops=["crack"]),
 "C20": dict(src=["celldriver.cxx"], repo=CELL, shards=_cell("build", 500, 8000), trace="TraceCellMap.tla", ops=["build"]),
 "C21": dict(src=["celldriver.cxx"], repo=CELL, shards=_cell("walk", 2500, 30000), trace="TraceCellMap.tla", models=["MCCellMap.tla"],
             start=["new"], ops=["new", "rin", "mf", "rb", "me", "copy", "assign", "swap"]),
 "C22": dict(src=["celldriver.cxx"], repo=CELL, shards=_cell("pyr", 2500, 30000), trace="TracePyramid.tla", models=["MCPyramid.tla"],
             start=["new"], ops=["new", "rin", "mf", "rb", "me", "re", "rewe", "get", "goto", "approach", "cut", "begin", "change", "end", "store"]),
 "C25": dict(src=["coursedriver.cxx"], shards=_course, script=_course_script, trace="TraceCourses.tla", geomap=True, ops=["sort", "split"]),
 "C29": dict(src=["dartposdriver.cxx"], shards=_poly_n(1500, 20000), trace="TraceDartPos.tla", models=["MCDartPos.tla"], geomap=True,
             start=["new"], ops=["new", "next", "prev", "arc", "leave", "isect", "copy"]),
 "C30": dict(py=True, shards=_py(poly=(6, 350), hull=(1, 600)), trace=dict(poly="TracePyPolygon.tla", hull="TraceHull.tla"), start=["new", "hull", "simplify"],
             ops=["new", "copy", "del", "extend", "get", "ins", "isect", "move", "push", "query", "rev", "round", "scale", "set", "slice",
                  "split", "swap", "hull", "simplify"]),
 "C31": dict(py=True, shards=_py(stats=(7, 500)), trace="TracePolyStats.tla", start=["new"], ops=["new", "add", "merge", "pickle", "restore", "poly"]),
 "C32": dict(py=True, shards=_py(scan=(3, 500), lut=(1, 500), dsl=(1, 300), crack=(3, 60), dpos=(2, 500), sort=(2, 350)), start=["new", "line", "area", "mark", "geom4", "tangent", "crack", "sort", "split"],
             trace=dict(scan="TraceScan.tla", lut="TraceLabelLUT.tla", dsl="TraceDSL.tla", crack="TracePyCrack.tla", dpos="TraceDartPos.tla", sort="TraceCourses.tla"),
             ops=["line", "area", "mark", "new", "relabel", "append", "init", "add", "geom4", "tangent", "crack", "next", "prev", "arc", "leave", "isect", "copy", "sort", "split"]),
 "C34": dict(py=True, shards=_py(spws=(7, 130)), trace="TraceWatersheds.tla", ops=["cp", "edge"]),
 "C38": dict(py=True, shards=_py(value=(7, 2500)), trace="TraceValues.tla",
             start=["values", "round", "pair"], ops=["values", "round", "pair", "step", "dup"]),
 "C37": dict(py=True, shards=_py(spline=(7, 4000)), trace="TraceSpline.tla",
             start=["spline"], ops=["spline"]),
 "C36": dict(py=True, shards=_py(tan=(7, 1500)), trace="TraceTangents.tla",
             start=["tan", "curv", "chord", "third", "smooth", "append", "compose", "conv", "equi", "theta", "fit"],
             ops=["tan", "curv", "chord", "third", "smooth", "append", "compose", "conv", "equi", "theta", "fit", "add", "copy", "end"]),
 "C33": dict(src=["polydriver.cxx"], shards=_poly("resample", 700, 15000, 7), trace="TraceResample.tla", ops=["linear", "lsq", "smooth"]),
 "C26": dict(src=["dsldriver.cxx"], shards=_dsl, trace="TraceDSL.tla", ops=["add", "geom", "tangent"], flags=["-UNDEBUG"]),
}


def parse_err(raw):
    m = re.match(r'(\d+), "(\w+)", \{(.*)\}$', raw)
    return int(m.group(1)), m.group(2), set(re.findall(r'"([\w-]+)"', m.group(3)))


def history(tl, line, cfg):
    """The records leading to the failing one (from the last record that starts a history)."""
    start = cfg.get("start")
    i = line - 1
    if start:
        while i > 0 and not any(tl[i].startswith('{"op":"%s"' % s) or '"op":"%s"' % s in tl[i][:60] for s in start):
            i -= 1
    return tl[i:line][-400:]


def run_shard(chk, cfg, exe, name, args):
    tf = os.path.join(chk.work, name + ".ndjson")
    dargs = args
    if cfg.get("script"):
        sf = os.path.join(chk.work, name + ".txt")
        open(sf, "w").write(cfg["script"](args))
        dargs = [sf]
    rc, out, err = run_driver(exe, [tf, *dargs], chk.limit())
    tl = [l for l in open(tf, errors="replace").read().split("\n") if l] if os.path.exists(tf) else []
    res = dict(n=0, errs=[], crash=None, tl=tl, args=args)
    if rc == 3:
        raise CheckError("driver: " + err[-500:])
    if rc != 0 or "DONE" not in err:
        last = [l for l in err.split("\n") if l.startswith("@ ")]
        res["crash"] = dict(rc=rc, op=last[-1][2:] if last else "?", err=err[-1500:])
        tl = [l for l in tl if l.endswith("}")]
        while tl and not _ok(tl[-1]):
            tl.pop()
        res["tl"] = tl
        open(tf, "w").write("\n".join(tl) + "\n")
        if not tl:
            return res
    mod = cfg["trace"] if isinstance(cfg["trace"], str) else cfg["trace"][args[0]]
    res["n"], errs, outside = check_trace(chk.work, mod, tf, chk.limit(), heap=cfg.get("heap", "3g"))
    res["errs"] = [parse_err(e) for e in errs]
    if outside and not res["crash"]:
        k, text = outside
        k = k if 0 < k <= len(tl) else len(tl)
        m = re.search(r'"op":"(\w+)"', tl[k-1])
        res["errs"] = [(k, m.group(1) if m else "?", {"unspecified"})]
        log(text)
    os.unlink(tf)
    return res


def _ok(l):
    try:
        json.loads(l)
        return True
    except ValueError:
        return False


def run(chk, replay=None):
    cfg = T[chk.pid]
    quick = chk.tier == "quick"
    inc = ["-I" + os.path.join(REPO, "src", "geomap"), "-I" + os.path.join(REPO, "src", "cellimage"), "-I" + os.path.join(REPO, "src")]
    with cf.ThreadPoolExecutor(NCPU) as ex:
        models = start_models(chk, ex, cfg) if not replay else []
        srcs = [H(s) for s in cfg.get("src", [])]
        srcs += [os.path.join(REPO, s) for s in cfg.get("repo", [])]
        libs = []
        if cfg.get("geomap"):
            srcs += geomap_sources()
            libs = ["-lvigraimpex"]
        if cfg.get("py"):
            import geo
            geo.build_python(chk)
            exe = ["/usr/bin/python3", H("pycomp.py"), chk.work]
        else:
            exe = build(chk.work, chk.pid + "_driver", srcs, flags=inc + cfg.get("flags", []),
                        libs=libs + cfg.get("libs", []))
        if replay:
            shards = [json.loads(open(replay).readline().lstrip("# "))["args"]]
        else:
            shards = cfg["shards"](quick, chk.seed)
        futs = [ex.submit(run_shard, chk, cfg, exe, "s%d" % i, a) for i, a in enumerate(shards)]
        ops, n = {}, 0
        for f in cf.as_completed(futs):
            res = f.result()
            n += res["n"]
            tl = res["tl"]
            head = "# " + json.dumps(dict(args=res["args"])) + "\n"
            for l in tl:
                m = re.search(r'"op":"(\w+)"', l[:80])
                if m:
                    ops[m.group(1)] = ops.get(m.group(1), 0) + 1
            if res["crash"]:
                c = res["crash"]
                what = ("HANG" if c["rc"] in (14, -14, 124) else "CRASH") + " in operation %s (exit %d)\n%s" % (c["op"], c["rc"], c["err"])
                chk.violation(what, head + "# " + what.replace("\n", "\n# ") + "\n" + "\n".join(history(tl, len(tl), cfg)) + "\n")
            for line, op, tags in res["errs"]:
                if len(chk.violations) >= 10:
                    break
                hist = history(tl, line, cfg)
                what = "operation %s: implementation and specification disagree on %s\n%s" % (op, sorted(tags), hist[-1][:1200])
                key = cfg["key"](hist[-1], op, tags) if "key" in cfg else None
                chk.violation(what, head + "# " + what.replace("\n", "\n# ") + "\n" + "\n".join(hist) + "\n", key=key)
            if len(chk.cov["samples"]) < 3 and tl:
                chk.cov["samples"].append(tl[len(tl) // 2][:1500])
            if chk.violations and quick:
                stop_all()
                return
        finish_models(chk, models)
    chk.cov["states"] += n
    chk.cov["transitions"] += n
    starts = cfg.get("start") or list(ops)
    chk.cov["traces_validated_against_impl"] += sum(ops.get(s, 0) for s in starts)
    chk.cov["operations"] = ops
    if not replay:
        need = [o for o in cfg.get("ops", []) if o not in ops]
        if need and not chk.violations:
            raise CheckError("vacuous run: operations never executed: %s" % need)
