#!/usr/bin/env python3
"""Mutation sweep (development aid, not a registered check): small syntactic changes to the
sources of the library, each judged by a light version of the checks.

mutate.py OUT.jsonl N SEED JOBS FILE...      N mutants sampled over the given files (0: all)
mutate.py --one OUT.jsonl MUTANT_JSON        judge one recorded mutant with the quick checks
"""
import concurrent.futures as cf
import json, os, random, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "..", "checks"))
import lib, geo, small

ORIG = lib.REPO
GEO = ["C%02d" % i for i in list(range(1, 14)) + [16, 17, 23]]
CHECKS = [
    (r"python_bindings", ["py"]),
    (r"labellut", ["C14", "geo"]), (r"polygon\.hxx|box\.hxx", ["C18", "C19", "C27", "geo"]),
    (r"crackedgemap|crackconnections", ["C15"]), (r"cellimage/", ["C20", "C21", "C22"]),
    (r"dsl", ["C26"]), (r".", ["geo", "C25"])]

SWAPS = [("nextSigma", "prevSigma"), ("nextPhi", "prevPhi"), ("nextAlpha", "nextPhi"), ("leftFace", "rightFace"),
         ("startNode", "endNode"), ("StartNode", "EndNode"), ("++", "--"), ("front()", "back()"), ("begin()", "end()"),
         ("true", "false"), ("min(", "max("), ("LeftFace", "RightFace"), ("push_back", "pop_back"), ("first", "second"),
         ("upperLeft", "lowerRight"), ("width()", "height()"), ("[0]", "[1]"), (".x", ".y")]
OPS = [(r"==", "!="), (r"!=", "=="), (r"(?<![<>-])<(?![<=])(?=[ \w(-])", "<="), (r"<=", "<"), (r"(?<![>\-<])>(?![>=])(?= [\w(-])", ">="),
       (r">=", ">"), (r"&&", "||"), (r"\|\|", "&&"), (r" \+ ", " - "), (r" - ", " + "), (r"\+=", "-="), (r"-=", "+="),
       (r" \+ 1\b", ""), (r" - 1\b", ""), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"(?<=[(\s])!(?=\w)", ""), (r" \* ", " + "),
       (r"(?<=\()-(?=\w)", ""), (r"\|=", "="), (r"&= ~", "|= "), (r"0\.5", "0.25")]


def mutants(path):
    src = open(os.path.join(ORIG, path), errors="replace").read()
    res, depth_comment = [], False
    lines = src.split("\n")
    for i, l in enumerate(lines):
        s = l.strip()
        if depth_comment:
            if "*/" in l:
                depth_comment = False
            continue
        if s.startswith("/*"):
            depth_comment = "*/" not in l
            continue
        code = l.split("//")[0]
        if path.endswith("geomap/cppmap.cxx") and 1352 <= i <= 1686:    # checkConsistency()
            continue
        if not s or s.startswith(("#", "//", "*", "template", "typedef", "friend", "using")) or "vigra_precondition" in l or "cerr" in l:
            continue
        def put(a, b, new, what):
            res.append(dict(file=path, line=i + 1, what=what, old=l, new=l[:a] + new + l[b:]))
        for pat, new in OPS:
            for m in re.finditer(pat, code):
                if "operator" in code[max(0, m.start()-9):m.start()] or '"' in code or "<<" in code:
                    continue
                put(m.start(), m.end(), new, "%s -> %s" % (m.group(0), new))
        for a, b in SWAPS:
            for x, y in ((a, b), (b, a)):
                k = code.find(x)
                while k >= 0:
                    pre = code[k-1:k]
                    if not (x[0].isalpha() and (pre.isalnum() or pre == "_") and x not in ("LeftFace", "RightFace", "StartNode", "EndNode")) and '"' not in code:
                        put(k, k + len(x), y, "%s -> %s" % (x, y))
                    k = code.find(x, k + 1)
        if re.match(r"^\s+[\w\.\->\[\]\(\)\*:]+(\s*[-+|&]?=\s*[^=].*|\(.*\)|\+\+|--);\s*$", code) and not re.match(r"^\s+(return|delete|throw)\b", code):
            put(0, len(l), "", "delete: " + s)
        m = re.match(r"^(\s*(?:else )?if\s*\()(.*)(\)\s*\{?\s*)$", code)
        if m and m.group(2).count("(") == m.group(2).count(")"):
            put(0, len(l), m.group(1) + "true || (" + m.group(2) + ")" + m.group(3), "if true: " + s)
            put(0, len(l), m.group(1) + "false && (" + m.group(2) + ")" + m.group(3), "if false: " + s)
        if re.match(r"^\s*(continue|break);\s*$", code):
            put(0, len(l), ";", "delete: " + s)
    return res


def worker(args):
    mut, keep = args
    d = tempfile.mkdtemp(prefix="mut_")
    try:
        return dict(mut, **judge(mut, d))
    except Exception as e:
        return dict(mut, verdict="error", detail=repr(e)[:400])
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Chk:
    def __init__(self, work, pid):
        self.work, self.pid, self.seed, self.tier = work, pid, 1, "quick"

    def limit(self):
        return 300


CACHE = os.path.join(tempfile.gettempdir(), "mutcache")


def cached_build(work, name, sources, flags=(), libs=(), opt=(), cxx="g++"):
    """lib.build, but objects of sources that cannot see the mutated file are kept."""
    import hashlib
    mutated = os.environ["MUTATED"]
    os.makedirs(CACHE, exist_ok=True)
    objs = []
    for i, src in enumerate(sources):
        rel = src.replace(lib.REPO, "R")
        o = os.path.join(work, "%s_%d.o" % (name, i))
        cmd = [cxx, *lib.BASE, *opt, *flags, "-c", src, "-o", o]
        if mutated.endswith(".cxx") and not src.endswith(mutated):
            h = hashlib.sha1(repr([c.replace(lib.REPO, "R").replace(work, "W") for c in cmd] + [rel, ORIG, open(src, errors="replace").read()]).encode()).hexdigest()
            c = os.path.join(CACHE, h + ".o")
            if not os.path.exists(c):
                rc, out = lib.sh(cmd, 600)
                if rc:
                    raise lib.CheckError("compiling %s failed" % src)
                shutil.copy(o, c + str(os.getpid()))
                os.rename(c + str(os.getpid()), c)
            objs.append(c)
            continue
        rc, out = lib.sh(cmd, 600)
        if rc:
            raise lib.CheckError("compiling %s failed" % src)
        objs.append(o)
    exe = os.path.join(work, name)
    rc, out = lib.sh([cxx, *opt, *objs, "-o", exe, *libs], 300)
    if rc:
        raise lib.CheckError("linking %s failed" % name)
    return exe


OPT = ("-O0", "-D_GLIBCXX_ASSERTIONS")


def judge(mut, d):
    repo = os.path.join(d, "repo")
    os.makedirs(repo)
    shutil.copytree(os.path.join(ORIG, "src"), os.path.join(repo, "src"))
    f = os.path.join(repo, mut["file"])
    ls = open(f, errors="replace").read().split("\n")
    assert ls[mut["line"]-1] == mut["old"]
    ls[mut["line"]-1] = mut["new"]
    open(f, "w").write("\n".join(ls))
    lib.REPO = geo.REPO = small.REPO = repo
    lib.NCPU = 1
    os.environ["MUTATED"] = mut["file"]
    lib.build = geo.build = small.build = cached_build
    groups = next(c for r, c in CHECKS if re.search(r, mut["file"]))
    if mut["file"].endswith("facestatistics.hxx"):
        groups = ["C23"]
    for g in groups:
        r = run_group(g, d)
        if r:
            return r
    return dict(verdict="survived")


def run_group(g, d):
    w = os.path.join(d, g)
    os.makedirs(w)
    try:
        if g in ("geo", "py", "C23"):
            pids = ["C24", "C28"] if g == "py" else [g] if g == "C23" else GEO[:-1]
            cfg0 = geo.P[pids[0]]
            ch = Chk(w, g)
            if g == "py":
                exe = geo.build_python(ch)
            else:
                exe = lib.build(w, "geodriver", [os.path.join(lib.VERIF, "harness", "geodriver.cxx")] + lib.geomap_sources(),
                                flags=["-I" + os.path.join(lib.REPO, "src", "geomap")] + cfg0.get("flags", []),
                                libs=["-lvigraimpex"], opt=OPT)
            n = 0
            for rnd in range(3):
                lines, cfg = [], None
                for pid in pids:
                    cfg = geo.P[pid]
                    rng = random.Random("mut/%s/%d" % (pid, rnd))
                    prof = cfg["prof"]
                    for k in range(2 if g == "geo" else 6):
                        lines += geo.make_script(rng, cfg, 2 if cfg["steps"] > 6 else 4, prof[(rnd + k) % len(prof)])
                res = geo.run_shard(ch, cfg, exe, "s%d" % rnd, lines)
                n += res["n"]
                if res["crash"]:
                    return dict(verdict="killed", by=g, how="crash " + res["crash"]["op"][:60])
                if res["errs"]:
                    return dict(verdict="killed", by=g, how=str(res["errs"][0])[:100], nerr=len(res["errs"]))
        else:
            cfg = small.T[g]
            inc = ["-I" + os.path.join(lib.REPO, x) for x in ("src/geomap", "src/cellimage", "src")]
            srcs = [small.H(s) for s in cfg["src"]] + [os.path.join(lib.REPO, s) for s in cfg.get("repo", [])]
            libs = []
            if cfg.get("geomap"):
                srcs += lib.geomap_sources()
                libs = ["-lvigraimpex"]
            exe = lib.build(w, "drv", srcs, flags=inc + cfg.get("flags", []), libs=libs, opt=OPT)
            sh = cfg["shards"](True, 1)
            pick = sh[:2] + (sh[-1:] if g in ("C14", "C26") else [])
            for i, a in enumerate(pick):
                res = small.run_shard(Chk(w, g), cfg, exe, "s%d" % i, a)
                if res["crash"]:
                    return dict(verdict="killed", by=g, how="crash " + res["crash"]["op"][:60])
                if res["errs"]:
                    return dict(verdict="killed", by=g, how=str(res["errs"][0])[:100], nerr=len(res["errs"]))
    except lib.CheckError as e:
        t = str(e)
        return dict(verdict="nocompile" if "compiling" in t or "linking" in t else "noanswer", by=g, how=t[:300])
    return None


def main():
    out, n, seed, jobs = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
    allm = []
    for f in sys.argv[5:]:
        ms = mutants(f)
        print(f, len(ms), file=sys.stderr)
        allm += ms
    rng = random.Random(seed)
    rng.shuffle(allm)
    if n:
        allm = allm[:n]
    seen = set()
    if os.path.exists(out):
        for l in open(out):
            r = json.loads(l)
            seen.add((r["file"], r["line"], r["new"]))
    allm = [m for m in allm if (m["file"], m["line"], m["new"]) not in seen]
    lib.log = lambda *a: None
    small.log = geo.log = lib.log
    with cf.ProcessPoolExecutor(jobs) as ex, open(out, "a") as o:
        for r in ex.map(worker, [(m, 0) for m in allm]):
            o.write(json.dumps(r) + "\n")
            o.flush()


if __name__ == "__main__":
    main()
