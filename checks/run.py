#!/usr/bin/env python3
"""run.py <property id> [quick|thorough] [--replay FILE]
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check cannot answer."""
import argparse, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib


def module_for(pid):
    import geo
    if pid in geo.P:
        return geo, "model_checking"
    import small
    if pid in small.T:
        return small, "model_checking"
    raise lib.CheckError("no check for " + pid)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    chk = None
    try:
        mod, level = module_for(a.pid)
        chk = lib.Check(a.pid, a.tier, seed, level)
        mod.run(chk, replay=a.replay)
        return chk.finish()
    except lib.CheckError as e:
        lib.log("CHECK ERROR: %s" % e)
        if chk and chk.violations:
            return chk.finish()
        return 2
    except Exception:
        traceback.print_exc()
        if chk and chk.violations:
            return chk.finish()
        return 2
    finally:
        if chk:
            import shutil
            shutil.rmtree(chk.work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
