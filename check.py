#!/usr/bin/env python3-vt
"""check.py ID            decide one property (VERIF_SEED, VERIF_TIER)
check.py --replay FILE    re-execute a saved counterexample: exit 1 if it still fails"""
import json, os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def main():
    from bfv import engine, build
    if sys.argv[1] == "--replay":
        with open(sys.argv[2]) as f:
            d = json.load(f)
        mod = engine.load(d["property"])
        engine.prebuild(mod)
        root = engine.scratch_root()
        try:
            r = engine.replay_case(mod, d["arm"], d["case"], root)
        finally:
            shutil.rmtree(root, ignore_errors=True)
        print("holds" if r["ok"] else "FAILS: " + r["msg"])
        return 0 if r["ok"] else 1
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    except ValueError:
        seed = engine.derive(os.environ["VERIF_SEED"]) % (1 << 31)
    try:
        return engine.check(sys.argv[1], seed, tier)
    except build.BuildError as e:
        print("build failed:\n%s" % e, file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
