#!/usr/bin/env python3
"""check.py ID [--replay FILE]: decides property ID on /repo's working tree."""
import json, os, random, sys, traceback
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "pylib"))
import core, props


def main():
    pid = sys.argv[1]
    prop = props.get(pid)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    work = core.Work()
    try:
        if "--replay" in sys.argv:
            return replay(work, pid, prop, sys.argv[sys.argv.index("--replay") + 1])
        return props.run(work, pid, prop, tier, seed)
    finally:
        work.close()


def replay(work, pid, prop, path):
    r = json.load(open(path))
    core.build(work, *prop["targets"])
    v = core.validate_shard(work, 0, r.get("scenarios") or [r["scenario"]], r["module"], r["cfg"],
                            binary=prop.get("binary", "harness"))
    for sc, why, part in v.rejected:
        print(f"VIOLATION property={pid} replay={path}")
        print("  " + why)
    if not v.rejected:
        print(f"{pid}: replay of {path} is accepted")
    return 1 if v.rejected else 0


if __name__ == "__main__":
    try:
        rc = main()
    except core.Broken as e:
        print("CHECK BROKEN:", e, file=sys.stderr)
        rc = 3
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.exit(rc)
