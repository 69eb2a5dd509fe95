#!/usr/bin/env python3
"""selftest.py [ID...]: shows that the specification and the validators can say no.

1. Faults in the specification (Mutant constants of Machine, Batch, Epochs) must violate the property
   TLC checks on them; the same constants without the fault must not.
2. Traces recorded from the library, with one outcome altered, must be rejected by the validator of
   each property whose subject the outcome is. Prints, per property and kind of outcome, how many
   alterations were rejected; outcomes a property does not speak about are expected to pass.

Not a registered check: it exercises the machinery, not the code."""
import copy, json, os, random, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "pylib"))
import core, models, props

MACHINE = [
    ("wrap", ["C01"], dict(Fam="classic", Boost=True, NStates=2, Feat=1)), ("fall", ["C01"], dict(Fam="classic")),
    ("wrap", ["C01"], dict(Fam="bitwise", Clf=False, Feat=1, NStates=2, Thresh=2, Boost=True)),
    ("flag", ["C02"], dict(Fam="bitwise")), ("flag", ["C02"], dict(Fam="bitwise", Clf=False, Thresh=2)),
    ("weight", ["C03"], dict(Weighted=True, Thresh=3)), ("weight", ["C03"], dict(Clf=False, Weighted=True, Thresh=4)),
    ("penaliseAll", ["C14"], dict(Clf=False, NStates=2, Thresh=2)),
    ("wrap", ["C13"], dict(Boost=True)), ("role", ["C15"], dict(NStates=2)), ("margin", ["C15"], dict(NStates=1)),
    ("direction", ["C16"], dict(Clf=False, Thresh=2, NStates=2)),
    ("amount", ["C16"], dict(Clf=False, Thresh=3, NStates=2, Weighted=True, MaxWeight=3, Sn=0)),
]


def spec_faults(work):
    jobs = []
    for i, (mut, pr, kw) in enumerate(MACHINE):
        for m in ("none", mut):
            jobs.append((f"Machine {mut} {' '.join(pr)} {kw}", m, f"m{i}{m}", "Machine", models.machine_cfg(pr, Mutant=m, **kw)))
    for mut in ("none", "stale", "last", "shift", "short"):
        cfg = f'SPECIFICATION Spec\nCONSTANTS Props = {{"C05"}} Depth = 2 Mutant3 = "{mut}"\nINVARIANT Elementwise\nCHECK_DEADLOCK FALSE\n'
        jobs.append((f"Batch {mut}", mut, "b" + mut, "Batch", cfg))
    for which, mut in (("own", "skip"), ("own", "replace"), ("own", "label"), ("other", "skip"), ("other", "replace"), ("reg", "skip"), ("reg", "replace")):
        for m in ("none", mut):
            cfg = (f'SPECIFICATION Spec2\nCONSTANTS Props = {{"C22"}} Which = "{which}" Ne = 2 Mutant2 = "{m}"\n'
                   "INVARIANTS Ready Marks\nCHECK_DEADLOCK FALSE\n")
            jobs.append((f"Epochs {which} {mut}", m, f"e{which}{mut}{m}", "Epochs", cfg))
    for mut in ("none", "scratch", "generator"):
        cfg = f'SPECIFICATION Spec\nCONSTANTS Props = {{}} Mutant4 = "{mut}" Users = {{1, 2}} Depth = 2\nINVARIANT NoInterference\nCHECK_DEADLOCK FALSE\n'
        jobs.append((f"Threads {mut}", mut, "t" + mut, "Threads", cfg))
    bad = 0

    def go(j):
        rc, txt = core.tlc(work, j[2], j[3], j[4], workers=1)
        return j, rc, "violated" in txt
    with ThreadPoolExecutor(core.CORES) as ex:
        for j, rc, violated in ex.map(go, jobs):
            ok = (rc == 0) if j[1] == "none" else (rc != 0 and violated)
            if not ok or j[1] != "none":
                print(("ok   " if ok else "WRONG"), j[0], "" if ok else f"fault {j[1]}: rc {rc}, violated {violated}")
            bad += not ok
    return bad


# ---------------------------------------------------------------- recorded traces
OUTCOME = {"st", "stb", "r", "d", "db", "rows", "w", "pol", "dig", "rep", "dims", "cells", "res", "eq", "chg", "wrong", "hash", "txt", "parq",
           "after", "wch", "wsum", "any", "lab", "pair", "down", "up"}


def leaves(v, path=()):
    if isinstance(v, dict):
        for k in v:
            yield from leaves(v[k], path + (k,))
    elif isinstance(v, list):
        for i, x in enumerate(v):
            yield from leaves(x, path + (i,))
    else:
        yield path


def alter(v, rng):
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + rng.choice([-1, 1, 3, -3])
    if v == "OK":
        return "VALUE_ERROR"
    if isinstance(v, str) and len(v) == 16:
        return ("0" if v[0] != "0" else "1") + v[1:]
    return v + "x" if isinstance(v, str) else v


def field(path):
    return ".".join([str(k) for k in path if isinstance(k, str) and k not in "abcdefghijk" or k == "d"][:3])


def trace_faults(work, ids, per=24):
    core.build(work, "model", "cont")
    for pid in ids:
        rng = random.Random(pid)
        p = props.get(pid)
        scs = p["scenarios"](random.Random(f"{pid}-1-quick"), "quick", work)
        groups = {}
        for s in scs:
            groups.setdefault(core.group_of(s["sid"]), []).append(s)
        gs = sorted(groups.values(), key=lambda g: sum(map(core.cost, g)))[: max(1, len(groups) * 2 // 3)]
        gs = rng.sample(gs, min(per, len(gs)))
        jobs = []
        t = work.path(f"st-{pid}")
        core.run_harness(work, [s for g in gs for s in g], t, p.get("env"), p.get("binary", "harness"))
        everything = core.read_trace(t)
        for i, g in enumerate(gs):
            lines = [json.loads(x) for x in core.slice_of(everything, g[0]["sid"])]
            for k in range(max(1, per // len(gs))):
                cand = [n for n, e in enumerate(lines) if set(e) & OUTCOME and e["ev"] not in ("inject", "begin", "data")]
                if not cand:
                    continue
                n = rng.choice(cand)
                e = copy.deepcopy(lines[n])
                keys = [q for q in e if q in OUTCOME and not (pid == "C20" and q == "w")]
                q = rng.choice(keys)
                ls = list(leaves(e[q], (q,)))
                if not ls:
                    continue
                pa = rng.choice(ls)
                o = e
                for x in pa[:-1]:
                    o = o[x]
                o[pa[-1]] = alter(o[pa[-1]], rng) + (e["reps"] // 2 if e["ev"] == "stat" and pa[0] != "st" else 0) if isinstance(o[pa[-1]], int) else alter(o[pa[-1]], rng)
                out = work.path(f"st-{pid}-{i}-{k}.bad")
                with open(out, "w") as f:
                    for m, l in enumerate(lines):
                        f.write(json.dumps(e if m == n else l, separators=(",", ":")) + "\n")
                jobs.append((f"{e['ev']}{'.' + e['fn'] if 'fn' in e else ''} {field(pa)}", out, f"{pid}-{i}-{k}"))

        def go(j):
            rc, txt = core.tlc(work, j[2], p["module"], p["cfg"], env={"TRACE": j[1]})
            return j[0], rc != 0, j[1]
        tab = {}
        with ThreadPoolExecutor(core.CORES) as ex:
            for f, rej, out in ex.map(go, jobs):
                a = tab.setdefault(f, [0, 0])
                a[0] += rej
                a[1] += 1
        print(pid, f"{sum(a for a, _ in tab.values())} of {sum(b for _, b in tab.values())} rejected;",
              ", ".join(f"{f} {a}/{b}" for f, (a, b) in sorted(tab.items())), flush=True)


def main():
    work = core.Work()
    try:
        ids = sys.argv[1:] or props.ids()
        props.get("C01")
        bad = spec_faults(work) if not sys.argv[1:] else 0
        trace_faults(work, ids)
        return 1 if bad else 0
    finally:
        work.close()


if __name__ == "__main__":
    sys.exit(main())
