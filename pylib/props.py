"""The checks: per property, which specification, which scenarios."""
import json, os, random, time
from concurrent.futures import ThreadPoolExecutor
import core

REG = {}


def prop(pid, **kw):
    kw.setdefault("targets", ["model"])
    REG[pid] = kw
    return kw


def get(pid):
    import props_step, props_api, props_misc     # fill REG
    return REG[pid]


def ids():
    import props_step, props_api, props_misc
    return sorted(REG)


def run(work, pid, p, tier, seed):
    rng = random.Random(f"{pid}-{seed}-{tier}")
    pool = ThreadPoolExecutor(6)
    fb = pool.submit(core.build, work, *p["targets"])
    mcs = [pool.submit(f) for f in p["mc"](work, tier)] if p.get("mc") else []
    scs = p["scenarios"](rng, tier, work)
    fb.result()
    t = time.time()
    v = core.run_all(work, scs, p["module"], p["cfg"], binary=p.get("binary", "harness"),
                     nshards=p.get("nshards"), env=p.get("env"))
    t_val = time.time() - t
    mc = [f.result() for f in mcs] + work.api
    for sc, why, part in v.rejected[:6]:
        g = core.group_of(sc["sid"])
        path = core.write_replay(pid, p["module"], p["cfg"], sc, why, part,
                                 {"scenarios": [s for s in scs if core.group_of(s["sid"]) == g]} if g != sc["sid"] else None)
        print(f"VIOLATION property={pid} replay={path}")
        print(f"  scenario {sc['sid']}: {why}")
    cov = {"states": sum(m.distinct for m in mc) + v.states,
           "transitions": sum(m.generated for m in mc) + v.events,
           "traces_validated_against_impl": v.accepted,
           "samples": samples(scs),
           "events_by_kind": v.kinds,
           "model_checking_runs": [{"spec": m.module, "name": m.name, "what": m.what, "distinct_states": m.distinct,
                                    "states_generated": m.generated, "seconds": round(m.seconds, 1)} for m in mc],
           "validation_seconds": round(t_val, 1),
           "scope": p.get("scope", "")}
    if p.get("coverage"):
        cov.update(p["coverage"](scs, v))
    core.write_evidence(pid, tier, seed, "model_checking", cov, p.get("assumptions", []), work.wall(), len(v.rejected))
    print(f"{pid} {tier}: {len(scs)} scenarios, {v.events} events, {v.accepted} accepted, {len(v.rejected)} rejected, "
          f"model checking {sum(m.distinct for m in mc)} distinct states, {work.wall():.1f} s")
    return 1 if v.rejected else 0


def cut(x, n=6, depth=0):
    """A readable excerpt of a scenario."""
    if isinstance(x, list):
        if len(x) > n:
            return [cut(y, n, depth + 1) for y in x[:n]] + [f"... {len(x) - n} more"]
        return [cut(y, n, depth + 1) for y in x]
    if isinstance(x, dict):
        return {k: cut(v, n, depth + 1) for k, v in x.items()}
    return x


def samples(scs, k=3):
    if not scs:
        return []
    return [cut(scs[i]) for i in sorted({0, len(scs) // 2, len(scs) - 1})][:k]
