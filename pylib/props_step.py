"""Properties decided with StepTrace.tla: C01-C04, C13-C17."""
import json, os, random
import core, models
from core import SPEC
from props import prop
from gen_step import *

ALL = ["clf/classic", "clf/bitwise", "reg/classic", "reg/bitwise"]
BIGF = [15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 130, 200]
HUGEF = [1023, 1024, 1025, 1090, 2050]
NEDGE = [1, 2, 3, 5, 100, 126, 127, 128, 129, 200, 255, 256, 32766, 32767, 32768, 40000, 65535, 65536, 100000, 16777217, 2147483647]


def cfg(*ps):
    t = open(os.path.join(SPEC, "StepTrace.cfg.in")).read()
    return t.replace("@PROPS@", "{" + ", ".join(f'"{p}"' for p in ps) + "}")


def rep(tier, n, big=8):
    return n * (5 * big if tier == "thorough" else 5)


class Namer:
    def __init__(self, pre):
        self.pre, self.n = pre, 0

    def __call__(self, what=""):
        self.n += 1
        return f"{self.pre}-{what.replace('/', '')}-{self.n}"


def feat(rng, huge=True):
    r = rng.random()
    if huge and r < .01:
        return rng.choice(HUGEF)
    if r < .4:
        return rng.choice(BIGF)
    return rng.choice([1, 2, 3, 5, 8])


def enum(work, feat_, n):
    out = work.path(f"enum-{feat_}-{n}.json")
    rc, txt = core.tlc(work, f"enum-{feat_}-{n}", "Enum", f"SPECIFICATION Spec\nCONSTANTS Feat = {feat_} NStates = {n}\n",
                       env={"OUT": out})
    if rc or not os.path.exists(out):
        raise core.Broken("Enum: " + txt[-2000:])
    d = json.loads(open(out).readline())
    return d["clauses"], d["samples"]


def enum_scenarios(rng, nm, work, ests, sides, feat_=2, n=2, svals=((2, 1), (1, 1)), weighted=(0,)):
    """Every small clause with every sample, many clauses to a model, receiving certain
    feedback: through the own label's at low score, the other's at high score, or a regressor's error."""
    clauses, samples = enum(work, feat_, n)
    out = []
    for est in ests:
        for x in samples:
            for s in svals:
                for boost in (0, 1):
                    for wt in weighted:
                        if est in CLF:
                            for side in sides:
                                # the clauses under test have parity `side` in label 0; clauses of the
                                # opposite parity push the score to an extreme
                                for tgt in (0, 1):
                                    low = tgt == 0      # own label needs a low score, the other one a high one
                                    c = Cfg(rng, est, F=feat_, L=2, per=2 * len(clauses), N=n, T=1, s=s, boost=boost, wt=1, maxw=1000)
                                    fire = clause(rng, x, n, "fire", "mid", 1.)
                                    miss = clause(rng, x, n, "miss", "mid", 1.) if True else None
                                    rows, w = [], []
                                    for l in range(2):
                                        for k in range(len(clauses)):
                                            for par in range(2):
                                                if l == 0 and par == side:
                                                    p, q = clauses[k]
                                                    w.append(rng.choice([0, 1, 3]))
                                                else:
                                                    # positive clauses must win iff a high score is wanted
                                                    wins = (par == 0) != low
                                                    f = fire if (wins and l == 0) or l == 1 else miss
                                                    p, q = f
                                                    w.append(500 if wins and l == 0 else 0)
                                                rows += [p, q]
                                    out.append({"sid": nm("enum-" + est), "ops": [c.inject("a", rows, w), step("a", x, tgt, c)]})
                        else:
                            # single-clause regressor: a handful of states per model kind
                            pass
    return out


def reg_enum(rng, nm, work, direction, feat_=2, n=2, k=64, svals=((2, 1), (1, 1))):
    """Single-clause regressors from enumerated clauses: one update for certain."""
    clauses, samples = enum(work, feat_, n)
    out = []
    for est in REG:
        for x in samples:
            for (p, q) in rng.sample(clauses, min(k, len(clauses))):
                c = Cfg(rng, est, F=feat_, per=1, N=n, T=2, s=rng.choice(svals), wt=rng.choice([0, 1]), maxw=3, loss="MAE", bm=0)
                fires = all(p[j] < 0 if x[j] == 0 else q[j] < 0 for j in range(feat_))
                y = 2 if direction < 0 else 0
                out.append({"sid": nm("enum-" + est), "ops": [c.inject("a", [p, q], [0 if direction < 0 else 1]), step("a", x, y, c)]})
    return out


def generic(rng, nm, ests, n, steps=(3, 6, 12), queries=0, huge=True, **kw):
    out = []
    for i in range(n):
        for est in ests:
            k = dict(kw)
            k.setdefault("F", feat(rng, huge))
            for key in list(k):
                if callable(k[key]):
                    k[key] = k[key](rng)
            if k["F"] > 300:
                k.update(L=2, per=2 if est in CLF else rng.choice([1, 2]))
            c = Cfg(rng, est, **k)
            ext = None
            if c.clf and rng.random() < .6:
                ext = {l: rng.choice(["hi", "lo"]) for l in range(c.L)}
                c.T = min(c.T, max(1, c.per // 2))
            out.append(steps_scenario(rng, nm(est), c, rng.choice(steps), queries, ext))
    return out


ASSUME_STEP = [
    "TLC, its JSON reader and the harness's projection of the learned state (a copy of the state obtained through the public copy, or its JSON form) are trusted",
    "random draws are unconstrained in the specification within the numbers the rule allows; their distribution is C21's subject",
]


# ---------------------------------------------------------------- C01
def gen_c01(rng, tier, work):
    nm, out = Namer("C01"), []
    for N in NEDGE:
        for est in ALL:
            for ct in widths(N):
                for _ in range(rep(tier, 1)):
                    c = Cfg(rng, est, N=N, ct=ct, F=feat(rng, False), s=rng.choice([(1, 1), (1, 1), (2, 1), (3, 2), (10, 1), INF]))
                    x = bits(rng, c.F)
                    rows = []
                    st = rng.choice(["edge", "edge", "mix"])
                    for o in range(c.outs):
                        p, q = clause(rng, x, N, rng.choice(["fire", "empty", "miss"]), st)
                        rows += [p, q]
                    ops = [c.inject("a", rows, weights_for(rng, c) if c.wt else None)]
                    for i in range(6):
                        ops.append(step("a", x if rng.random() < .7 else flip_some(rng, x), target(rng, c), c))
                    out.append({"sid": nm("edge-" + est), "ops": ops})
    for est in ALL:
        for N in (1, 2, 3, 5, 40, 126, 127, 128):
            for _ in range(rep(tier, 1)):
                c = Cfg(rng, est, N=N, F=rng.choice([2, 5, 17, 33, 65]), s=rng.choice([(1, 1), (3, 2), (2, 1), INF]), T=rng.choice([5, 15, 50]),
                        per=rng.choice([2, 4]) if est in CLF else rng.choice([2, 5]), L=2)
                ops = [c.inject("a")]
                ops.append(train_ops(rng, c, "a", fit=True, ep=rng.choice([1, 20, 150])))
                for i in range(3):
                    ops.append(train_ops(rng, c, "a", fit=False, ep=rng.choice([1, 10, 100, 300])))
                ops.append(train_ops(rng, c, "a", fit=True, ep=1))
                out.append({"sid": nm("train-" + est), "ops": ops})
    return out


def mc_c01(work, tier):
    r = [models.machine(work, ["C01"], "classic", Fam="classic", Boost=True, NStates=1),
         models.machine(work, ["C01"], "packed", Fam="bitwise", Sn=1),
         models.machine(work, ["C01"], "reg", Fam="bitwise", Clf=False, Feat=1, NStates=2, Thresh=2)]
    if tier == "thorough":
        r += [models.machine(work, ["C01"], "deep", Fam="bitwise", NStates=2, Boost=False),
              models.machine(work, ["C01"], "deepreg", Fam="classic", Clf=False, Feat=2, NStates=2, Thresh=2)]
    return r


prop("C01", module="StepTrace", cfg=cfg("C01"), scenarios=gen_c01, mc=mc_c01, assumptions=ASSUME_STEP,
     scope="numbers of states 1..100000 incl. all counter width boundaries, every counter width that holds them, states at both ends, up to 300 epochs")


# ---------------------------------------------------------------- C02
def gen_c02(rng, tier, work):
    nm, out = Namer("C02"), []
    bw = ["clf/bitwise", "reg/bitwise"]
    out += generic(rng, nm, bw, rep(tier, 60), queries=.3)
    out += generic(rng, nm, bw, rep(tier, 30), queries=.3, N=lambda r: r.choice([1, 1, 2]), F=lambda r: r.choice([1, 2, 17, 63, 64, 65, 70, 130]))
    for est in bw:
        for F in [1, 2, 5, 31, 63, 64, 65, 100, 127, 128, 129, 200]:
            for _ in range(rep(tier, 2)):
                c = Cfg(rng, est, F=F, T=rng.choice([2, 5, 15]), N=rng.choice([1, 2, 5, 100, 128, 40000]))
                ops = [c.inject("a"), train_ops(rng, c, "a", ep=rng.choice([1, 5, 40]))]
                ops.append({"op": rng.choice(["restore", "clone", "clone2"]), "m": "a", "to": "b"})
                ops.append({"op": "state", "m": "b", "of": "a", "pol": 1})
                for i in range(3):
                    x = bits(rng, F)
                    ops += query_ops(rng, c, "b", x)
                    ops.append(step("b", x, target(rng, c), c))
                ops.append(train_ops(rng, c, "b", fit=False))
                ops += query_ops(rng, c, "b", bits(rng, F), 3)
                ops.append(train_ops(rng, c, "b", fit=True))
                ops += query_ops(rng, c, "b", bits(rng, F), 2)
                out.append({"sid": nm("life-" + est), "ops": ops})
    return out


def mc_c02(work, tier):
    r = [models.machine(work, ["C02"], "packed", Fam="bitwise", NStates=1),
         models.machine(work, ["C02"], "packedboost", Fam="bitwise", NStates=1, Boost=True, Sn=0),
         models.machine(work, ["C02"], "reg", Fam="bitwise", Clf=False, Feat=1, NStates=2, Thresh=2)]
    if tier == "thorough":
        r.append(models.machine(work, ["C02"], "deep", Fam="bitwise", NStates=2))
    return r


prop("C02", module="StepTrace", cfg=cfg("C02"), scenarios=gen_c02, mc=mc_c02, assumptions=ASSUME_STEP,
     scope="bit-packed classifier and regressor, 1..2050 features around block boundaries, after fit, every training step, copy, save and restore")


# ---------------------------------------------------------------- C03
def gen_c03(rng, tier, work):
    nm, out = Namer("C03"), []
    out += generic(rng, nm, ALL, rep(tier, 45), wt=1, huge=False, F=lambda r: r.choice([1, 2, 3, 5, 17, 33, 65]),
                   maxw=lambda r: r.choice([1, 2, 3, 10, 1000, 2147483647]))
    out += generic(rng, nm, ALL, rep(tier, 6), wt=0, huge=False)
    out += count_scenarios(rng, nm, rep(tier, 25))
    for est in ALL:
        for maxw in (1, 2, 3, 7, 2147483647):
            for _ in range(rep(tier, 1)):
                c = Cfg(rng, est, F=rng.choice([2, 5, 17]), wt=1, maxw=maxw, N=rng.choice([2, 50]), T=rng.choice([5, 30]))
                ops = [c.inject("a"), train_ops(rng, c, "a", ep=rng.choice([5, 50])), train_ops(rng, c, "a", fit=False, ep=20)]
                x = bits(rng, c.F)
                ops += [step("a", x, target(rng, c), c) for _ in range(5)]
                ops.append(train_ops(rng, c, "a", fit=True, ep=0))
                out.append({"sid": nm("train-" + est), "ops": ops})
    return out


def mc_c03(work, tier):
    r = [models.machine(work, ["C03"], "clf", Fam="classic", Weighted=True, MaxWeight=2, Thresh=3),
         models.machine(work, ["C03"], "reg", Fam="bitwise", Clf=False, Weighted=True, MaxWeight=2, Thresh=4, Feat=1)]
    if tier == "thorough":
        r.append(models.machine(work, ["C03"], "deep", Fam="bitwise", Weighted=True, MaxWeight=3, Thresh=4))
    return r


def count_scenarios(rng, nm, n):
    """Regressors whose weights show how many updates were made."""
    out = []
    for i in range(n):
        for est in REG:
            up = rng.random() < .5
            c = Cfg(rng, est, F=rng.choice([1, 2, 5, 17]), per=rng.choice([1, 2, 3, 5, 10]), wt=1, maxw=2147483647,
                    T=rng.choice([5, 10, 15, 40, 64]), N=rng.choice([2, 100]))
            x = bits(rng, c.F)
            rows = rows_for(rng, c, x, lambda o: rng.choice(["fire", "fire", "empty"]))
            w = [0] * c.outs if up else [rng.randint(12, 40) for _ in range(c.outs)]
            if up and c.outs >= c.T:
                c.T = c.outs + rng.choice([1, 3, 10, 40])
            if i % 2:
                # powers of two: exact numbers, ties among them
                c.T = next(t for t in (2, 4, 8, 16, 32, 64) if t >= (max(c.outs, 2) if up else 2) and (rng.random() < .4 or t == 64))
                c.c1 = rng.choice([(0, 1), (1, 1), (1, 2), (1, 4), (3, 4)])
            ops = [c.inject("a", rows, w)]
            votes = min(c.T, sum(v + 1 for v in w))
            for e in range(1):
                y = rng.randint(votes, c.T) if up else rng.randint(0, votes)
                ops.append(step("a", x, y, c))
            out.append({"sid": nm("count-" + est), "ops": ops})
    return out


prop("C03", module="StepTrace", cfg=cfg("C03"), scenarios=gen_c03, mc=mc_c03, assumptions=ASSUME_STEP,
     scope="weighted and unweighted models, maximal weights 1..2^31-1, weights at both bounds, single steps and long fits")


def scale_scenarios(rng, nm, tier, ops):
    """Many labels, many clauses, very long rows: beyond what 8 or 16 bits count."""
    out = []
    for est in ALL:
        shapes = [dict(F=3, L=300, per=2), dict(F=2, L=2, per=300), dict(F=5, L=129, per=4)]
        if est in CLF:
            shapes += [dict(F=1, L=1000, per=2)] if tier == "thorough" else []
        else:
            shapes = shapes[1:2] + [dict(F=66000, per=1)]
        if est in CLF and tier == "thorough":
            shapes.append(dict(F=66000, per=2, L=2))
        # more clauses than 16 bits count, in one label and over all labels
        if est in CLF:
            shapes.append(dict(F=1, L=3, per=22000))
        else:
            shapes.append(dict(F=1, per=66000))
        for k in shapes:
            for _ in range(1 if k["F"] > 100 or k["per"] > 1000 else 2 if tier == "quick" else 6):
                big = k["F"] > 100
                c = Cfg(rng, est, T=rng.choice([1, 200, 1000]), N=rng.choice([2, 3] if k["per"] > 1000 else [2, 100, 200]), s=rng.choice([(2, 1), (10, 1), (3, 2)]), wt=0 if big else rng.choice([0, 0, 1]), **k)
                if not c.clf:
                    c.loss = "MAE"
                x = bits(rng, c.F, "r")
                lean = rng.choice([["fire"], ["fire", "fire", "fire", "miss"], ["miss", "empty"]])
                rows = rows_for(rng, c, x, lambda o: rng.choice(["fire", "miss", "empty"]) if rng.random() < .2 else ("fire" if rng.random() < .5 else "miss") if o % 2 else rng.choice(lean))
                w = [rng.choice([0, 0, 1, 5]) for _ in range(c.outs)] if c.wt else None
                c.maxw = max(c.maxw, 10)
                out.append({"sid": nm("scale-" + est), "ops": [c.inject("a", rows, w)] + ops(c, x)})
    return out


# ---------------------------------------------------------------- C04
def gen_c04(rng, tier, work):
    nm, out = Namer("C04"), []
    for i in range(rep(tier, 60)):
        for est in ALL:
            kw = {"F": feat(rng, False), "T": rng.choice([1, 2, 3, 15, 1000, 2147483647]) if est in CLF else rng.choice([1, 3, 15, 1000, 2147483647])}
            c = Cfg(rng, est, **kw)
            x = bits(rng, c.F)
            rows = rows_for(rng, c, x, plan_random(rng))
            ops = [c.inject("a", rows, weights_for(rng, c) if c.wt else None)]
            ops += query_ops(rng, c, "a", x, 4)
            out.append({"sid": nm(est), "ops": ops})
    # long rows: every tile size with full tiles and a remainder
    for est in ALL:
        for tile in (16, 32, 64, 128):
            unit = tile * (64 if est.endswith("bitwise") else 1)
            for F in {unit - 1, unit, unit + 1, unit + unit // 2 + 3, 2 * unit + 5}:
                if F > 4200 and not (F == unit + 1 or tier == "thorough"):
                    continue
                for _ in range(rep(tier, 1, 2)):
                    c = Cfg(rng, est, F=F, tile=tile, L=2, per=2 if est in CLF else rng.choice([1, 2] if F > 3000 else [2, 3]), N=rng.choice([2, 100, 1000]), T=15)
                    x = bits(rng, F, rng.choice(["r", "sparse", "dense"]))
                    kinds = [rng.choice(["fire", "miss"]) for _ in range(c.outs)]
                    rows = rows_for(rng, c, x, lambda o: kinds[o])
                    ops = [c.inject("a", rows, weights_for(rng, c) if c.wt else None),
                           {"op": "call", "m": "a", "fn": "dec" if est in CLF else "predict", "x": x}]
                    for j in {0, F - 1, F // 2, (F // unit) * unit - 1 if F >= unit else 0, (F // unit) * unit if F > unit else 0}:
                        y = list(x)
                        y[j % F] ^= 1
                        ops.append({"op": "call", "m": "a", "fn": rng.choice(["dec", "predict"]), "x": y})
                    out.append({"sid": nm("long-" + est), "ops": ops})
    out += scale_scenarios(rng, nm, tier, lambda c, x: query_ops(rng, c, "a", x, 3))
    # the winner among very many labels
    for est in CLF:
        for L, fn in [(257, "predictN"), (300, "predict"), (1000, "predictN"), (40000, "predict"), (66000, "predictN")]:
            c = Cfg(rng, est, F=1, L=L, per=2, T=5, N=3, wt=0)
            x = bits(rng, 1)
            top = rng.choice([L - 1, rng.randrange(L * 3 // 4, L)])
            second = rng.randrange(top, L)
            kind = lambda o: "fire" if o % 2 == 0 and o // 2 in (top, second) else "miss" if o % 2 == 0 else rng.choice(["miss", "fire", "empty"]) if o // 2 not in (top, second) else "miss"
            op = {"op": "call", "m": "a", "fn": fn}
            op.update({"x": x} if fn == "predict" else {"X": [x, x]})
            out.append({"sid": nm("winner-" + est), "ops": [c.inject("a", rows_for(rng, c, x, kind), None), op, {"op": "call", "m": "a", "fn": "dec", "x": x}]})
    # ties and label order
    for i in range(rep(tier, 40)):
        for est in CLF:
            L = rng.choice([2, 3, 4, 7])
            c = Cfg(rng, est, F=rng.choice([1, 2, 3]), L=L, per=2, T=rng.choice([1, 2, 5]), wt=rng.choice([0, 1]))
            x = bits(rng, c.F)
            rows = rows_for(rng, c, x, lambda o: rng.choice(["fire", "miss", "empty"]))
            ops = [c.inject("a", rows, [rng.choice([0, 1]) for _ in range(c.outs)] if c.wt else None)]
            for fn in ("predict", "dec"):
                ops.append({"op": "call", "m": "a", "fn": fn, "x": x})
            ops.append({"op": "call", "m": "a", "fn": "predictN", "X": [x, flip_some(rng, x), x]})
            ops.append({"op": "call", "m": "a", "fn": "eval", "X": [x] * L, "y": list(range(L))})
            out.append({"sid": nm("tie-" + est), "ops": ops})
    # every small clause with every sample: single-clause regressors predict 1 iff the clause fires
    clauses, samples = enum(work, 2, 1)
    for est in REG:
        for (p, q) in clauses:
            c = Cfg(rng, est, F=2, per=1, N=1, T=3, wt=0)
            out.append({"sid": nm("enum-" + est), "ops": [c.inject("a", [p, q], None), {"op": "call", "m": "a", "fn": "predictN", "X": samples}]})
    # states the library reached by itself
    for i in range(rep(tier, 10)):
        for est in ALL:
            c = Cfg(rng, est, F=feat(rng, False), N=rng.choice([5, 100]), T=15)
            ops = [c.inject("a"), train_ops(rng, c, "a", ep=rng.choice([1, 10]))]
            ops += query_ops(rng, c, "a", bits(rng, c.F), 3)
            out.append({"sid": nm("trained-" + est), "ops": ops})
    return out


def score_cfg():
    return "SPECIFICATION Spec\nCONSTANTS Feat = 1 NStates = 1\nCHECK_DEADLOCK FALSE\n"


def mc_c04(work, tier):
    r = [lambda: core.model_check(work, "score", "ScoreLaws", "SPECIFICATION Spec\nCONSTANTS Props = {} Feat = 2 NStates = 1 Per = 2 " + ("MaxT = 2 Weights = {0, 65535}" if tier == "quick" else "MaxT = 3 Weights = {0, 1, 65535}") + "\nINVARIANT Laws\nCHECK_DEADLOCK FALSE\n",
                                  "laws of scores and predictions over all clauses, weights and samples of 2 features, 2 labels", workers=3)]
    return r


prop("C04", module="StepTrace", cfg=cfg("C04"), scenarios=gen_c04, mc=mc_c04, assumptions=ASSUME_STEP,
     scope="all estimators; 1..8193 features over all tile sizes; thresholds and weights up to 2^31-1; ties; all clauses of two features")


# ---------------------------------------------------------------- C13, C14
def gen_c13(rng, tier, work):
    nm, out = Namer("C13"), []
    out += generic(rng, nm, ALL, rep(tier, 50))
    out += enum_scenarios(rng, nm, work, CLF, (0, 1), 2, 1, ((2, 1), (1, 1)))
    out += reg_enum(rng, nm, work, -1, 2, 2, rep(tier, 12))
    if tier == "thorough":
        out += enum_scenarios(rng, nm, work, CLF, (0, 1), 2, 2, ((2, 1), (3, 1)))
    out += draw_scenarios(rng, nm, rep(tier, 12))
    out += scale_scenarios(rng, nm, tier, lambda c, x: [step("a", x, target(rng, c), c) for _ in range(2)])
    return out


def draw_scenarios(rng, nm, n):
    """Rows in the middle of the range so that each draw shows: exact counts for every specificity."""
    out = []
    for i in range(n):
        for est in ALL:
            F = rng.choice([4, 7, 12, 16, 30, 64, 65, 100])
            c = Cfg(rng, est, F=F, N=rng.choice([100, 500]), T=1, per=2 if est in CLF else 1, L=2, jobs=1, loss="MAE", bm=0)
            x = bits(rng, F)
            want = {0: "lo", 1: "hi"}
            ops = [c.inject("a", [[v if v in (0, -1) else max(-60, min(60, v)) for v in r] for r in rows_for(rng, c, x, plan_votes(rng, c, want))],
                            [0] * c.outs if c.wt else None)]
            for _ in range(5):
                ops.append(step("a", x, 0 if c.clf else 1, c))
            out.append({"sid": nm("draw-" + est), "ops": ops})
    return out


def mc_c13(work, tier):
    r = []
    for fam in ("classic", "bitwise"):
        r.append(models.tight(work, "typeI", f"tight-{fam}", Fam=fam, Feat=2, NStates=2))
    r.append(models.tight(work, "typeI", "tight-boost", Fam="classic", Feat=3, NStates=1, Boost=True, Sn=3, Sd=2))
    r.append(models.machine(work, ["C13"], "clf", Fam="bitwise", NStates=1))
    r.append(models.machine(work, ["C13"], "reg", Fam="classic", Clf=False, Feat=2, NStates=1, Thresh=2))
    if tier == "thorough":
        r.append(models.machine(work, ["C13"], "deep", Fam="classic", NStates=2))
        r.append(models.tight(work, "typeI", "tight-3", Fam="bitwise", Feat=3, NStates=2, Sn=2))
    return r


prop("C13", module="StepTrace", cfg=cfg("C13"), scenarios=gen_c13, mc=mc_c13, assumptions=ASSUME_STEP,
     scope="all estimators; every clause over two features; specificities integral, fractional, 1 and unbounded; boosted or not")


def gen_c14(rng, tier, work):
    nm, out = Namer("C14"), []
    out += generic(rng, nm, ALL, rep(tier, 55))
    out += enum_scenarios(rng, nm, work, CLF, (0, 1), 2, 1, ((2, 1),))
    out += reg_enum(rng, nm, work, 1, 2, 2, rep(tier, 12))
    if tier == "thorough":
        out += enum_scenarios(rng, nm, work, CLF, (0, 1), 2, 2, ((2, 1),))
    out += scale_scenarios(rng, nm, tier, lambda c, x: [step("a", x, target(rng, c), c) for _ in range(2)])
    return out


def mc_c14(work, tier):
    r = [models.tight(work, "typeII", "tight", Fam="classic", Feat=2, NStates=2),
         models.tight(work, "typeII", "tight3", Fam="classic", Feat=3, NStates=1),
         models.machine(work, ["C14"], "clf", Fam="classic", NStates=1),
         models.machine(work, ["C14"], "reg", Fam="bitwise", Clf=False, Feat=2, NStates=1, Thresh=2)]
    if tier == "thorough":
        r.append(models.machine(work, ["C14"], "deep", Fam="bitwise", NStates=2))
        r.append(models.tight(work, "typeII", "tight-3", Fam="bitwise", Feat=3, NStates=2))
    return r


prop("C14", module="StepTrace", cfg=cfg("C14"), scenarios=gen_c14, mc=mc_c14, assumptions=ASSUME_STEP,
     scope="all estimators; every clause over two features; 1..2050 features around block boundaries")


# ---------------------------------------------------------------- C15
def gen_c15(rng, tier, work):
    nm, out = Namer("C15"), []
    out += generic(rng, nm, CLF, rep(tier, 50), L=lambda r: r.choice([2, 3, 4, 5]), huge=False)
    # scores exactly at, one below and one above the threshold
    for i in range(rep(tier, 90)):
        for est in CLF:
            L = rng.choice([2, 3, 4])
            per = rng.choice([2, 4, 6, 8])
            T = rng.choice([1, 2, 3, 5])
            wt = rng.choice([0, 1])
            c = Cfg(rng, est, F=rng.choice([1, 3, 8, 17, 65]), L=L, per=per, T=T, wt=wt, maxw=100)
            x = bits(rng, c.F)
            fire = {}
            w = [0] * c.outs
            for l in range(L):
                goal = rng.choice([T, T - 1, T + 1, -T, -T + 1, -T - 1, 0, 2 * T])
                sgn = 0 if goal >= 0 else 1
                pool = [o for o in range(l * per, (l + 1) * per) if o % 2 == sgn]
                if wt and goal:
                    k = rng.randint(1, min(len(pool), abs(goal)))
                    ch = rng.sample(pool, k)
                    left = abs(goal) - k
                    for o in ch:
                        w[o] = 0
                    for _ in range(left):
                        w[rng.choice(ch)] += 1
                else:
                    ch = rng.sample(pool, min(len(pool), abs(goal)))
                for o in ch:
                    fire[o] = 1
            kinds = {o: rng.choice(["fire", "empty"]) if o in fire else "miss" for o in range(c.outs)}
            rows = rows_for(rng, c, x, lambda o: kinds[o])
            ops = [c.inject("a", rows, w if wt else None)]
            y = rng.randrange(L)
            for _ in range(rng.choice([1, 2, 4])):
                ops.append(step("a", x, y, c))
            out.append({"sid": nm("margin-" + est), "ops": ops})
    # the largest thresholds, reached by weights
    for i in range(rep(tier, 12)):
        for est in CLF:
            T = rng.choice([2**30 - 1, 2**30, 2**30 + 1, 2**31 - 2, 2**31 - 1])
            c = Cfg(rng, est, F=rng.choice([1, 3, 17]), L=rng.choice([2, 3]), per=rng.choice([2, 4]), T=T, wt=1, maxw=2**31 - 1)
            x = bits(rng, c.F)
            up = {l: rng.random() < .5 for l in range(c.L)}
            w = [(rng.choice([T - 1, 2**31 - 2]) if o // c.per in up and (o % 2 == 0) == up[o // c.per] else 0) for o in range(c.outs)]
            rows = rows_for(rng, c, x, lambda o: "fire" if (o % 2 == 0) == up[o // c.per] else "miss")
            ops = [c.inject("a", rows, w)]
            for _ in range(3):
                ops.append(step("a", x, rng.randrange(c.L), c))
            out.append({"sid": nm("huge-" + est), "ops": ops})
    out += scale_scenarios(rng, nm, tier, lambda c, x: [step("a", x, target(rng, c), c) for _ in range(2)])
    return out


def mc_c15(work, tier):
    r = [models.machine(work, ["C15"], "clf", Fam="classic", NStates=1, Thresh=1),
         models.machine(work, ["C15"], "boost", Fam="bitwise", NStates=1, Boost=True, Thresh=2)]
    if tier == "thorough":
        r.append(models.machine(work, ["C15"], "three", Fam="classic", NStates=1, Labels=3, workers=4))
        r.append(models.machine(work, ["C15"], "weights", Fam="classic", NStates=1, Weighted=True, MaxWeight=2, Thresh=2))
    return r


prop("C15", module="StepTrace", cfg=cfg("C15"), scenarios=gen_c15, mc=mc_c15, assumptions=ASSUME_STEP,
     scope="2..5 labels, scores at, next to and beyond both thresholds, weighted and unweighted")


# ---------------------------------------------------------------- C16
def gen_c16(rng, tier, work):
    nm, out = Namer("C16"), []
    out += generic(rng, nm, REG, rep(tier, 60), huge=False, T=lambda r: r.choice([1, 2, 5, 15, 64]))
    out += count_scenarios(rng, nm, rep(tier, 110))
    # large thresholds for the polynomial losses
    for i in range(rep(tier, 15)):
        for est in REG:
            c = Cfg(rng, est, F=3, per=rng.choice([1, 5, 10]), wt=1, maxw=2147483647, T=1000, loss=rng.choice(["MAE", "MSE", "L1", "L2"]), c1=(0, 1), N=50)
            x = bits(rng, 3)
            rows = rows_for(rng, c, x, lambda o: "fire")
            w = [rng.randint(0, 300) for _ in range(c.outs)]
            ops = [c.inject("a", rows, w)]
            votes = min(1000, sum(v + 1 for v in w))
            ops.append(step("a", x, rng.choice([votes, max(0, votes - 1), min(1000, votes + 1), 0, 1000, rng.randint(0, 1000)]), c))
            out.append({"sid": nm("large-" + est), "ops": ops})
    # the largest thresholds and errors, reached by weights
    for i in range(rep(tier, 14)):
        for est in REG:
            unit = 2 ** rng.choice([12, 16, 20, 25])
            T = rng.choice([2**24 + 1, 2**24 + 7, 10**9, 2**30, 2**31 - 2, 2**31 - 1, unit * rng.choice([1, 3, 10, 40, 63])])
            part = T % unit == 0 and T // unit <= 63
            loss, c1 = rng.choice([("MAE", (0, 1)), ("MSE", (0, 1)), ("L1+2", (0, 1)), ("L1+2", (1, 1))] + [("berHu", (1, 4)), ("berHu", (1, 2)), ("L1+2", (3, 4))] * part)
            c = Cfg(rng, est, F=3, per=rng.choice([1, 2, 5, 10]), wt=1, maxw=2147483647, T=T, loss=loss, c1=c1, N=50)
            x = bits(rng, 3)
            rows = rows_for(rng, c, x, lambda o: "fire")
            grid = unit if part else 1
            votes = grid * rng.randint(c.outs if grid == 1 else 0, T // grid)
            w = [0] * c.outs
            w[rng.randrange(c.outs)] += max(votes, c.outs) - c.outs
            if rng.random() < .3:
                w, votes = [2**31 - 2] * c.outs, T
            ops = [c.inject("a", rows, w)]
            if part and votes < c.outs:
                votes = c.outs
            y = rng.choice([votes, 0, T, grid * rng.randint(0, T // grid), max(0, votes - grid), min(T, votes + grid)])
            if c1[1] > 1 and (votes - y) % grid:
                y = votes
            ops.append(step("a", x, y, c))
            out.append({"sid": nm("vast-" + est), "ops": ops})
    # exact targets
    for i in range(rep(tier, 25)):
        for est in REG:
            c = Cfg(rng, est, F=feat(rng, False), T=rng.choice([3, 15]), maxw=1000)
            x = bits(rng, c.F)
            kinds = {o: rng.choice(["fire", "miss", "empty"]) for o in range(c.outs)}
            rows = rows_for(rng, c, x, lambda o: kinds[o])
            w = [rng.choice([0, 0, 1, 2]) for _ in range(c.outs)]
            votes = min(c.T, sum((w[o] if c.wt else 0) + 1 for o in range(c.outs) if kinds[o] != "miss"))
            ops = [c.inject("a", rows, w if c.wt else None)]
            for y in (votes, votes):
                ops.append(step("a", x, y, c))
            for y in (max(0, votes - 1), min(c.T, votes + 1)):
                ops.append(step("a", x, y, c))
            out.append({"sid": nm("exact-" + est), "ops": ops})
    out += scale_scenarios(rng, nm, tier, lambda c, x: [step("a", x, target(rng, c), c) for _ in range(2)])
    return out


def mc_c16(work, tier):
    r = [models.machine(work, ["C16"], "mae", Fam="classic", Clf=False, Feat=2, NStates=1, Thresh=2),
         models.machine(work, ["C16"], "mse", Fam="bitwise", Clf=False, Feat=1, NStates=2, Thresh=3, Loss="MSE", Weighted=True, MaxWeight=3),
         models.machine(work, ["C16"], "berhu", Fam="classic", Clf=False, Feat=1, NStates=2, Thresh=4, Loss="berHu", Ca=1, Cb=2, Weighted=True, MaxWeight=3),
         models.machine(work, ["C16"], "boxm", Fam="classic", Clf=False, Feat=1, NStates=1, Thresh=3, BoxM=True, Weighted=True, MaxWeight=3)]
    if tier == "thorough":
        r.append(models.machine(work, ["C16"], "deep", Fam="classic", Clf=False, Feat=2, NStates=2, Thresh=3, Loss="L1+2", Ca=1, Cb=2))
    return r


prop("C16", module="StepTrace", cfg=cfg("C16"), scenarios=gen_c16, mc=mc_c16, assumptions=ASSUME_STEP + [
    "within 0.1 % of a rounding tie of the update count either neighbour is accepted (the library computes in single precision)"],
     scope="both regressors, six loss names, C1 from 0 to 1, box_muller on and off, thresholds 1..1000 and 2^12..2^31-1, 1..10 clause outputs")


# ---------------------------------------------------------------- C17
def gen_c17(rng, tier, work):
    nm, out = Namer("C17"), []
    for i in range(rep(tier, 70)):
        for kind in ("clf", "reg"):
            est, twin = f"{kind}/classic", f"{kind}/bitwise"
            vast = i < (1 if tier == "quick" else 4) and (kind == "reg" or tier != "quick")
            huge = vast or rng.random() < .04
            kw = {"F": 66000 if vast else rng.choice(HUGEF) if huge else feat(rng, False)}
            if huge:
                kw.update(L=2, per=2)
            c = Cfg(rng, est, s=INF, boost=1, **kw)
            x = bits(rng, c.F)
            mode = rng.choice(["certain", "typeII", "query"])
            if kind == "clf":
                # certain feedback only: own label at the lowest, all others at the highest or lowest score
                c.L = 2 if mode != "query" else c.L
                c.outs = c.L * c.per
                c.T = min(c.T, max(1, c.per // 2))
                y = rng.randrange(c.L)
                want = {l: ("lo" if l == y else rng.choice(["hi", "hi", "lo"])) if rng.random() < .8 else "hi" for l in range(c.L)}
            else:
                c.per, c.outs, y = 1, 1, 0
                c.loss, c.bm = "MAE", 0
                y = rng.choice([0, c.T])
                want = {0: rng.choice(["hi", "lo"])}
            rows = rows_for(rng, c, x, plan_votes(rng, c, want))
            if kind == "clf" and mode != "query" and rng.random() < .5:
                # the winning clauses are given enough votes by weight
                c.wt = 1
                c.maxw = 2147483647
            w = weights_for(rng, c, "low") if c.wt else None
            ops = [c.inject("a", rows, w), c.inject("b", rows, w, est=twin)]
            for k in range(3):
                q = x if k == 0 else flip_some(rng, x)
                fns = ["predict", "dec", "predictN", "decN"] + (["eval"] if kind == "clf" else [])
                fn = rng.choice(fns)
                for mdl, tw in (("a", None), ("b", "a")):
                    op = {"op": "call", "m": mdl, "fn": fn}
                    if fn in ("predict", "dec"):
                        op["x"] = q
                    else:
                        op["X"] = [q, x]
                        if fn == "eval":
                            op["y"] = [0, 1]
                    if tw:
                        op["twin"] = tw
                    ops.append(op)
            if certain(c, rows, w, x, y, kind):
                ops.append({"op": "twin", "m": "a", "b": "b", "x": x, "y": y, "pol": 0})
            out.append({"sid": nm(kind), "ops": ops})
    # clauses of few literals in rows of many blocks: block ends, both polarities
    for F in (16, 17, 40, 64, 128, 130, 1023, 1024, 1025, 1094, 2048, 2050):
        for _ in range(rep(tier, 1, 4)):
            kind = rng.choice(["clf", "reg"])
            c = Cfg(rng, f"{kind}/classic", F=F, tile=16, L=2, per=4 if kind == "clf" else rng.choice([2, 3]), T=15, wt=0)
            x = bits(rng, F)
            rows, spots = [], []
            for o in range(c.outs):
                r = [[-1] * F, [-1] * F]
                for _ in range(rng.choice([1, 1, 1, 2])):
                    j = rng.choice([0, F - 1, rng.randrange(F), min(F - 1, rng.choice([15, 16, 63, 64, 127, 128, 1023, 1024]))])
                    r[rng.choice([x[j] ^ 1, x[j] ^ 1, x[j] ^ 1, 0, 1])][j] = 0
                    spots.append(j)
                rows += r
            ops = [c.inject("a", rows, None), c.inject("b", rows, None, est=f"{kind}/bitwise")]
            for j in [None] + rng.sample(spots, min(3, len(spots))):
                q = list(x)
                if j is not None:
                    q[j] ^= 1
                ops += [{"op": "call", "m": "a", "fn": "dec", "x": q}, {"op": "call", "m": "b", "fn": "dec", "x": q, "twin": "a"}]
            out.append({"sid": nm("few-" + kind), "ops": ops})
    return out


def certain(c, rows, w, x, y, kind):
    """No random choice affects the step: every margin is at an extreme."""
    def fires(o):
        p, q = rows[2 * o], rows[2 * o + 1]
        return all(p[j] < 0 if x[j] == 0 else q[j] < 0 for j in range(len(x)))
    wt = lambda o: 1 + (w[o] if w else 0)
    if kind == "reg":
        votes = min(c.T, wt(0)) if fires(0) else 0
        e = abs(votes - y)
        return e == 0 or 2 * e >= c.T          # MAE of one clause: 0 or 1 update
    for l in range(c.L):
        v = sum((1 if o % 2 == 0 else -1) * wt(o) for o in range(l * c.per, (l + 1) * c.per) if fires(o))
        if -c.T < v < c.T:
            return False
    return True


def mc_c17(work, tier):
    r = []
    for fam in ("classic", "bitwise"):
        r.append(models.tight(work, "free", f"free-{fam}", Fam=fam, Feat=2, NStates=2, Sn=0, Boost=True))
        r.append(models.machine(work, ["C13", "C14"], f"free-m-{fam}", Fam=fam, NStates=1, Sn=0, Boost=True))
    return r


prop("C17", module="StepTrace", cfg=cfg("C17"), scenarios=gen_c17, mc=mc_c17, assumptions=ASSUME_STEP,
     scope="pairs of classic and bit-packed models in the same learned state; queries and steps without random choices; 1..2050 features")
