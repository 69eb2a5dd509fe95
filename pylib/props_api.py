"""Properties of call histories, decided with Api.tla and ApiTrace.tla:
C05-C10, C18, C19."""
import json, os, random, re
import core
from props import prop
from gen_step import bits, clause, CLF, REG

ALL = ["clf/classic", "clf/bitwise", "reg/classic", "reg/bitwise"]


def api_consts(alphabet, depth, epochs=(1,), datasets=1, features=None, top=None, ml=(0,), slots=("a",), rules=(), emit=True):
    q = lambda xs: "{" + ", ".join(f'"{x}"' for x in xs) + "}"
    f = features or [2] * datasets
    t = top or [1] * datasets
    # TLC configurations cannot hold functions: a module is generated
    return {"Rules": q(rules), "Alphabet": q(alphabet), "Depth": depth, "Epochs": "{" + ",".join(map(str, epochs)) + "}",
            "Datasets": f"1 .. {datasets}", "FeaturesOf": "<<" + ",".join(map(str, f)) + ">>", "TopOf": "<<" + ",".join(map(str, t)) + ">>",
            "MaxLabels": "{" + ",".join(map(str, ml)) + "}", "Slots": q(slots), "Emit": "TRUE" if emit else "FALSE"}


def run_api(work, name, consts):
    """Model checks Api.tla over the alphabet and returns (result, histories)."""
    return core.enumerate_spec(work, name, "Api", consts, ("Emitted", "Independent", "Unobtrusive", "FromScratch", "Composes"), ("DimensionsFixed",),
                               what=f"all histories of {consts['Depth']} calls over {consts['Alphabet']} on slots {consts['Slots']}; what the terms of Life.tla identify")


def run_long(work, name, consts, num, seed):
    """Random behaviours of Api.tla: one history per behaviour, with the terms it leads to."""
    r, out = core.enumerate_spec(work, name + "-long", "Api", consts, ("EmittedT", "Independent"), simulate=(num, seed),
                                 what=f"random histories of {consts['Depth']} calls over {consts['Alphabet']}")
    by = {}
    for o in out:
        by.setdefault(json.dumps(o["h"][:-1]), []).append(o)
    rng = random.Random(seed)
    recs = [rng.choice(v) for v in by.values()]
    return r, recs


class Group:
    """A configuration with its data sets, shared by many histories."""

    def __init__(self, rng, gid, est, shapes, **kw):
        self.gid, self.est = gid, est
        self.clf = est in CLF
        g = kw.get
        bm = g("bm") if g("bm") is not None else rng.choice([False, False, True])
        self.clauses = g("clauses") or (rng.choice([4, 8]) if self.clf else rng.choice([10, 40]) if bm else rng.choice([2, 4, 10]))
        self.T = g("T") or rng.choice([2, 5, 15])
        self.p = {"number_of_states": g("N") or rng.choice([3, 50, 127, 200]), "s": rng.choice([1.0, 1.5, 2.0, 3.0, 3.9, 1.1, 2.7182817, 7.123456]), "threshold": self.T,
                  "weighted": g("weighted") if g("weighted") is not None else rng.choice([True, False]), "max_weight": rng.choice([3, 2147483647]),
                  "boost_true_positive_feedback": rng.choice([0, 1]), "n_jobs": rng.choice([1, 1, 2]),
                  "clause_output_tile_size": 16, "counting_type": "auto", "random_state": rng.choice([0, 1, 2147483647, 2147483648, 4294967295] + [rng.randrange(1 << 31)] * 8), "verbose": False}
        if self.clf:
            self.p["number_of_clauses_per_label"] = self.clauses
        else:
            self.p.update(number_of_regressor_clauses=self.clauses, loss_fn=rng.choice(["MSE", "MAE", "berHu", "L1+2"]),
                          loss_fn_C1=rng.choice([0.0, 0.25, 0.5, 0.1, 0.3333333]), box_muller=bm)
        # how many epochs one of the history stands for, and which labels a maximum
        self.times, self.ml = g("times") or 1, g("ml") or (lambda m: m)
        self.vast = bool(g("vast"))
        self.data = []
        for k, (F, top, n) in enumerate(shapes):
            X = [bits(rng, F) for _ in range(n)]
            if self.clf:
                y = [rng.randint(0, top) for _ in range(n)]
                y[:2] = [0, top] if rng.random() < .5 else [top, 0]
            else:
                y = [rng.randint(0, self.T) for _ in range(n)]
            self.data.append((f"{gid}d{k + 1}", X, y))

    def pk(self, p=None):
        p = p or self.p
        r = {k: (str(v).lower() if isinstance(v, bool) else str(v)) for k, v in p.items() if "clauses" not in k}
        r["clauses"] = self.clauses
        return r

    def make(self, m, p=None):
        p = p or self.p
        return {"op": "make", "m": m, "est": self.est, "params": p, "pk": self.pk(p)}

    def inject(self, rng, m="a"):
        """A trained model of any learned state, extreme ones among them."""
        F, N, most = len(self.data[0][1][0]), self.p["number_of_states"], self.p["max_weight"]
        L = 1 + max(max(y) for _, _, y in self.data) if self.clf else 1
        outs = self.clauses // 2 * L
        x = bits(rng, F)
        rows = []
        for o in range(outs):
            rows += clause(rng, x, N, rng.choice(["fire", "fire", "miss", "rand", "empty"]), rng.choice(["mix", "mix", "edge"]))
        op = {"op": "inject", "m": m, "est": self.est, "params": self.p, "pk": self.pk(), "F": F, "L": L, "rows": rows, "inj": self.gid}
        if self.p["weighted"]:
            op["w"] = [min(most - 1, rng.choice([0, 1, 2, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2**31 - 3, 2**31 - 2])) for _ in range(outs)]
        return op

    def data_ops(self):
        if self.vast:
            # too big to be shown: its dimensions only
            return [{"op": "data", "id": i, "X": X, "y": y, "emit": 1, "F": len(X[0]), "top": max(y), "n": len(X)} for i, X, y in self.data]
        return [{"op": "data", "id": i, "X": X, "y": y, "emit": 1} for i, X, y in self.data]

    def ask(self, m, fn, k=1):
        """A query about data set k, about part of it when that is big."""
        op = {"op": "call", "m": m, "fn": fn, "d": self.d(k)}
        if self.vast:
            n = len(self.data[k - 1][1])
            op["ix"] = sorted({0, n - 1, n // 2, n // 3})
        return op

    def d(self, k):
        return self.data[k - 1][0]

    def bad(self, rng, what):
        """A call that has to be refused, on any model."""
        F = len(self.data[0][1][0])
        X = [bits(rng, F) for _ in range(3)]
        y = [0, 1, 0]
        if what in ("badfit", "badpfit"):
            k = rng.choice(["empty", "ragged", "len", "value", "neg"] + ([] if self.clf else ["above"]))
            if k == "empty":
                X, y = [], []
            elif k == "ragged":
                X[2] = X[2] + [1]
            elif k == "len":
                y = [0, 1]
            elif k == "value" and self.est.endswith("classic"):
                X[1] = [2] * F
            elif k == "value":
                X[1] = {"v": X[1], "pad": 1} if F % 64 else X[1] + [1]
            elif k == "neg":
                y = [0, -1, 0]
            elif k == "above":
                y = [0, self.T + 1, 0]
            return {"op": "call", "fn": what[3:], "Xb": 1, "X": X, "y": y, "ep": 1, "ml": 0}
        if what == "badquery":
            fn = rng.choice(["predictN", "decN"])
            return {"op": "call", "fn": fn, "X": rng.choice([[], [X[0], X[1] + [0]], [X[0] + [1]]])}
        return {"op": "call", "fn": "eval" if self.clf else "predictN", "X": rng.choice([[], [X[0] + [1]]]), "y": rng.choice([[], [0]])}

    def ops(self, rng, h, slots_digest=True):
        """The calls of a history of Api.tla on the library."""
        out = []
        for c in h:
            o, m = c["op"], c["m"]
            if o == "make":
                out.append(self.make(m))
            elif o in ("fit", "pfit", "pfitbad"):
                op = {"op": "call", "m": m, "fn": "pfit" if o != "fit" else "fit", "d": self.d(c["d"]), "ep": c["ep"] * self.times, "ml": self.ml(c["ml"])}
                op["bad" if o == "pfitbad" else "good"] = 1
                if c["ep"] == 0:
                    op["log"] = 1
                out.append(op)
            elif o in ("predictN", "decN", "eval", "params", "save", "copy"):
                out.append(self.ask(m, o) if o in ("predictN", "decN", "eval") else {"op": "call", "m": m, "fn": o})
            elif o in ("predict", "dec"):
                out.append({"op": "call", "m": m, "fn": o, "d": self.d(1), "ix": [rng.randrange(len(self.data[0][1]))]})
            elif o.startswith("bad"):
                op = self.bad(rng, o)
                op["m"] = m
                out.append(op)
            elif o in ("clone", "clone2", "restore", "move", "massign"):
                op = {"op": o, "m": m, "to": c["to"]}
                out.append(op)
            elif o == "destroy":
                out.append({"op": o, "m": m})
        return out

    def scenario(self, rng, n, h, pre=(), post=(), perturb=0):
        s = {"sid": f"{self.gid}:{n}", "dig": 1, "ops": self.data_ops() + [self.make("a")] + list(pre) + self.ops(rng, h) + list(post)}
        if perturb:
            s["perturb"] = perturb
        return s


def canonical(tr):
    """The shortest history with the term's training."""
    out = []
    for k, r in enumerate(tr):
        out.append({"op": "fit" if k == 0 and r["kind"] in ("fit", "train") else "pfit", "m": "a", "d": r["d"], "ep": r["ep"], "ml": r["ml"]})
    return out


def long_scenarios(g, rng, recs, perturb=False, pre=()):
    """Random histories and, for each model they end with, the plain history that leads to the same term."""
    out, done = [], {}
    ask = lambda m: [g.ask(m, "decN"), g.ask(m, "predictN")]
    for n, rec in enumerate(recs):
        post = []
        for t in rec["t"]:
            post += ask(t["s"])
            tr = t["tr"] if isinstance(t["tr"], list) else []
            if t["fit"] and tr:
                done.setdefault(json.dumps(tr), tr)
        out.append(g.scenario(rng, f"long{n}", rec["h"], pre=pre, post=post, perturb=rng.choice([0, 85, 170, 255]) if perturb else 0))
    for n, tr in enumerate(done.values()):
        out.append(g.scenario(rng, f"plain{n}", canonical(tr), pre=pre, post=ask("a")))
    return out


def vast_groups(pid, rng, datasets, kinds=None, est=ALL):
    """Beyond what 8 or 16 bits count: labels, features, samples, epochs, clauses."""
    out = []
    for e in est:
        for kind in kinds or ("labels", "features", "samples", "epochs", "clauses"):
            kw = {"vast": 1, "clauses": 4, "bm": False}
            F, top, n = rng.choice([2, 3, 17]), 1, 3
            if kind == "labels":
                top, n = rng.choice([257, 300]), 12
                if e in REG:
                    top, kw["T"] = 1, rng.choice([70000, 2**31 - 1])
            elif kind == "features":
                F = rng.choice([66000, 70001])
            elif kind == "samples":
                F, n = 2, 70000
            elif kind == "epochs":
                F, n, kw["times"] = 2, 2, rng.choice([300, 22000])
            else:
                F = 1
                kw["clauses"] = rng.choice([132000, 140000]) if e in REG else 44000
                kw["T"] = rng.choice([5, 100, 40000])
            # one repetition with few samples, the other with a few more
            g = Group(rng, f"{pid}-{e.replace('/', '')}-{kind}", e, [(F, top, n + k) for k in range(datasets)], **kw)
            if kind in ("samples", "epochs"):
                g.p["n_jobs"] = 1        # threads for each of very many steps take long
            out.append(g)
    return out


def cfg(props, compare, rules=()):
    q = lambda xs: "{" + ", ".join(f'"{x}"' for x in xs) + "}"
    return (f"SPECIFICATION Spec\nCONSTANTS Props = {q(props)} Compare = {q(compare)} Rules = {q(rules)}\n"
            "POSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\nVIEW View\n")


def from_api(pid, consts, groups, limit, perturb=False, keep=None, post=None, long=None, more=None):
    """Scenario generator: every history of the alphabet (or a seeded selection of at most `limit`) for each group."""
    def gen(rng, tier, work):
        r, hs = run_api(work, pid, consts(tier))
        work.api.append(r)
        if keep:
            hs = [h for h in hs if keep(h)]
        out = []
        gs = groups(rng, tier)
        lim = 3 * limit(tier)
        for g in gs:
            sel = hs if len(hs) <= lim else [hs[i] for i in sorted(rng.sample(range(len(hs)), lim))]
            for n, h in enumerate(sel):
                out.append(g.scenario(rng, n, h, perturb=rng.choice([0, 85, 170, 255]) if perturb else 0, post=post(g, rng) if post else ()))
        if more:
            out += more(gs, rng, tier, hs)
        if long:
            r, recs = run_long(work, pid, long(tier), 150 if tier == "quick" else 600, rng.randrange(1 << 30))
            work.api.append(r)
            for g in gs:
                out += long_scenarios(g, rng, rng.sample(recs, min(len(recs), 40 if tier == "quick" else 300)), perturb)
            # lives that begin with a learned state of any kind
            for e in ALL:
                for k, N in enumerate(rng.sample([1, 2, 127, 128, 129, 255, 32767, 32768, 40000, 65536, 16777217, 2**31 - 1], 4 if tier == "quick" else 12)):
                    F = rng.choice([1, 2, 3, 63, 64, 65, 130])
                    g = Group(rng, f"{pid}-{e.replace('/', '')}-given{k}", e, [(F, 1, rng.choice([2, 4])) for _ in range(int(long(tier)["Datasets"].split()[-1]))], N=N, weighted=rng.random() < .7,
                              T=rng.choice([5, 1000, 2**31 - 1]), bm=False)
                    g.p["max_weight"] = rng.choice([2147483647, 2147483647, 300, 70000])
                    out += long_scenarios(g, rng, rng.sample(recs, 6 if tier == "quick" else 40), perturb, pre=[g.inject(rng)])
            big = [r for r in recs if any(c["op"] in ("fit", "pfit") and c["ep"] > 0 for c in r["h"])]
            for g in vast_groups(pid, rng, int(long(tier)["Datasets"].split()[-1])):
                out += long_scenarios(g, rng, rng.sample(big, 3 if tier == "quick" else 12), perturb)
        return out
    return gen


def mc_of_api(work, tier):
    # the enumeration of the histories is a model checking run itself; its result is reported
    return []


def small(rng, F=None, n=None):
    return (F or rng.choice([2, 3, 5, 17, 65]), 1, n or rng.choice([3, 5, 8]))


ASSUME_API = ["learned state, weights, flags, generator state and parameters of a model are compared by 64-bit digests computed in the harness"]

# ---------------------------------------------------------------- C05
def gen_c05(rng, tier, work):
    out = []
    n = 72 if tier == "quick" else 480
    for est in ALL:
        for i in range(n):
            F = rng.choice([1, 2, 3, 8, 17, 33, 64, 65, 130])
            ns = rng.choice([1, 2, 7, 16, 40])
            top = rng.choice([1, 2, 4])
            g = Group(rng, f"C05-{est.replace('/', '')}-{i}", est, [(F, top, max(ns, 3)), (F, top, 12)], clauses=rng.choice([4, 8, 20]) if est in CLF else rng.choice([2, 10, 20]))
            X = g.data[0][1]
            idx = list(range(len(X)))
            perm = idx[:]
            rng.shuffle(perm)
            d = g.d(1)
            ask = []
            for _ in range(6):
                fn = rng.choice(["predictN", "decN"] + (["eval", "eval"] if g.clf else []))
                op = {"op": "call", "m": "a", "fn": fn, "d": d}
                if rng.random() < .8:
                    k = rng.choice([1, 2, len(X), 2 * len(X)])
                    op["ix"] = [rng.randrange(len(X)) for _ in range(k)]
                ask.append(op)
            sweep = lambda fn, ix: {"op": "sweep", "m": "a", "fn": fn, "d": d, "ix": ix}
            first = [sweep("predict", idx), sweep("dec", perm)] if g.clf else [sweep("predict", idx)]
            if i % 3 == 0:
                g.p["max_weight"] = rng.choice([2147483647, 300])
            ops = g.data_ops() + ([g.inject(rng)] if i % 3 == 0 else [g.make("a"), {"op": "call", "m": "a", "fn": "fit", "d": g.d(2), "ep": rng.choice([0, 1, 3, 10]), "ml": top + 1}])
            for rnd in range(2):
                ops += first + ask + [sweep("predict", perm)] + ([sweep("dec", idx)] if g.clf else [])
                ops += [{"op": rng.choice(["clone", "restore"]), "m": "a", "to": "b"}, dict(sweep("predict", perm), m="b")] if rnd else []
                if not rnd:
                    ops += [{"op": "call", "m": "a", "fn": "pfit", "d": g.d(2), "ep": 1, "ml": 0}]
            out.append({"sid": f"{g.gid}", "ops": ops})
        # many labels; batches beyond what 16 bits count
        for i in range(2 if tier == "quick" else 8):
            top = 280 if est in CLF and i % 2 else 2
            g = Group(rng, f"C05-{est.replace('/', '')}-vast{i}", est, [(9, top, 150), (9, top, 300)], clauses=4, N=50)
            d, X = g.d(1), g.data[0][1]
            ops = g.data_ops() + [g.make("a"), {"op": "call", "m": "a", "fn": "fit", "d": g.d(2), "ep": 2, "ml": top + 1 if g.clf else 0}]
            ops += [{"op": "sweep", "m": "a", "fn": "predict", "d": d, "ix": list(range(len(X)))}]
            if g.clf:
                ops += [{"op": "sweep", "m": "a", "fn": "dec", "d": d, "ix": list(range(len(X)))}]
            for fn in ["predictN"] + (["eval"] if g.clf else []):
                ops.append({"op": "call", "m": "a", "fn": fn, "d": d, "ix": [rng.randrange(len(X)) for _ in range(1000 if i % 2 else 70000)]})
            if g.clf:
                ops.append({"op": "call", "m": "a", "fn": "decN", "d": d, "ix": [rng.randrange(len(X)) for _ in range(1000)]})
                if i % 2 == 0:
                    # as many wrong predictions, too
                    off = f"{d}-off"
                    ops[:0] = [{"op": "data", "id": off, "emit": 1, "X": X, "y": [(v + 1) % 3 for v in g.data[0][2]]}]
                    ops += [{"op": "sweep", "m": "a", "fn": "predict", "d": off, "ix": list(range(len(X)))},
                            {"op": "call", "m": "a", "fn": "eval", "d": off, "ix": [rng.randrange(len(X)) for _ in range(170000)]}]
            out.append({"sid": f"{g.gid}", "ops": ops})
    return out


def mc_c05(work, tier):
    cfg_ = f'SPECIFICATION Spec\nCONSTANTS Props = {{"C05"}} Depth = {2 if tier == "quick" else 3} Mutant3 = "none"\nINVARIANT Elementwise\nCHECK_DEADLOCK FALSE\n'
    return [lambda: core.model_check(work, "batch", "Batch", cfg_, "queries worked out over a kept scratch buffer: all small models, leftovers and histories of queries answer element by element as the rule says", workers=2)]


prop("C05", module="ApiTrace", cfg=cfg(["C05"], ["l"]), scenarios=gen_c05, mc=mc_c05, assumptions=ASSUME_API,
     scope="all estimators, trained to different degrees; samples asked alone, in any order, in batches with repetitions, as scores and as accuracy")

# ---------------------------------------------------------------- C06
IDLE = ["predict", "predictN", "dec", "decN", "eval", "params", "save", "copy", "badfit", "badpfit", "badquery", "badeval"]


def groups_of(pid, shapes, per_est=1, **kw):
    def groups(rng, tier):
        k = per_est * (3 if tier == "thorough" else 1)
        return [Group(rng, f"{pid}-{est.replace('/', '')}{i}", est, shapes(rng), bm=i % 2 == 1 if per_est > 1 else None, **{a: (b(rng) if callable(b) else b) for a, b in kw.items()})
                for est in ALL for i in range(k)]
    return groups


prop("C06", module="ApiTrace", cfg=cfg(["same"], ["l", "g", "p"]),
     scenarios=from_api("C06", lambda t: api_consts(["fit", "pfit"] + IDLE, 3 if t == "quick" else 4, epochs=(1,), datasets=1),
                        groups_of("C06", lambda r: [small(r, n=r.choice([3, 5]))], per_est=2), lambda t: 330 if t == "quick" else 2500,
                      long=lambda t: api_consts(["fit", "pfit"] + IDLE, 12 if t == "quick" else 20, epochs=(0, 1), datasets=1)),
     assumptions=ASSUME_API, scope="all histories of training, queries and refused calls")

# ---------------------------------------------------------------- C07
def more_c07(gs, rng, tier, hs):
    """Models created without a seed, and models of the parameters they report."""
    out = []
    for g in gs:
        for n, h in enumerate(rng.sample([h for h in hs if all(c["m"] == "a" for c in h)], 4)):
            sid = f"{g.gid}:drawn{n}"
            mk = g.make("a")
            mk["params"] = {k: v for k, v in g.p.items() if k != "random_state"}
            if n % 2:
                mk["params"]["random_state"] = None
            mk["pk"]["random_state"] = "drawn " + sid
            remake = {"op": "remake", "m": "a", "to": "b", "est": g.est}
            life = g.ops(rng, h)
            other = [dict(c, m="b") for c in life]
            ops = [mk] + ([remake] + life + other if n < 2 else life + [remake] + other)
            out.append({"sid": sid, "dig": 1, "ops": g.data_ops() + ops + [{"op": "same", "m": "a", "b": "b"}, g.ask("a", "decN"), g.ask("b", "decN")]})
    for est in ALL:
        for null in (0, 1):
            out.append({"sid": f"C07-drawn-{est.replace('/', '')}-{null}", "ops": [{"op": "drawn", "est": est, "n": 6, "null": null}]})
    return out


prop("C07", module="ApiTrace", cfg=cfg(["same", "C07", "eq"], ["l", "g", "p"]),
     scenarios=from_api("C07", lambda t: api_consts(["fit", "pfit", "make"], 3 if t == "quick" else 4, epochs=(0, 2), datasets=2, slots=("a", "b")),
                        groups_of("C07", lambda r: [(lambda F: (F, 1, r.choice([3, 4, 5])))(r.choice([2, 5, 17, 65])) for _ in range(2)], per_est=2,
                                  weighted=lambda r: r.choice([True, True, False])), lambda t: 300 if t == "quick" else 1500, perturb=True,
                      more=more_c07,
                      long=lambda t: api_consts(["fit", "pfit", "make", "decN", "badfit", "destroy"], 8 if t == "quick" else 12, epochs=(0, 1, 2), datasets=2, slots=("a", "b"))),
     assumptions=ASSUME_API, scope="all histories of fits and partial fits on one or two models of equal parameters, in processes with differently filled memory; models created without a seed and models of the parameters they report")

# ---------------------------------------------------------------- C09
def once(h):
    return all(c["op"] != "fit" for c in h[1:])


def same_shape(r):
    F = r.choice([2, 5, 17, 65])
    return [(F, 1, 4), (F, 1, 5)]


prop("C09", module="ApiTrace", cfg=cfg(["same"], ["l", "g"], ["compose"]),
     scenarios=from_api("C09", lambda t: api_consts(["fit", "pfit"], 4 if t == "quick" else 5, epochs=(0, 1, 2), datasets=2, rules=["compose"]),
                        groups_of("C09", same_shape, per_est=2), lambda t: 330 if t == "quick" else 2000, keep=once,
                      long=lambda t: api_consts(["pfit", "badpfit", "predictN"], 9 if t == "quick" else 14, epochs=(0, 1, 2, 3), datasets=2, rules=["compose"])),
     assumptions=ASSUME_API, scope="all ways of splitting training into a fit and partial fits of 0, 1 or 2 epochs over two data sets")

# ---------------------------------------------------------------- C10
def ends_restored(h):
    return any(c["op"] == "restore" for c in h)


def more_c10(gs, rng, tier, hs):
    """States compared with states that differ in one place."""
    out = []
    sel = [h for h in hs if all(c["m"] == "a" for c in h)]
    for g in gs:
        for n, h in enumerate([[]] + rng.sample(sel, min(len(sel), 5))):
            out.append(g.scenario(rng, f"variants{n}", h, post=[{"op": "variants", "m": "a"}, {"op": "call", "m": "a", "fn": "save"}]))
    return out


prop("C10", module="ApiTrace", cfg=cfg(["same", "C10"], ["l", "g", "p"]),
     scenarios=from_api("C10", lambda t: api_consts(["fit", "pfit", "restore", "decN"], 3 if t == "quick" else 4, epochs=(0, 2), datasets=1, slots=("a", "b")),
                        groups_of("C10", lambda r: [small(r, n=5)], per_est=3, N=lambda r: r.choice([3, 127, 128, 40000])), lambda t: 200 if t == "quick" else 1500, keep=ends_restored,
                      more=more_c10,
                      long=lambda t: api_consts(["fit", "pfit", "restore", "decN", "massign", "destroy", "badfit", "save"], 10 if t == "quick" else 16, epochs=(0, 1, 2), datasets=1, slots=("a", "b", "c"))),
     assumptions=ASSUME_API, scope="models saved and restored at every point of all histories, continued on both sides, counters of all widths; states compared with states that differ in one automaton, weight, parameter or generator")

# ---------------------------------------------------------------- C18
def shapes18(r):
    F = r.choice([2, 3, 17, 64])
    return [(F, 1, 4), (F, 3, 5), (F + 1, 1, 4)]


def gen_c18(rng, tier, work):
    out = []
    for est in ALL:
        clf = est in CLF
        # one alphabet per kind: regressors know no labels
        c = api_consts(["fit", "pfit", "pfitbad", "decN"], 3 if tier == "quick" else 4, epochs=(1,), datasets=3, features=[2, 2, 3],
                       top=[1, 3, 1] if clf else [-1, -1, -1], ml=(0, 6) if clf else (0,))
        r, hs = run_api(work, f"C18-{est.replace('/', '')}", c)
        work.api.append(r)
        long = dict(api_consts(["fit", "pfit", "pfitbad", "decN", "predictN", "badfit", "badquery", "save"], 9 if tier == "quick" else 14, epochs=(0, 1), datasets=3,
                               features=[2, 2, 3], top=[1, 3, 1] if clf else [-1, -1, -1], ml=(0, 6) if clf else (0,)))
        r, recs = run_long(work, f"C18-{est.replace('/', '')}", long, 80 if tier == "quick" else 400, rng.randrange(1 << 30))
        work.api.append(r)
        for i in range(2 if tier == "quick" else 6):
            g = Group(rng, f"C18-{est.replace('/', '')}{i}", est, shapes18(rng))
            lim = 500 if tier == "quick" else 3000
            sel = hs if len(hs) <= lim else [hs[k] for k in sorted(rng.sample(range(len(hs)), lim))]
            sel += [x["h"] for x in rng.sample(recs, min(len(recs), 50 if tier == "quick" else 300))]
            for n, h in enumerate(sel):
                ops = g.ops(rng, h)
                # refused calls on the new model leave it untrained
                pre = []
                if rng.random() < .3:
                    b = g.bad(rng, rng.choice(["badfit", "badpfit"]))
                    b["m"] = "a"
                    pre = [b, {"op": "call", "m": "a", "fn": "predictN", "d": g.d(1)}]
                post = [{"op": "call", "m": "a", "fn": "decN", "d": g.d(3 if lastF(h) == 3 else 1)}]
                out.append({"sid": f"{g.gid}:{n}", "dig": 1, "ops": g.data_ops() + [g.make("a")] + pre + ops + post})
        # dimensions that differ by what 8 or 16 bits do not hold
        both = [x for x in hs if any(c["op"] == "pfitbad" for c in x)]
        for i, (step, up, most) in enumerate([(256, 256, 600), (65536, 1, 6)] + ([(1, 65536, 70000)] if clf else [])):
            F = rng.choice([1, 2]) if up > 256 else rng.choice([1, 2, 17])
            g = Group(rng, f"C18-{est.replace('/', '')}-vast{i}", est, [(F, 1, 4), (F, 1 + up if clf else 1, 5), (F + step, 1, 4)], vast=1, clauses=4, ml=lambda m: m and most)
            g.p["n_jobs"] = 1
            for n, h in enumerate(rng.sample(both, min(len(both), 4 if up > 256 else 12 if step > 256 else 60))):
                out.append({"sid": f"{g.gid}:{n}", "dig": 1, "ops": g.data_ops() + [g.make("a")] + g.ops(rng, h) + [g.ask("a", "decN", 3 if lastF(h) == 3 else 1)]})
    return out


def lastF(h):
    f = 0
    fit = False
    for c in h:
        if c["op"] == "fit" or (c["op"] == "pfit" and not fit):
            f = 3 if c["d"] == 3 else 2
            fit = True
    return f


prop("C18", module="ApiTrace", cfg=cfg(["C18"], ["p"]), scenarios=gen_c18, assumptions=ASSUME_API,
     scope="all histories over data sets of different row length and label range, with and without a given maximum of labels")

# ---------------------------------------------------------------- C19
prop("C19", module="ApiTrace", cfg=cfg(["same", "eq"], ["l", "g", "p"]),
     scenarios=from_api("C19", lambda t: api_consts(["fit", "pfit", "clone", "clone2", "restore", "move", "massign", "destroy"], 4 if t == "quick" else 5,
                                                    epochs=(1,), datasets=1, slots=("a", "b") if t == "quick" else ("a", "b", "c")),
                        groups_of("C19", lambda r: [small(r, n=4)], per_est=2), lambda t: 330 if t == "quick" else 2000,
                        keep=lambda h: any(c["op"] in ("clone", "clone2", "restore", "move", "massign") for c in h),
                      long=lambda t: api_consts(["fit", "pfit", "clone", "clone2", "restore", "move", "massign", "destroy", "decN", "make"], 10 if t == "quick" else 16, epochs=(0, 1, 2), datasets=1, slots=("a", "b", "c"))),
     assumptions=ASSUME_API, scope="all histories of copying, restoring, moving, destroying and training two or three models")


# ---------------------------------------------------------------- C08
def gen_c08(rng, tier, work):
    out = []
    consts = api_consts(["fit", "pfit", "decN"], 2 if tier == "quick" else 3, epochs=(1, 3), datasets=2, rules=["perf"])
    r, hs = run_api(work, "C08", consts)
    work.api.append(r)
    for est in ALL:
        for i in range(16 if tier == "quick" else 60):
            packed = est.endswith("bitwise")
            F = rng.choice([1, 3, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 140, 260] + ([1024, 1100, 2060] if packed else []))
            N = rng.choice([2, 50, 127, 128, 5000, 32767])
            g = Group(rng, f"C08-{est.replace('/', '')}{i}", est, [(F, 1, 6), (F, 1, 5)], N=N,
                      clauses=rng.choice([4, 8, 20, 40]) if est in CLF else rng.choice([2, 10, 20, 38]))
            g.p["s"] = rng.choice([1.5, 3.0, 10.0])
            sel = [rng.choice(hs) for _ in range(2)]
            # a longer history as well
            sel.append([{"op": "fit", "m": "a", "d": 1, "ep": 5, "ml": 0}, {"op": "pfit", "m": "a", "d": 2, "ep": 4, "ml": 0}, {"op": "decN", "m": "a"}])
            widths = ["auto", "int32"] + (["int16", "int8"] if N <= 127 else ["int16"] if N <= 32767 else [])
            variants = [dict(n_jobs=1, clause_output_tile_size=16, verbose=False, counting_type="auto")]
            variants += [dict(n_jobs=j, clause_output_tile_size=16, verbose=False, counting_type="auto") for j in rng.sample([2, 3, 4, 5, 8, 13, 20, 64, 100, -1], 4)]
            variants += [dict(n_jobs=1, clause_output_tile_size=t, verbose=False, counting_type="auto") for t in (32, 64, 128)]
            variants += [dict(n_jobs=1, clause_output_tile_size=16, verbose=False, counting_type=w) for w in widths[1:]]
            variants += [dict(n_jobs=1, clause_output_tile_size=16, verbose=True, counting_type="auto")]
            variants += [dict(n_jobs=rng.choice([2, 3, 7]), clause_output_tile_size=rng.choice([16, 32, 64, 128]), verbose=rng.random() < .3, counting_type=rng.choice(widths)) for _ in range(2)]
            k = 0
            for h in sel:
                for v in variants:
                    p = dict(g.p)
                    p.update(v)
                    ops = g.data_ops() + [g.make("a", p)] + g.ops(rng, h) + [{"op": "call", "m": "a", "fn": "decN", "d": g.d(2)}, {"op": "call", "m": "a", "fn": "predictN", "d": g.d(1)}]
                    out.append({"sid": f"{g.gid}:{k}", "dig": 1, "ops": ops})
                    k += 1
    # from learned states of any kind
    for est in ALL:
        for i in range(8 if tier == "quick" else 30):
            N = rng.choice([1, 2, 127, 128, 32767, 32768, 65536, 2**31 - 1])
            F = rng.choice([1, 3, 16, 31, 33, 63, 64, 65, 129, 200] + ([1030, 2050] if est.endswith("bitwise") else []))
            g = Group(rng, f"C08-{est.replace('/', '')}-given{i}", est, [(F, 1, 4), (F, 1, 3)], N=N, weighted=rng.random() < .7, T=rng.choice([2, 15, 1000]),
                      clauses=rng.choice([4, 8, 20, 36]) if est in CLF else rng.choice([2, 10, 38]))
            g.p["max_weight"] = 2147483647
            start = g.inject(rng)
            base = dict(n_jobs=1, clause_output_tile_size=16, verbose=False, counting_type="auto")
            variants = [base] + [dict(base, clause_output_tile_size=t) for t in (32, 64, 128)] + [dict(base, counting_type=w) for w in ["int32"] + (["int16"] if N <= 32767 else [])]
            variants += [dict(base, n_jobs=j) for j in rng.sample([2, 3, 4, 8, 17, 64, -1], 2)] + [dict(base, verbose=True)]
            h = [{"op": "pfit", "m": "a", "d": 1, "ep": 2, "ml": 0}, {"op": "pfit", "m": "a", "d": 2, "ep": 1, "ml": 0}]
            for k, v in enumerate(variants):
                p = dict(g.p)
                p.update(v)
                ops = g.data_ops() + [dict(start, params=p, pk=g.pk(p)), g.ask("a", "decN")] + g.ops(rng, h) + [g.ask("a", "decN", 2), g.ask("a", "predictN")]
                out.append({"sid": f"{g.gid}:{k}", "dig": 1, "ops": ops})
    for g in vast_groups("C08", rng, 2):
        kind = g.gid.split("-")[-1]
        base = dict(n_jobs=1, clause_output_tile_size=16, verbose=False, counting_type="auto")
        variants = [base] + [dict(base, clause_output_tile_size=t) for t in (32, 64, 128)] + [dict(base, counting_type="int32"), dict(base, counting_type="int16"), dict(base, verbose=True)]
        if kind not in ("samples", "epochs"):
            variants += [dict(base, n_jobs=j) for j in (2, 7, 64, 300)]
            variants.append(dict(n_jobs=3, clause_output_tile_size=64, verbose=False, counting_type="int32"))
        h = [{"op": "fit", "m": "a", "d": 1, "ep": 1, "ml": 0}, {"op": "pfit", "m": "a", "d": 2, "ep": 1, "ml": 0}]
        for k, v in enumerate(variants):
            p = dict(g.p)
            p.update(v)
            ops = g.data_ops() + [g.make("a", p)] + g.ops(rng, h) + [g.ask("a", "decN", 2), g.ask("a", "predictN")]
            out.append({"sid": f"{g.gid}:{k}", "dig": 1, "ops": ops})
    return out


prop("C08", module="ApiTrace", cfg=cfg(["same"], ["l"], ["perf"]), scenarios=gen_c08, assumptions=ASSUME_API,
     scope="1..13 jobs and the hardware's number, all tile sizes, verbosity, all counter widths that hold the states; 1..2060 features, up to 40 clauses per label")


# ---------------------------------------------------------------- C23
LANES = ["make", "fit", "pfit", "predictN", "decN", "eval", "params", "save", "copy", "badfit", "badquery"]


def gen_c23(rng, tier, work):
    """Random behaviours of Api.tla in which no call concerns two models; the calls of each model go to a thread."""
    out = []
    slots = ("a", "b", "c", "d")
    r, recs = run_long(work, "C23", api_consts(LANES, 28 if tier == "quick" else 40, epochs=(1, 3), datasets=2, slots=slots), 60 if tier == "quick" else 300, rng.randrange(1 << 30))
    work.api.append(r)
    for i in range(12 if tier == "quick" else 60):
        F = rng.choice([3, 17, 64, 65, 130, 300])
        shapes = [(F, 2, 24), (F, 2, 16)]
        gid = f"C23-{i}"
        T = rng.choice([5, 15])
        first = Group(rng, gid, rng.choice(ALL), shapes, T=T)
        def other(est):
            g = Group(rng, gid, est, [], T=T)
            g.data = first.data
            return g
        # the same kind of model in all threads, or different ones
        gs = [first] + [other(first.est if i % 2 == 0 else est) for est in (ALL if i % 2 else [0] * 3)][:3]
        if i % 2:
            rng.shuffle(gs)
        if i % 4 == 0:
            gs[1].p = dict(first.p, random_state=first.p["random_state"] ^ 1)
            gs[1].clauses = first.clauses
        for k in range(6 if tier == "quick" else 12):
            h = rng.choice(recs)["h"]
            lanes = []
            for g, s in zip(gs, slots):
                ops = [g.make(s)] + [o for o in g.ops(rng, [c for c in h if c["m"] == s and c["op"] != "make"])]
                # one long training among the rest
                ops.insert(rng.randrange(1, len(ops) + 1), {"op": "call", "m": s, "fn": "fit", "d": g.d(1), "ep": 20, "ml": 0, "good": 1})
                ops += [{"op": "call", "m": s, "fn": "decN", "d": g.d(1)}, {"op": "call", "m": s, "fn": "predictN", "d": g.d(2)}]
                lanes.append(ops)
            # each on its own first
            for s, ops in zip(slots, lanes):
                out.append({"sid": f"{gid}:{k}alone{s}", "dig": 1, "ops": first.data_ops() + ops})
            for rnd in range(2):
                out.append({"sid": f"{gid}:{k}together{rnd}", "dig": 1,
                            "ops": first.data_ops() + [{"op": "par", "lanes": [[dict(o, lane=n) for o in ops] for n, ops in enumerate(lanes)]}]})
    return out


def mc_c23(work, tier):
    c = lambda users, depth: f'SPECIFICATION Spec\nCONSTANTS Props = {{}} Mutant4 = "none" Users = {{{users}}} Depth = {depth}\nINVARIANT NoInterference\nCHECK_DEADLOCK FALSE\n'
    out = [lambda: core.model_check(work, "threads", "Threads", c("1, 2", 3 if tier == "quick" else 4), "two threads with a model each: all interleavings of the steps of their calls", workers=2)]
    if tier != "quick":
        out.append(lambda: core.model_check(work, "threads3", "Threads", c("1, 2, 3", 2), "three threads with a model each", workers=4))
    return out


prop("C23", module="ApiTrace", cfg=cfg(["same"], ["l", "g", "p"]), scenarios=gen_c23, mc=mc_c23,
     assumptions=ASSUME_API + ["threads are interleaved by the operating system; calls of the threads are started together"],
     scope="four threads, each making, training, asking, copying and saving a model of its own, of the same or different kinds; compared with the same calls made alone")
