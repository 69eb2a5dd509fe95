"""Scenarios for StepTrace.tla: models put into chosen learned states, single
training samples and queries."""
import random

FAM = {"clf/classic": "classic", "reg/classic": "classic", "clf/bitwise": "bitwise", "reg/bitwise": "bitwise"}
CLF = ("clf/classic", "clf/bitwise")
REG = ("reg/classic", "reg/bitwise")
INF = (0, 1)
S_VALUES = [(1, 1), (2, 1), (4, 1), (8, 1), (3, 1), (5, 1), (3, 2), (5, 2), (10, 1), (100, 1), INF]


def s_real(s):
    return 1e30 if s == INF else s[0] / s[1]


def widths(N):
    if N <= 127:
        return ["auto", "int8", "int16", "int32"]
    if N <= 32767:
        return ["auto", "int16", "int32"]
    return ["auto", "int32"]


class Cfg:
    """A configuration of an estimator, as library parameters and as the cfg record of the spec."""

    def __init__(self, rng, est, **kw):
        self.est = est
        self.clf = est in CLF
        g = kw.get
        self.F = g("F") or rng.choice([1, 2, 3, 5, 8, 15, 16, 17])
        self.L = (g("L") or rng.choice([2, 2, 3, 4])) if self.clf else 1
        self.per = g("per") or rng.choice([2, 2, 4, 6] if self.clf else [1, 2, 3, 5, 10])
        self.N = g("N") or rng.choice([1, 2, 3, 5, 100, 126, 127, 128, 129, 200, 256, 32766, 32767, 32768, 50000, 65535, 100000, 16777217, 2147483647])
        self.T = g("T") or rng.choice([1, 2, 3, 5, 15])
        self.boost = g("boost") if g("boost") is not None else rng.choice([0, 1])
        self.wt = g("wt") if g("wt") is not None else rng.choice([0, 1])
        self.maxw = g("maxw") or rng.choice([1, 2, 3, 10, 1000, 2147483647, 2147483647])
        self.s = g("s") or rng.choice(S_VALUES)
        self.loss = g("loss") or rng.choice(["MSE", "MAE", "L1", "L2", "berHu", "L1+2"])
        self.c1 = g("c1") or rng.choice([(0, 1), (1, 1), (1, 2), (1, 4), (3, 4), (1, 10), (3, 10)])
        self.bm = g("bm") if g("bm") is not None else rng.choice([0, 0, 0, 1])
        self.jobs = g("jobs") or rng.choice([1, 1, 2, 3])
        self.tile = g("tile") or rng.choice([16, 16, 32, 64, 128])
        self.ct = g("ct") or rng.choice(widths(self.N))
        self.seed = g("seed") if g("seed") is not None else rng.randrange(1 << 30)
        self.outs = self.L * self.per if self.clf else self.per

    def params(self):
        p = {"number_of_states": self.N, "s": s_real(self.s), "threshold": self.T, "weighted": bool(self.wt),
             "max_weight": self.maxw, "boost_true_positive_feedback": self.boost, "n_jobs": self.jobs,
             "clause_output_tile_size": self.tile, "counting_type": self.ct, "random_state": self.seed, "verbose": False}
        if self.clf:
            p["number_of_clauses_per_label"] = 2 * self.per
        else:
            p.update(number_of_regressor_clauses=2 * self.per, loss_fn=self.loss, loss_fn_C1=self.c1[0] / self.c1[1],
                     box_muller=bool(self.bm))
        return p

    def rec(self, fam=None):
        return {"fam": fam or FAM[self.est], "clf": int(self.clf), "L": self.L, "per": self.per, "N": self.N, "T": self.T,
                "boost": self.boost, "wt": self.wt, "maxw": self.maxw, "sn": self.s[0], "sd": self.s[1],
                "loss": self.loss, "ca": self.c1[0], "cb": self.c1[1], "bm": self.bm}

    def inject(self, m="a", rows=None, w=None, est=None):
        est = est or self.est
        op = {"op": "inject", "m": m, "est": est, "params": self.params(), "F": self.F, "L": self.L,
              "cfg": self.rec(FAM[est])}
        if FAM[est] == "bitwise":
            op["pol"] = 1
        if rows is not None:
            op["rows"] = rows
            if self.wt:
                op["w"] = w
        return op


def bits(rng, F, style=None):
    style = style or rng.choice(["r", "r", "r", "0", "1", "sparse", "dense"])
    if style == "0":
        return [0] * F
    if style == "1":
        return [1] * F
    p = {"r": .5, "sparse": .05, "dense": .95}[style]
    return [int(rng.random() < p) for _ in range(F)]


def flip_some(rng, x, k=None):
    y = list(x)
    for _ in range(k or rng.choice([1, 1, 2, 4])):
        j = rng.randrange(len(y))
        y[j] ^= 1
    return y


def excl(rng, N, style):
    if style == "edge":
        return -N
    if style == "mid":
        return -1
    return rng.choice([-1, -1, max(-2, -N), -N, -rng.randint(1, N)])


def incl(rng, N, style):
    if style == "edge":
        return N - 1
    if style == "mid":
        return 0
    return rng.choice([0, 0, min(1, N - 1), N - 1, max(0, N - 2), rng.randint(0, N - 1)])


def clause(rng, x, N, kind, style="mix", dense=None):
    """Rows (positive, negated literals) of a clause that on x is: empty, fire, miss, or random."""
    F = len(x)
    pos = [excl(rng, N, style) for _ in range(F)]
    neg = [excl(rng, N, style) for _ in range(F)]
    if kind == "empty":
        return pos, neg
    if kind == "rand":
        for r in (pos, neg):
            for j in range(F):
                if rng.random() < .3:
                    r[j] = incl(rng, N, style)
        return pos, neg
    dens = dense if dense is not None else rng.choice([.1, .3, .7, 1.])
    true = [(pos, j) if x[j] else (neg, j) for j in range(F)]
    false = [(neg, j) if x[j] else (pos, j) for j in range(F)]
    some = [t for t in true if rng.random() < dens]
    shape = rng.choice(["any"] * 6 + ["lone", "lone", "one"]) if dense is None else "any"
    if shape == "lone":                          # a single literal, or only false ones
        some = [rng.choice([true[0], true[-1], rng.choice(true)])] if kind == "fire" else []
    elif shape == "one":                         # literals of one polarity
        half = rng.choice([pos, neg])
        some = [t for t in some if t[0] is half]
    if not some and kind == "fire":
        some = [rng.choice(true)]
    for r, j in some:
        r[j] = incl(rng, N, style)
    if kind == "miss":
        k = rng.choice([1, 1, 1, 2, len(false)])
        # often in the last or first position
        pick = rng.choice(["any", "any", "last", "first"])
        if pick == "last":
            bad = [false[-1]]
        elif pick == "first":
            bad = [false[0]]
        else:
            bad = rng.sample(false, min(k, len(false)))
        for r, j in bad:
            r[j] = incl(rng, N, style)
    return pos, neg


def rows_for(rng, c, x, plan):
    """plan(o) gives the kind of clause output o on x."""
    rows = []
    style = rng.choice(["mix", "mix", "mix", "edge", "mid"])
    for o in range(c.outs):
        p, n = clause(rng, x, c.N, plan(o), style)
        rows += [p, n]
    return rows


def weights_for(rng, c, style=None):
    style = style or rng.choice(["low", "low", "edge", "mix", "big"])
    top = c.maxw - 1
    r = []
    for _ in range(c.outs):
        if style == "low":
            v = rng.choice([0, 0, 1, 2])
        elif style == "edge":
            v = rng.choice([0, top, top - 1])
        elif style == "big":
            v = rng.randint(0, top)
        else:
            v = rng.choice([0, 1, 5, top, rng.randint(0, min(top, 100))])
        r.append(max(0, min(top, v)))
    return r


def plan_random(rng):
    return lambda o: rng.choice(["empty", "fire", "fire", "miss", "miss", "rand"])


def plan_votes(rng, c, want):
    """want: label -> 'hi' | 'lo' | 'any': the training score of that label on x."""
    def plan(o):
        w = want.get(o // c.per if c.clf else 0, "any")
        if w == "any":
            return rng.choice(["empty", "fire", "miss"])
        fires = (o % 2 == 0) == (w == "hi") if c.clf else w == "hi"
        return rng.choice(["fire", "fire", "empty"]) if fires else "miss"
    return plan


def step(m, x, y, c, ep=1, full=None, est=None):
    op = {"op": "step", "m": m, "x": x, "y": y}
    if ep != 1:
        op["ep"] = ep
    if FAM[est or c.est] == "bitwise":
        op["pol"] = 1
    return op


def target(rng, c):
    return rng.randrange(c.L) if c.clf else rng.choice([0, c.T, rng.randint(0, c.T), rng.randint(0, c.T)])


def steps_scenario(rng, sid, c, nsteps, queries=0, extreme=None):
    x = bits(rng, c.F)
    want = {}
    if c.clf:
        for l in range(c.L):
            want[l] = rng.choice(["hi", "lo", "any", "any"])
    else:
        want[0] = rng.choice(["hi", "lo", "any", "any"])
    if extreme:
        want = extreme
    rows = rows_for(rng, c, x, plan_votes(rng, c, want) if rng.random() < .7 or extreme else plan_random(rng))
    w = weights_for(rng, c) if c.wt else None
    ops = [c.inject("a", rows, w)]
    y = target(rng, c)
    for i in range(nsteps):
        if rng.random() < .3:
            x = flip_some(rng, x)
        if rng.random() < .4:
            y = target(rng, c)
        ops.append(step("a", x, y, c))
        if queries and rng.random() < queries:
            ops += query_ops(rng, c, "a", x)
    return {"sid": sid, "ops": ops}


def query_ops(rng, c, m, x, k=1):
    ops = []
    for _ in range(k):
        fn = rng.choice(["predict", "predictN", "dec", "decN"] + (["eval"] if c.clf else []))
        q = x if rng.random() < .5 else flip_some(rng, x)
        op = {"op": "call", "m": m, "fn": fn}
        if fn in ("predict", "dec"):
            op["x"] = q
        else:
            op["X"] = [q] + [flip_some(rng, x, rng.choice([1, 3])) for _ in range(rng.choice([0, 1, 2, 5]))]
            if fn == "eval":
                op["y"] = [rng.randrange(c.L) for _ in op["X"]]
        ops.append(op)
    return ops


def train_ops(rng, c, m, n=None, fit=True, ep=None, F=None):
    """A fit or partial fit on random data, with the learned state logged."""
    n = n or rng.choice([c.L, c.L + 1, 5, 12])
    X = [bits(rng, c.F) for _ in range(n)]
    if c.clf:
        y = list(range(c.L)) + [rng.randrange(c.L) for _ in range(max(0, n - c.L))]
        y = y[:n]
        rng.shuffle(y)
    else:
        y = [rng.randint(0, c.T) for _ in X]
    op = {"op": "call", "m": m, "fn": "fit" if fit else "pfit", "X": X, "y": y, "log": 1, "ml": c.L,
          "ep": ep or rng.choice([1, 1, 2, 5, 20])}
    if FAM[c.est] == "bitwise":
        op["pol"] = 1
    return op
