"""C11 (calls), C12 (parameters), C20 (containers), C21 (intensities), C22 (epochs)."""
import json, os, random
import core
from props import prop
from gen_step import bits, flip_some, CLF, REG, Cfg, clause

ALL = ["clf/classic", "clf/bitwise", "reg/classic", "reg/bitwise"]
TRACE_CFG = "SPECIFICATION Spec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\nVIEW View\n"
ORACLE_TRUST = "TLC and its JSON reader, and the harness's report of statuses and results, are trusted"


# ---------------------------------------------------------------- C11
def c11_consts(clf, packed, tier):
    tf = lambda b: "TRUE" if b else "FALSE"
    return {"Clf": tf(clf), "Packed": tf(packed), "MaxDefects": 2 if tier == "quick" else 3, "Depth": 2}


class Calls:
    """Concrete data for the calls of CallsGen.tla."""

    def __init__(self, rng, est, F=None):
        self.rng, self.est = rng, est
        self.clf, self.packed = est in CLF, est.endswith("bitwise")
        self.F = F or rng.choice([1, 2, 3, 5, 8, 17, 31, 63, 64, 65, 100, 127, 128, 130])
        self.T = rng.choice([1, 3, 5, 15])
        self.L = rng.choice([2, 2, 3, 5])

    def make(self, m="a"):
        p = {"threshold": self.T, "random_state": self.rng.randrange(1 << 30), "n_jobs": self.rng.choice([1, 1, 2]), "number_of_states": self.rng.choice([2, 100, 1000])}
        p["number_of_clauses_per_label" if self.clf else "number_of_regressor_clauses"] = 4
        if self.rng.random() < .5:
            p["weighted"] = self.rng.random() < .5
        return {"op": "make", "m": m, "est": self.est, "params": p, "pk": {}, "clf": int(self.clf), "packed": int(self.packed), "T": self.T}

    def row(self, F):
        r = {"v": bits(self.rng, F)}
        if self.packed and self.rng.random() < .15:
            r["cap"] = self.rng.choice([1, 2])
        return r

    def call(self, fn, d, m="a", n=None, F=None):
        rng = self.rng
        one = fn in ("predict", "dec")
        n = n or rng.choice([2, 3, 3, 5, 9, 20])
        F = self.F if F is None else F
        if "features" in d:
            F = rng.choice([f for f in (F - 1, F + 1, F + 64, F - 64, 2 * F, F + 128, 1) if f >= 1 and f != F])
        if {"pad"} & set(d) and F % 64 == 0:
            F = F + 1 if "features" not in d or F + 1 != self.F else F + 2
        X = [self.row(F) for _ in range(1 if one else n)]
        i = rng.choice([0, len(X) - 1, rng.randrange(len(X))])
        if "ragged" in d:
            k = rng.choice([0, len(X) - 1, rng.randrange(len(X))])
            X[k] = self.row(rng.choice([f for f in (F + 1, F - 1, F + 64, 2 * F) if f >= 1 and f != F]))
        if "value" in d:
            j = rng.choice([0, F - 1, rng.randrange(F)])
            v = X[i]["v"]
            v[min(j, len(v) - 1)] = rng.choice([2, 2, -1, 3, 127, -128, 4])
        if "pad" in d:
            X[i]["pad"] = 1
        if "cappad" in d:
            X[rng.randrange(len(X))].update(cap=rng.choice([1, 3]), cappad=1)
        if "empty X" in d:
            X = []
        op = {"op": "call", "m": m, "fn": fn, "track": 1}
        if one:
            op["x"] = X[0]
        else:
            op["X"] = X
        if fn in ("fit", "pfit", "eval"):
            k = max(2, len(X))
            if self.clf:
                y = [0] * k if "single" in d else [rng.randrange(self.L) for _ in range(k)]
                if fn == "fit" or "single" not in d:
                    y[rng.randrange(k)] = self.L - 1 if "single" not in d else 0
                if fn == "eval" and rng.random() < .3:
                    y[rng.randrange(k)] = rng.choice([-1, self.L, 1000000])
            else:
                y = [rng.choice([0, self.T, rng.randint(0, self.T)]) for _ in range(k)]
            p = rng.choice([0, k - 1, rng.randrange(k)])
            if "negative" in d or "below" in d:
                y[p] = rng.choice([-1, -1, -2147483647])
            if "unknown" in d:
                y[p] = self.L + rng.choice([0, 0, 1, 1000])
            if "above" in d:
                y[p] = self.T + rng.choice([1, 1, 2147483647 - self.T])
            if "empty y" in d:
                y = []
            elif "short y" in d:
                y = y[:-1]
            elif "long y" in d:
                y = y + [y[-1]]
            elif "empty X" not in d:
                y = y[:len(X)] if len(X) >= 2 else y[:1]
            op["y"] = y
            if fn != "eval":
                op["ep"] = rng.choice([0, 1, 1, 2])
                op["ml"] = 0
                if self.clf and "unknown" not in d and rng.random() < .3:
                    op["ml"] = rng.choice([1, 2, self.L, self.L + 1])
        return op


def gen_c11(rng, tier, work):
    out = []
    for est in ALL:
        clf, packed = est in CLF, est.endswith("bitwise")
        r, hs = core.enumerate_spec(work, "C11-" + est.replace("/", ""), "CallsGen", c11_consts(clf, packed, tier), ("Emitted",), ("Agrees",),
                                    what="every entry point on an untrained and a trained model, with every set of defects; Calls.tla refuses exactly the defective")
        work.api.append(r)
        reps = 1 if tier == "quick" else 6
        # one scenario per first call and batch of last calls
        by = {}
        for h in hs:
            by.setdefault(json.dumps(h[:-1], sort_keys=True), []).append(h)
        n = 0
        for key in sorted(by):
            hh = by[key]
            for rep in range(reps):
                rng.shuffle(hh)
                for i in range(0, len(hh), 8):
                    g = Calls(rng, est)
                    ops = [g.make()] + [g.call(c["fn"], c["d"]) for c in hh[i][:-1]]
                    # refused calls change nothing: several may follow; accepted trainings end a scenario
                    tail = sorted((h[-1] for h in hh[i:i + 8]), key=lambda c: (c["ok"] and c["fn"] in ("fit", "pfit"), rng.random()))
                    for c in tail:
                        ops.append(g.call(c["fn"], c["d"]))
                    ops.append(g.call("predictN", []))
                    out.append({"sid": f"C11-{est.replace('/', '')}-{n}", "ops": ops})
                    n += 1
        # longer lives: copies, other shapes, many well-formed calls
        for k in range(12 if tier == "quick" else 100):
            g = Calls(rng, est)
            ops = [g.make()]
            for i in range(12):
                fn = rng.choice(["fit", "pfit", "pfit", "predict", "predictN"] + (["dec", "decN", "eval"] if clf else []))
                d = [] if rng.random() < .6 else [rng.choice(["ragged", "empty X", "features", "pad" if packed else "value", "negative" if clf else "below", "unknown" if clf else "above"])]
                if fn in ("predict", "dec"):
                    d = [x for x in d if x in ("features", "pad", "value")]
                op = g.call(fn, d)
                if fn == "fit" and not d and rng.random() < .5:
                    g.F = rng.choice([1, 4, 64, 65, 70])
                    op = g.call(fn, d)
                ops.append(op)
                if rng.random() < .1:
                    ops.append({"op": rng.choice(["clone", "restore"]), "m": "a", "to": "a"})
            out.append({"sid": f"C11-{est.replace('/', '')}-life{k}", "ops": ops})
        out += vast_calls(rng, est)
    return out


def vast_calls(rng, est):
    """Defects that 8 or 16 bits do not show: by 256 or 65536 too much, at the end of very many."""
    out = []
    for step in (256, 65536):
        g = Calls(rng, est, F=rng.choice([1, 2, 5]))
        fns = ["fit", "pfit", "predictN"] + (["decN", "eval"] if g.clf else [])
        start = [g.make(), g.call("fit", [])]
        calls = []
        def add(fn, edit):
            op = g.call(fn, [], n=rng.choice([3, 5]))
            edit(op)
            calls.append(op)
        def wider(op, rows):
            for i in rows:
                op["X"][i] = g.row(g.F + step)
        for fn in ["pfit"] + fns[2:]:
            add(fn, lambda op: wider(op, range(len(op["X"]))))
        for fn in fns:
            add(fn, lambda op: wider(op, [rng.randrange(len(op["X"]))]))
        for fn in fns:
            if fn in ("fit", "pfit", "eval"):
                add(fn, lambda op: op.update(y=op["y"] + [op["y"][0]] * step))
        add(rng.choice(fns), lambda op: None)
        for fn in ("fit", "pfit"):
            def put(op, v):
                op["y"][rng.randrange(len(op["y"]))] = v
                op["ml"] = 0
            add(fn, lambda op: put(op, -step))
            if not g.clf:
                add(fn, lambda op: put(op, g.T + step))
                add(fn, lambda op: put(op, step))
            elif fn == "pfit":
                add(fn, lambda op: put(op, g.L - 1 + step))
                add(fn, lambda op: put(op, step))
        # one bad row, label or response among very many
        n = step + rng.choice([1, 40])
        late = lambda: rng.choice([n - 1, step])
        what = ["ragged", "value" if not g.packed else "pad", "label"]
        for fn in ("fit", "pfit", rng.choice(fns[2:])):
            for d in rng.sample(what, 3 if step == 256 else 2):
                X = [g.row(g.F) for _ in range(n)]
                y = [rng.randrange(2) for _ in range(n)]
                y[0] = 1
                i = late()
                if d == "ragged":
                    X[i] = g.row(g.F + 1)
                elif d == "value":
                    X[i]["v"][-1] = 2
                elif d == "pad":
                    X[i]["pad"] = 1
                else:
                    y[i] = -1 if g.clf else g.T + 1
                op = {"op": "call", "m": "a", "fn": fn, "track": 1, "X": X, "y": y}
                if fn in ("fit", "pfit"):
                    op.update(ep=1, ml=0)
                calls.append(op)
        rng.shuffle(calls)
        k = 8 if step == 256 else 5
        for i in range(0, len(calls), k):
            out.append({"sid": f"C11-{est.replace('/', '')}-vast{step}-{i}", "ops": start + calls[i:i + k] + [g.call("predictN", [])]})
    return out


prop("C11", module="CallsTrace", cfg=TRACE_CFG, scenarios=gen_c11, assumptions=[ORACLE_TRUST],
     scope="all entry points, untrained and trained models, every set of up to two (thorough: three) defects at varying positions, 1..130 features; longer mixed histories")


# ---------------------------------------------------------------- C12
def literal(v):
    return json.dumps(v["t"]) if v["k"] == "str" else v["t"]


ARGKIND = {"int": ("int",), "real": ("real", "int"), "bool": ("bool",), "str": ("str",)}
INTK = {"number_of_states", "threshold", "n_jobs", "clause_output_tile_size", "max_weight", "number_of_clauses_per_label", "number_of_regressor_clauses"}


def arg_value(key, v):
    """The value as a typed argument, or None where the types of C++ exclude it."""
    k = v["k"]
    if key in INTK:
        return v["n"] if k == "int" else None
    if key == "boost_true_positive_feedback":
        return v["n"] if k == "int" and v["n"] in (0, 1) else None
    if key in ("s", "loss_fn_C1"):
        return float(v["t"]) if k in ("real", "int") else None
    if key in ("weighted", "verbose", "box_muller"):
        return v["t"] == "true" if k == "bool" else None
    if key in ("counting_type", "loss_fn"):
        return v["t"] if k == "str" else None
    if key == "random_state":
        return int(v["u"]) if k == "int" and v["u"] == v["t"] else None
    return None


BROKEN = ["", " ", "null", "[]", "12", "\"s\"", "true", "{", "}", "{\"threshold\": }", "{\"threshold\": 15", "{\"threshold\": 15,}", "{'threshold': 15}", "[{\"threshold\": 15}]",
          "{\"threshold\": 15} {}", "{threshold: 15}", "{\"threshold\" 15}", "{\"s\": nan}", "{\"s\": 1e400}", "\u0000", "{\"s\": 01.5}", "{\"verbose\": True}", "not json", "{\"loss_fn\": \"MSE}"]


def gen_c12(rng, tier, work):
    out = []
    n = 0
    for clf in (True, False):
        r, cases = core.enumerate_spec(work, f"C12-{'clf' if clf else 'reg'}", "ParamsGen", {"Clf": "TRUE" if clf else "FALSE", "MaxGiven": 2},
                                       ("Emitted", "PerKey", "DefaultsLegal", "StrangeRefused"),
                                       what="all assignments of up to two parameters over boundary, interior and wrongly typed values; laws of acceptance")
        work.api.append(r)
        cases.sort(key=lambda c: json.dumps(c, sort_keys=True))
        single = [c for c in cases if len(c["g"]) <= 1]
        pairs = [c for c in cases if len(c["g"]) == 2]
        good = [c for c in single if c["ok"] and c["g"]]
        want = 1200 if tier == "quick" else 15000
        ok2 = [c for c in pairs if c["ok"]]
        bad2 = [c for c in pairs if not c["ok"]]
        sel = single + rng.sample(ok2, min(len(ok2), want // 2)) + rng.sample(bad2, min(len(bad2), want // 2))
        # many parameters at once
        for _ in range(want // 4):
            g = {}
            for c in rng.sample(good, min(len(good), rng.choice([4, 8, 20, 40]))):
                g.update(c["g"])
            if rng.random() < .4:
                g.update(rng.choice(single)["g"])
            sel.append({"g": g})
        ops = []
        kind = "clf" if clf else "reg"
        for c in sel:
            g = c["g"] or {}
            for est in ([f"{kind}/classic", f"{kind}/bitwise"] if len(g) <= 1 else [f"{kind}/{rng.choice(['classic', 'bitwise'])}"]):
                items = list(g.items())
                rng.shuffle(items)
                sp = rng.choice(["", " ", "\n  "])
                text = "{" + sp + ("," + sp).join(f"{json.dumps(k)}:{sp}{literal(v)}" for k, v in items) + sp + "}"
                base = {"op": "make", "m": "a", "est": est, "clf": int(clf), "shape": "ok", "pk": dict(items) or {"": 0}, "report": 1}
                if not items:
                    base["pk"] = {}
                ops.append(dict(base, text=text, params={}))
                av = {k: arg_value(k, v) for k, v in items}
                if all(v is not None for v in av.values()):
                    for o in range(3 if len(g) <= 1 else 1):
                        ops.append(dict(base, via="args", order=o if len(g) <= 1 else rng.randrange(3), params=av))
        for est in (f"{kind}/classic", f"{kind}/bitwise"):
            for t in BROKEN:
                ops.append({"op": "make", "m": "a", "est": est, "clf": int(clf), "shape": "broken", "pk": {}, "report": 1, "text": t, "params": {}})
            for q in ("nan", "inf", "-inf"):
                ops.append({"op": "make", "m": "a", "est": est, "clf": int(clf), "shape": "ok", "via": "args", "report": 1, "params": {"s": q},
                            "pk": {"s": {"k": "real", "n": -1 if q == "-inf" else 1, "d": 1 if q == "-inf" else 0, "t": q, "f": q, "u": ""}}})
        for i in range(0, len(ops), 25):
            out.append({"sid": f"C12-{kind}-{n}", "ops": ops[i:i + 25]})
            n += 1
    return out


prop("C12", module="ParamsTrace", cfg=TRACE_CFG, scenarios=gen_c12, assumptions=[ORACLE_TRUST, "hardware_concurrency of the process gives the number of jobs meant by -1"],
     scope="every parameter at boundary, interior and wrongly typed values, alone and in pairs, and up to all at once; JSON text and arguments in several orders; broken JSON")


# ---------------------------------------------------------------- C20
KINDS = {"bv8a64": 8, "bv16a64": 16, "bv32a64": 32, "bv64a64": 64, "bv8a8": 8, "bv16a16": 16, "bv32a32": 32, "bv64a8": 64,
         "bm8a64": 8, "bm16a64": 16, "bm32a64": 32, "bm64a64": 64, "bm8a8": 8, "bm16a16": 16, "bm32a32": 32, "bm64a8": 64,
         "nm8a64": 8, "nm16a64": 16, "nm32a64": 32, "nm8a8": 8, "nm16a16": 16, "nm32a32": 32}
HOWS = {"bv": ["set", "clear", "flip", "assign", "exor"],
        "bm": ["set", "clear", "flip", "rset", "rclear", "rflip", "vset", "vclear", "vflip"], "nm": ["put", "dput"]}


def cell_value(rng, t):
    b = KINDS[t]
    if t[:2] != "nm":
        return rng.randrange(2)
    m = 2 ** (b - 1)
    return rng.choice([0, 1, -1, m - 1, -m if b < 32 else -m + 1, -m + 1, rng.randint(-m + 1, m - 1)])


def chunks(ws, a="a", n=40):
    return [{"op": "writes", "a": a, "w": ws[i:i + n]} for i in range(0, len(ws), n)]


def sizes(t, tier):
    b = KINDS[t]
    al = int(t.split("a")[1]) * 8
    s = {1, 2, 3, b - 1, b, b + 1, 2 * b - 1, 2 * b, 2 * b + 1, al - 1, al, al + 1}
    if tier == "thorough":
        s |= set(range(1, 140)) | {2 * al - 1, 2 * al, 2 * al + 1, 1000, 1024, 2049}
    return sorted(x for x in s if x > 0)


def sweep_writes(rng, t, r, c, dense):
    """Every position written in every way, from clear and from set neighbours."""
    ws = []
    f = t[:2]
    pos = [(i, j) for i in range(r) for j in range(c)]
    if dense:
        ws += [[HOWS[f][0], i, j, 1 if f != "nm" else cell_value(rng, t)] for i, j in pos]
    rng.shuffle(pos)
    for i, j in pos:
        if f == "nm":
            hs = [[rng.choice(HOWS[f]), i, j, cell_value(rng, t)], [rng.choice(HOWS[f]), i, j, cell_value(rng, t) if dense else 0]]
        else:
            seq = rng.sample(HOWS[f], 3) if len(pos) > 140 else HOWS[f]
            hs = []
            for h in rng.sample(seq, len(seq)):
                hs.append([h, i, j, rng.randrange(2)])
            hs.append(["set" if dense else "clear", i, j, 0])
        ws += hs
    return ws


def make_op(rng, t, a, r, c):
    op = {"op": "make", "a": a, "t": t, "via": "size", "r": r, "c": c}
    if t[:2] == "bv":
        op["via"] = rng.choice(["size", "size", "blocks", "range", "bools", "list"])
        op["r"] = 1
        b = KINDS[t]
        if op["via"] == "blocks":
            need = (c + b - 1) // b
            op["blocks"] = max(0, need + rng.choice([0, 0, 1, 3, -1]))
            n = min(c, op["blocks"] * b)
            op["ones"] = sorted(rng.sample(range(n), rng.randrange(n + 1))) if n else []
            op["got"] = n
        elif op["via"] != "size":
            op["vals"] = [rng.choice([0, 1, 1, 2, -1, 64, -128]) if rng.random() < .6 else 0 for _ in range(c)]
    elif rng.random() < .1:
        op["via"] = "none"
        op["got"] = 0
    return op


def gen_c20(rng, tier, work):
    out = []
    thorough = tier == "thorough"
    for t in KINDS:
        f = t[:2]
        for c in sizes(t, tier):
            for dense in (0, 1):
                rows = 1 if f == "bv" else rng.choice([1, 2, 3]) if c < 200 else rng.choice([1, 2])
                mk = {"op": "make", "a": "a", "t": t, "via": "size", "r": rows, "c": c}
                # a neighbour that must not be touched
                ops = [mk, dict(mk, a="z"), {"op": "writes", "a": "z", "w": [[HOWS[f][0], rows - 1, c - 1, 1]]}]
                ws = sweep_writes(rng, t, rows, c, dense)
                lim = 20000 if thorough else 1500
                if len(ws) > lim:
                    k = rows * c if dense else 0
                    ws = ws[:k] + ws[k:][:max(0, lim - k)]
                out.append({"sid": f"C20-sweep-{t}-{c}-{dense}", "ops": ops + chunks(ws), "perturb": rng.choice([0, 85, 165, 255])})
        # positions beyond what 8 or 16 bits count
        for r, c in [(1, 66000)] + ([] if f == "bv" else [(300, 70), (3, 22001)] + ([(70000, 1)] if KINDS[t] <= 16 else [])):
            mk = {"op": "make", "a": "a", "t": t, "via": "size", "r": r, "c": c}
            cells = [(r - 1, c - 1), (0, 0), (0, c - 1), (r - 1, 0)] + [(rng.randrange(r), rng.randrange(c)) for _ in range(12)]
            ws = [[h, i, j, cell_value(rng, t)] for i, j in cells for h in rng.sample(HOWS[f], 2)]
            out.append({"sid": f"C20-vast-{t}-{r}-{c}", "ops": [mk] + chunks(ws) + [{"op": "copy", "a": "b", "b": "a"}] + chunks([[HOWS[f][0], r - 1, c - 1, 1]], "b")})
    hists = []
    for vec in (True, False):
        r, hs = core.enumerate_spec(work, "C20-" + ("vec" if vec else "mat"), "ContainersGen", {"Depth": 5 if thorough else 4, "Vector": "TRUE" if vec else "FALSE"},
                                    ("Emitted",), ("Independent",), what="histories of making, writing, copying, moving, assigning, comparing and dropping up to three containers")
        work.api.append(r)
        n = 8000 if thorough else 1500
        hs.sort(key=lambda h: json.dumps(h, sort_keys=True))
        hists += [(vec, h) for h in (hs if len(hs) <= n else rng.sample(hs, n))]
    for k, (vec, h) in enumerate(hists):
        t = rng.choice([t for t in KINDS if (t[:2] == "bv") == vec])
        f = t[:2]
        al = int(t.split("a")[1]) * 8
        c0 = rng.choice([1, 2, KINDS[t] - 1, KINDS[t], KINDS[t] + 1, 65, al // KINDS[t] + 1, al + 1, rng.randrange(1, 150)])
        r0 = 1 if vec else rng.choice([1, 2, 3, 5])
        dims = {}
        ops = []
        for e in h:
            a, b, kind = e["a"], e["b"], e["k"]
            if kind == "make":
                c = c0 if e["sz"] == 1 else max(1, c0 + rng.choice([-1, 1, 64]))
                r = r0 if vec or e["sz"] == 1 or rng.random() < .5 else r0 + 1
                op = make_op(rng, t, a, r, c)
                n = op.pop("got", None)
                dims[a] = (op["r"], c) if n is None else ((1, n) if vec else (0, 0))
                ops.append(op)
            elif kind == "write":
                pass
            elif kind == "eq":
                ops.append({"op": "eq", "a": a, "b": b})
            else:
                ops.append({"op": kind, "a": a, "b": b})
                if f != "bv" and kind not in ("move", "massign"):
                    ops.append({"op": "eq", "a": a, "b": b})
                dims[a] = dims[b]
                if kind in ("move", "massign"):
                    del dims[b]
            # writes after every step, to all live objects, so that sharing shows
            for x in ([a] if kind == "write" else []) + rng.sample(sorted(dims), min(len(dims), 2)):
                r, c = dims[x]
                if r * c:
                    ws = [[rng.choice(HOWS[f]), rng.choice([0, r - 1]), rng.choice([0, c - 1, rng.randrange(c)]), cell_value(rng, t)] for _ in range(rng.choice([1, 3, 6]))]
                    ops.append({"op": "writes", "a": x, "w": ws})
        for x in sorted(dims):
            ops.append({"op": "copy", "a": "q", "b": x})
            if f != "bv":
                ops.append({"op": "eq", "a": "q", "b": x})
                r, c = dims[x]
                if r * c:
                    ops.append({"op": "writes", "a": "q", "w": [[HOWS[f][0], r - 1, c - 1, cell_value(rng, t)]]})
                    ops.append({"op": "eq", "a": "q", "b": x})
        ops.append({"op": "drop", "a": "q"})
        out.append({"sid": f"C20-hist-{t}-{k}", "ops": ops, "perturb": rng.choice([0, 85, 255])})
    return out


def mc_c20(work, tier):
    runs = []
    for w, a, r, c in [(1, 1, 2, 3), (2, 1, 2, 3), (3, 1, 1, 7), (2, 2, 2, 3), (3, 2, 2, 4), (8, 1, 1, 9)] + ([(2, 1, 2, 7), (4, 2, 2, 6)] if tier == "thorough" else []):
        cfg = f"SPECIFICATION Spec\nCONSTANTS W = {w} A = {a} Rows = {r} Cols = {c}\nINVARIANTS Refines NoStray\nPROPERTIES OneCell\nCHECK_DEADLOCK FALSE\n"
        what = f"packed storage (blocks of {w} bits, rows padded to {a} blocks, {r} x {c}) refines the flat array"
        runs.append(lambda cfg=cfg, what=what, n=f"packed-{w}-{a}-{r}-{c}": core.model_check(work, n, "Packed", cfg, what, workers=1, heap="1g"))
    return runs


prop("C20", module="ContainersTrace", cfg=TRACE_CFG, scenarios=gen_c20, mc=mc_c20, targets=["cont"], binary="containers",
     assumptions=["TLC and its JSON reader, and the harness's reading of cells through the public accessors, are trusted",
                  "containers of the library's block and item types; sizes up to a few thousand cells"],
     scope="every position in every way of writing for sizes around block and alignment boundaries, 22 container types; TLC-enumerated histories over three objects")


# ---------------------------------------------------------------- C21
def stat_scenario(rng, sid, c, rows, w, x, y, reps, cells=0, blk=0, lblk=0):
    op = {"op": "stat", "m": "a", "x": x, "y": y, "reps": reps, "cfg": c.rec(), "cells": cells, "blk": blk, "lblk": lblk}
    if c.clf:
        op["per"] = c.per
    inj = c.inject("a", rows, w)
    inj.pop("pol", None)
    return {"sid": sid, "ops": [inj, op]}


def rows_kinds(rng, c, x, kinds):
    """Rows far from the ends; kinds(o) in fire, miss, empty."""
    rows = []
    N = c.N
    for o in range(c.outs):
        k = kinds(o)
        dep = rng.choice([N // 2, N // 3, N // 4])
        pos = [-rng.randint(dep, N // 2) for _ in x]
        neg = [-rng.randint(dep, N // 2) for _ in x]
        true = [(pos, j) if x[j] else (neg, j) for j in range(len(x))]
        false = [(neg, j) if x[j] else (pos, j) for j in range(len(x))]
        if k != "empty":
            for r, j in rng.sample(true, rng.randint(1, len(true))):
                r[j] = rng.randint(N // 3, N // 2)
        if k == "miss":
            for r, j in rng.sample(false, rng.randint(1, max(1, len(false) // 2))):
                r[j] = rng.randint(N // 3, N // 2)
        rows += [pos, neg]
    return rows


def run_scenario(rng, sid, c, rows, w, x, y, n, ep):
    inj = c.inject("a", rows, w)
    inj.pop("pol", None)
    return {"sid": sid, "ops": [inj, {"op": "run", "m": "a", "x": x, "y": y, "n": n, "ep": ep, "cfg": c.rec()}]}


RUN_SHAPES = [(4000, 1), (1, 4000), (40, 100), (400, 10), (10, 400)]


def c21_runs(rng, e, est, mult):
    """One call of many samples and epochs, from states that stay as they are."""
    out = []
    for k, (n, ep) in enumerate(RUN_SHAPES * mult):
        F = rng.choice([1, 2, 3, 8, 17])
        s = rng.choice([(3, 2), (2, 1), (5, 2), (4, 1), (39, 10)])
        kw = dict(F=F, N=2**30, wt=1, maxw=2**31 - 1, s=s, boost=rng.choice([0, 1]), jobs=1)
        x = bits(rng, F, "r")
        big = 20000
        if est in CLF:
            # every other label certain to learn, own one not
            L = rng.choice([2, 3, 4, 7])
            c = Cfg(rng, est, L=L, per=rng.choice([2, 4]), T=rng.choice([2, 10]), **kw)
            y = rng.randrange(L)
            out.append(run_scenario(rng, f"C21-run-other-{e}-{k}", c, rows_kinds(rng, c, x, lambda o: "fire"),
                                    [5 * big if o % 2 == 0 else big for o in range(c.outs)], x, y, n, ep))
            # every other time
            L = rng.choice([2, 3, 4])
            c = Cfg(rng, est, L=L, per=rng.choice([2, 4, 6]), T=2**30, **kw)
            y = rng.randrange(L)
            out.append(run_scenario(rng, f"C21-run-half-{e}-{k}", c, rows_kinds(rng, c, x, lambda o: "fire"), [big] * c.outs, x, y, n, ep))
            # forgetting
            c = Cfg(rng, est, L=2, per=2, T=2, **kw)
            y = rng.randrange(2)
            kind = rng.choice(["fire", "miss"])
            out.append(run_scenario(rng, f"C21-run-forget-{e}-{k}", c, rows_kinds(rng, c, x, lambda o: kind if o % 2 == 0 else "fire"),
                                    [big if o % 2 == 0 else 5 * big for o in range(c.outs)], x, y, n, ep))
        else:
            outs = rng.choice([2, 3, 5, 8])
            T = rng.choice([5, 10, 20])
            c = Cfg(rng, est, per=outs, T=T, loss=rng.choice(["MSE", "MAE", "L1", "L2", "berHu", "L1+2"]), c1=(1, 2), bm=int(k % 3 == 2), **kw)
            out.append(run_scenario(rng, f"C21-run-pick-{e}-{k}", c, rows_kinds(rng, c, x, lambda o: "fire"), [10 * big] * outs, x, rng.randint(0, T), n, ep))
            T = rng.choice([20, 30, 50])
            outs = rng.choice([1, 2, 5])
            c = Cfg(rng, est, per=outs, T=T, loss=rng.choice(["MSE", "MAE", "L1+2"]), c1=(1, 2), bm=0, **kw)
            out.append(run_scenario(rng, f"C21-run-chance-{e}-{k}", c, rows_kinds(rng, c, x, lambda o: "fire"), [10 * big] * outs, x, T - rng.choice([1, 2, 3, 4]), n, ep))
            c = Cfg(rng, est, per=1, T=10, loss="MAE", bm=0, **kw)
            out.append(run_scenario(rng, f"C21-run-forget-{e}-{k}", c, rows_kinds(rng, c, x, lambda o: "miss"), [0], x, 10, n, ep))
    return out


def gen_c21(rng, tier, work):
    out = []
    thorough = tier == "thorough"
    reps = 20000 if thorough else 8000
    mult = 5 if thorough else 1
    for est in ALL:
        e = est.replace("/", "")
        out += c21_runs(rng, e, est, mult)
        # the sides automata start on
        for k in range(3 * mult):
            c = Cfg(rng, est, F=rng.choice([1, 2, 3, 5, 17]), L=rng.choice([2, 3]), per=2 if est in CLF else rng.choice([1, 3]), N=rng.choice([1, 100, 128, 40000]), T=5, jobs=1)
            n, first = 3000, rng.randrange(1 << 32)
            # neighbouring seeds, seeds that differ in their upper bits, or any
            seeds = [(first + i * (1 << 20 if k % 3 == 2 else 1)) % (1 << 32) for i in range(n)] if k % 3 else [rng.randrange(1 << 32) for _ in range(n)]
            op = {"op": "starts", "est": est, "params": c.params(), "F": c.F, "L": c.L, "seeds": seeds, "n": n, "cells": 2 * c.outs * c.F}
            out.append({"sid": f"C21-starts-{e}-{k}", "ops": [op]})
        if est in CLF:
            # feedback against the margin: every vote from -T to T, weighted firing clauses leave marks
            for k in range(14 * mult):
                T = rng.choice([1, 2, 3, 4, 5, 8, 10])
                L = rng.choice([2, 2, 3, 4, 6])
                per = rng.choice([2, 4, 6, 8])
                F = rng.choice([1, 2, 3, 9, 16, 17, 33])
                c = Cfg(rng, est, F=F, L=L, per=per, N=1000, T=T, wt=1, maxw=100, s=rng.choice([(1, 1), (2, 1), (5, 1), (3, 2)]), boost=rng.choice([0, 1]), jobs=1)
                x = bits(rng, F, "r")
                y = rng.randrange(L)
                kinds, w = {}, [0] * c.outs
                for l in range(L):
                    want = rng.randint(-T, T)
                    # clauses with weights that add up to the wanted votes
                    v = 0
                    for i in range(per):
                        o = l * per + i
                        sg = 1 if i % 2 == 0 else -1
                        if i >= per - 2:
                            # the last pair settles the difference
                            kinds[o] = "fire"
                            base = rng.randint(2, 10)
                            w[o] = base - 1
                        else:
                            kinds[o] = rng.choice(["fire", "miss", "empty"])
                            w[o] = rng.randint(1, 20)
                            if kinds[o] != "miss":
                                v += sg * (1 + w[o])
                    p, q = l * per + per - 2, l * per + per - 1
                    a, b = 1 + w[p], 1 + w[q]
                    d = want - (v + a - b)
                    if d >= 0:
                        w[p] += d
                    else:
                        w[q] += -d
                    c.maxw = 1000
                out.append(stat_scenario(rng, f"C21-margin-{e}-{k}", c, rows_kinds(rng, c, x, lambda o: kinds[o]), w, x, y, reps))
            # the largest thresholds: no votes to speak of, feedback every other time; and votes of half the threshold
            for k in range(3 * mult):
                T = rng.choice([2**30 - 1, 2**30, 2**30 + 7, 2**31 - 1])
                c = Cfg(rng, est, F=rng.choice([1, 3, 17]), L=2, per=4, N=1000, T=T, wt=1, maxw=2**31 - 1, s=(2, 1), jobs=1)
                x = bits(rng, c.F, "r")
                half = rng.choice([0, 0, 1, 2])
                w = [T // 2 if half and o % 4 == half - 1 else 40 for o in range(c.outs)]
                out.append(stat_scenario(rng, f"C21-huge-{e}-{k}", c, rows_kinds(rng, c, x, lambda o: "fire"), w, x, rng.randrange(2), reps))
            # the other label: certain feedback for each, many labels
            for k, (L, y) in enumerate([(3, 0), (3, 1), (3, 2), (4, 0), (4, 1), (4, 2), (4, 3)] + [(rng.choice([5, 7, 10]), None) for _ in range(2 * mult)]):
                c = Cfg(rng, est, F=rng.choice([1, 3, 17]), L=L, per=2, N=1000, T=2, wt=1, maxw=1000, s=(2, 1), jobs=1)
                x = bits(rng, c.F, "r")
                y = rng.choice([0, L - 1, rng.randrange(L)]) if y is None else y
                out.append(stat_scenario(rng, f"C21-other-{e}-{k}", c, rows_kinds(rng, c, x, lambda o: "fire"),
                                         [50 if o % 2 == 0 else 3 for o in range(c.outs)], x, y, reps))
            # forgetting: certain feedback of the own label, silent and firing clauses
            for k in range(14 * mult):
                s = rng.choice([(1, 1), (3, 2), (2, 1), (5, 2), (3, 1), (4, 1), (39, 10), (10, 1), (25, 1), (100, 1)])
                F = rng.choice([2, 3, 7, 8, 16, 17, 33, 64, 65, 100])
                c = Cfg(rng, est, F=F, L=2, per=rng.choice([2, 4]), N=1000, T=2, wt=rng.choice([0, 1]), maxw=1000, s=s, boost=rng.choice([0, 0, 1]), jobs=1)
                x = bits(rng, F, "r")
                y = rng.randrange(2)
                fire = rng.random() < .5
                # score of the own label at -T: negative clauses carry more weight; unweighted: positive ones are silent
                if c.wt:
                    kd = lambda o: ("fire" if fire else "miss") if o % 2 == 0 else "fire"
                    w = [1 if o % 2 == 0 else 60 for o in range(c.outs)]
                else:
                    c.T = c.per // 2
                    kd = lambda o: "miss" if o % 2 == 0 else "fire"
                    w = None
                n = reps if F <= 33 else reps // 2
                out.append(stat_scenario(rng, f"C21-forget-{e}-{k}", c, rows_kinds(rng, c, x, kd), w, x, y, n, cells=int(F <= 17)))
            # too many literals, or labels, to judge each: runs of them
            F = rng.choice([66000, 70000])
            c = Cfg(rng, est, F=F, L=2, per=2, N=1000, T=1, wt=0, s=rng.choice([(3, 2), (2, 1), (4, 1)]), jobs=1)
            x = bits(rng, F, "r")
            out.append(stat_scenario(rng, f"C21-forget-{e}-vast", c, rows_kinds(rng, c, x, lambda o: "miss" if o % 2 == 0 else "fire"), None, x, rng.randrange(2), 100, blk=1000))
            for k in range(2 * mult):
                L = rng.choice([300, 520, 1000])
                c = Cfg(rng, est, F=rng.choice([1, 2, 3]), L=L, per=2, N=1000, T=2, wt=1, maxw=1000, s=(2, 1), jobs=1)
                x = bits(rng, c.F, "r")
                y = rng.choice([0, L - 1, 255, 256, rng.randrange(L)])
                out.append(stat_scenario(rng, f"C21-other-{e}-vast-{k}", c, rows_kinds(rng, c, x, lambda o: "fire"),
                                         [(50 if o % 2 == 0 else 3) if o // 2 != y else (3 if o % 2 == 0 else 50) for o in range(c.outs)], x, y, reps, lblk=rng.choice([L // 8, L - 256 if L < 512 else L // 4])))
        else:
            for k in range(14 * mult):
                outs = rng.choice([2, 3, 5, 8, 10, 20])
                T = rng.choice([5, 10, 20])
                loss = rng.choice(["MSE", "MAE", "L1", "L2", "berHu", "L1+2"])
                c = Cfg(rng, est, F=rng.choice([1, 2, 5, 17]), per=outs, N=1000, T=T, wt=1, maxw=10000, s=rng.choice([(1, 1), (2, 1), (5, 1)]),
                        loss=loss, c1=(1, 2), bm=0 if k % 3 else 1, boost=rng.choice([0, 1]), jobs=1)
                x = bits(rng, c.F, "r")
                up = rng.random() < .5
                if up:
                    # votes below the target
                    kinds, w = (lambda o: "fire" if o < 2 else "fire"), [0] * outs
                    c.T = T = max(T, outs + rng.choice([1, 3, 10]))
                    y = rng.randint(outs, T)
                else:
                    kinds, w = (lambda o: "fire"), [rng.randint(30, 60) for _ in range(outs)]
                    y = rng.randint(0, T)
                out.append(stat_scenario(rng, f"C21-pick-{e}-{k}", c, rows_kinds(rng, c, x, kinds), w, x, y, reps))
            # chance updates: less than half an update wanted
            for k in range(6 * mult):
                outs = rng.choice([1, 2, 5])
                T = rng.choice([20, 30, 50])
                c = Cfg(rng, est, F=rng.choice([1, 3]), per=outs, N=1000, T=T, wt=1, maxw=10000, s=(2, 1), loss=rng.choice(["MSE", "MAE", "L1+2"]), c1=(1, 2), bm=0, jobs=1)
                x = bits(rng, c.F, "r")
                w = [T // outs + 2] * outs
                y = T - rng.choice([1, 2, 3, 4])
                out.append(stat_scenario(rng, f"C21-chance-{e}-{k}", c, rows_kinds(rng, c, x, lambda o: "fire"), w, x, y, reps))
            for k in range(8 * mult):
                s = rng.choice([(1, 1), (3, 2), (2, 1), (5, 2), (4, 1), (39, 10), (10, 1)])
                F = rng.choice([2, 3, 8, 17, 33, 65])
                c = Cfg(rng, est, F=F, per=1, N=1000, T=10, wt=rng.choice([0, 1]), maxw=1000, s=s, loss="MAE", bm=0, boost=rng.choice([0, 1]), jobs=1)
                x = bits(rng, F, "r")
                kind = rng.choice(["miss", "fire"])
                out.append(stat_scenario(rng, f"C21-forget-{e}-{k}", c, rows_kinds(rng, c, x, lambda o: kind), [0], x, 10 if kind == "miss" else 9, reps, cells=int(F <= 17)))
            F = rng.choice([66000, 70000])
            c = Cfg(rng, est, F=F, per=1, N=1000, T=10, wt=1, maxw=1000, s=rng.choice([(3, 2), (2, 1), (4, 1)]), loss="MAE", bm=0, jobs=1)
            x = bits(rng, F, "r")
            out.append(stat_scenario(rng, f"C21-forget-{e}-vast", c, rows_kinds(rng, c, x, lambda o: "miss"), [0], x, 10, 100, blk=1000))
    return out


def mc_c21(work, tier):
    cfg = "SPECIFICATION Spec\nINVARIANTS Laws\nCHECK_DEADLOCK FALSE\n"
    return [lambda: core.model_check(work, "draws", "Draws", cfg, "laws of chance derived by counting all outcomes of the draws for small sizes", workers=1)]


prop("C21", module="StatTrace", cfg="CONSTANT Props = {\"C21\"}\n" + TRACE_CFG, scenarios=gen_c21, mc=mc_c21,
     assumptions=["frequencies are judged within Hoeffding bounds that correct code misses with probability below 1e-10 each; smaller deviations pass",
                  ORACLE_TRUST],
     scope="every margin from -T to T, 2..1000 labels, s from 1 to 100, 1..70000 features, four estimators; 4000 to 20000 repetitions each, alone and within one call of many samples or epochs; initial sides over 3000 seeds")


# ---------------------------------------------------------------- C22
def deep_rows(c, top=None):
    return [[-c.N] * c.F for _ in range(2 * c.outs)]


def data_rows(rng, n, F, est):
    """Samples as arrays or, now and then for packed ones, with spare blocks."""
    return [bits(rng, F, "r") for _ in range(n)]


def epochs_cfg(rng, est, total, **kw):
    N = rng.choice([v for v in (127, 1000, 30000, 100000, 10000000) if v > total + 1][:4])
    return Cfg(rng, est, N=N, boost=1, s=(0, 1), bm=0, maxw=1000000, jobs=rng.choice([1, 1, 2]), **kw)


def gen_c22(rng, tier, work):
    out = []
    thorough = tier == "thorough"
    mult = 6 if thorough else 1
    big = [64, 100, 257] if not thorough else [64, 65, 100, 128, 200, 257, 300, 400]
    for est in ALL:
        e_ = est.replace("/", "")
        pack = est.endswith("bitwise")
        # beyond what 8 or 16 bits count: samples, and epochs
        vast = [(1000, 1), (1025, 1), (70000, 1), (2, 300), (1, 70000)] * (2 if thorough else 1)
        ns = [(n, None) for n in list(range(1, 34)) * mult + big] + vast
        for k, (n, eps) in enumerate(ns):
            ep = eps or (rng.choice([1, 1, 2, 3, 5, 10]) if n < 60 else rng.choice([1, 2]))
            onehot = rng.random() < .6 and n < 1000
            F = n if onehot else rng.choice([1, 2]) if eps else rng.choice([1, 2, 5, 17, 40, 65])
            calls = rng.choice([1, 1, 2]) if n < 60 and not eps else 1
            if est in CLF:
                mark = "own" if k % 2 else "other"
                L = rng.choice([2, 3, 4]) if n < 60 else 2
                total = ep * n * calls
                c = epochs_cfg(rng, est, total, F=F, L=L, per=2, T=rng.choice([1, 2, 5, 15]), wt=1)
                heavy = c.per * total * 2 + c.T + 10
                w = [(heavy if (o % 2 == 1) == (mark == "own") else 0) for o in range(c.outs)]
            else:
                mark = "reg"
                outs = rng.choice([2, 4, 10])
                T = 2 * outs
                total = ep * n * calls * outs
                c = epochs_cfg(rng, est, total, F=F, per=outs, T=T, wt=0, loss="MAE")
                w = None
            inj = c.inject("a", deep_rows(c), w)
            inj.pop("pol", None)
            ops = [inj]
            for _ in range(calls):
                if onehot:
                    X = [[int(i == j) for j in range(F)] for i in range(n)]
                else:
                    X = data_rows(rng, n, F, est)
                    if n > 2 and rng.random() < .4:
                        X[rng.randrange(n)] = list(X[rng.randrange(n)])
                if est in CLF:
                    y = [rng.randrange(c.L) for _ in range(n)]
                else:
                    y = [rng.choice([v for v in range(0, c.T + 1) if (c.per - v) % 2 == 0]) for _ in range(n)]
                op = {"op": "call", "m": "a", "fn": "pfit", "X": X, "y": y, "ep": ep, "ml": rng.choice([0, 0, 2, 7]), "log": 1, "mark": mark}
                if pack and rng.random() < .3:
                    op["X"] = [{"v": v, "cap": rng.choice([0, 1])} for v in X]
                    op["rec"] = 1
                ops.append(op)
            out.append({"sid": f"C22-mark-{e_}-{k}", "ops": ops})
        # order of samples: between epochs, between seeds
        for k in range(3 * mult):
            for kind in ("epochs", "seeds", "epochs-u", "seeds-u"):
                uni = kind.endswith("-u")
                if uni and k:
                    continue
                n = rng.choice([3, 4]) if uni else rng.choice([4, 6, 8, 11])
                ops = []
                base = dict(F=n, T=(5 if est in CLF else 40), wt=(1 if est in CLF else 0), per=(2 if est in CLF else 1))
                if est in CLF:
                    base["L"] = 2
                else:
                    base["loss"] = "MAE"
                c = Cfg(rng, est, N=1000, boost=1, s=(0, 1), bm=0, maxw=1000000, jobs=1, **base)
                for i in range(1, 241 if uni else 17):
                    ep = i if kind.startswith("epochs") else 1
                    if kind.startswith("seeds"):
                        c.seed = rng.randrange(1 << 31)
                    rows = deep_rows(c)
                    rows[0] = [-ep] * n
                    w = [5000 if o % 2 else 0 for o in range(c.outs)] if est in CLF else None
                    inj = c.inject("a", rows, w)
                    inj.pop("pol", None)
                    X = [[int(a == b) for b in range(n)] for a in range(n)]
                    y = [0] * n if est in CLF else [c.T] * n
                    ops += [inj, {"op": "call", "m": "a", "fn": "pfit", "X": X, "y": y, "ep": ep, "ml": 0, "log": 1, "mark": "first"}]
                ops.append({"op": "data", "id": "end", "emit": 1, "X": [], "y": [], "uni": int(uni), "of": n})
                out.append({"sid": f"C22-order-{kind}-{e_}-{k}", "ops": ops})
        # a fit is an empty fit and then a partial fit
        for k in range(6 * mult):
            c = Cfg(rng, est, F=rng.choice([3, 17, 40]), N=rng.choice([5, 100, 1000]), T=rng.choice([3, 15]), per=rng.choice([2, 4]), jobs=1)
            n = rng.choice([2, 5, 20])
            X = [bits(rng, c.F) for _ in range(n)]
            y = [i % c.L for i in range(n)] if est in CLF else [rng.randint(0, c.T) for _ in range(n)]
            ep = rng.choice([1, 2, 3, 7])
            mk = {"op": "make", "est": est, "params": c.params(), "pk": {}}
            call = {"op": "call", "X": X, "y": y, "ml": c.L if est in CLF else 0}
            ops = [dict(mk, m="a"), dict(mk, m="b"), dict(call, m="a", fn="fit", ep=ep), dict(call, m="b", fn="fit", ep=0), dict(call, m="b", fn="pfit", ep=ep),
                   {"op": "same", "m": "a", "b": "b"}]
            out.append({"sid": f"C22-fit-{e_}-{k}", "ops": ops})
    return out


def mc_c22(work, tier):
    runs = []
    for which in ("own", "other", "reg", "first"):
        for ne in ((1, 2) if tier == "quick" or which == "reg" else (1, 2, 3)):
            cfg = f'SPECIFICATION Spec2\nCONSTANTS Props = {{"C22"}} Which = "{which}" Ne = {ne} Mutant2 = "none"\nINVARIANTS Ready Marks\nCHECK_DEADLOCK FALSE\n'
            runs.append(lambda cfg=cfg, which=which, ne=ne: core.model_check(work, f"epochs-{which}-{ne}", "Epochs", cfg,
                        f"training call of {ne} epochs on marked models ({which}), all orders, all data sets of two samples: marks count presentations", workers=1))
    return runs


EPOCHS_CFG = 'SPECIFICATION Spec\nCONSTANTS Props = {"C22"} Which = "own" Ne = 1 Mutant2 = "none"\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\nVIEW View\n'
prop("C22", module="EpochsTrace", cfg=EPOCHS_CFG, scenarios=gen_c22, mc=mc_c22, assumptions=[ORACLE_TRUST,
     "presentations are counted on models prepared so that each leaves an exact mark; full fits are tied to them by equality with an empty fit and a partial fit"],
     scope="1..257 samples (thorough: 400), 1..10 epochs, 2..4 labels, one-hot and random data with duplicates, four estimators; order across 16 epochs and 16 seeds")
