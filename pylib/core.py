"""Plumbing shared by all checks: builds the harness from /repo, runs scenarios
through it, and lets TLC validate the recorded traces against the specification."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = int(os.environ.get("CHECK_CORES", "8"))


class Broken(Exception):
    """The check itself could not do its work."""


class Work:
    def __init__(self):
        self.t0 = time.time()
        self.api = []                # model checking runs made while generating scenarios
        self.dir = tempfile.mkdtemp(prefix="tsetlini-check-")

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def close(self):
        if os.environ.get("CHECK_KEEP"):
            print("kept", self.dir)
        else:
            shutil.rmtree(self.dir, ignore_errors=True)

    def wall(self):
        return time.time() - self.t0


def build(work, *targets):
    t = time.time()
    p = subprocess.run([os.path.join(ROOT, "bin", "build_harness.sh"), work.path("build"), *targets],
                       capture_output=True, text=True)
    if p.returncode:
        raise Broken("harness does not build:\n" + p.stderr[-4000:])
    return time.time() - t


# ------------------------------------------------------------------ TLC
def tlc(work, name, module, cfg_text, env=None, heap="2g", timeout=600, workers=1, extra=()):
    """Runs TLC on spec/<module>.tla with the given configuration; returns (rc, output)."""
    d = work.path("tlc-" + name)
    os.makedirs(d, exist_ok=True)
    cfg = os.path.join(d, module + ".cfg")
    with open(cfg, "w") as f:
        f.write(cfg_text)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
    cmd = ["java", gc, "-Djava.io.tmpdir=" + d, "-Xmx" + heap, "-Xss64m", "-XX:TieredStopAtLevel=4", "-cp", CP, "tlc2.TLC",
           "-metadir", os.path.join(d, "meta"), "-workers", str(workers), "-noGenerateSpecTE",
           "-config", cfg, *extra, os.path.join(SPEC, module + ".tla")]
    out = os.path.join(d, "out.txt")
    try:
        with open(out, "w") as f:
            rc = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout).returncode
    except subprocess.TimeoutExpired:
        rc = -999
    with open(out, errors="replace") as f:
        txt = f.read()
    shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
    return rc, txt


def tlc_counts(txt):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", txt)
    if not m:
        return 0, 0
    return int(m[-1][0]), int(m[-1][1])


class McResult:
    def __init__(self, name, module, generated, distinct, seconds, what):
        self.name, self.module, self.generated, self.distinct = name, module, generated, distinct
        self.seconds, self.what = seconds, what


def model_check(work, name, module, cfg_text, what, workers=2, timeout=800, heap="3g", extra=(), env=None):
    """Exhaustive check of a specification; anything but success is a fault of ours."""
    t = time.time()
    rc, txt = tlc(work, "mc-" + name, module, cfg_text, workers=workers, timeout=timeout, heap=heap, extra=extra, env=env)
    if rc != 0 or "No error has been found" not in txt:
        rc, txt = tlc(work, "mc-" + name, module, cfg_text, workers=workers, timeout=timeout, heap=heap, extra=extra, env=env)
    if rc != 0 or "No error has been found" not in txt:
        raise Broken(f"specification {module} ({name}) fails its own check, rc {rc}:\n{txt[-3000:]}")
    g, d = tlc_counts(txt)
    return McResult(name, module, g, d, time.time() - t, what)


# ------------------------------------------------- scenarios and traces
def write_scenarios(path, scs):
    with open(path, "w") as f:
        for s in scs:
            f.write(json.dumps(s, separators=(",", ":")) + "\n")


def run_harness(work, scs, trace, env=None, binary="harness", timeout=850):
    """Executes the scenarios; the trace is a list of events, one per line."""
    src = trace + ".in"
    write_scenarios(src, scs)
    e = dict(os.environ)
    e.setdefault("OMP_NUM_THREADS", "4")
    e["OMP_WAIT_POLICY"] = "passive"
    e.update(env or {})
    p = subprocess.run([work.path("build", binary), src, trace], env=e, capture_output=True, text=True, timeout=timeout)
    if p.returncode:
        raise Broken(f"{binary} failed: {p.returncode} {p.stderr[-2000:]}")
    return p.stderr


class Verdict:
    def __init__(self):
        self.events = 0
        self.accepted = 0            # scenarios accepted
        self.rejected = []           # (scenario, reason, trace slice)
        self.states = 0
        self.kinds = {}
        self.reach = {}


def reject_line(txt):
    m = re.findall(r'<<"REJECT", (.*?)>>', txt, re.S)
    return [re.sub(r"\s+", " ", x) for x in m]


def diameter(txt):
    m = re.findall(r"The depth of the complete state graph search is (\d+)", txt)
    return int(m[-1]) if m else None


INFRA = ("OutOfMemoryError", "No space left", "java.io.IOException", "Could not reserve", "insufficient memory")


def validate(work, name, module, cfg_text, trace, timeout=600, heap="2g"):
    """One TLC run over one trace. Returns (ok, reason, diameter)."""
    for attempt in range(3):
        rc, txt = tlc(work, f"{name}", module, cfg_text, env={"TRACE": trace}, timeout=timeout, heap=heap)
        if rc == 0 and "No error has been found" in txt:
            return True, "", diameter(txt), txt
        if rc == -999 or any(x in txt for x in INFRA) or "StackOverflow" in txt:
            heap = "4g"
            continue
        r = reject_line(txt)
        n = diameter(txt)
        if r or (n is not None and "TraceAccepted" in txt) or "Postcondition" in txt or "postcondition" in txt.lower():
            return False, "; ".join(r[:3]) or "no behaviour of the specification matches", n, txt
        if attempt == 0:
            continue          # an evaluation error: believed when it repeats
        return False, "event outside the domain of the specification: " + error_text(txt), n, txt
    at = txt.find("Error:")
    raise Broken(f"TLC cannot check trace {trace}:\n{txt[at:at + 2000] if at >= 0 else txt[-3000:]}")


def error_text(txt):
    m = re.search(r"Error: (.*?)(?:\n\n|Error: The behavior|$)", txt, re.S)
    return re.sub(r"\s+", " ", m.group(1))[:400] if m else txt[-400:]


def read_trace(path):
    with open(path, errors="replace") as f:
        return [x for x in f.read().split("\n") if x]


def sid_of(line):
    m = re.match(r'\{"sid":"([^"]*)"', line)
    return m.group(1) if m else None


def group_of(sid):
    """Scenarios "group:name" are judged together, in order."""
    return sid.split(":")[0] if ":" in sid else sid


def slice_of(lines, sid):
    g = group_of(sid)
    return [x for x in lines if group_of(sid_of(x)) == g]


def validate_shard(work, idx, scs, module, cfg_text, env=None, binary="harness", timeout=700):
    """Runs a shard of scenarios and validates it, cutting out rejected scenarios
    to keep checking the rest."""
    v = Verdict()
    trace = work.path(f"trace-{idx}.ndjson")
    run_harness(work, scs, trace, env, binary)
    lines = read_trace(trace)
    bysid = {s["sid"]: s for s in scs}
    v.events = len(lines)
    for x in lines:
        m = re.search(r'"ev":"(\w+)"', x)
        k = m.group(1) if m else "?"
        if k == "call":
            m = re.search(r'"fn":"(\w+)"', x)
            k = "call." + (m.group(1) if m else "?")
        v.kinds[k] = v.kinds.get(k, 0) + 1
    cur = lines
    nrej = 0
    while cur:
        t = work.path(f"cur-{idx}.ndjson")
        with open(t, "w") as f:
            f.write("\n".join(cur) + "\n")
        ok, why, n, txt = validate(work, f"{idx}", module, cfg_text, t, timeout=timeout)
        if ok:
            v.states += (n or 1) - 1
            break
        # which scenario: diameter = accepted events + 1
        sid = None
        m = re.findall(r'"REJECT", "[^"]*", "[^"]*", "([^"]*)"', txt)
        if n is not None and 1 <= n <= len(cur):
            sid = sid_of(cur[n - 1])
        elif m:
            sid = m[-1]
        if sid is None:
            # evaluation error: find the event by the value of l in the error trace
            ls = re.findall(r"^\s*/?\\?\s*l = (\d+)", txt, re.M)
            if ls and int(ls[-1]) <= len(cur):
                sid = sid_of(cur[int(ls[-1]) - 1])
        if sid is None:
            raise Broken(f"rejection that cannot be attributed:\n{txt[-3000:]}")
        part = slice_of(cur, sid)
        with open(t, "w") as f:
            f.write("\n".join(part) + "\n")
        ok2, why2, n2, txt2 = validate(work, f"{idx}", module, cfg_text, t, timeout=timeout)
        if ok2:
            raise Broken(f"rejection of {sid} does not repeat: {why}")
        why = why2 or why
        v.rejected.append((bysid.get(sid, {"sid": sid}), why, [x for x in part if sid_of(x) == sid]))
        nrej += 1
        cur = [x for x in cur if sid_of(x) != sid]
        if nrej >= 3:
            break
    rej = {r[0]["sid"] for r in v.rejected}
    v.accepted = sum(1 for s in scs if s["sid"] not in rej)
    return v


def merge(vs):
    r = Verdict()
    for v in vs:
        r.events += v.events
        r.accepted += v.accepted
        r.rejected += v.rejected
        r.states += v.states
        for k, n in v.kinds.items():
            r.kinds[k] = r.kinds.get(k, 0) + n
    return r


def cost(s):
    return len(json.dumps(s))


def shards(scs, n):
    """Spreads scenarios over n shards of similar size; groups stay together and in order."""
    groups = {}
    for s in scs:
        groups.setdefault(group_of(s["sid"]), []).append(s)
    out = [[] for _ in range(n)]
    load = [0] * n
    for g in sorted(groups.values(), key=lambda g: -sum(map(cost, g))):
        i = load.index(min(load))
        out[i] += g
        load[i] += sum(map(cost, g)) + 2000 * len(g)
    return [o for o in out if o]


def run_all(work, scs, module, cfg_text, env=None, binary="harness", nshards=None):
    ids = [s["sid"] for s in scs]
    assert len(set(ids)) == len(ids), "scenario ids not unique"
    sh = shards(scs, nshards or CORES)
    with ThreadPoolExecutor(CORES) as ex:
        fs = [ex.submit(validate_shard, work, i, s, module, cfg_text, env, binary) for i, s in enumerate(sh)]
        return merge([f.result() for f in fs])


# ------------------------------------------------------ results
def write_replay(pid, module, cfg_text, sc, why, part, extra=None):
    d = os.path.join(ROOT, "replay", pid)
    os.makedirs(d, exist_ok=True)
    body = {"property": pid, "module": module, "cfg": cfg_text, "why": why, "scenario": sc, "trace": part}
    if extra:
        body.update(extra)
    h = hashlib.sha1(json.dumps(sc, sort_keys=True).encode()).hexdigest()[:10]
    p = os.path.join(d, f"{re.sub('[^A-Za-z0-9_.-]', '_', sc['sid'])}-{h}.json")
    with open(p, "w") as f:
        json.dump(body, f, indent=1)
    return p


def write_evidence(pid, tier, seed, level, coverage, assumptions, wall, violations):
    d = os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, pid + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump({"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": coverage,
                   "assumptions": assumptions, "wall_s": round(wall, 2), "violations": violations}, f, indent=1)
    os.replace(p + ".tmp", p)


def enumerate_spec(work, name, base, consts, invariants=(), properties=(), spec="Spec", what="", heap="3g", timeout=800, simulate=None):
    """Model checks spec/<base>.tla with constants given as TLA+ expressions and collects what it prints as HIST/CASE.
    simulate = (number of behaviours, seed): random behaviours instead of all of them."""
    d = work.path("enum-" + name)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "MC.tla"), "w") as f:
        f.write(f"---- MODULE MC ----\nEXTENDS {base}\n" + "".join(f"c_{k} == {v}\n" for k, v in consts.items()) + "====\n")
    cfg = (f"SPECIFICATION {spec}\n" + ("CONSTANTS " + " ".join(f"{k} <- c_{k}" for k in consts) + "\n" if consts else "") +
           ("INVARIANTS " + " ".join(invariants) + "\n" if invariants else "") +
           ("PROPERTIES " + " ".join(properties) + "\n" if properties else "") + "CHECK_DEADLOCK FALSE\n")
    with open(os.path.join(d, "MC.cfg"), "w") as f:
        f.write(cfg)
    t = time.time()
    cmd = ["java", "-XX:+UseSerialGC", "-Djava.io.tmpdir=" + d, "-Xmx" + heap, "-Xss64m", f"-DTLA-Library={SPEC}", "-cp", CP, "tlc2.TLC", "-metadir", os.path.join(d, "meta"),
           "-workers", "1", "-noGenerateSpecTE", "-config", os.path.join(d, "MC.cfg"), *(["-simulate", f"num={simulate[0]}", "-depth", "60", "-seed", str(simulate[1])] if simulate else []), os.path.join(d, "MC.tla")]
    for attempt in range(2):
        p = subprocess.run(cmd, cwd=d, capture_output=True, text=True, timeout=timeout)
        if p.returncode == 0 and ("No error has been found" in p.stdout or simulate and "Error:" not in p.stdout):
            break
    else:
        raise Broken(f"{base}: " + p.stdout[-3000:])
    g, n = tlc_counts(p.stdout)
    if simulate:
        g = max([int(x.replace(",", "")) for x in re.findall(r"([\d,]+) states (?:generated|checked)", p.stdout)] or [0])
    out = [json.loads(json.loads(x)[5:]) for x in p.stdout.split("\n") if x.startswith('"HIST ') or x.startswith('"CASE ')]
    shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
    return McResult(name, base, g, n, time.time() - t, what), out
