"""Shared machinery of the checks: build drivers from /repo's working tree, run TLC on the specifications,
turn specification behaviours into driver scripts, record traces from the real code and validate them with TLC."""
import math
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
SPEC = os.path.join(VERIF, "spec")
OUT = os.path.join(VERIF, "out")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = 8


class Broken(Exception):
    """The machinery itself failed (exit status 2): says nothing about the property."""


def sh(cmd, timeout=None, env=None, cwd=None):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout,
                          env=env, cwd=cwd, errors="replace")


def _digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def _tree(root, exts):
    r = []
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith(exts):
                r.append(os.path.join(d, f))
    return r


# ------------------------------------------------------------------ building
def build_java():
    src = os.path.join(VERIF, "java", "RatOverrides.java")
    out = os.path.join(BUILD, "java-" + _digest([src]))
    if not os.path.exists(os.path.join(out, "RatOverrides.class")):
        tmp = out + ".tmp%d" % os.getpid()
        os.makedirs(tmp, exist_ok=True)
        p = sh(["javac", "-cp", CP, "-d", tmp, src])
        if p.returncode:
            raise Broken("javac failed:\n" + p.stdout)
        try:
            os.rename(tmp, out)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return out


# variables nobody set hold a pattern instead of whatever happened to be right (-O1 would optimise the reading away)
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-ftrivial-auto-var-init=pattern"]


def build_driver(name, flags=(), variant=""):
    """Compile drivers/<name>.cpp against /repo/src as it is now. Keyed by the content of every input."""
    src = os.path.join(VERIF, "drivers", name + ".cpp")
    deps = [src] + _tree(os.path.join(VERIF, "drivers"), (".h",)) + _tree(os.path.join(REPO, "src"), (".h", ".hpp", ".cc", ".cpp", ".in"))
    cmd = ["g++", "-std=c++17", "-Og", "-g1", "-w", *flags, "-I" + os.path.join(REPO, "src"),
           "-I/usr/include/eigen3", "-I" + os.path.join(VERIF, "drivers")]
    key = _digest(deps, " ".join(cmd))
    os.makedirs(BUILD, exist_ok=True)
    base = name + variant
    exe = os.path.join(BUILD, "%s-%s" % (base, key))
    if not os.path.exists(exe):
        for f in os.listdir(BUILD):
            if re.fullmatch(re.escape(base) + r"-[0-9a-f]{20}", f):
                os.unlink(os.path.join(BUILD, f))
        p = sh(cmd + [src, "-o", exe + ".tmp"], timeout=800)
        if p.returncode:
            raise Broken("driver %s does not compile against /repo:\n%s" % (name, p.stdout[-4000:]))
        os.rename(exe + ".tmp", exe)
    return exe


# ------------------------------------------------------------------ TLC
def tlc(module, cfg, env=None, workers=1, xmx="3g", extra=(), timeout=850):
    java = build_java()
    meta = tempfile.mkdtemp(prefix="tlc-", dir=OUT)
    e = dict(os.environ)
    e.update(env or {})
    gc = ["-XX:+UseSerialGC"] if workers == 1 else ["-XX:+UseParallelGC"]
    cmd = ["java", *gc, "-Xmx" + xmx, "-Xss64m", "-XX:TieredStopAtLevel=4", "-Djava.io.tmpdir=" + meta,
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:RatOverrides", "-DTLA-Library=" + SPEC,
           "-cp", CP + ":" + java, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noTE",
           "-config", os.path.join(SPEC, cfg), *extra, os.path.join(SPEC, module + ".tla")]
    try:
        p = sh(cmd, timeout=timeout, env=e, cwd=meta)
    except subprocess.TimeoutExpired:
        raise Broken("TLC timed out on %s/%s" % (module, cfg))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout


def states(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if m:
        return int(m[-1][1]), int(m[-1][0])
    m = re.findall(r"The number of states generated: (\d+)", out)
    return (int(m[-1]), int(m[-1])) if m else (0, 0)


def model_check(ctx, module, cfg=None, export=None, workers=None, extra=(), simulate=None, xmx="8g"):
    """Check the specification itself. The specification is part of this framework, so a failure here is ours."""
    cfg = cfg or module + ".cfg"
    env = {}
    if export:
        env["EXPORT"] = export
        if os.path.exists(export):
            os.unlink(export)
    ex = list(extra)
    if simulate:
        ex += ["-simulate", "num=%d" % simulate[0], "-depth", str(simulate[1]), "-seed", str(ctx.seed * 7919 + 11), "-aril", "0"]
    w = workers or (1 if export else CORES)
    rc, out = tlc(module, cfg, env, w, xmx, ex)
    if rc != 0:
        raise Broken("TLC did not accept the specification %s/%s (rc %d):\n%s" % (module, cfg, rc, out[-6000:]))
    d, g = states(out)
    ctx.states += d
    ctx.transitions += g
    ctx.models.append("%s/%s: %d distinct states, %d transitions%s" % (module, cfg, d, g, " (simulation)" if simulate else " (complete)"))
    return out


def exported(path):
    if not os.path.exists(path):
        raise Broken("no behaviours were exported to " + path)
    r = []
    with open(path) as f:
        for line in f:
            line = line.strip()
            if line.startswith('"'):
                line = json.loads(line)
            if line:
                r.append(json.loads(line))
    return r


# ------------------------------------------------------------------ numbers
def q2tok(s):
    """A Rat of the specification (hex n or n/d) as a driver token denoting exactly that double."""
    if isinstance(s, (int, float)):
        return float(s).hex()
    if "/" in s:
        n, d = s.split("/")
        fr = Fraction(int(n, 16), int(d, 16))
    else:
        fr = Fraction(int(s, 16))
    x = float(fr)
    if Fraction(x) != fr:
        raise Broken("rational %s of the model is not a double" % s)
    return x.hex()


def tok(x):
    if isinstance(x, bool):
        return "1" if x else "0"
    if isinstance(x, int):
        return str(x)
    if isinstance(x, float):
        if x != x:
            return "nan"
        if x in (float("inf"), float("-inf")):
            return "inf" if x > 0 else "-inf"
        return x.hex()
    if isinstance(x, complex):
        return tok(x.real) + " " + tok(x.imag)
    if isinstance(x, (list, tuple)):
        return " ".join([str(len(x))] + [tok(v) for v in x])
    return str(x)


def line(*a):
    return " ".join(tok(x) for x in a)


def opline(fields, rec):
    """Render one exported operation. fields: op -> list of (kind, key); kind in i,s,q,qv,qvv,sv,iv"""
    out = [rec["op"]]
    for kind, key in fields[rec["op"]]:
        v = rec[key]
        if kind in ("i", "s"):
            out.append(str(v))
        elif kind == "b":
            out.append("1" if v else "0")
        elif kind == "q":
            out.append(q2tok(v))
        elif kind == "iv":
            out += [str(len(v))] + [str(x) for x in v]
        elif kind == "qv":
            out += [str(len(v))] + [q2tok(x) for x in v]
        elif kind == "qs":            # bare sequence, no count
            out += [q2tok(x) for x in v]
        elif kind == "qvv":           # sequence of component sequences; count of samples, then all components
            out += [str(len(v))] + [q2tok(c) for x in v for c in x]
        elif kind == "qvvv":          # count, then counted vectors
            out.append(str(len(v)))
            for x in v:
                out += [str(len(x))] + [q2tok(c) for c in x]
        else:
            raise Broken("unknown field kind " + kind)
    return " ".join(out)


class Gen(random.Random):
    """Seeded source of values."""
    def val(self, lo=-10.0, hi=10.0):
        k = self.random()
        if k < 0.15:
            return float(self.randint(int(lo), int(hi)))
        if k < 0.25:
            return self.randint(int(lo) * 8, int(hi) * 8) / 8.0
        if k < 0.28:
            return 0.0
        return self.uniform(lo, hi)

    def wide(self, e=30):
        return self.choice((-1, 1)) * self.uniform(1, 2) * 2.0 ** self.randint(-e, e)

    def grid(self, n, style=None):
        style = style or self.choice(("uniform", "random", "random", "clustered", "wide", "int", "jitter", "kink", "kink", "geometric", "offset", "scaled"))
        if style == "uniform":
            a, h = self.val(-50, 50), self.uniform(0.01, 3)
            xs = [a + i * h for i in range(n)]
        elif style == "int":
            a = self.randint(-20, 20)
            xs = [float(a + i * self.choice((1,))) for i in range(n)]
        elif style == "jitter":            # almost uniform
            a, h, j = self.val(-50, 50), self.uniform(0.01, 3), self.choice((1e-2, 1e-3, 1e-5, 1e-7, 1e-10))
            xs = [a + (i + self.uniform(-j, j)) * h for i in range(n)]
        elif style == "kink":              # uniform but for one node, or from one node on
            a, h, k, f = self.randint(-20, 20), self.choice((0.25, 1.0, 2.0, self.uniform(0.01, 3))), self.randint(0, n - 1), self.uniform(-0.8, 0.8)
            on = self.random() < 0.5
            xs = [a + (i + (f if i == k or (on and i > k) else 0)) * h for i in range(n)]
        elif style == "geometric":
            a, q = self.uniform(0.001, 1), self.uniform(1.05, 1.5 if n > 60 else 3)
            xs = [a * q ** min(i, 150) + (i - 150 if i > 150 else 0) * a * q ** 150 for i in range(n)]
            if self.random() < 0.3:
                xs = [-x for x in reversed(xs)]
        elif style == "offset":
            a, h = self.choice((-1, 1)) * self.uniform(1e5, 1e6), self.uniform(0.5, 4)
            xs = [a + h * (i + self.uniform(-0.3, 0.3)) for i in range(n)]
        elif style == "scaled":
            z = 2.0 ** self.choice((-60, -30, 30, 60))
            xs = sorted(set(z * self.uniform(-20, 20) for _ in range(n)))
            while len(xs) < n:
                xs.append(xs[-1] + z)
        elif style == "clustered":
            xs, x = [], self.uniform(-5, 5)
            for _ in range(n):
                xs.append(x)
                x += self.choice((1e-4, 1e-2, 1.0, 7.0)) * self.uniform(0.5, 2)
        elif style == "wide":
            xs, x = [], -self.uniform(100, 1e5)
            for _ in range(n):
                xs.append(x)
                x += self.uniform(1, 1e4)
        else:
            xs = sorted(set(self.uniform(-20, 20) for _ in range(n)))
        xs = sorted(set(xs))
        while len(xs) < n:
            xs.append(xs[-1] + self.uniform(0.5, 1.5))
        return xs

    def grid32(self, n):
        """A grid for single precision: products with other magnitudes in use stay far from overflow and underflow."""
        xs = self.grid(n)
        m = math.frexp(max(abs(x) for x in xs))[1]
        if abs(m) > 20:
            xs = [math.ldexp(x, (20 if m > 0 else -20) - m) for x in xs]
        return xs


# ------------------------------------------------------------------ recording and validation
class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.states = self.transitions = self.traces = self.events = 0
        self.models, self.samples, self.notes, self.ops = [], [], [], {}
        self.violations = []
        self.t0 = time.time()
        os.makedirs(OUT, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=pid + "-", dir=OUT)

    def gen(self, salt=0):
        return Gen("%s/%d/%s" % (self.pid, self.seed, salt))

    def path(self, name):
        return os.path.join(self.dir, name)


# every small size once, and the neighbourhoods of the usual block and index limits
SIZES = list(range(2, 41)) + [47, 48, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 512, 1000, 1024, 1025]


def write_scripts(path, scripts):
    with open(path, "w") as f:
        for i, s in scripts:
            f.write("reset %d\n" % i)
            for l in s:
                f.write(l + "\n")


def record(exe, scripts, spath, tpath, timeout=600):
    write_scripts(spath, scripts)
    try:
        p = sh([exe, spath, tpath], timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Broken("driver timed out: " + spath)
    if p.returncode:
        raise Broken("driver failed (%d): %s" % (p.returncode, p.stdout[-2000:]))
    # code that wrote over foreign memory may have spoilt the record: such a line is an event no action explains
    with open(tpath, "rb") as f:
        raw = f.read()
    lines, spoilt = [], False
    for l in raw.split(b"\n")[:-1] if raw.endswith(b"\n") else raw.split(b"\n"):
        try:
            e = json.loads(l.decode("utf-8"))
            ok = isinstance(e, dict) and isinstance(e.get("op"), str)
        except ValueError:
            ok = False
        lines.append(l if ok else b'{"op":"garbled","out":"garbled"}')
        spoilt = spoilt or not ok
    if spoilt:
        with open(tpath, "wb") as f:
            f.write(b"\n".join(lines) + b"\n")


def validate(module, tpath, cfg=None, timeout=850):
    """-> None when TLC accepts the whole recorded trace, else (line number of the first event no action allows)"""
    n = sum(1 for _ in open(tpath))
    rc, out = tlc(module, cfg or "Trace.cfg", {"TRACE": tpath}, 1, "3g", timeout=timeout)
    m = re.search(r"REACHED\"?,\s*(\d+),\s*(\d+)", out)
    if not m or int(m.group(2)) != n:
        # An event the specification cannot even read (a result of the wrong length or type, say) is not one it allows:
        # TLC stops with an evaluation error and shows the state whose next event could not be explained.
        at = re.findall(r"(?m)^\s*(?:/\\ )?l = (\d+)\s*$", out)
        if at and re.search(r"Evaluating|Attempted to|In applying the function|evaluat|Exception", out) and \
           not re.search(r"OutOfMemory|StackOverflow|analysis failed|TLC override missing|GC overhead", out):
            return int(at[-1])
        raise Broken("trace validation of %s with %s did not run to an answer:\n%s" % (tpath, module, out[-5000:]))
    if int(m.group(1)) == n:
        if rc != 0:
            raise Broken("TLC rc %d on accepted trace:\n%s" % (rc, out[-3000:]))
        return None
    if "Deadlock reached" not in out and "is violated" not in out and "postcondition" not in out.lower():
        if re.search(r"(?m)^Error:", out):
            raise Broken("trace validation of %s with %s ended in an error:\n%s" % (tpath, module, out[-5000:]))
    return int(m.group(1)) + 1


def conform(ctx, driver, module, scripts, flags=(), cfg=None, label="", variant=""):
    """Replay scripts into the real code, record, validate. scripts: list of lists of lines."""
    exe = build_driver(driver, flags, variant)
    build_java()
    scripts = list(enumerate(scripts))
    if not scripts:
        raise Broken("no scripts for " + module)
    nch = max(1, min(CORES, (sum(len(s) + 1 for _, s in scripts) + 399) // 400))
    chunks = [scripts[i::nch] for i in range(nch)]

    def work(k):
        sp, tp = ctx.path("%s%s-%d.script" % (module, label, k)), ctx.path("%s%s-%d.ndjson" % (module, label, k))
        record(exe, chunks[k], sp, tp)
        return sp, tp, validate(module, tp, cfg)

    with ThreadPoolExecutor(CORES) as ex:
        res = list(ex.map(work, range(nch)))
    for k, (sp, tp, bad) in enumerate(res):
        with open(tp) as f:
            evs = [json.loads(l) for l in f]
        for e in evs:
            key = e["op"] + ("" if e.get("out", "ok") == "ok" else "!" + e["out"])
            ctx.ops[key] = ctx.ops.get(key, 0) + 1
        ctx.events += sum(1 for e in evs if e["op"] != "reset")
        ctx.traces += len(chunks[k])
        if len(ctx.samples) < 4 and len(chunks[k]) > 1:
            ctx.samples.append({"script": [x[:300] for x in chunks[k][len(chunks[k]) // 2][1][:8]]})
        if bad is not None and not ctx.violations:   # one confirmed violation decides
            sid = None
            for e in evs[:bad]:
                if e["op"] == "reset":
                    sid = e["id"]
            ev = evs[bad - 1] if bad <= len(evs) else {"op": "missing"}
            confirm(ctx, exe, module, chunks[k], sid, ev, cfg)
    return res


def confirm(ctx, exe, module, chunk, sid, ev, cfg):
    """A rejection counts only if it comes back when the script is run again: alone, or, when what went before in the
    same process matters, after the scripts that preceded it."""
    d = os.path.join(OUT, "replay")
    os.makedirs(d, exist_ok=True)
    pos = [i for i, _ in chunk].index(sid)
    for part in (chunk[pos:pos + 1], chunk[max(0, pos - 50):pos + 1], chunk[:pos + 1]):
        h = hashlib.sha256(repr(part).encode()).hexdigest()[:10]
        sp = os.path.join(d, "%s-%s-%s.script" % (ctx.pid, module, h))
        tp = sp[:-7] + ".ndjson"
        record(exe, part, sp, tp)
        bad = validate(module, tp, cfg)
        if bad is not None:
            with open(tp) as f:
                evs = [l.strip() for l in f]
            ctx.violations.append({"module": module, "replay": sp, "event": evs[bad - 1][:1500] if bad <= len(evs) else "trace ends early"})
            return
    if ev.get("out") in ("sig9", "sig24"):                  # ended from outside or out of time: no answer
        raise Broken("rejection not reproducible: %s event %s" % (sp, json.dumps(ev)[:2000]))
    # recorded from the real code and not allowed by the specification; it does not come back every time
    # (uninitialised or foreign memory)
    ctx.violations.append({"module": module, "replay": sp, "event": json.dumps(ev)[:1500], "note": "not reproduced on a second run"})


# ------------------------------------------------------------------ reporting
def finish(ctx, assumptions=()):
    ev = {
        "property": ctx.pid, "tier": ctx.tier, "seed": ctx.seed, "level": "model_checking",
        "coverage": {
            "states": ctx.states, "transitions": ctx.transitions,
            "traces_validated_against_impl": ctx.traces,
            "events_validated": ctx.events,
            "events_by_operation": dict(sorted(ctx.ops.items())),
            "models": ctx.models, "samples": ctx.samples, "notes": ctx.notes,
        },
        "assumptions": list(assumptions),
        "wall_s": round(time.time() - ctx.t0, 2),
        "violations": len(ctx.violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", ctx.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(ctx.dir, ignore_errors=True)
    for v in ctx.violations:
        print("rejected by %s: %s" % (v["module"], v["event"]))
        print("VIOLATION property=%s replay=%s" % (ctx.pid, v["replay"]))
    print("%s %s: %d states, %d traces (%d events) validated, %d violation(s), %.1f s" % (
        ctx.pid, ctx.tier, ctx.states, ctx.traces, ctx.events, len(ctx.violations), time.time() - ctx.t0))
    return 1 if ctx.violations else 0


def behaviours(ctx, module, fields, cfg=None, simulate=None, limit=None, keep=None, render=None):
    """Check the model, export its behaviours and render them as driver scripts (a seeded sample of at most limit)."""
    ex = ctx.path("%s-%s.json" % (module, "sim" if simulate else "mc"))
    model_check(ctx, module, cfg, export=ex, simulate=simulate)
    seen, out = set(), []
    for h in exported(ex):
        if keep and not keep(h):
            continue
        s = tuple(x for o in h for x in (render(o) if render and o["op"] not in fields else [opline(fields, o)]))
        if s not in seen:
            seen.add(s)
            out.append(list(s))
    os.unlink(ex)
    total = len(out)
    if limit and total > limit:
        ctx.gen(module).shuffle(out)
        out = out[:limit]
    ctx.notes.append("%s: replayed %d of %d exported behaviours" % (cfg or module, len(out), total))
    return out
