#!/usr/bin/env python3
"""Mutation campaign against the conformance checks (development tool; nothing in MANIFEST.json uses it).

  mutate.py base DIR [PROPERTY...]      run the quick checks once on the unchanged tree and keep every script and trace under DIR
  mutate.py run DIR HEADER... [-n N] [-j J] [-s SEED]
                                        mutate the headers of the repository one place at a time, rebuild the drivers, replay the
                                        kept scripts and let TLC judge the traces that changed; survivors go to DIR/survivors.txt
"""
import argparse, json, os, random, re, shutil, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import core, checks

KIND = {"mn": "Matrix.h", "m33": "Matrix33.h", "m66": "Matrix66.h"}


def base(d, pids):
    os.makedirs(d, exist_ok=True)
    mods = [m for n, m in sys.modules.items() if n.startswith("vf.")]
    real = core.conform
    for pid in pids or sorted(checks.CHECKS):
        runs = []

        def conform(ctx, driver, module, scripts, flags=(), cfg=None, label="", variant=""):
            r = real(ctx, driver, module, scripts, flags, cfg, label, variant)
            fs = []
            for sp, tp, bad in r:
                assert bad is None, (pid, tp)
                for p in (sp, tp):
                    shutil.copy(p, os.path.join(d, pid + "-" + os.path.basename(p)))
                fs.append(pid + "-" + os.path.basename(sp)[:-7])
            runs.append({"pid": pid, "driver": driver, "flags": list(flags), "variant": variant, "module": module, "cfg": cfg, "files": fs})
            return r
        for m in mods:
            if hasattr(m, "conform"):
                m.conform = conform
        ctx = core.Ctx(pid, "quick", 1)
        checks.CHECKS[pid](ctx)
        shutil.rmtree(ctx.dir, ignore_errors=True)
        json.dump(runs, open(os.path.join(d, pid + ".json"), "w"))
        print(pid, sum(len(r["files"]) for r in runs), "traces", flush=True)


def blank(s):
    """comments, strings and preprocessor lines replaced by spaces, positions kept"""
    def sp(m):
        return re.sub(r"[^\n]", " ", m.group(0))
    s = re.sub(r"/\*.*?\*/", sp, s, flags=re.S)
    s = re.sub(r"//[^\n]*", sp, s)
    s = re.sub(r'"[^"\n]*"', sp, s)
    s = re.sub(r"(?m)^\s*#.*(\\\n.*)*$", sp, s)
    return s


def mutants(path):
    src = open(path).read()
    code = blank(src)
    out = []

    def add(a, b, new, what):
        out.append((a, b, new, what))
    for m in re.finditer(r"(?<=[\w\)\]]) (<=|>=|<|>|==|!=) (?=[\w\(\-\*&])", code):
        op = m.group(1)
        for new in {"<": ["<="], "<=": ["<"], ">": [">="], ">=": [">"], "==": ["!="], "!=": ["=="]}[op]:
            add(m.start(1), m.end(1), new, "%s -> %s" % (op, new))
    for m in re.finditer(r"(?<=[\w\)\]])(\s?)([+\-*/])(\s?)(?=[\w\(])", code):
        op = m.group(2)
        if m.group(1) != m.group(3) or code[m.start(2) - 1:m.end(2) + 1].find("->") >= 0:
            continue
        if op == "-" and re.search(r"\d[eE]$", code[:m.start(2)]):
            continue
        add(m.start(2), m.end(2), {"+": "-", "-": "+", "*": "/", "/": "*"}[op], "%s flipped" % op)
    for m in re.finditer(r"(?<![\w\.])(\d+\.\d*(?:[eE][+-]?\d+)?|\d+[eE][+-]?\d+)(?![\w\.])", code):
        add(m.start(1), m.end(1), "(%s*1.0001)" % m.group(1) if float(m.group(1)) else "1.e-3", "constant %s nudged" % m.group(1))
    for m in re.finditer(r"(?<![\w\.])(\d+)(?![\w\.])", code):
        k = int(m.group(1))
        add(m.start(1), m.end(1), str(k + 1), "%d -> %d" % (k, k + 1))
        if k:
            add(m.start(1), m.end(1), str(k - 1), "%d -> %d" % (k, k - 1))
    for m in re.finditer(r"&&|\|\|", code):
        if re.search(r"[\w\)\]]\s*$", code[:m.start()]):
            add(m.start(), m.end(), "||" if m.group(0) == "&&" else "&&", "%s flipped" % m.group(0))
    for m in re.finditer(r"\b(true|false)\b", code):
        add(m.start(), m.end(), "false" if m.group(0) == "true" else "true", "%s flipped" % m.group(0))
    pairs = [("sin", "cos"), ("lower_bound", "upper_bound"), ("min", "max"), ("front", "back"), ("floor", "ceil"), ("rows", "cols"),
             ("GetNbRows", "GetNbCols"), ("begin", "end"), ("real", "imag"), ("transpose", "adjoint"), ("m_x_min", "m_x_max"),
             ("m_y_min", "m_y_max"), ("m_z_min", "m_z_max"), ("x", "y"), ("i", "j"), ("m_order_x", "m_order_y"), ("m_order_y", "m_order_z"),
             ("xcoord", "ycoord"), ("m_Xmin", "m_Xmax"), ("push_back", "emplace_back"), ("a", "b"), ("fabs", "")]
    for a, b in pairs:
        if a == "push_back":
            continue
        for p, q in ((a, b), (b, a)) if b else ((a, b),):
            for m in re.finditer(r"(?<![\w])%s(?![\w])" % p, code):
                add(m.start(), m.end(), q, "%s -> %s" % (p, q or "nothing"))
    for m in re.finditer(r"(?m)^([ \t]+)((?:this->|\*|std::|m_|[a-zA-Z_])[^\n;{}]*;)[ \t]*$", code):
        st = m.group(2)
        if re.match(r"(return|using|typedef|public|private|throw|break|case|friend|virtual|template|class|struct|inline|explicit)\b", st):
            if not st.startswith(("break", "throw")):
                continue
        if re.match(r"[\w:<>,\*& ]+\s[&\*]?\w+(\([^=]*\)( const)?)?\s*;$", st) and "=" not in st:
            continue                                        # a declaration
        if re.match(r"(const |auto |int |double |Scalar |unsigned |bool |std::\w+(<[^=]*>)? |Eigen::\w+(<[^=]*>)? )", st):
            continue
        add(m.start(2), m.end(2), ";", "deleted: " + st.strip())
    for m in re.finditer(r"(?<![\w\)\]]) ?-(?=[\w\(])", code):
        if m.group(0).strip() and not re.search(r"[\w\)\]]\s*$", code[:m.start()]) and not re.search(r"[eE]$", code[:m.start() + 1]):
            add(m.start(), m.end(), m.group(0).replace("-", "+"), "sign dropped")
    return src, out


def split(path):
    r, cur = {}, None
    for l in open(path):
        if '"op":"reset"' in l.replace(" ", ""):
            cur = json.loads(l)["id"]
            r[cur] = []
        r[cur].append(l)
    return r


def scripts(path):
    r, cur = {}, None
    for l in open(path):
        if l.startswith("reset "):
            cur = int(l.split()[1])
            r[cur] = []
        else:
            r[cur].append(l.rstrip("\n"))
    return r


def run(d, headers, n, jobs, seed, pids, own):
    from tools.props import PROPS
    about = {p["id"]: json.dumps(p) for p in PROPS}
    runs = []
    for f in sorted(os.listdir(d)):
        if re.fullmatch(r"C\d+\.json", f) and (not pids or f[:-5] in pids):
            runs += json.load(open(os.path.join(d, f)))
    deps = {}
    root = os.path.join(core.REPO, "src", "MathUtils")
    for r in runs:
        key = (r["driver"], tuple(r["flags"]))
        if key not in deps:
            p = core.sh(["g++", "-std=c++17", "-MM", *[f for f in r["flags"] if not f.startswith("-fs")], "-I" + core.REPO + "/src", "-I/usr/include/eigen3",
                         "-I" + core.VERIF + "/drivers", core.VERIF + "/drivers/%s.cpp" % r["driver"]])
            deps[key] = set(re.findall(r"MathUtils/((?:thirdparty/)?\w+\.h)", p.stdout))
        r["deps"] = deps[key]
    todo = []
    for h in headers:
        src, ms = mutants(os.path.join(root, h))
        rng = random.Random("%s/%d" % (h, seed))
        rng.shuffle(ms)
        for m in ms[:n]:
            todo.append((h, src, m))
    print(len(todo), "mutants", flush=True)
    lock, log = threading.Lock(), open(os.path.join(d, "log.txt"), "a")
    free = list(range(jobs))
    tot = {}
    baseline = {}

    def one(t):
        h, src, (a, b, new, what) = t
        with lock:
            k = free.pop()
        w = "/tmp/mut/w%d" % k
        verdict, by = "SURVIVED", ""
        try:
            if not os.path.isdir(w + "/src"):
                os.makedirs(w, exist_ok=True)
                shutil.copytree(core.REPO + "/src", w + "/src")
            hp = w + "/src/MathUtils/" + h
            open(hp, "w").write(src[:a] + new + src[b:])
            exes, drivers = {}, []
            for r in runs:
                if h not in r["deps"] or (own and 'MathUtils/%s"' % h not in about[r["pid"]]):
                    continue
                key = (r["driver"], r["variant"])
                if key not in exes:
                    exe = w + "/exe-%s%s" % key
                    p = core.sh(["g++", "-std=c++17", "-Og", "-w", *[f for f in r["flags"] if not f.startswith("-fs") and not f.startswith("-fno-s")], "-I" + w + "/src", "-I/usr/include/eigen3", "-I" + core.VERIF + "/drivers",
                                 core.VERIF + "/drivers/%s.cpp" % r["driver"], "-o", exe])
                    if p.returncode:
                        verdict = "STILLBORN"
                        break
                    exes[key] = exe
                diff = []
                for f in r["files"]:
                    sp, tp = os.path.join(d, f + ".script"), w + "/t.ndjson"
                    p = core.sh([exes[key], sp, tp], timeout=600)
                    if p.returncode:
                        verdict, by = "KILLED", r["pid"] + " (driver failed)"
                        break
                    bt = os.path.join(d, f + ".ndjson")
                    if open(bt).read() == open(tp).read():
                        continue
                    x, y = split(bt), split(tp)
                    sc = scripts(sp)
                    diff += [sc[i] for i in x if x[i] != y.get(i)]
                    if len(diff) > 150:
                        break
                if verdict == "KILLED":
                    break
                if diff:
                    random.Random(1).shuffle(diff)
                    sp, tp = w + "/d.script", w + "/d.ndjson"
                    core.record(exes[key], list(enumerate(diff[:150])), sp, tp)
                    try:
                        bad = core.validate(r["module"], tp, r["cfg"])
                    except core.Broken as e:
                        bad = "BROKEN " + str(e)[-300:]
                    if bad is not None:
                        verdict, by = "KILLED", "%s %s" % (r["pid"], bad if isinstance(bad, str) else "")
                        break
                    by += " %s:%d differ within tolerance" % (r["pid"], len(diff))
            open(hp, "w").write(src)
        except Exception as e:
            verdict, by = "ERROR", repr(e)[:200]
            open(w + "/src/MathUtils/" + h, "w").write(src)
        with lock:
            free.append(k)
            tot[verdict] = tot.get(verdict, 0) + 1
            ln = src.count("\n", 0, a) + 1
            line = src.split("\n")[ln - 1].strip()
            msg = "%s %s:%d [%s] %s | %s" % (verdict, h, ln, what, by, line)
            log.write(msg + "\n")
            log.flush()
            if verdict in ("SURVIVED", "ERROR"):
                with open(os.path.join(d, "survivors.txt"), "a") as f:
                    f.write(msg + "\n")
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, todo))
    print(tot, flush=True)


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd")
    ap.add_argument("dir")
    ap.add_argument("args", nargs="*")
    ap.add_argument("-n", type=int, default=60)
    ap.add_argument("-j", type=int, default=6)
    ap.add_argument("-s", type=int, default=1)
    ap.add_argument("-p", default="")
    ap.add_argument("--own", action="store_true", help="only the properties that name the header")
    o = ap.parse_args()
    if o.cmd == "base":
        base(o.dir, o.args)
    else:
        run(o.dir, o.args, o.n, o.j, o.s, o.p.split(",") if o.p else [], o.own)
