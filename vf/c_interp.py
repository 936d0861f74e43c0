from .core import *
from .checks import check

F_INTERP1D = {"make": [("i", "h"), ("s", "m")], "init": [("i", "h"), ("qv", "xs"), ("qvv", "ys")], "eval": [("i", "h"), ("q", "x")]}


def points(g, xs, lo=0.0, hi=0.0, k=10):
    """query points inside [x0, xn]: nodes, neighbours of nodes, midpoints, random"""
    import math
    out = [xs[0], xs[-1]]
    for _ in range(k):
        i = g.randrange(len(xs) - 1)
        a, b = xs[i], xs[i + 1]
        c = g.random()
        if c < 0.2:
            x = a
        elif c < 0.3:
            x = math.nextafter(a, b)
        elif c < 0.4:
            x = math.nextafter(b, a)
        elif c < 0.5:
            x = a + (b - a) / 2
        else:
            x = a + (b - a) * g.random()
        out.append(min(max(x, xs[0]), xs[-1]))
    return out


def outside(g, xs, k=6):
    import math
    w = xs[-1] - xs[0]
    out = [math.nextafter(xs[0], -math.inf), math.nextafter(xs[-1], math.inf)]
    for _ in range(k):
        d = w * g.choice((1e-9, 0.01, 0.3, 1.0, 5.0, 1000.0)) * g.uniform(0.5, 1.5)
        out.append(xs[0] - d if g.random() < 0.5 else xs[-1] + d)
    return out


def f32(x):
    import struct
    return struct.unpack("f", struct.pack("f", x))[0]


def rnd_samples(g, t, n):
    xs = g.grid32(n) if t == "ff" else g.grid(n)
    if t == "ff":
        xs = sorted(set(f32(x) for x in xs))
        n = len(xs)
    sc = g.choice((1.0, 1.0, 1e-6, 1e8))
    if t == "dc":
        ys = [complex(g.val() * sc, g.val() * sc) for _ in range(n)]
    else:
        ys = [g.val() * sc for _ in range(n)]
        if g.random() < 0.2:
            m, b = g.val(), g.val()
            ys = [m * x + b for x in xs]
    return xs, ys


def interp1d_random(ctx, count, which):
    g = ctx.gen(which)
    scripts = []
    for k in range(count):
        t = g.choice(("dd", "dd", "dd", "dc", "ff"))
        n = g.choice((2, 2, 3, 4, 5, 8, 17, g.randint(2, 40), 130 if k % 20 == 0 else 6))
        m = g.choice(("LINEAR", "EXTRAPOLATE", "SATURATE"))
        s = [line("types", t), line("make", 1, m)]
        two = g.random() < 0.3
        if two:
            s.append(line("make", 2, g.choice(("LINEAR", "EXTRAPOLATE", "SATURATE"))))
        for rep in range(g.choice((1, 1, 2, 3))):
            xs, ys = rnd_samples(g, t, n if rep == 0 else g.randint(2, 12))
            s.append(line("init", 1, xs, ys))
            if two and rep == 0:
                xs2, ys2 = rnd_samples(g, t, g.randint(2, 9))
                s.append(line("init", 2, xs2, ys2))
            s.append(line("range", 1))
            pin = points(g, xs, k=8)
            if which == "in":
                for x in pin:
                    s.append(line(g.choice(("eval", "call")), 1, x))
                s.append(line(g.choice(("evalv", "callv")), 1, points(g, xs, k=g.choice((0, 3, 9)))))
                if g.random() < 0.1:
                    s.append(line("evalv", 1, []))
            else:
                if m == "LINEAR":
                    s.append(line("eval", 1, g.choice(pin)))
                else:
                    po = outside(g, xs)
                    for x in po:
                        s.append(line(g.choice(("eval", "call")), 1, x))
                    if m == "SATURATE":
                        s.append(line("eval", 1, g.choice((float("inf"), float("-inf"), 1e300, -1e300))))
                    mix = pin + po
                    g.shuffle(mix)
                    s.append(line(g.choice(("evalv", "callv")), 1, mix))
            if two:
                for x in points(g, xs2, k=2):
                    s.append(line("eval", 2, x))
        if which == "out" and m == "LINEAR":     # the fatal call comes last
            po = outside(g, xs)
            if g.random() < 0.1:
                po.append(float("inf"))
            x = g.choice(po)
            if g.random() < 0.6:
                s.append(line(g.choice(("eval", "call")), 1, x))
            else:
                v = points(g, xs, k=2) + [x] + points(g, xs, k=1)
                s.append(line(g.choice(("evalv", "callv")), 1, v))
        if which == "in" and g.random() < 0.15:  # samples that have to be refused
            xs, ys = rnd_samples(g, t, g.randint(3, 9))
            s.append(line("init", g.choice((1, 2)) if two else 1, *misfit(g, xs, ys)))
        scripts.append(s)
    return scripts


def disorder(g, xs):
    """two neighbours exchanged: at the start, at the end or anywhere"""
    i = g.choice((0, len(xs) - 2, g.randint(0, len(xs) - 2)))
    return xs[:i] + [xs[i + 1], xs[i]] + xs[i + 2:]


def misfit(g, xs, ys):
    c = g.randint(0, 4)
    if c == 0:
        return xs, ys[:-1]
    if c == 1:
        return xs, ys + ys[:1]
    if c == 2:
        return [], []
    return disorder(g, xs), ys


def interp1d_large(ctx, which, sizes):
    """Many samples: more than fit in 8, 15 or 16 bit indices."""
    g = ctx.gen("large" + which)
    scripts = []
    for n in sizes:
        for m in ("EXTRAPOLATE", "SATURATE"):
            xs, x = [], g.uniform(-5, 5)
            for _ in range(n):
                xs.append(x)
                x += g.choice((0.25, 0.5, 1.0, g.uniform(0.1, 2)))
            ys = [float(g.randint(-1000, 1000)) for _ in range(n)]
            q = points(g, xs, k=6) + [xs[i] for i in (1, n - 2, n // 2, 255, 256, 257) if i < n] + [xs[i] + 0.125 * (xs[i + 1] - xs[i]) for i in (0, n - 2, n // 3, n - n // 4)]
            if which == "out":
                q = q[-3:] + outside(g, xs, 2)
            g.shuffle(q)
            scripts.append([line("types", "dd"), line("make", 1, m), line("init", 1, xs, ys), line("range", 1), line("evalv", 1, q), line("call", 1, q[0])])
    return scripts


def interp1d_sizes(ctx, which):
    g = ctx.gen("sizes" + which)
    out = []
    for n in SIZES:
        t = g.choice(("dd", "dc", "ff"))
        m = g.choice(("EXTRAPOLATE", "SATURATE"))
        xs, ys = rnd_samples(g, t, n)
        q = (xs[:-1] if n <= 65 else g.sample(xs, 60)) if which == "in" else outside(g, xs, 3)
        q = q + [xs[i] + g.random() * (xs[i + 1] - xs[i]) for i in (range(len(xs) - 1) if n <= 41 else g.sample(range(len(xs) - 1), 20))] if which == "in" else q
        q = [min(max(x, xs[0]), xs[-1]) for x in q] if which == "in" else q
        g.shuffle(q)
        out.append([line("types", t), line("make", 1, m), line("init", 1, xs, ys), line("range", 1), line("evalv", 1, q), line("call", 1, q[0]), line("call", 1, xs[-1])])
    return out


LARGE = (300, 5000, 70000)


@check("C01")
def c01(ctx):
    sc = behaviours(ctx, "MC_Interp1d", F_INTERP1D, keep=lambda h: h[-1]["op"] == "eval", limit=3000 if ctx.quick else None)
    sc += interp1d_random(ctx, 750 if ctx.quick else 4000, "in")
    sc += interp1d_large(ctx, "in", LARGE) + interp1d_sizes(ctx, "in")
    conform(ctx, "interp1d", "Trace_Interp1d", sc, SAN, "Trace_Interp1d.cfg")


@check("C02")
def c02(ctx):
    sc = behaviours(ctx, "MC_Interp1d", F_INTERP1D, keep=lambda h: h[-1]["op"] == "eval", limit=1500 if ctx.quick else None)
    sc += interp1d_random(ctx, 1050 if ctx.quick else 4000, "out")
    sc += interp1d_large(ctx, "out", LARGE) + interp1d_sizes(ctx, "out")
    sc.append([line("make", 1, "BSPLINE")])
    conform(ctx, "interp1d", "Trace_Interp1d", sc, SAN, "Trace_Interp1d.cfg")


F_LUT1D = {"tnew": [("i", "h"), ("s", "m")], "tsetx": [("i", "h"), ("qv", "xs")], "tadd": [("i", "h"), ("s", "name"), ("qvv", "ys")],
           "teval": [("i", "h"), ("s", "name"), ("q", "x")], "tall": [("i", "h"), ("q", "x")], "tcount": [("i", "h")],
           "tmovec": [("i", "h"), ("i", "from")], "tmovea": [("i", "h"), ("i", "from")]}

NAMES = ["a", "b", "aa", "A", "cx", "Cx", "cd_0", "cd_00", "x", "a-very-long-series-name-that-does-not-fit-a-small-string",
         "a-very-long-series-name-that-does-not-fit-a-small-strinG", "0", "1", "10", "temp", "\u00e9"]


def lut1d_random(ctx, count):
    g = ctx.gen("lut1d")
    scripts = []
    for k in range(count):
        t = g.choice(("dd", "dd", "dc", "ff"))
        s = [line("types", t)]
        tabs = {}
        died = False
        for _ in range(g.randint(6, 40)):
            c = g.random()
            live = sorted(tabs)
            if not live or (c < 0.08 and len(live) < 3):
                h = next(i for i in (1, 2, 3) if i not in tabs)
                m = g.choice(("EXTRAPOLATE", "SATURATE", "LINEAR"))
                tabs[h] = {"m": m, "xs": None, "ser": {}}
                s.append(line("tnew", h, m))
                continue
            h = g.choice(live)
            T = tabs[h]
            if T["xs"] is None or c < 0.2:
                xs, _ = rnd_samples(g, t, g.choice((2, 3, 5, g.randint(2, 30))))
                T["xs"] = xs
                s.append(line("tsetx", h, xs))
            elif c < 0.45 or not T["ser"]:
                nm = g.choice(NAMES[:g.choice((3, len(NAMES)))])
                n = len(T["xs"])
                ys = [complex(g.val(), g.val()) if t == "dc" else g.val() for _ in range(n)]
                s.append(line("tadd", h, nm, ys))
                T["ser"].setdefault(nm, T["xs"])
                if g.random() < 0.5:
                    s.append(line("tcount", h))
            elif c < 0.5:
                s.append(line(g.choice(("tcount", "tgetx", "tsamples")), h))
            elif c < 0.56 and len(live) > 1:
                f = g.choice([x for x in live if x != h])
                s.append(line("tmovea", h, f))
                tabs[h] = tabs.pop(f)
            elif c < 0.6 and len(live) < 3:
                f = h
                h = next(i for i in (1, 2, 3) if i not in tabs)
                s.append(line("tmovec", h, f))
                tabs[h] = tabs.pop(f)
            elif c < 0.62:
                s.append(line("tmovea", h, h))
            elif c < 0.64:
                s.append(line("tdel", h))
                del tabs[h]
            elif c < 0.7:
                nm = g.choice(NAMES)
                s.append(line("trange", h, nm))
            elif c < 0.88:
                nm = g.choice(sorted(T["ser"])) if g.random() < 0.9 else g.choice(NAMES)
                xs = T["ser"].get(nm, T["xs"])
                p = points(g, xs, k=4)
                if T["m"] != "LINEAR":
                    p += outside(g, xs, 2)
                g.shuffle(p)
                if g.random() < 0.5:
                    s.append(line("teval", h, nm, p[0]))
                else:
                    s.append(line("tevalv", h, nm, p))
            else:
                xs = g.choice(sorted(T["ser"].values()))
                lo = max(x[0] for x in T["ser"].values())
                hi = min(x[-1] for x in T["ser"].values())
                if T["m"] == "LINEAR" and lo > hi:
                    continue
                p = [g.uniform(lo, hi) for _ in range(3)] if T["m"] == "LINEAR" else points(g, xs, k=2) + outside(g, xs, 1)
                p = [min(max(x, lo), hi) for x in p] if T["m"] == "LINEAR" else p
                if t == "ff" and T["m"] == "LINEAR":
                    p = [lo, hi]
                s.append(line("tall", h, g.choice(p)) if g.random() < 0.5 else line("tallv", h, p))
        if g.random() < 0.15:
            for h, T in tabs.items():
                if T["m"] == "LINEAR" and T["ser"]:
                    nm = g.choice(sorted(T["ser"]))
                    s.append(line("teval", h, nm, T["ser"][nm][0] - g.uniform(0.1, 3)))
                    break
        elif g.random() < 0.15 and tabs:
            h = g.choice(sorted(tabs))
            xs, ys = misfit(g, *rnd_samples(g, t, g.randint(3, 9)))
            if xs:
                s += [line("tsetx", h, xs), line("tadd", h, "misfit", ys)]
        scripts.append(s)
    return scripts


def lut1d_large(ctx):
    """many series, and long ones: more than fit in small indices or one hash table size"""
    g = ctx.gen("lut1dlarge")
    out = []
    for t, ns, n in (("dd", 300, 3), ("dc", 40, 4), ("dd", 3, 70000), ("ff", 2, 300)):
        xs = [float(i) * 0.5 - 3 for i in range(n)]
        s = [line("types", t), line("tnew", 1, g.choice(("SATURATE", "EXTRAPOLATE"))), line("tsetx", 1, xs)]
        names = ["s%d" % i for i in range(ns)]
        for nm in names:
            s.append(line("tadd", 1, nm, [complex(g.randint(-9, 9), g.randint(-9, 9)) if t == "dc" else float(g.randint(-99, 99)) for _ in range(n)]))
        s.append(line("tcount", 1))
        s.append(line("tsamples", 1))
        pick = [names[0], names[-1], names[len(names) // 2]] + g.sample(names, min(8, ns))
        for nm in pick:
            s.append(line("tevalv", 1, nm, points(g, xs, k=3)))
            s.append(line("trange", 1, nm))
        s.append(line("tadd", 1, names[0], [complex(1, 1) if t == "dc" else 1.0] * n))
        s.append(line("tmovec", 2, 1))
        s.append(line("tcount", 2))
        if n < 1000:
            s.append(line("tall", 2, points(g, xs, k=1)[-1]))
        s.append(line("teval", 2, g.choice(names), points(g, xs, k=1)[-1]))
        s.append(line("teval", 2, "s", 0.0))
        out.append(s)
    return out


@check("C03")
def c03(ctx):
    sc = behaviours(ctx, "MC_Lut1d", F_LUT1D, limit=3000 if ctx.quick else None)
    sc += behaviours(ctx, "MC_Lut1d", F_LUT1D, cfg="MC_Lut1dDeep.cfg", simulate=(150 if ctx.quick else 3000, 26), limit=400 if ctx.quick else 8000)
    sc += lut1d_random(ctx, 900 if ctx.quick else 5000) + lut1d_large(ctx)
    conform(ctx, "interp1d", "Trace_Lut1d", sc, SAN, "Trace_Lut1d.cfg")
