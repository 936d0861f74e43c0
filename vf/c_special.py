import math
from .core import *
from .checks import check

EINT = ("Ei", "Ei_approximation", "expEi", "E1", "E1_approximation")


def points(which):
    """Render an exported point of the specification as calls of every function it speaks about."""
    def render(o):
        x, k = float.fromhex(q2tok(o["x"])), o["o"]
        if o["f"] not in which:
            return []
        if o["f"] == "bes":
            return [line("bes", t, f, d, k, x) for f in "JYIK" for d in (0, 1) for t in ("d", "f", "n")] + [line("hank", t, d, k, x) for d in (0, 1) for t in ("d", "n")]
        if o["f"] == "eint":
            return [line("eint", "d", f, x) for f in EINT] + ([line("eint", "f", f, x) for f in ("Ei", "expEi", "E1")] if x < 80 else [])
        if o["f"] == "struve":
            return [line("struve", t, f, x) for t in "df" for f in ("H0", "H1", "H0d")]
        if o["f"] == "gam":
            return [line("gam", "d", x)] + ([line("gam", "f", x)] if x < 33 else [])
        return [line("cheb", t, f, k, x / 8) for t in "df" for f in ("T", "Tshift", "Td")] + ([line("leg", t, d, k, x / 8) for t in "df" for d in (0, 1)] if x <= 8 else [])
    return render


def points_of(ctx, which, keep, limit=None):
    fields = {"recnext": [("i", "h")]}
    base = points(which)

    def render(o):
        if o["op"] == "recnew":
            return [line("recnew", "d", o["h"]) + " " + q2tok(o["x"])]
        return base(o)
    sc = behaviours(ctx, "MC_Special", fields, "MC_Special.cfg" if ctx.quick else "MC_SpecialDeep.cfg", limit=limit, keep=keep, render=render)
    return [s for s in sc if s]


def bes_scripts(ctx, count):
    g = ctx.gen("bes")
    out = []
    far = 60 if ctx.quick else 200
    for k in range(count):
        x = g.choice((g.uniform(0.01, 30), g.uniform(0, 3), math.exp(g.uniform(-7, math.log(far))), float(g.randint(1, 30)), g.uniform(20, far)))
        o = g.choice((0, 2, 4, 6, 8, 2 * g.randint(0, 12), g.choice((1, 3, 5, 7))))
        s = []
        for _ in range(3):
            f, d = g.choice("JYIK"), g.random() < 0.6
            t = "n" if o % 2 else g.choice("ddfnu")
            v = x
            if not o % 2 and f in "JI" and g.random() < 0.15:
                v = g.choice((0.0, -x))
                t = g.choice("ddf")
            elif not o % 2 and g.random() < 0.15:
                t, v = "i", float(g.randint(1, 30))
            if t == "f" and (abs(v) < 0.05 or abs(v) > 50 or o > 12):      # single precision would overflow or underflow
                t = "d"
            s.append(line("bes", t, f, d, o, v))
        d = g.random() < 0.6
        s.append(line("hank", "n" if o % 2 else g.choice("ddni") if x == int(x) else g.choice("ddn"), d, o, x))
        out.append(s)
    for f in "YK":
        for x in (0.0, -1.0, -0.5, -7.0):
            for d in (0, 1):
                out.append([line("bes", "d", f, d, g.choice((0, 2, 4)), x)])
    for f in "JI":
        for o in range(0, 12, 2):
            for d in (0, 1):
                out.append([line("bes", t, f, d, o, 0.0) for t in "dfi"])
    return out


@check("C25")
def c25(ctx):
    sc = points_of(ctx, ("bes",), keep=lambda h: h[0]["op"] == "ask" and h[0]["f"] == "bes")
    sc += bes_scripts(ctx, 900 if ctx.quick else 6000)
    conform(ctx, "special", "Trace_Special", sc, SAN, "Trace_Special.cfg")


def eint_scripts(ctx, count):
    g = ctx.gen("eint")
    out = []
    edges = [1.0, 4.0, 6.0, 12.0, 24.0, 3.0, 0.3725074107813666, 46.0]
    for k in range(count):
        s = []
        for _ in range(4):
            c = g.random()
            x = g.choice((g.uniform(0, 1), g.uniform(1, 4), g.uniform(0, 6), g.uniform(4, 30), g.uniform(20, 300), math.exp(g.uniform(-17, 5)), near(g, g.choice(edges))))
            if c < 0.65:
                f, t = g.choice(EINT), "d"
                if g.random() < 0.15 and "app" not in f and 0.5 < x < 80:
                    t = "f"
                if f in ("Ei", "expEi") and g.random() < 0.2:
                    x = -min(x, 300)
                s.append(line("eint", t, f, x))
            elif c < 0.9:
                s.append(line("struve", g.choice("dddf"), g.choice(("H0", "H1", "H0d")), g.choice((0.0, g.uniform(0, 3), g.uniform(3, 30), min(x, 100.0), near(g, 3.0)))))
            elif c < 0.97:
                x = g.choice((g.uniform(-20, 30), g.uniform(0, 5), g.uniform(5, 170), float(g.randint(1, 171)), g.randint(-40, 340) / 2.0 + 0.25))
                s.append(line("gam", "f" if 0.01 < abs(x) < 30 and x > -5 and abs(x - round(x)) > 0.01 and g.random() < 0.3 else "d", x))
            else:
                s.append(line("fact", "d", g.randint(0, 170)))
                s.append(line("fact", "f", g.randint(0, 33)))
        out.append(s)
    for f in EINT:
        for x in (0.0, -1.0, -1e-3, -30.0):
            if x < 0 and f in ("Ei", "expEi"):
                continue
            out.append([line("eint", "d", f, x)])
    out += [[line("eint", "d", f, x)] for f in ("Ei_approximation", "E1_approximation") for x in (1e-9, 1e-8, 2e-8, 1e-7)]
    out += [[line("struve", t, f, x)] for t in "df" for f in ("H0", "H1", "H0d") for x in (-1e-6, -0.5, -4.0)]
    out += [[line("gam", "d", x)] for x in (0.0, -1.0, -2.0, -7.0, 175.0, 1000.0)]
    out += [[line("fact", "d", n)] for n in (-1, -5, 171, 200, 100000)]
    out += [[line("fact", "d", n) for n in range(0, 171, 2)], [line("fact", "f", n) for n in range(0, 34)]]
    return out


def near(g, x):
    return x * (1 + g.choice((-1, 0, 1)) * 10.0 ** -g.randint(2, 15))


@check("C28")
def c28(ctx):
    which = ("eint", "struve", "gam")
    sc = points_of(ctx, which, keep=lambda h: h[0]["op"] == "ask" and h[0]["f"] in which)
    sc += eint_scripts(ctx, 1050 if ctx.quick else 6000)
    conform(ctx, "special", "Trace_Special", sc, SAN, "Trace_Special.cfg")


def poly_scripts(ctx, count):
    g = ctx.gen("poly")
    out = []
    for k in range(count):
        s = []
        for _ in range(4):
            x = g.choice((g.uniform(-1, 1), g.uniform(-1, 1), 0.0, 1.0, -1.0, near(g, 1.0), -near(g, 1.0), g.uniform(-2, 2), g.uniform(1, 4), -g.uniform(1, 4)))
            n = g.choice((0, 1, 2, 3, g.randint(0, 20), g.randint(0, 40)))
            t = g.choice("dddf")
            if t == "f" and abs(x) > 1:
                n = min(n, 12)
            if g.random() < 0.4:
                x = max(-1.0, min(1.0, x))
                s.append(line("leg", t, g.random() < 0.5, n, x))
            else:
                s.append(line("cheb", t, g.choice(("T", "Tshift", "Td")), n, x))
        if g.random() < 0.3:
            for h in (1, 2):
                s.append(line("recnew", "d", h, g.choice((g.uniform(-1, 1), g.uniform(-1, 1), 1.0, -1.0, g.uniform(-1.5, 1.5)))))
            for _ in range(g.randint(2, 20)):
                s.append(line("recnext", g.randint(1, 2)))
        out.append(s)
    out += [[line("leg", "d", d, n, x)] for d in (0, 1) for n in (0, 1, 2, 5) for x in (1.0000001, -1.5, 4.0)]
    return out


@check("C29")
def c29(ctx):
    sc = points_of(ctx, ("poly",), keep=lambda h: h[0]["op"] == "recnew" or h[0]["f"] == "poly")
    sc += poly_scripts(ctx, 1200 if ctx.quick else 8000)
    conform(ctx, "special", "Trace_Special", sc, SAN, "Trace_Special.cfg")
