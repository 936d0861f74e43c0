from .core import *
from .checks import check
from .c_interp import f32

F_QUAD = {"inewv": [("i", "h"), ("q", "a"), ("q", "b"), ("qv", "y")], "inewf": [("i", "h"), ("q", "a"), ("q", "b"), ("i", "n"), ("qv", "c")],
          "isetmin": [("i", "h"), ("q", "v")], "isetmax": [("i", "h"), ("q", "v")], "isetm": [("i", "h"), ("s", "m")],
          "iget": [("i", "h")], "icopy": [("i", "h"), ("i", "from")]}


def integ_random(ctx, count):
    g = ctx.gen("integ")
    out = []
    for k in range(count):
        t = g.choice("dddf")
        lim = lambda: g.choice((g.val(-5, 5), g.val(-5, 5), g.uniform(-1e3, 1e3), g.uniform(0, 1e-3), g.uniform(-1, 1) * 1e-10))
        s = [line("types", t)]
        live = []
        for _ in range(g.randint(4, 25)):
            c = g.random()
            if not live or (c < 0.15 and len(live) < 3):
                h = len(live) + 1
                n = g.choice((2, 2, 3, 4, 5, 10, g.randint(2, 60), 400 if k % 10 == 0 else 7))
                if g.random() < 0.5:
                    sc = g.choice((1.0, 1.0, 1e-8, 1e9))
                    s.append(line("inewv", h, lim(), lim(), [g.val() * sc for _ in range(n)]))
                else:
                    s.append(line("inewf", h, lim(), lim(), n, [g.val(-3, 3) for _ in range(g.randint(1, 4))]))
                live.append(h)
            elif c < 0.3:
                s.append(line("isetmin", g.choice(live), lim()))
            elif c < 0.45:
                s.append(line("isetmax", g.choice(live), lim()))
            elif c < 0.55:
                s.append(line("isetm", g.choice(live), g.choice(("TRAPEZOIDAL", "TRAPEZOIDAL", "NEWTON_COTES"))))
            elif c < 0.6:
                s.append(line("iparam", g.choice(live)))
            else:
                s.append(line("iget", g.choice(live)))
        for _ in range(g.randint(1, 4)):
            n = g.choice((2, 2, 3, 3, 4, 7, g.randint(2, 50)))
            sc = g.choice((1.0, 1.0, 1e-8, 1e9))
            y = [g.val() * sc for _ in range(n)]
            c = g.random()
            if c < 0.4:
                s.append(line("trapzu", y, g.choice((1.0, g.uniform(0, 2), -g.uniform(0, 2), 1e-7))))
            elif c < 0.5:
                s.append(line("trapzd", y))
            else:
                x = g.grid(n)
                if g.random() < 0.3:
                    g.shuffle(x)
                s.append(line("trapzx", x, y))
        out.append(s)
    return out


def integ_large(ctx):
    g = ctx.gen("integlarge")
    out = []
    for n in (300, 5000, 70000):
        y = [float(g.randint(-99, 99)) for _ in range(n)]
        x = [float(i) * 0.5 + g.choice((0.0, 0.125)) for i in range(n)]
        out.append([line("types", "d"), line("inewv", 1, -1.0, 3.0, y), line("iget", 1), line("isetmax", 1, 5.0), line("iget", 1), line("iparam", 1),
                    line("trapzu", y, 0.25), line("trapzd", y), line("trapzx", x, y)])
        out.append([line("types", "d"), line("inewf", 1, -1.0, 2.0, min(n, 5000), [1.0, -2.0, 0.5]), line("iget", 1), line("isetmin", 1, 0.5), line("iget", 1), line("iparam", 1)])
    return out


def integ_sizes(ctx):
    g = ctx.gen("integsizes")
    out = []
    for n in SIZES:
        y, x = [g.val() for _ in range(n)], g.grid(n)
        out.append([line("types", "d"), line("inewv", 1, -1.0, g.uniform(0, 3), y), line("iget", 1), line("isetmin", 1, g.uniform(-9, -1)), line("iget", 1),
                    line("inewf", 2, g.uniform(-3, 0), 2.0, n, [g.val(-3, 3) for _ in range(3)]), line("iget", 2), line("iparam", 2),
                    line("trapzu", y, g.uniform(0.1, 2)), line("trapzd", y), line("trapzx", x, y)])
    return out


@check("C10")
def c10(ctx):
    sc = behaviours(ctx, "MC_Quad", F_QUAD, limit=2500 if ctx.quick else 60000)
    sc += integ_random(ctx, 900 if ctx.quick else 5000) + integ_sizes(ctx) + integ_large(ctx)
    conform(ctx, "calculus", "Trace_Quad", sc, SAN, "Trace_Quad.cfg")


F_TRI = {"tri": [("s", "kind"), ("i", "order"), ("qs", "v"), ("i", "n"), ("qs", "a"), ("i", "m"), ("qs", "c")]}


def tri_random(ctx, count):
    g = ctx.gen("tri")
    out = []
    for k in range(count):
        s = []
        kinds = g.choice(("dcv", "D", "C", "V", "DcVv"))
        few = g.random() < 0.6
        for _ in range(g.choice((4, 8)) if few else 4):
            o = 1 + (k + (_ % 2 if few else _)) % 8
            sc = g.choice((1.0, 1.0, 100.0, 1e-3, 1e-7))
            off = [g.uniform(-5, 5) * sc for _ in range(3)]
            shape = g.random()
            v = [[off[i] + g.uniform(-1, 1) * sc for i in range(3)] for _ in range(3)]
            if shape < 0.25:
                for p in v:
                    p[2] = 0.0
            elif shape < 0.35:          # needle
                v[2] = [v[1][i] + g.uniform(-1e-4, 1e-4) * sc for i in range(3)]
            elif shape < 0.38:          # degenerate
                v[2] = list(v[1])
            terms = []
            for _ in range(g.randint(1, 3)):
                terms.append([g.val(-2, 2) / sc for _ in range(3)] + [g.val(-2, 2), g.randint(0, o), g.val(-3, 3), g.val(-3, 3)])
            s.append(line("tri", g.choice(kinds), o, *[c for p in v for c in p], len(terms), *[c for t in terms for c in t]))
        out.append(s)
    for k in range(6):
        out.append(["qtab %d %s" % (n, " ".join(line([g.val() for _ in range(m)], [g.val() for _ in range(m)], [g.val() for _ in range(m)]) for m in [g.randint(0, 9) for _ in range(n)])) for n in (0, 1, 2, 8, 12)])
    for o in (0, -1, -7, 9, 10, 100, 2**31 - 1, -2**31):
        out.append([line("tri", "d", o, *[0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 1.0, 0.0], 1, 1.0, 0.0, 0.0, 1.0, 1, 1.0, 0.0)])
    return out


@check("C11")
def c11(ctx):
    sc = behaviours(ctx, "MC_Tri", F_TRI, limit=1500 if ctx.quick else None)
    sc = [sum(sc[i::max(1, len(sc) // 8)], []) for i in range(max(1, len(sc) // 8))]
    sc += tri_random(ctx, 1200 if ctx.quick else 8000)
    conform(ctx, "calculus", "Trace_Quad", sc, SAN, "Trace_Quad.cfg")


def horner_random(ctx, count):
    g = ctx.gen("horner")
    out = []
    for k in range(count):
        s = []
        for _ in range(6):
            n = g.choice((1, 1, 2, 2, 3, 4, 6, 9, g.randint(1, 25)))
            sc = g.choice((1.0, 1.0, 1e-9, 1e9))
            c = [g.val() * sc for _ in range(n)]
            if g.random() < 0.15:
                c[-1] = 0.0
            x = g.choice((0.0, 1.0, -1.0, g.uniform(-1, 1), g.uniform(-3, 3), g.uniform(-50, 50), 1e-12))
            if g.random() < 0.25:                 # terms of one size, of coefficients of very different ones
                n = min(n, 9)
                x = g.choice((-1, 1)) * g.uniform(1, 10) * 10.0 ** g.choice((-9, -6, -3, 3, 5, 8))
                c = [g.val() / x ** i for i in range(n)]
            s.append(line(g.choice(("horner", "hornerd")), g.choice("dc"), c, x, g.choice((0.0, g.uniform(-2, 2)))))
        out.append(s)
    for n in list(range(1, 34)) + [48, 64, 65, 100, 128, 129, 257]:
        x = g.choice((-1, 1)) * g.uniform(0.5, 1.4) ** (1 if n < 40 else 0.05)
        out.append([line(f, k, [g.val() for _ in range(n)], x, g.uniform(-0.2, 0.2)) for f in ("horner", "hornerd") for k in "dc"])
    return out


AXES = ("c", "o", "cc", "oo", "co", "ccc", "coo", "cco")


def axtok(ax):
    return "".join(a[0] for a in ax) + " " + " ".join(line(*a[1:]) for a in ax)


def tentok(t):
    return line(len(t), len(t[0]), len(t[0][0]), *[x for m in t for r in m for x in r])


def rnd_axes(g, dom):
    ax = []
    for c in dom:
        if c == "c":
            lo = g.choice((0.0, -1.0, g.uniform(-10, 10), g.uniform(-100, 100)))
            ax.append(("c", lo, lo + g.choice((1.0, 2.0, g.uniform(0.05, 20)))))
        else:
            ax.append(("o", g.choice((1.0, g.uniform(0.01, 10), g.uniform(1, 100)))))
    return ax


def rnd_pt(g, a):
    c = g.random()
    if a[0] == "c":
        return a[1] if c < 0.15 else a[2] if c < 0.3 else (a[1] + a[2]) / 2 if c < 0.4 else g.uniform(a[1], a[2])
    return a[1] if c < 0.15 else a[1] * 2 if c < 0.25 else a[1] * g.uniform(1, 5) if c < 0.7 else a[1] * g.uniform(5, 1e5)


def rnd_ten(g, dom, nmax):
    d = len(dom)
    n = [g.randint(1, nmax[i]) if i < d else 1 for i in range(3)]
    sc = g.choice((1.0, 1.0, 1e-6, 1e7, 1e-17))
    return [[[g.val() * sc for _ in range(n[1])] for _ in range(n[0])] for _ in range(n[2])]


NMAX = {1: (14, 1, 1), 2: (7, 7, 1), 3: (4, 4, 4)}


def power_random(ctx, count):
    g = ctx.gen("power")
    out = []
    for k in range(count):
        s = []
        objs = {}
        for h in range(1, g.choice((1, 1, 2)) + 1):
            dom = AXES[(k + h * 3) % 8]
            ax, t = rnd_axes(g, dom), rnd_ten(g, dom, NMAX[len(dom)])
            s.append("pnew %d %s %s" % (h, axtok(ax), tentok(t)))
            objs[h] = (dom, ax, t)
        slots = {}
        for _ in range(g.randint(4, 12)):
            h = g.choice(sorted(objs))
            dom, ax, t = objs[h]
            x = [rnd_pt(g, a) for a in ax]
            c = g.random()
            if len(dom) < 3:
                if c < 0.15:
                    s.append(line("pvalu", h, *[g.uniform(-1, 1) for _ in dom]))
                else:
                    s.append(line(g.choice(("pval", "pdx", "pdy")[:len(dom) + 1]), h, *x))
            elif c < 0.4:
                s.append(line(g.choice(("pval", "pdx", "pdy", "pdz", "pjoint")), h, *x))
            elif c < 0.5:
                s.append(line(g.choice(("pinf", "pdxinf", "pdyinf")), h, *x[:2]))
            elif c < 0.65:
                sl = g.randint(1, 2)
                s.append(line("pcij", h, sl, x[2]) if g.random() < 0.7 else line("pcijinf", h, sl))
                slots[sl] = h
            elif c < 0.95:
                ok = [sl for sl, hh in slots.items() if hh == h]
                if ok:
                    s.append(line(g.choice(("pvalz", "pdxz", "pdyz", "pjointz")), h, g.choice(ok), *x[:2]))
            else:
                s.append(line("pparam", h))
        out.append(s)
    return out


def power_sizes(ctx):
    """every length of every axis, the others short"""
    g = ctx.gen("powersizes")
    out = []
    for d, top in ((1, 32), (2, 14), (3, 8)):
        for i in range(d):
            for n in range(1, top + 1):
                dom = g.choice([a for a in AXES if len(a) == d])
                ax = rnd_axes(g, dom)
                m = [g.randint(1, 3) if j < d else 1 for j in range(3)]
                m[i] = n
                t = [[[g.val() for _ in range(m[1])] for _ in range(m[0])] for _ in range(m[2])]
                s = ["pnew 1 %s %s" % (axtok(ax), tentok(t))] + (["pparam 1"] if d == 3 else [])
                for op in ("pval", "pdx", "pdy", "pdz")[:d + 1]:
                    s.append(line(op, 1, *[rnd_pt(g, a) for a in ax]))
                if d == 3:
                    x = [rnd_pt(g, a) for a in ax]
                    s += [line("pinf", 1, *x[:2]), line("pcij", 1, 1, x[2]), line("pvalz", 1, 1, *x[:2]), line("pdxz", 1, 1, *x[:2]), line("pdyz", 1, 1, *x[:2])]
                out.append(s)
    return out


def cheb_sizes(ctx):
    """every order of every axis, the others small"""
    g = ctx.gen("chebsizes")
    out = []
    for d, top in ((1, 18), (2, 10), (3, 6)):
        for i in range(d):
            for n in range(top + 1):
                dom = g.choice([a for a in AXES if len(a) == d])
                ax = rnd_axes(g, dom)
                o = [g.randint(0, 2) for _ in range(d)]
                o[i] = n
                m = [o[j] + 1 if j < d else 1 for j in range(3)]
                t = [[[g.val() for _ in range(m[1])] for _ in range(m[0])] for _ in range(m[2])]
                s = ["cnew 1 %s %s %s" % (axtok(ax), line(*o), tentok(t)), "ccomp 1"]
                for op in ("cval", "cval", "cdx", "cdy", "cdz")[:d + 2]:
                    s.append(line(op, 1, *[rnd_pt(g, a) for a in ax]))
                s.append("cb 1")
                out.append(s)
    return out


def cheb_random(ctx, count):
    g = ctx.gen("cheb")
    out = []
    for k in range(count):
        dom = AXES[k % 8]
        d = len(dom)
        ax = rnd_axes(g, dom)
        om = {1: 14, 2: 5, 3: 2}[d]
        n = [g.randint(0, om) for _ in dom]
        over = g.random() < 0.25
        nm = [min(n[i] + 1 if not over else n[i] + g.randint(1, 6), 8 if d == 3 else 20) for i in range(d)] + [1, 1]
        t = rnd_ten(g, dom, nm)
        s = []
        new = "cnew 1 %s %s %s" % (axtok(ax), line(*n), tentok(t))
        s.append(new)
        if g.random() < 0.15:
            s.append(line("cval", 1, *[rnd_pt(g, a) for a in ax]))
        for _ in range(g.choice((1, 1, 2, 3))):
            s.append("ccomp 1")
            for _ in range(g.randint(1, 5)):
                s.append(line(g.choice(("cval", "cdx", "cdy", "cdz")[:d + 1]), 1, *[rnd_pt(g, a) for a in ax]))
            if g.random() < 0.5:
                s.append("cb 1")
            if g.random() < 0.5:
                s.append("pfrom 2 1")
                for _ in range(2):
                    s.append(line(g.choice(("pval", "pdx", "pdy", "pdz")[:d + 1]), 2, *[rnd_pt(g, a) for a in ax]))
        out.append(s)
    for n in (17, 18, 19, 25):        # the conversion limit
        out.append(["cnew 1 c %s %d 1 2 1 %s" % (line(-1.0, 2.0), n, line(0.5, 2.0)), "ccomp 1", line("cval", 1, 0.25), "cb 1"])
    for n, m in ((19, 1), (1, 19), (18, 1), (1, 18), (17, 2), (40, 0), (0, 40)):
        out.append(["cnew 1 co %s %d %d 1 2 1 %s" % (line(-1.0, 2.0, 3.0), n, m, line(0.5, 2.0)), "ccomp 1", line("cval", 1, 0.25, 4.0), "cb 1"])
    for n in ((19, 0, 0), (0, 19, 0), (0, 0, 19), (18, 0, 0), (0, 18, 0), (0, 0, 18), (1, 0, 17), (2, 30, 1)):
        out.append(["cnew 1 cco %s %d %d %d 1 1 1 %s" % (line(-1.0, 2.0, 0.0, 1.0, 3.0), *n, line(0.5)), "ccomp 1", line("cval", 1, 0.25, 0.5, 4.0), "cb 1"])
    return out


def series_behaviours(ctx, limit, which):
    scripts = []
    for d in (1, 2, 3):
        ex = ctx.path("series%d.json" % d)
        model_check(ctx, "MC_Series", "MC_Series%s%d.cfg" % (which[0], d), export=ex)
        hs = [h for h in exported(ex) if h[0]["op"] == which]
        os.unlink(ex)
        ctx.gen(d).shuffle(hs)
        tot = len(hs)
        for h in hs[:limit]:
            s = []
            for o in h:
                if o["op"] in ("pnew", "cnew"):
                    ax = "".join(a["k"] for a in o["ax"]) + " " + " ".join(q2tok(a["lo"]) + (" " + q2tok(a["hi"]) if a["k"] == "c" else "") for a in o["ax"])
                    t = " ".join([str(x) for x in o["t"]["n"]] + [q2tok(x) for x in o["t"]["v"]])
                    s.append(" ".join(x for x in [o["op"], "1", ax, " ".join(str(x) for x in o["n"]) if o["op"] == "cnew" else "", t] if x))
                elif o["op"] == "ccomp":
                    s.append("ccomp 1")
                elif o["op"] == "pfrom":
                    s.append("pfrom 1 1")
                else:
                    s.append(" ".join([o["op"], "1"] + [q2tok(x) for x in o["x"]]))
            scripts.append(s)
        ctx.notes.append("MC_Series%s%d: replayed %d of %d exported behaviours" % (which[0], d, min(limit, tot), tot))
    return scripts


@check("C12")
def c12(ctx):
    sc = series_behaviours(ctx, 500 if ctx.quick else 20000, "pnew")
    sc += power_random(ctx, 900 if ctx.quick else 5000) + power_sizes(ctx)
    conform(ctx, "series", "Trace_Series", sc, SAN, "Trace_Series.cfg")
    conform(ctx, "calculus", "Trace_Quad", horner_random(ctx, 360 if ctx.quick else 2500), SAN, "Trace_Quad.cfg", label="h")


@check("C13")
def c13(ctx):
    sc = series_behaviours(ctx, 500 if ctx.quick else 20000, "cnew")
    sc += cheb_random(ctx, 900 if ctx.quick else 4000) + cheb_sizes(ctx)
    conform(ctx, "series", "Trace_Series", sc, SAN, "Trace_Series.cfg")
