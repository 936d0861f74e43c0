import math
from .core import *
from .checks import check

F_ARR = {"vput": [("i", "h"), ("i", "i"), ("q", "x")], "vnull": [("i", "h")], "vones": [("i", "h")], "vrev": [("i", "h")], "vcopy": [("i", "h"), ("i", "g")]}
QUESTIONS = ["vat 1", "vat 2", "veq 1 2 0", "vinf 1", "vinf 2", "vsq 1 1", "vsq 2 0", "vdiag 1 0", "vdiag 2 1", "vtr 1 0"]


def render(o):
    if o["op"] == "vset":
        return ["vset %d %d %s set" % (o["h"], len(o["v"]), " ".join(q2tok(x) for x in o["v"]))]
    return [line("vsort", o["h"], o["up"], 0)]


def components(g, n, tiny=False):
    k = g.random()
    if k < 0.2:
        return [float(g.randint(-3, 3)) for _ in range(n)]
    if k < 0.3:
        return [0.0] * n
    if k < 0.4:
        return [g.choice((0.0, 0.0, g.val())) for _ in range(n)]
    if k < 0.5:
        s = 2.0 ** (g.randint(-50, 50) if tiny or g.random() < 0.6 else g.choice((-1, 1)) * g.randint(300, 480))
        return [g.uniform(-1, 1) * s for _ in range(n)]
    return [g.val() for _ in range(n)]


def arr_scripts(ctx, count):
    g = ctx.gen("arr")
    out = []
    for k in range(count):
        kind, t = "n36"[k % 3], g.choice("ddf")
        n = {"n": g.choice((1, 2, 3, 4, 5, 9, 16)), "3": 3, "6": 6}[kind]
        s = [line("types", kind, t)]
        put = lambda h, v: "vset %d %d %s %s" % (h, len(v), " ".join(tok(x) for x in v), g.choice(("ctor", "set")))
        v = components(g, n, t == "f")
        s += [put(1, v), put(2, components(g, n, t == "f"))]
        for _ in range(g.randint(3, 9)):
            c, h = g.random(), g.randint(1, 2)
            if c < 0.12:
                s.append(line("vput", h, g.randint(1, n), g.val()))
            elif c < 0.16:
                s.append(line("vnull", h))
            elif c < 0.25:
                if g.random() < 0.5:
                    s.append(line("vcopy", h, 3 - h))
                else:
                    form = g.choice(("scale", "sum", "rev", "mulv"))
                    if form == "mulv":              # moderate components: no overflow
                        s += [put(1, [g.val() for _ in range(n)]), put(2, [g.val() for _ in range(n)])]
                    s.append(line("vexpr", h, 3 - h if form == "rev" else g.randint(1, 2), g.choice(("ctor", "assign")), form, g.choice((1.0, -1.0, 0.5, g.uniform(-1, 1)) + (() if t == "f" else (2.0, g.uniform(-3, 3))))))
            elif c < 0.29:
                s.append(line("vat", h))
            elif c < 0.42:
                eps = g.choice((1e-2, 1e-3, 1e-5, 0.5)) if t == "f" else g.choice((0.0, 0.0, 1e-12, 1e-6, 1e-3, 0.5))
                e0 = eps or 1e-12
                big = math.sqrt(sum(x * x for x in v))
                w = list(v)
                w[g.randrange(n)] += g.choice((-1, 1)) * big * e0 * g.choice((0.0, 0.3, 0.9, 0.99, 1.01, 1.1, 3.0))
                s += [put(1, v), put(2, w), line("veq", *g.choice(((1, 2), (2, 1))), eps)]
            elif c < 0.52:
                s.append(line("vinf", h))
            elif kind == "n":
                s.append(g.choice((line("vones", h), line("vrand", h), line("vsort", h, g.randint(0, 1), g.randint(0, 1)), line("vsort", h, g.randint(0, 1), g.randint(0, 1)), line("vrev", h), line("vsq", h, g.randint(0, 1)), line("vdiag", h, g.randint(0, 1)), line("vtr", h, 0))))
            elif c < 0.6:
                s.append(line("vouter", h, g.randint(1, 2)))
            elif c < 0.7:
                s.append(line("vinner", h, g.randint(1, 2)))
            elif c < 0.74:
                s.append(line("vnew", h))
            elif kind == "3":
                if c < 0.83:
                    s += [line("vnorm", h), line("vunit", h)]
                elif c < 0.9:
                    u = [g.uniform(-1, 1) for _ in range(3)]
                    m = math.sqrt(sum(x * x for x in u)) / (1 + g.choice((0, 1e-7, 5e-6, 9e-6, 1.1e-5, 2e-5, 1e-3, -9e-6, -1.1e-5, -1e-4)))
                    s += [put(h, [x / m for x in u]), line("vunit", h)]
                else:
                    if g.random() < 0.3:
                        s.append(put(h, [g.choice((0.0, 1.0, -1.0, 1e-20, -1e-20)) for _ in range(3)]))
                    s.append(line("vproj", h, g.choice("XYZ"), g.randint(0, 1)))
        out.append(s)
    for n in (40, 300):
        v = [g.choice((g.val(), float(g.randint(-20, 20)))) for _ in range(n)]
        s = ["types n d", "vset 1 %d %s set" % (n, " ".join(tok(x) for x in v)), "vcopy 1 2", "vinf 1", "vsort 1 1 1", "vat 1", "vrev 1", "veq 1 2 0", "vsort 2 0 0", "veq 1 2 0", "vinf 2", "vput 2 %d 3" % n, "vnull 1", "vones 2"]
        if n < 100:
            s[4:4] = ["vsq 1 1", "vdiag 1 0", "vtr 1 0"]
        out.append(s)
    out.append(["types n d", "vset 1 2 1 2 set", "vset 2 3 1 2 3 set", "veq 1 2 0"])
    return out


@check("C26")
def c26(ctx):
    sc = [s + QUESTIONS for s in behaviours(ctx, "MC_Arrays", F_ARR, "MC_Arrays.cfg" if ctx.quick else "MC_ArraysDeep.cfg", limit=500 if ctx.quick else 20000, render=render)]
    sc += arr_scripts(ctx, 1800 if ctx.quick else 15000)
    conform(ctx, "arrays", "Trace_Arrays", sc, SAN, "Trace_Arrays.cfg")
