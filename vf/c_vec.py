import math
from .core import *
from .checks import check

F_VEC = {"sset": [("i", "h"), ("qv", "v")], "sbin": [("s", "f"), ("i", "h"), ("i", "g"), ("i", "o")], "sinp": [("s", "f"), ("i", "h"), ("q", "c")],
         "sadds": [("i", "h"), ("q", "c"), ("i", "o")]}


def gen_scripts(ctx, count):
    """Vector generation."""
    g = ctx.gen("vgen")
    out = []
    for k in range(count):
        s = [line("types", g.choice("ddf"))]
        for _ in range(4):
            c = g.random()
            a = g.choice((0.0, g.val(-50, 50), g.uniform(-1, 1), g.wide(10)))
            d = g.choice((0.0, 1.0, g.uniform(0, 10), g.uniform(0, 1e4), 2.0 ** g.randint(-20, 10)))
            n = g.choice((2, 3, 4, 5, 7, 10, 11, g.randint(2, 40)))
            if c < 0.45:
                s.append(line("lin", a, a + d, n))
            elif c < 0.65:
                a, d = g.uniform(-6, 4), g.choice((0.0, g.uniform(0, 4), float(g.randint(0, 4))))
                a = g.choice((a, float(int(a))))
                s.append(line("log", a, a + d, n, g.choice((0.0, 0.0, 2.0, 10.0, math.e, 0.5, g.uniform(1.1, 20)))))
            else:
                m = g.randint(1, 30)
                st = g.choice((1.0, 0.5, 0.1, 0.25, 2.0, g.uniform(0.01, 5), 10.0 ** -g.randint(2, 9)))
                if st < 0.01:
                    a = g.choice((0.0, g.uniform(-3, 3) * st))
                q = g.choice((float(m), m + 0.5, g.uniform(0.05, m), m + g.choice((-1, 1)) * 10.0 ** -g.randint(3, 14)))
                df = g.random() < 0.2
                s.append(line("arange", a, a + (q if df else q * st), st, df))
        out.append(s)
    for n in SIZES:
        a = g.choice((0.0, g.uniform(-9, 9)))
        out.append([line("types", g.choice("ddf")), line("lin", a, a + g.uniform(0.1, 100), n), line("arange", a, a + (n - 0.5) * 0.5, 0.5, 0)] + ([line("log", -2.0, g.uniform(-2, 3), n, g.choice((0.0, 2.0)))] if n < 300 else []))
    for n in (257, 300, 4000) + (() if ctx.quick else (70000,)):
        for t in "df":
            a = g.uniform(-9, 9)
            out.append([line("types", t), line("lin", a, a + g.uniform(1, 100), n)])
        out.append([line("types", "d"), line("arange", a, a + 0.25 * n, 0.25, 0), line("arange", 0.0, n * 0.1, 0.1, 0), line("arange", 1.0, n + 1.5, 1.0, 1)])
        if n < 1000:
            out.append([line("types", "d"), line("log", -2.0, 3.0, n, 0.0)])
    for t in "df":                                # refusals: each ends the script
        for b in ("lin 0 1 1", "lin 0 1 0", "lin 1 0 5", "log 2 1 4 0", "log 0 1 1 0", "arange 1 1 0x1p-1 0", "arange 2 1 0x1p-1 0", "arange 0 1 0 0", "arange 0 1 -1 0"):
            out.append([line("types", t), b])
    return out


@check("C20")
def c20(ctx):
    model_check(ctx, "MC_Vectors", "MC_Vectors.cfg", export=ctx.path("mc.json"))
    conform(ctx, "vecs", "Trace_Vectors", gen_scripts(ctx, 750 if ctx.quick else 8000), SAN, "Trace_Vectors.cfg")


def vec_scripts(ctx, count):
    g = ctx.gen("vecs")
    out = []
    for k in range(count):
        t = g.choice("ddf")
        s = [line("types", t)]
        n = g.choice((0, 1, 2, 3, 5, 8))
        pos = lambda m: [g.uniform(0.1, 5) for _ in range(m)]
        nz = lambda m: [g.choice((-1, 1)) * g.uniform(0.05, 30) for _ in range(m)]
        for h in (1, 2, 3):
            s.append(line("sset", h, nz(n)))
        for _ in range(g.randint(3, 8)):
            c, h = g.random(), g.randint(1, 3)
            if c < 0.45:
                f = g.choice(("Add", "Minus", "Mult", "Divide"))
                o = g.randint(1, 3)
                gg = g.randint(1, 3)
                if f in ("Divide", "Mult"):
                    s.append(line("sset", gg, nz(n)))
                s.append(line("sbin", f, h, gg, o))
            elif c < 0.55:
                s.append(line("sadds", h, g.val(), g.randint(1, 3)))
            elif c < 0.65:
                s.append(line("ssum", h))
            elif c < 0.75:
                s.append(line("sinp", "Scale", h, g.choice((2.0, -0.5, g.val()))))
            elif c < 0.83:
                s.append(line("sinp", "Negate", h, 0.0))
            elif c < 0.92:
                p = g.choice((2.0, 3.0, 0.0, 1.0, -1.0, 0.5, -0.5, g.uniform(-2, 2)))
                s.append(line("sset", h, pos(n) if p != int(p) else nz(n)))
                s.append(line("sinp", "Pow", h, p))
            else:
                s.append(line("cplx", g.choice(("Real", "Imag", "Amplitude", "PhaseRAD", "PhaseDEG")),
                              [complex(g.val(), g.val()) if g.random() < 0.7 else complex(g.choice((0.0, 1.0, -2.0)), g.choice((0.0, 3.0, -1.0))) for _ in range(g.randint(0, 5))]))
        out.append(s)
    for k in range(count):
        t = g.choice("ddf")
        s = [line("types", t)]
        n = g.randint(2, 12)
        a, d = g.choice((0.0, -1.0, g.uniform(-5, 5))), g.choice((1.0, 0.5, 0.1, g.uniform(0.01, 2)))
        xs = [a + i * d for i in range(n)]
        s.append(line("sset", 1, xs))
        node = lambda: g.choice(xs)
        for _ in range(4):
            c = g.random()
            if c < 0.2:
                if g.random() < 0.3:
                    s.append(line("sincr", a, a + g.uniform(0, 20), n))
                else:
                    if g.random() < 0.5:
                        s.append(line("sset", 2, [g.choice((0.0, g.uniform(-30, 30), 10.0 ** -g.randint(1, 12), math.pi * g.randint(-3, 3), -0.0)) for _ in range(n)]))
                    s.append(line("sinc", g.choice((1, 2)) if "sset 2" in s[-1] else 1, 3))
            elif c < 0.4:
                s.append(line("heaviside", 1, g.choice((node(), g.uniform(xs[0] - 1, xs[-1] + 1))), 3))
            elif c < 0.6:
                p, q = (g.choice((node(), g.uniform(xs[0] - 1, xs[-1] + 1))) for _ in range(2))
                s.append(line("door", 1, min(p, q) if g.random() < 0.9 else max(p, q), max(p, q), g.val(), g.random() < 0.3, 2))
            elif c < 0.8:
                s.append(line("dirac", 1, g.choice((node(), node() + d * g.uniform(-0.49, 0.49), xs[0] - d, g.uniform(xs[0], xs[-1]), node() + 0.5 * d)), g.choice((1.0, g.uniform(0.5, 9), -2.0)), g.random() < 0.3, 2))
            else:
                p, q = sorted(g.choice((node(), g.uniform(xs[0], xs[-1]))) for _ in range(2))
                if t == "f":
                    i, j = sorted((g.randrange(n), g.randrange(n)))
                    p, q = xs[i], xs[j]
                s.append(line("ramp", 1, p, q, g.val(), g.val(), 2))
        out.append(s)
    for n in [x for x in SIZES if x < 300]:
        v = lambda: [g.choice((-1, 1)) * g.uniform(0.1, 9) for _ in range(n)]
        z = [complex(g.val(), g.val()) for _ in range(n)]
        x0, d = g.uniform(-5, 5), g.uniform(0.1, 1)
        out.append([line("types", g.choice("ddf")), line("sset", 1, v()), line("sset", 2, v())] + [line("sbin", f, 1, 2, 3) for f in ("Add", "Minus", "Mult", "Divide")]
                   + [line("sadds", 1, 0.5, 3), line("ssum", 2), line("sinp", "Scale", 1, 3.0), line("sinp", "Negate", 2, 0.0), line("sinp", "Pow", 1, 2.0), line("cplx", g.choice(("Real", "Imag", "Amplitude", "PhaseRAD", "PhaseDEG")), z)])
        out.append([line("types", "d"), line("sset", 1, [x0 + d * i for i in range(n)]), line("heaviside", 1, x0 + d * g.randrange(n), 3), line("door", 1, x0 + d * 0.3, x0 + d * (n - 1.4), 2.0, False, 2),
                    line("dirac", 1, x0 + d * g.randrange(n), 1.5, False, 3), line("ramp", 1, x0 + 0.2 * d, x0 + d * (n - 1.3), -1.0, 4.0, 2), line("sinc", 1, 3), line("sincr", x0, x0 + 3, n)])
    for n in (257, 300, 5000) + (() if ctx.quick else (70000,)):
        v = lambda: [g.choice((-1, 1)) * g.uniform(0.1, 9) for _ in range(n)]
        out.append([line("types", "d"), line("sset", 1, v()), line("sset", 2, v())] + [line("sbin", f, 1, 2, 3) for f in ("Add", "Minus", "Mult", "Divide")]
                   + [line("sadds", 1, 0.5, 3), line("ssum", 2), line("sinp", "Scale", 1, 3.0), line("sinp", "Negate", 2, 0.0), line("sinp", "Pow", 1, 2.0)])
        out.append([line("types", "d"), line("sset", 1, [0.5 * i for i in range(n)]), line("heaviside", 1, 0.25 * n, 3), line("door", 1, 2.0, 0.5 * n - 3, 2.0, False, 2),
                    line("dirac", 1, 0.5 * (n - 2), 1.5, False, 3), line("ramp", 1, 10.0, 0.5 * (n - 4), -1.0, 4.0, 2)])
        z = [complex(g.val(), g.val()) for _ in range(300)]
        out.append([line("types", "d")] + [line("cplx", f, z) for f in ("Real", "Imag", "Amplitude", "PhaseRAD", "PhaseDEG")])
    out.append([line("sset", 1, [0.0, 1.0, 2.0]), "ramp 1 1.5 0.5 1 2 2"])
    out.append([line("sset", 1, [0.0, 1.0, 2.0]), "ramp 1 -0.5 0.5 1 2 2"])
    out.append([line("sset", 1, [0.0, 1.0, 2.0]), "ramp 1 0.5 2.5 1 2 2"])
    for f in ("Add", "Minus", "Mult", "Divide"):
        out.append(["sset 1 2 1 2", "sset 2 3 1 2 3", "sbin %s 1 2 3" % f])
        out.append(["sset 1 3 1 2 3", "sset 2 2 1 2", "sbin %s 1 2 3" % f])
    for t in "df":
        s = [line("types", t)]
        for _ in range(90 if ctx.quick else 600):
            x = g.choice((0.0, -0.0, g.val(), g.wide(40), g.choice((-1, 1)) * 2.0 ** -g.randint(100, 120)))
            a, b = sorted((g.val(), g.val()))
            s += [line("sgnd", x), line("sgnsqrt", x), line("satd", g.choice((x, a, b, g.uniform(a, b))), a, b)]
            n = g.choice((g.randint(-50, 50), g.randint(-2 ** 31 + 1, 2 ** 31 - 1)))
            p, q = sorted((g.randint(-60, 60), g.randint(-60, 60)))
            s += [line("sgn", "int", n), line("sat", "int", n, p, q), line("parity", "int", n), line("parity", "long", n), line("parity", "uint", abs(n)),
                  line("sgn", "uint", g.choice((0, abs(n)))), line("sat", "uint", abs(n), abs(p) if abs(p) <= abs(q) else abs(q), max(abs(p), abs(q)))]
            big = g.randint(2 ** 53, 2 ** 62) | 1
            s += [line("sat", "long", g.choice((-1, 1)) * big, -(big - 2) if g.random() < 0.5 else -2 ** 62, (big - 2) if g.random() < 0.5 else 2 ** 62), line("sgn", "long", g.choice((-1, 1)) * big)]
            u = g.choice((0.0, g.val(), g.wide(20)))
            rt, at, df = g.choice((1e-5, 1e-3, 0.1, 0.0)), g.choice((1e-8, 0.0, 1e-3, 1.0)), g.random() < 0.4
            r0, a0 = (1e-5, 1e-8) if df else (rt, at)
            v = g.choice((u, -u, u * (1 + g.choice((-1, 1)) * r0 * g.choice((0.5, 0.9, 0.99, 1.01, 1.1, 2))), u + g.choice((-1, 1)) * a0 * g.choice((0.5, 0.99, 1.01, 2)), g.val()))
            s.append(line("close", u, v, rt, at, df))
            w = [g.val() for _ in range(g.randint(0, 4))]
            w2 = [x * (1 + r0 * g.choice((0, 0.3, 0.9, 1.2 if g.random() < 0.3 else 0))) for x in w]
            s.append(line("closev", w, w2, rt, at, df))
            # coarse tolerances: the operand the tolerance is relative to matters
            rt = g.choice((0.1, 0.5, 0.9, 1.5))
            b = [g.val() for _ in range(g.randint(1, 5))]
            a = [x * (1 + g.choice((-1, 1)) * rt * g.choice((0.5, 0.9, 0.98))) for x in b]
            if g.random() < 0.4:
                i = g.randrange(len(b))
                a[i] = b[i] * (1 + g.choice((-1, 1)) * rt * g.choice((1.02, 1.1)))
            s += [line("closev", a, b, rt, 0.0, False), line("close", a[0], b[0], rt, 0.0, False)]
        out.append(s)
        # the default tolerances, approached from both sides
        for rt, at in ((1e-5, 1e-8), (1e-4, 1e-3)):
            df = at == 1e-8
            for f in (0.5, 0.9, 0.9999, 1.0001, 1.1, 2.0) if t == "d" else (0.9, 0.999, 1.001, 1.1):
                for x, y in ((at * f, 0.0), (-at * f, 0.0), (1000.0 + f * (1000 * rt + at), 1000.0), (-3.0 - f * (3 * rt + at), -3.0)):
                    s += [line("close", x, y, rt, at, df), line("closev", [y, x], [y, y], rt, at, df)]
                    if f in (0.9999, 1.0001, 0.999, 1.001) and x > 0:
                        out.append([line("types", t), line("aclose", x, y, rt, at, df)])
                        out.append([line("types", t), line("aclosev", [x, y], [y, y], rt, at, df)])
        for _ in range(12):
            u = g.uniform(-9, 9)
            out.append([line("types", t), line("aclose", u, u * (1 + g.choice((0, 1e-3, 1e-7, -1e-4, 9e-6, 1.1e-5))), 1e-2, 1e-4, g.random() < 0.6)])
            b = [g.val() for _ in range(g.randint(1, 4))]
            a = [x * (1 + g.choice((0, 9e-6, 0.5 * 1e-2))) for x in b]
            out.append([line("types", t), line("aclosev", a, b, 1e-2, 1e-4, g.random() < 0.6)])
        out.append([line("types", t), "aclosev 1 0 2 0 0 0 0 1"])
        out.append([line("types", t), "closev 1 0 2 0 0 0 0 1"])
        out.append([line("types", t), "closev 2 0 0 1 0 0 0 1"])
    return out


@check("C21")
def c21(ctx):
    sc = behaviours(ctx, "MC_Vectors", F_VEC, "MC_Vectors.cfg" if ctx.quick else "MC_VectorsDeep.cfg", limit=1200 if ctx.quick else 30000)
    sc += vec_scripts(ctx, 600 if ctx.quick else 5000)
    conform(ctx, "vecs", "Trace_Vectors", sc, SAN, "Trace_Vectors.cfg")
