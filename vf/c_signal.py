import cmath, math
from .core import *
from .checks import check

F_FFT = {"fhalf": [("i", "h"), ("b", "on")], "fscale": [("i", "h"), ("b", "on")], "ffwd": [("i", "h"), ("qv", "v")], "finvl": [("i", "h")]}
UNITS = ("HERTZ", "RADS", "DEGS", "DEGM", "S", "RPM", "default")


def fft_scripts(ctx, count):
    g = ctx.gen("fft")
    out = []
    sizes = [2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 20] + ([] if ctx.quick else [11, 13, 24, 25, 27, 30, 32, 36, 40, 48])
    for k in range(count):
        s = [line("types", g.choice("ddf"))]
        half = {1: False, 2: False, 3: False}
        lastn = lasth = None
        lasthalf = None
        for _ in range(g.randint(4, 9)):
            c, h = g.random(), g.randint(1, 2)
            n = g.choice(sizes)
            style = g.random()
            v = [g.val() for _ in range(n)] if style < 0.6 else [1.0 if i == k % n else 0.0 for i in range(n)] if style < 0.8 else [math.cos(2 * math.pi * i * (k % 5) / n) for i in range(n)]
            if c < 0.15:
                half[h] = g.random() < 0.5
                s.append(line("fhalf", h, half[h]))
            elif c < 0.25:
                s.append(line("fscale", h, g.random() < 0.5))
            elif c < 0.5:
                s.append(line("ffwd", h, v))
                lastn, lasthalf = n, half[h]
            elif c < 0.6:
                s.append(line("ffwdf", h, v, g.uniform(0.1, 100), g.choice(UNITS)))
                lastn, lasthalf = n, half[h]
            elif c < 0.75:
                # half spectra can only be inverted for even lengths
                if lastn and lasthalf == half[h] and not (half[h] and lastn % 2):
                    s.append(line("finvl", h))
            elif c < 0.87:
                m = g.choice([x for x in sizes if x > 1])
                if half[h]:
                    F = [complex(g.val(), g.val()) for _ in range(m)]
                    F[0], F[-1] = complex(F[0].real, 0), complex(F[-1].real, 0)
                else:
                    F = [complex(g.val(), g.val()) for _ in range(m)]
                    F[0] = complex(F[0].real, 0)
                    for i in range(1, m):
                        F[m - i] = F[i].conjugate() if i != m - i else complex(F[i].real, 0)
                s.append(line("finv", h, F))
            elif c < 0.95:
                s.append(line("ffreq", h, n, g.uniform(0.01, 1000), g.choice(UNITS)))
            elif c < 0.97:
                s.append(line("fnew", h))
                half[h] = False
            else:
                s.append(line("pow2", g.randint(0, 30)))
        out.append(s)
    return out


def fft_large(ctx):
    g = ctx.gen("fftlarge")
    out = []
    for n in list(range(2, 41)) + [63, 64, 65, 99, 100, 128] + ([] if ctx.quick else [150, 256, 257, 300, 512]):
        for t, half in (("d", False), ("d", True)) + ((("f", g.random() < 0.5),) if n < 100 else ()):
            v = [g.val() for _ in range(n)]
            s = [line("types", t), line("fhalf", 1, half), line("ffwd", 1, v)]
            if not (half and n % 2):
                s.append(line("finvl", 1))
            s.append(line("ffreq", 1, n, 10.0, g.choice(UNITS)))
            out.append(s)
    return out


@check("C22")
def c22(ctx):
    sc = behaviours(ctx, "MC_Fourier", F_FFT, "MC_Fourier.cfg" if ctx.quick else "MC_FourierDeep.cfg", limit=700 if ctx.quick else 10000)
    sc += fft_scripts(ctx, 750 if ctx.quick else 5000) + fft_large(ctx)
    conform(ctx, "signal", "Trace_Fourier", sc, SAN, "Trace_Fourier.cfg")


F_CONV = {"cnew": [("i", "cap"), ("i", "fill"), ("q", "x")], "cpush": [("b", "front"), ("q", "x")], "conv": [("qv", "k"), ("q", "dt"), ("b", "rev")]}


def conv_scripts(ctx, count):
    g = ctx.gen("conv")
    out = []
    for k in range(count):
        cap = g.randint(2, 12)
        fill = g.choice((0, cap, g.randint(0, cap)))
        s = [line("types", g.choice("ddf")), line("cnew", cap, fill, g.choice((0.0, g.val())))]
        size = fill
        for _ in range(g.randint(4, 30)):
            if g.random() < 0.6:
                s.append(line("cpush", g.random() < 0.7, g.val()))
                size = min(cap, size + 1)
            elif size >= 2:
                n = g.randint(2, size)
                s.append(line("conv", [g.val() for _ in range(n)], g.choice((1.0, 0.1, g.uniform(0.01, 2))), g.choice(("default", "1", "0", "0"))))
        if k % 10 == 0:
            s.append(line("conv", [g.val() for _ in range(size + g.randint(1, 2))], 0.5, g.choice(("default", "0"))))
        out.append(s)
    return out


def conv_large(ctx):
    g = ctx.gen("convlarge")
    out = []
    for n in SIZES:
        s = [line("types", g.choice("ddf")), line("cnew", n, 0, 0.0)]
        for _ in range(n + 1):
            s.append(line("cpush", g.random() < 0.8, g.val()))
        s += [line("conv", [g.val() for _ in range(n)], 0.25, "default"), line("conv", [g.val() for _ in range(n)], g.uniform(0.1, 1), "0")]
        out.append(s)
    for cap in (100, 300, 1500):
        s = [line("types", "d"), line("cnew", cap, g.choice((0, cap)), g.val())]
        for _ in range(cap + cap // 3):
            s.append(line("cpush", g.random() < 0.8, g.val()))
        for n in (cap, cap - 1, 2 * cap // 3):
            s.append(line("conv", [g.val() for _ in range(n)], 0.1, g.choice(("default", "0"))))
            s.append(line("cpush", 1, g.val()))
        out.append(s)
    return out


@check("C23")
def c23(ctx):
    sc = behaviours(ctx, "MC_Convol", F_CONV, limit=None)
    sc += conv_scripts(ctx, 900 if ctx.quick else 8000) + conv_large(ctx)
    conform(ctx, "signal", "Trace_Convol", sc, SAN, "Trace_Convol.cfg")


F_SPL = {"spl": [("i", "h"), ("i", "d"), ("s", "how"), ("qv", "x"), ("qv", "y")], "splcopy": [("i", "h"), ("i", "g")]}


def ask(o):
    xs = [float.fromhex(q2tok(x)) for x in o["x"]]
    w = xs[-1] - xs[0]
    return [line("splev", o["h"], t) for t in xs + [xs[0] + w * j / 8 for j in (1, 3, 5, 6)]]


def spl_scripts(ctx, count):
    g = ctx.gen("spl")
    out = []
    for k in range(count):
        s = []
        live = {}
        for _ in range(g.randint(1, 3)):
            h, d = g.randint(1, 2), g.choice((1, 2, 3, 3, 4, 5))
            n = g.choice((2, 3, 4, 5, 6, 7, 8))
            x0, step = g.choice((0.0, g.uniform(-20, 20))), g.choice((1.0, g.uniform(0.05, 4)))
            xs = [x0]
            while len(xs) < n:
                xs.append(xs[-1] + step * g.choice((1.0, g.uniform(0.5, 1.5))))
            p = [g.uniform(-2, 2) for _ in range(g.randint(1, d + 1))]
            ys = [g.val() for _ in range(n)] if g.random() < 0.6 else [sum(c * ((x - x0) / step) ** i for i, c in enumerate(p)) for x in xs]
            s.append(line("spl", h, d, g.choice(("std", "eigen")), xs, ys))
            live[h] = xs
            if g.random() < 0.4:
                s.append(line("splcopy", h, 3))
                live[3] = xs
            for h2 in list(live):
                q = live[h2]
                for t in g.sample(q, min(len(q), 2)) + [g.uniform(q[0], q[-1]) for _ in range(2)] + [q[0], q[-1]]:
                    s.append(line("splev", h2, t))
        out.append(s)
    return out


def spl_large(ctx):
    g = ctx.gen("spllarge")
    out = []
    for n in list(range(9, 21)) + [24, 33] + ([] if ctx.quick else [40, 50, 64, 100]):
        for d in (1, 3, 5) if n in (12, 20, 33) else (g.choice((1, 2, 3, 4, 5)),):
            x = [g.uniform(-3, 3)]
            while len(x) < n:
                x.append(x[-1] + g.uniform(0.5, 1.5))
            y = [g.val() for _ in x]
            q = g.sample(x, 2) + [g.uniform(x[0], x[-1]) for _ in range(2)] + [x[0], x[-1], x[-2] + 0.7 * (x[-1] - x[-2])]
            out.append([line("spl", 1, d, g.choice(("std", "eigen")), x, y)] + [line("splev", 1, t) for t in q])
    return out


@check("C24")
def c24(ctx):
    sc = behaviours(ctx, "MC_BSpline", F_SPL, limit=250 if ctx.quick else None, render=ask)
    sc += spl_scripts(ctx, 600 if ctx.quick else 6000) + spl_large(ctx)
    conform(ctx, "signal", "Trace_BSpline", sc, SAN, "Trace_BSpline.cfg")
