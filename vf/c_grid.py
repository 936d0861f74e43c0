import math, struct
from .core import *
from .checks import check
from .c_interp import points, outside, f32, NAMES, disorder

F_LUT2D = {"tnew": [("i", "h")], "tmethod": [("i", "h"), ("s", "m")], "tsetx": [("i", "h"), ("qv", "v")], "tsety": [("i", "h"), ("qv", "v")],
           "tadd": [("i", "h"), ("s", "name"), ("qv", "data")], "teval": [("i", "h"), ("s", "name"), ("q", "x"), ("q", "y")],
           "tcount": [("i", "h")], "thas": [("i", "h"), ("s", "name")]}
F_GRID = {"new": [("i", "h"), ("s", "kind"), ("i", "d")], "coord": [("i", "h"), ("qv", "v")], "var": [("i", "h"), ("i", "ft"), ("iv", "shape"), ("qv", "data")],
          "copy": [("i", "h"), ("i", "from")], "assign": [("i", "h"), ("i", "from")], "del": [("i", "h")], "valid": [("i", "h")],
          "interp": [("i", "h"), ("qv", "p")], "interpc": [("i", "h"), ("b", "check"), ("qv", "p")],
          "nearest": [("i", "h"), ("qv", "p")], "around": [("i", "h"), ("qv", "p")], "data": [("i", "h"), ("qv", "p")]}


def fgrid(g, n, flt):
    xs = g.grid32(n) if flt else g.grid(n)
    if flt:
        xs = sorted(set(f32(x) for x in xs))
        while len(xs) < 2:
            xs.append(f32(xs[-1] + 1 + abs(xs[-1])))
    return xs


def values(g, n):
    sc = g.choice((1.0, 1.0, 1e-5, 1e7))
    return [g.val() * sc for _ in range(n)]


def pts2(g, xs, ys, k):
    a, b = points(g, xs, k=k), points(g, ys, k=k)
    g.shuffle(a)
    return list(zip(a, b))


def flat(ps):
    return " ".join([str(len(ps))] + [tok(float(c)) for p in ps for c in p])


def interp2d_random(ctx, count):
    g = ctx.gen("i2")
    out = []
    for k in range(count):
        flt = g.random() < 0.2
        s = [line("types", "f" if flt else "d"), line("make", 1, "LINEAR")]
        for rep in range(g.choice((1, 1, 2, 3))):
            nx, ny = g.choice((2, 2, 3, 4, 7, g.randint(2, 14))), g.choice((2, 2, 3, 5, g.randint(2, 14)))
            xs, ys = fgrid(g, nx, flt), fgrid(g, ny, flt)
            d = values(g, len(xs) * len(ys))
            s.append(line("init", 1, xs, ys, d))
            s.append(line("range", 1))
            P = pts2(g, xs, ys, 8) + [(g.choice(xs), g.choice(ys)) for _ in range(3)]
            for x, y in P:
                s.append(line(g.choice(("eval", "call")), 1, x, y))
            s.append(g.choice(("evalv", "callv")) + " 1 " + flat(pts2(g, xs, ys, g.choice((1, 5)))))
        if g.random() < 0.4:
            x, y = g.choice(P)
            if g.random() < 0.5:
                x = g.choice(outside(g, xs, 3))
            else:
                y = g.choice(outside(g, ys, 3))
            s.append(line("eval", 1, x, y) if g.random() < 0.6 else "evalv 1 " + flat([g.choice(P), (x, y)]))
        elif g.random() < 0.25:                  # samples that have to be refused
            c = g.randint(0, 2)
            n = len(xs) * len(ys)
            s.append(line("init", 1, disorder(g, xs) if c == 0 else xs, disorder(g, ys) if c == 1 else ys, values(g, g.choice((0, 1, n - 1, n - len(ys))) if c == 2 else n)))
        out.append(s)
    for m in ("EXTRAPOLATE", "SATURATE", "BSPLINE"):
        out.append([line("make", 1, m)])
    return out


def axis(g, n):
    xs, x = [], float(g.randint(-50, 50))
    for _ in range(n):
        xs.append(x)
        x += g.choice((0.25, 0.5, 1.0, 2.0))
    return xs


def interp2d_large(ctx):
    """grids whose axes and whose sample count do not fit in small indices"""
    g = ctx.gen("i2large")
    out = []
    for nx, ny in ((300, 3), (3, 300), (270, 280), (2, 40000), (40000, 2)):
        xs, ys = axis(g, nx), axis(g, ny)
        s = [line("types", "d"), line("make", 1, "LINEAR"), line("init", 1, xs, ys, [float(g.randint(-999, 999)) for _ in range(nx * ny)]), line("range", 1)]
        P = pts2(g, xs, ys, 12) + [(xs[-1], ys[-1]), (xs[0], ys[-1]), (xs[-1], ys[0]), (xs[-2], ys[-2]), (xs[nx // 2], ys[ny // 2])]
        s.append("evalv 1 " + flat(P))
        s.append(line("call", 1, *P[0]))
        out.append(s)
    return out


def interp2d_sizes(ctx):
    g = ctx.gen("i2sizes")
    out = []
    for n in [x for x in SIZES if x < 300]:
        m = g.randint(2, 5)
        nx, ny = (n, m) if n % 2 else (m, n)
        for a, b in ((nx, ny), (ny, nx)) if n < 30 else ((nx, ny),):
            flt = g.random() < 0.2
            xs, ys = fgrid(g, a, flt), fgrid(g, b, flt)
            P = pts2(g, xs, ys, 8) + [(g.choice(xs), g.choice(ys)) for _ in range(4)] + [(xs[-1], ys[-1])]
            out.append([line("types", "f" if flt else "d"), line("make", 1, "LINEAR"), line("init", 1, xs, ys, values(g, len(xs) * len(ys))), line("range", 1), "evalv 1 " + flat(P), line("call", 1, *P[0])])
    return out


def lut2d_large(ctx):
    g = ctx.gen("l2large")
    out = []
    for ns, nx, ny in ((300, 2, 3), (2, 270, 280)):
        xs, ys = axis(g, nx), axis(g, ny)
        s = [line("types", "d"), line("tnew", 1), line("tsetx", 1, xs), line("tsety", 1, ys)]
        names = ["s%d" % i for i in range(ns)]
        for nm in names:
            s.append(line("tadd", 1, nm, [float(g.randint(-99, 99)) for _ in range(nx * ny)]))
        s += [line("tcount", 1), line("tsamples", 1), line("tadd", 1, names[-1], [0.0] * (nx * ny)), line("tcount", 1)]
        for nm in [names[0], names[-1]] + g.sample(names, min(ns, 10)):
            s += [line("thas", 1, nm), "tevalv 1 %s %s" % (nm, flat(pts2(g, xs, ys, 3)))]
        s += [line("thas", 1, "s"), line("teval", 1, "nobody", xs[0], ys[0])]
        out.append(s)
    return out


def grid_large(ctx, kind, salt, ops=None):
    g = ctx.gen(salt + "large")
    out = []
    for shape in ((300,), (70000,), (3, 300), (300, 3), (260, 270), (40, 41, 42), (17, 3, 18, 19)):
        co = [axis(g, n) for n in shape]
        s = [line("new", 1, kind, len(shape))] + [line("coord", 1, x) for x in co]
        s.append(line("var", 1, 0, list(shape), [float(g.randint(-999, 999)) for _ in range(prod(shape))]))
        grid_eval(g, kind, 1, co, 16, s)
        s.append(line("interp" if kind[0] == "i" else "nearest", 1, [x[-1] for x in co]))
        s.append(line("interp" if kind[0] == "i" else "nearest", 1, [x[-2] + (x[-1] - x[-2]) * 0.375 for x in co]))
        if ops:
            s = [l for l in s if l.split()[0] in ops or l.split()[0] in ("new", "coord", "var")]
        out.append(s)
    return out


@check("C04")
def c04(ctx):
    sc = behaviours(ctx, "MC_Lut2d", F_LUT2D, limit=2500 if ctx.quick else None, keep=lambda h: h[-1]["op"] == "teval")
    sc += interp2d_random(ctx, 1050 if ctx.quick else 5000) + interp2d_sizes(ctx) + interp2d_large(ctx)
    conform(ctx, "interp2d", "Trace_Lut2d", sc, SAN, "Trace_Lut2d.cfg")


def lut2d_random(ctx, count):
    g = ctx.gen("l2")
    out = []
    for k in range(count):
        flt = g.random() < 0.15
        s = [line("types", "f" if flt else "d")]
        T = {}
        for _ in range(g.randint(8, 40)):
            c = g.random()
            if not T or (c < 0.05 and len(T) < 3):
                h = len(T) + 1
                T[h] = {"xs": None, "ys": None, "m": "LINEAR", "ser": {}}
                s.append(line("tnew", h))
                continue
            h = g.choice(sorted(T))
            t = T[h]
            if t["xs"] is None or c < 0.12:
                t["xs"] = fgrid(g, g.choice((2, 3, g.randint(2, 10))), flt)
                s.append(line("tsetx", h, t["xs"]))
            elif t["ys"] is None or c < 0.19:
                t["ys"] = fgrid(g, g.choice((2, 3, g.randint(2, 10))), flt)
                s.append(line("tsety", h, t["ys"]))
            elif c < 0.25:
                t["m"] = "LINEAR" if t["m"] != "LINEAR" else g.choice(("SATURATE", "EXTRAPOLATE", "BSPLINE"))
                s.append(line("tmethod", h, t["m"]))
            elif c < 0.5 or not t["ser"]:
                nm = g.choice(NAMES[:g.choice((3, len(NAMES)))])
                n = len(t["xs"]) * len(t["ys"])
                short = g.random() < 0.25
                if short:
                    n = g.choice((0, 1, n // 2, n - 1))
                s.append(line("tadd", h, nm, values(g, n)))
                if nm not in t["ser"] and t["m"] == "LINEAR" and not short:
                    t["ser"][nm] = (t["xs"], t["ys"])
                if g.random() < 0.5:
                    s.append(line("tcount", h))
                if g.random() < 0.4:
                    s.append(line("thas", h, nm))
            elif c < 0.6:
                op = g.choice(("tcount", "tgetx", "tgety", "tsamples", "thas"))
                s.append(line(op, h) if op != "thas" else line(op, h, g.choice(NAMES)))
            else:
                nm = g.choice(sorted(t["ser"])) if g.random() < 0.9 else g.choice(NAMES)
                xs, ys = t["ser"].get(nm, (t["xs"], t["ys"]))
                P = pts2(g, xs, ys, 4)
                if g.random() < 0.7:
                    x, y = g.choice(P)
                    s.append(line(g.choice(("teval", "tevalc")), h, nm, x, y))
                else:
                    s.append("tevalv %d %s %s" % (h, nm, flat(P)))
        if g.random() < 0.15:
            for h, t in T.items():
                if t["ser"]:
                    nm = g.choice(sorted(t["ser"]))
                    xs, ys = t["ser"][nm]
                    s.append(line("teval", h, nm, g.choice(outside(g, xs, 2)), ys[0]))
                    break
        elif g.random() < 0.15:
            for h, t in T.items():
                if t["xs"] and t["ys"]:
                    op, v = g.choice((("tsetx", t["xs"]), ("tsety", t["ys"])))
                    s += [line(op, h, disorder(g, v)), line("tadd", h, "misfit", values(g, len(t["xs"]) * len(t["ys"])))]
                    break
        out.append(s)
    return out


@check("C05")
def c05(ctx):
    sc = behaviours(ctx, "MC_Lut2d", F_LUT2D, limit=3000 if ctx.quick else None)
    sc += behaviours(ctx, "MC_Lut2d", F_LUT2D, cfg="MC_Lut2dDeep.cfg", simulate=(150 if ctx.quick else 3000, 22), limit=400 if ctx.quick else 8000)
    sc += lut2d_random(ctx, 1200 if ctx.quick else 6000) + lut2d_large(ctx)
    conform(ctx, "interp2d", "Trace_Lut2d", sc, SAN, "Trace_Lut2d.cfg")


def new_grid(g, kind, d, big=False):
    flt = kind in ("if", "nf")
    mx = {1: 60, 2: 12, 3: 6, 4: 4}[d] if not big else {1: 300, 2: 30, 3: 10, 4: 6}[d]
    co = []
    for _ in range(d):
        n = 1 if g.random() < 0.06 else g.randint(2, mx)
        if kind == "nk":
            co.append([float(x) for x in sorted(g.sample(range(-g.choice((n + 5, n + 40, 10 ** 8)), g.choice((21, 41, 10 ** 8))), n))])
            continue
        if kind[0] == "n" and g.random() < 0.4:
            x = float(g.randint(-30, 30))
            xs = []
            for _ in range(n):
                xs.append(x)
                x += g.choice((0.5, 1.0, 2.0, 3.0, 0.25))
        else:
            xs = fgrid(g, n, flt) if n > 1 else [g.val()]
            if flt and n == 1:
                xs = [f32(xs[0])]
        co.append(xs)
    return co


def grid_point(g, co, far=0.25, flt=False):
    p = []
    for xs in co:
        if len(xs) == 1 or g.random() < far:
            x = g.choice(outside(g, xs, 2)) if len(xs) > 1 else g.choice((xs[0], xs[0] - 1, xs[0] + 1))
            if g.random() < 0.1:
                x = g.choice((1e300, -1e300)) if not flt else g.choice((1e30, -1e30))
        else:
            x = g.choice(points(g, xs, k=4))
        p.append(x)
    if flt:
        p = [f32(x) for x in p]
    return p


def prod(v):
    r = 1
    for x in v:
        r *= x
    return r


def grid_eval(g, kind, h, co, n, s):
    flt = kind in ("if", "nf")
    for _ in range(n):
        if kind[0] == "i":
            c = g.random()
            if c < 0.45:
                s.append(line("interp", h, grid_point(g, co, 0.2, flt)))
            elif c < 0.7:
                s.append(line("interpc", h, g.random() < 0.7, grid_point(g, co, g.choice((0.0, 0.0, 0.2)), flt)))
            elif c < 0.85:
                s.append(line("at", h, [g.randrange(len(x)) for x in co]))
            else:
                s.append(line("interp", h, [g.choice(x) for x in co]))
        else:
            p = grid_point(g, co, 0.2, flt)
            if g.random() < 0.3:          # exact midpoints
                for i, x in enumerate(co):
                    if len(x) > 1 and g.random() < 0.7:
                        j = g.randrange(len(x) - 1)
                        p[i] = (x[j] + x[j + 1]) / 2
            if kind == "nk":
                p = [float(math.floor(max(-1e9, min(1e9, x)))) for x in p]
            s.append(line(g.choice(("nearest", "nearest", "data", "around")), h, p))


def grid_random(ctx, kinds, count, evals, salt, ops=None):
    g = ctx.gen(salt)
    out = []
    for k in range(count):
        kind = g.choice(kinds)
        d = g.choice((1, 2, 2, 3, 3, 4))
        co = new_grid(g, kind, d, big=k % 25 == 0)
        s = [line("new", 1, kind, d)]
        for x in co:
            s.append(line("coord", 1, x))
        for rep in range(g.choice((1, 1, 2))):
            n = prod(len(x) for x in co)
            data = values(g, n) if kind not in ("ni", "nf", "nk") else [float(g.randint(-1000, 1000)) for _ in range(n)]
            s.append(line("var", 1, g.random() < 0.2, [len(x) for x in co], data))
            grid_eval(g, kind, 1, co, evals, s)
        out.append(s)
    if ops:
        out = [[l for l in s if l.split()[0] in ops or l.split()[0] in ("new", "coord", "var")] for s in out]
    return out


def grid_life(ctx, kinds, count, salt):
    """histories of creation, incremental construction, refused operations, copies, assignments, destruction"""
    g = ctx.gen(salt)
    out = []
    for k in range(count):
        kind = g.choice(kinds)
        d = g.choice((1, 2, 2, 3))
        inter = kind[0] == "i"
        s, T = [], {}
        for _ in range(g.randint(10, 45)):
            c = g.random()
            if not T or (c < 0.06 and len(T) < 3):
                h = next(i for i in (1, 2, 3) if i not in T)
                s.append(line("new", h, kind, d))
                T[h] = {"co": [], "plan": new_grid(g, kind, d), "valid": False}
                continue
            h = g.choice(sorted(T))
            t = T[h]
            full = len(t["co"]) == d
            if not full and c < 0.55:
                if inter and g.random() < 0.2:
                    bad = list(t["plan"][len(t["co"])])
                    if len(bad) > 1:
                        i = g.randrange(len(bad) - 1)
                        bad[i + 1] = bad[i] if g.random() < 0.5 else bad[i] - 1
                        s.append(line("coord", h, bad))
                        continue
                x = t["plan"][len(t["co"])]
                s.append(line("coord", h, x))
                t["co"] = t["co"] + [x]
            elif full and (not t["valid"] or c < 0.15):
                sh = [len(x) for x in t["co"]]
                if inter and g.random() < 0.3:
                    bad = list(sh)
                    if g.random() < 0.5 and len(set(sh)) > 1:
                        g.shuffle(bad)
                        if bad == sh:
                            bad = sh[::-1]
                    else:
                        bad[g.randrange(d)] += g.choice((1, 2, -1))
                    if bad != sh and min(bad) > 0:
                        s.append(line("var", h, 0, bad, values(g, prod(bad))))
                        continue
                data = values(g, prod(sh)) if kind not in ("ni", "nf", "nk") else [float(g.randint(-50, 50)) for _ in range(prod(sh))]
                s.append(line("var", h, g.random() < 0.2, sh, data))
                t["valid"] = True
            elif c < 0.3 and len(T) < 3:
                n = next(i for i in (1, 2, 3) if i not in T)
                s.append(line("copy", n, h))
                T[n] = dict(t)
            elif c < 0.45 and len(T) > 1:
                f = g.choice(sorted(T))
                s.append(line("assign", h, f))
                T[h] = dict(T[f])
            elif c < 0.5:
                s.append(line("del", h))
                del T[h]
            elif c < 0.6 and t["co"]:
                s.append(line(g.choice(("getcoord", "limits", "first", "last")), h, g.randrange(len(t["co"]))))
            elif c < 0.66:
                s.append(line("dim", h))
            elif c < 0.75:
                s.append(line("valid", h))
            elif t["valid"]:
                grid_eval(g, kind, h, t["co"], 2, s)
        if T and g.random() < 0.3:
            h = g.choice(sorted(T))
            t = T[h]
            full = len(t["co"]) == d
            c = g.random()
            if c < 0.5:
                s.append(line("coord", h, [0.0, 1.0]) if full else line("var", h, 0, [2] * d, [1.0] * 2 ** d))
            else:
                s.append(line(g.choice(("getcoord", "limits", "first", "last")), h, d + g.choice((0, 0, 1, 7))))
        out.append(s)
    return out


@check("C06")
def c06(ctx):
    sc = behaviours(ctx, "MC_Grid", F_GRID, cfg="MC_GridInterp.cfg", limit=2000 if ctx.quick else None, keep=lambda h: h[-1]["op"].startswith("interp"))
    sc += grid_random(ctx, ("id", "id", "if"), 900 if ctx.quick else 3000, 14, "gi") + grid_large(ctx, "id", "gi")
    conform(ctx, "grid", "Trace_Grid", sc, SAN, "Trace_Grid.cfg")


@check("C07")
def c07(ctx):
    sc = behaviours(ctx, "MC_Grid", F_GRID, cfg="MC_GridInterp.cfg", limit=3000 if ctx.quick else None)
    sc += behaviours(ctx, "MC_Grid", F_GRID, cfg="MC_GridInterpDeep.cfg", simulate=(100 if ctx.quick else 2000, 20), limit=400 if ctx.quick else 8000)
    sc += behaviours(ctx, "MC_Grid", F_GRID, cfg="MC_GridNear.cfg", limit=800 if ctx.quick else 8000)
    sc += grid_life(ctx, ("id", "id", "if", "nd", "ni", "nk"), 1300 if ctx.quick else 5000, "gl")
    conform(ctx, "grid", "Trace_Grid", sc, SAN, "Trace_Grid.cfg")


@check("C08")
def c08(ctx):
    sc = behaviours(ctx, "MC_Grid", F_GRID, cfg="MC_GridNear.cfg", limit=3000 if ctx.quick else None, keep=lambda h: h[-1]["op"] in ("nearest", "data"))
    sc += grid_random(ctx, ("nd", "ni", "nf", "nk"), 1000 if ctx.quick else 3000, 20, "gn", ("nearest", "data")) + grid_large(ctx, "nd", "gn", ("nearest", "data"))
    conform(ctx, "grid", "Trace_Grid", sc, SAN, "Trace_Grid.cfg")


@check("C09")
def c09(ctx):
    sc = behaviours(ctx, "MC_Grid", F_GRID, cfg="MC_GridNear.cfg", limit=3000 if ctx.quick else None, keep=lambda h: h[-1]["op"] == "around")
    sc += grid_random(ctx, ("nd", "ni", "nf", "nk"), 1000 if ctx.quick else 3000, 40, "ga", ("around",)) + grid_large(ctx, "nd", "ga", ("around",))
    conform(ctx, "grid", "Trace_Grid", sc, SAN, "Trace_Grid.cfg")


F_ENG = {"types": [("s", "t")], "buf": [("i", "k"), ("qv", "v")], "poke": [("i", "k"), ("i", "i"), ("q", "x")],
         "mk": [("i", "h"), ("s", "kind"), ("b", "cont"), ("b", "copy"), ("i", "k"), ("qvvv", "grids")], "again": [("i", "h"), ("i", "k"), ("qvvv", "grids")],
         "drop": [("i", "h")], "ask": [("i", "h"), ("qv", "p")]}


def engine_random(ctx, count):
    g = ctx.gen("engine")
    out = []
    vv = lambda w: "%d %s" % (len(w), " ".join(line(v) for v in w))

    def grids(d, t):
        w = [(g.grid32 if t == "f" else g.grid)(2 if d > 4 else g.choice((2, 2, 3, 4, g.randint(2, 12 if d < 3 else 5)))) for _ in range(d)]
        if g.random() < 0.1:
            w[g.randrange(d)] = [g.val()]     # a single node: constant along that axis
        return w

    def coord(w, t):
        a, b = w[0], w[-1]
        f32 = (lambda x: struct.unpack("f", struct.pack("f", x))[0]) if t == "f" else (lambda x: x)
        c = g.random()
        if c < 0.55 and len(w) > 1:
            i = g.randrange(len(w) - 1)
            x = w[i] + (w[i + 1] - w[i]) * g.choice((0.5, g.random(), 10.0 ** -g.randint(3, 14)))
        elif c < 0.8:
            x = f32(g.choice(w))
            if t == "d" and g.random() < 0.4:
                x = math.nextafter(x, g.choice((-1e300, 1e300)))
        elif c < 0.98:
            x = g.choice((a - g.uniform(0, 2) * (b - a + 1), b + g.uniform(0, 2) * (b - a + 1), g.wide(10)))
        else:
            x = g.choice((-1e30, 1e30))
        return f32(x)

    def point(w, t):
        p = [coord(c, t) for c in w]
        if len(w) > 1 and g.random() < 0.25:  # on the boundary between two simplices, or next to it
            s, f = g.random(), [g.randrange(max(1, len(c) - 1)) for c in w]
            p = [c[i] + (c[i + 1] - c[i]) * s if len(c) > 1 else c[0] for c, i in zip(w, f)]
        return p

    def size(w, cont):
        n = 1
        for c in w:
            n *= len(c) * (1 if cont else 2)
        return n

    def samples(n):
        sc = g.choice((1.0, 1.0, 1e-9, 1e8))
        return [g.val() * sc for _ in range(n)]

    for k in range(count):
        t = g.choice("dddf")
        s = [line("types", t)]
        live, blen, refs = {}, {}, {}
        for _ in range(g.randint(1, 3)):
            d = g.choice((1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 4, 4, 5))
            cont, copy = g.random() < 0.65 or d >= 4, g.random() < 0.5 or d == 5
            w = grids(d, t)
            h, b = g.randint(1, 3), g.randint(1, 2)
            if any(b == x for hh, x in refs.items() if hh != h):
                continue
            if h in live and refs.get(h) == b:
                s.append(line("drop", h))
                live.pop(h)
            refs.pop(h, None)
            n = size(w, cont)
            bad = h not in live and g.random() < 0.1
            s.append(line("buf", b, samples(n)))
            if bad:
                s[-1] = line("buf", b, samples(g.choice((n + 1, n - 1, 2 * n, n + len(w[-1]), 1)) or 3))
            kind = g.choice("SSM")
            s.append("mk %d %s %d %d %d %s" % (h, kind, cont, copy, b, vv(w)))
            blen[b] = n
            m = int(s[-2].split()[2])
            if m == n:
                live[h] = (w, cont, kind)
                if not copy:
                    refs[h] = b
            for _ in range(g.randint(2, 8)):
                if not live:
                    break
                hh = g.choice(sorted(live))
                ww, cc, kk = live[hh]
                c = g.random()
                if c < 0.45:
                    s.append(line("ask", hh, point(ww, t)))
                elif c < 0.65:
                    n = g.choice((1, 2, 3, 7))
                    pts = [point(ww, t) for _ in range(n)]
                    s.append("batch %d %s" % (hh, vv([[p[i] for p in pts] for i in range(len(ww))])))
                elif c < 0.72:
                    i = g.randrange(len(ww))
                    s.append(line("find", hh, i, coord(ww[i], t)))
                elif c < 0.8:
                    s.append(line(g.choice(("vert", "vertb")), hh, [g.randint(-1, len(x) - 1) for x in ww], [g.randint(0, 1) for _ in ww]))
                elif c < 0.9:
                    bb = g.choice(sorted(blen))
                    s.append(line("poke", bb, 0 if g.random() < 0.3 else -1, g.val()))
                    s[-1] = s[-1].replace("poke %d -1" % bb, "poke %d %d" % (bb, g.randrange(int([x for x in s if x.startswith("buf %d " % bb)][-1].split()[2]))))
                elif c < 0.94 and hh not in refs and len(ww) < 4:
                    nw = [list(x) for x in ww]
                    g.shuffle(nw)
                    if not any(x == 1 for x in refs.values()):
                        s.append(line("buf", 1, samples(size(nw, cc))))
                        blen[1] = 0
                        s.append("again %d 1 %s" % (hh, vv(nw)))
                        live[hh] = (nw, cc, kk)
                        s.append(line("ask", hh, point(nw, t)))
                elif c < 0.96:
                    s.append(line("drop", hh))
                    live.pop(hh)
                    refs.pop(hh, None)
                elif len(ww) < 4 and cc and refs.get(hh):
                    pts = [point(ww, t) for _ in range(g.randint(1, 4))]
                    s.append("onecall %d %s %s" % (refs[hh], vv(ww), vv([[p[i] for p in pts] for i in range(len(ww))])))
        n = g.randint(1, 5)
        s.append(line("cube", samples(2 ** n), [g.choice((0.0, 1.0, 0.5, g.random())) for _ in range(n)]))
        out.append(s)
    return out


@check("C31")
def c31(ctx):
    sc = behaviours(ctx, "MC_Engine", F_ENG, limit=2500 if ctx.quick else None)
    sc += engine_random(ctx, 1000 if ctx.quick else 6000)
    conform(ctx, "engine", "Trace_Engine", sc, SAN, "Trace_Engine.cfg")
