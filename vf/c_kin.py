import math
from .core import *
from .checks import check

VEL = ("MS", "KNOT", "KMH")
FREQ = ("HERTZ", "RADS", "DEGS", "DEGM", "S", "RPM")
NAMED = "KNOT2MS MS2KNOT KMH2MS MS2KMH KMH2KNOT KNOT2KMH DEGS2RADS RADS2DEGS HZ2RADS RADS2HZ HZ2S S2HZ RADS2S S2RADS RPM2RADS RADS2RPM DEGM2RADS RADS2DEGM".split()
CONSTS = "MU_ONE_MINUTE MU_ONE_HOUR MU_ONE_DAY MU_ONE_MILE MU_ONE_KM MU_KNOT MU_KMH MU_PI MU_PI_180 DEG2RAD MU_180_PI RAD2DEG MU_2PI MU_PI_2 MU_2_PI MU_4PI MU_PI_4 MU_1_4PI MU_RPM2RADS MU_SQRT2 MU_SQRT2_2".split()
F_UNITS = {"uset": [("i", "h"), ("s", "dim"), ("s", "u"), ("q", "x")], "uconv": [("i", "h"), ("s", "to")]}


def units_random(ctx, count):
    g = ctx.gen("units")
    nz = lambda: g.choice((1.0, -1.0, g.uniform(0.01, 100), -g.uniform(0.01, 100), g.wide(20), float(g.randint(1, 40))))
    out = [[line("const", c) for c in CONSTS]]
    for t in "df":
        for f in NAMED:
            out.append([line("types", t)] + [line("named", f, nz()) for _ in range(4)])
        for a in VEL:
            out.append([line("types", t)] + [line("cvel", x, a, b) for b in VEL + ("default",) for x in (nz(), nz(), 0.0)])
        for a in FREQ:
            out.append([line("types", t)] + [line("cfreq", x, a, b) for b in FREQ for x in (nz(), nz(), nz())])
            out.append([line("types", t)] + [line("cfreq", 0.0, a, b) for b in FREQ if "S" not in (a, b)])
        for f in ("deg2rad", "rad2deg", "kt2ms"):
            for c in (0, 1):
                out.append([line("types", t)] + [line("uvec", f, c, [g.val(-400, 400) for _ in range(n)]) for n in (0, 1, 2, 3, 8)])
    for k in range(count):
        s = [line("types", g.choice("ddf"))]
        live = {}
        for _ in range(g.randint(5, 25)):
            c = g.random()
            if not live or c < 0.15:
                h, d = g.randint(1, 3), g.choice(("vel", "freq", "freq"))
                s.append(line("uset", h, d, g.choice(VEL if d == "vel" else FREQ), nz()))
                live[h] = d
            elif c < 0.9:
                h = g.choice(sorted(live))
                s.append(line("uconv", h, g.choice(VEL if live[h] == "vel" else FREQ)))
            else:
                s.append(line("uvec", g.choice(("deg2rad", "rad2deg", "kt2ms")), g.randint(0, 1), [g.val() for _ in range(g.randint(0, 6))]))
        out.append(s)
    return out


@check("C14")
def c14(ctx):
    sc = behaviours(ctx, "MC_Units", F_UNITS, limit=1500 if ctx.quick else None)
    sc += units_random(ctx, 600 if ctx.quick else 6000)
    conform(ctx, "kin", "Trace_Units", sc, SAN, "Trace_Units.cfg")


F_ANG = {"aset": [("i", "h"), ("q", "x")], "anorm": [("i", "h"), ("s", "kind")]}
KINDS = ("mod2pi", "mod360", "0_360", "180", "0_2PI", "PI")


def angle(g, deg):
    p = 360.0 if deg else 2 * math.pi
    c = g.random()
    k = g.randint(-6, 6)
    if c < 0.3:
        x = k * p / g.choice((1, 2, 4, 8, 3))
        for _ in range(g.choice((0, 0, 1, 1, 2))):
            x = math.nextafter(x, g.choice((-1e9, 1e9)))
        return x
    if c < 0.4:
        return g.choice((-1, 1)) * 2.0 ** -g.randint(10, 1060)
    if c < 0.55:
        return g.uniform(-p, p)
    if c < 0.65:
        return float(g.randint(-2000, 2000))
    if c < 0.75:
        return k * p + g.choice((-1, 1)) * 2.0 ** -g.randint(5, 52)
    if c < 0.83:
        return g.uniform(-1e6, 1e6)
    if c < 0.87:                        # more turns than fit in 16, 32 or 53 bits
        return g.choice((-1, 1)) * g.uniform(1, 2) * 2.0 ** g.choice((17, 24, 31, 32, 35, 40, 50, 60, 100))
    if c < 0.89:
        return g.choice((-1, 1)) * p * g.choice((32767, 32768, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 + 1, 255, 256)) + g.choice((0.0, 0.5, 1.0))
    return g.uniform(-10 * p, 10 * p)


def angles_random(ctx, count):
    g = ctx.gen("angles")
    out = []
    for k in range(count):
        t = g.choice("ddf")
        s = [line("types", t)]
        for _ in range(g.randint(2, 6)):
            kinds = KINDS
            if g.random() < 0.15:
                s.append(line("iset", 1, g.choice((0, 180, -180, 360, -360, 720, 540, -540, g.randint(-2000, 2000), g.randint(-2 * 10 ** 9, 2 * 10 ** 9), 32768, -65537))))
                kinds = ("mod360", "0_360", "180")
            else:
                s.append(line("aset", 1, angle(g, g.random() < 0.5)))
            for _ in range(g.randint(1, 3)):
                s.append(line("anorm", 1, g.choice(kinds)))
        for _ in range(2):
            u = g.choice(("DEG", "RAD", "default"))
            s.append(line("trigo", angle(g, u == "DEG"), u))
        out.append(s)
    for t in ("DEG", "RAD", "deg", "rad", "DEGREE", "-empty-", "RADIAN", "DE", "Deg", "D", "GRAD", "RADS"):
        out.append([line("aparse", t)])
    return out


@check("C15")
def c15(ctx):
    sc = behaviours(ctx, "MC_Angles", F_ANG, limit=1500 if ctx.quick else None)
    sc = [sum(sc[i:i + 5], []) for i in range(0, len(sc), 5)]
    sc += angles_random(ctx, 1200 if ctx.quick else 10000)
    conform(ctx, "kin", "Trace_Angles", sc, SAN, "Trace_Angles.cfg")


F_ATT = {"tset": [("i", "h"), ("s", "rep"), ("qs", "q")], "tconv": [("i", "h"), ("s", "to")]}


def rot_of(e):
    r, p, y = e
    cr, sr, cp, sp, cy, sy = math.cos(r), math.sin(r), math.cos(p), math.sin(p), math.cos(y), math.sin(y)
    return [cy * cp, cy * sp * sr - sy * cr, cy * sp * cr + sy * sr, sy * cp, sy * sp * sr + cy * cr, sy * sp * cr - cy * sr, -sp, cp * sr, cp * cr]


def attitude_random(ctx, count):
    g = ctx.gen("att")
    out = []
    sp = [k * math.pi / 4 for k in range(-4, 5)] + [math.pi / 3, -math.pi / 6, 1e-9, -1e-5]
    ax = lambda: g.choice(sp) if g.random() < 0.35 else g.uniform(-math.pi, math.pi)
    for k in range(count):
        s = []
        c = g.random()
        rep = g.choice(("euler", "quat", "matrix"))
        if c < 0.55:
            p = g.choice((g.uniform(-1.5, 1.5), g.choice(sp[2:-4]), g.choice((-1, 1)) * (math.pi / 2 - 10.0 ** -g.uniform(1, 9))))
        elif c < 0.65:
            p = g.choice((-1, 1)) * math.pi / 2
        else:
            p = g.uniform(-math.pi, math.pi)
        e = [ax(), p, ax()]
        if rep == "euler":
            if g.random() < 0.2:
                e = [e[0] + 2 * math.pi * g.randint(-2, 2), e[1], e[2] - 2 * math.pi]
            v = e
        elif rep == "quat":
            q = [g.gauss(0, 1) for _ in range(4)]
            if g.random() < 0.3:
                q = [1.0 if i == k % 4 else 0.0 for i in range(4)]
            elif g.random() < 0.3:            # half turns: w = 0
                q[0] = 0.0
            n = math.sqrt(sum(x * x for x in q))
            v = [x / n for x in q]
        else:
            v = rot_of(e)
        s.append("tset 1 %s %s" % (rep, line(*v)))
        cur = rep
        for _ in range(g.randint(1, 7)):
            to = g.choice([r for r in ("euler", "quat", "matrix") if r != cur])
            s.append(line("tconv", 1, to))
            cur = to
        out.append(s)
    return out


@check("C16")
def c16(ctx):
    sc = behaviours(ctx, "MC_Attitude", F_ATT, limit=600 if ctx.quick else None)
    sc += attitude_random(ctx, 1500 if ctx.quick else 12000)
    conform(ctx, "kin", "Trace_Attitude", sc, SAN, "Trace_Attitude.cfg")


F_PLANAR = {"vset": [("i", "h"), ("q", "x"), ("q", "y")], "vproj": [("i", "h"), ("s", "kind"), ("s", "how"), ("i", "g"), ("q", "a"), ("s", "u")],
            "vtrans": [("i", "h"), ("s", "how"), ("i", "g"), ("i", "p"), ("q", "px"), ("q", "py"), ("q", "w"), ("s", "fu")]}


def planar_random(ctx, count):
    g = ctx.gen("planar")
    out = []
    for k in range(count):
        s = [line("types", g.choice("ddf"))]
        sc = g.choice((1.0, 1.0, 1e-3, 1e5))
        val = lambda: g.val() * sc

        def an(units=("DEG", "RAD", "default")):
            u = g.choice(units)
            return (g.choice((0.0, 90.0, -90.0, 180.0, 45.0, g.uniform(-720, 720))) if u == "DEG" else g.uniform(-7, 7)), u
        for h in (1, 2, 3):
            if g.random() < 0.8:
                s.append(line("vset", h, val(), val()))
        for _ in range(g.randint(4, 14)):
            c, h = g.random(), g.randint(1, 3)
            o = 1 + (h + g.randint(0, 1)) % 3 if g.random() < 0.8 else h
            if c < 0.35:
                s.append(line("vproj", h, g.choice(("L2N", "N2L")), g.choice(("in", "out", "free")), o, *an()))
            elif c < 0.55:
                s.append(line("vaxis", h, g.choice(("North", "East", "LocalX", "LocalY")), g.choice(("method", "free")), *an()))
            elif c < 0.63:
                s.append(line("vlocal", h, val(), val(), *an(("DEG", "RAD"))))
            elif c < 0.72:
                a = an(("DEG", "RAD"))
                s.append(line("vned", val(), val(), *a, *(("default", "default") if g.random() < 0.3 else (g.choice(VEL), g.choice(VEL)))))
            elif c < 0.84:
                q = g.choice((0, 0, 1, 2, 3))
                w, f = (g.uniform(0.01, 30), g.choice(FREQ + ("default",))) if q == 0 else (g.uniform(0.1, 3), g.choice(("RADS", "default", "DEGS")))
                s.append(line("vtrans", h, g.choice(("in", "out", "free")), o, q, val(), val(), g.choice((-1, 1)) * w, f))
            elif c < 0.9:
                s.append(line("vinf", h))
            elif c < 0.93:
                s.append(line("vnull", h))
            elif c < 0.95:
                s.append(line("vset", h, val(), val()) if g.random() < 0.4 else line("vexpr", h, g.randint(1, 3), g.choice(("ctor", "assign")), g.choice(("scale", "sum", "turn")), g.choice((1.0, -1.0, 2.0, 0.5, g.uniform(-3, 3)))))
            else:
                x, y = g.uniform(1, 9), g.uniform(-9, 9)
                d = 10.0 ** -g.randint(1, 14)
                if g.random() < 0.6:                # just on either side of a threshold
                    e = g.choice((0.0, 0.0, 1e-12, 1e-6, 1e-3, 0.1))
                    f = math.hypot(x, y) * (e or 1e-12) * g.choice((0.3, 0.9, 1.1, 2.0, 5.0))
                    s += [line("vset", 1, x, y), line("vset", 2, x, y + f), line("veq", *g.choice(((1, 2), (2, 1))), e)]
                    continue
                s.append(line("vset", 1, x, y))
                s.append(line("vset", 2, x + d * g.choice((0, 1, -1)), y + d * g.choice((0, 1))))
                s.append(line("veq", 1, 2, g.choice((0.0, 1e-12, 1e-6, 1e-3, 0.1))))
        out.append(s)
    return out


@check("C17")
def c17(ctx):
    sc = behaviours(ctx, "MC_Planar", F_PLANAR, limit=1000 if ctx.quick else 30000)
    sc += planar_random(ctx, 750 if ctx.quick else 6000)
    conform(ctx, "kin", "Trace_Planar", sc, SAN, "Trace_Planar.cfg")
