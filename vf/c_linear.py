import math
from .core import *
from .checks import check

F_LIN = {"mset": [("i", "h"), ("i", "r"), ("i", "c"), ("qs", "A")], "mtr": [("i", "h"), ("s", "how"), ("i", "g")], "minv": [("i", "h"), ("s", "how"), ("i", "g")],
         "msym": [("i", "h"), ("b", "up"), ("i", "g")], "mid": [("i", "h")], "mnull": [("i", "h")], "mput": [("i", "h"), ("i", "i"), ("i", "j"), ("q", "x")]}
KINDS = (("mn", 0, "double"), ("mn", 0, "float"), ("33", 3, "double"), ("66", 6, "double"))


def flags(fam, kind, scalar):
    return [*SAN, "-DFAM=%d" % fam, "-DKIND=%d" % kind, "-DSCALAR=" + scalar]


def conform_all(ctx, fam, make):
    """Build the drivers of the family at the same time, then replay each one's scripts."""
    with ThreadPoolExecutor(CORES) as ex:
        list(ex.map(lambda k: build_driver("linear", flags(fam, k[1], k[2]), "%d-%s%s" % (fam, k[0], k[2][0])), KINDS))
    for name, kind, scalar in KINDS:
        v = "%d-%s%s" % (fam, name, scalar[0])
        conform(ctx, "linear", "Trace_Linear", make(name, kind, scalar), flags(fam, kind, scalar), "Trace_Linear.cfg", label=v, variant=v)


def f32(x):
    import struct
    return struct.unpack("f", struct.pack("f", x))[0]


def mm(A, B):
    return [[sum(a * b for a, b in zip(r, c)) for c in zip(*B)] for r in A]


def tr(A):
    return [list(r) for r in zip(*A)]


def ortho(g, n):
    """A product of plane rotations and a permutation with signs."""
    p = list(range(n))
    g.shuffle(p)
    Q = [[(g.choice((-1.0, 1.0)) if p[i] == j else 0.0) for j in range(n)] for i in range(n)]
    for _ in range(g.randint(0, 4)):
        if n < 2:
            break
        i, j = g.sample(range(n), 2)
        a = g.uniform(-3, 3)
        c, s = math.cos(a), math.sin(a)
        for k in range(n):
            Q[i][k], Q[j][k] = c * Q[i][k] - s * Q[j][k], s * Q[i][k] + c * Q[j][k]
    return Q


def sym(A):
    n = len(A)
    return [[A[min(i, j)][max(i, j)] for j in range(n)] for i in range(n)]


def matrix(g, r, c, kind=None):
    kind = kind or g.choice(("dense", "dense", "int", "deficient", "sym", "spd", "spd", "psd", "ortho", "diag", "tri", "perm", "near", "graded", "zero", "neg"))
    v = lambda: g.uniform(-5, 5)
    if kind == "int":
        A = [[float(g.randint(-4, 4)) for _ in range(c)] for _ in range(r)]
    elif kind == "deficient":
        k = g.randint(1, max(1, min(r, c) - 1))
        A = mm([[float(g.randint(-3, 3)) for _ in range(k)] for _ in range(r)], [[float(g.randint(-3, 3)) for _ in range(c)] for _ in range(k)])
    elif kind in ("sym", "spd", "psd", "neg", "ortho", "diag", "perm") and r == c:
        if kind == "sym":
            A = sym([[v() for _ in range(r)] for _ in range(r)])
        elif kind in ("spd", "psd", "neg"):
            k = r if kind == "spd" else g.randint(1, r)
            B = [[float(g.randint(-8, 8)) / 4 for _ in range(k)] for _ in range(r)]
            A = mm(B, tr(B))
            if kind == "spd":
                d = g.choice((0.25, 1.0, 4.0))
                A = [[A[i][j] + (d if i == j else 0) for j in range(r)] for i in range(r)]
            if kind == "neg":
                A = [[-x for x in w] for w in A]
        elif kind == "ortho":
            A = ortho(g, r)
        elif kind == "diag":
            A = [[(g.choice((v(), 0.0, 1.0)) if i == j else 0.0) for j in range(r)] for i in range(r)]
        else:
            p = list(range(r))
            g.shuffle(p)
            A = [[(v() if p[i] == j else 0.0) for j in range(r)] for i in range(r)]
    elif kind == "lop":                          # positive real parts, far from symmetric
        d = [g.choice((g.uniform(0.5, 3), g.uniform(0.5, 3), g.uniform(-2, 3))) for _ in range(r)]
        b, lo = g.choice((1.0, 3.0)), g.random() < 0.5
        A = [[(d[i] if i == j else b * g.uniform(0.3, 1) * (1 if (i > j) == lo else g.choice((0, -1)))) for j in range(c)] for i in range(r)]
    elif kind == "tri":
        up = g.random() < 0.5
        A = [[(v() if (j >= i) == up or i == j else 0.0) for j in range(c)] for i in range(r)]
    elif kind == "near" and r > 1:
        A = [[v() for _ in range(c)] for _ in range(r)]
        e = 10.0 ** -g.randint(2, 6)
        A[-1] = [x + e * g.uniform(-1, 1) for x in A[0]]
    elif kind == "graded":
        A = [[v() * 2.0 ** (-2 * (i + j)) for j in range(c)] for i in range(r)]
    elif kind == "zero":
        A = [[0.0] * c for _ in range(r)]
    else:
        A = [[v() for _ in range(c)] for _ in range(r)]
    if g.random() < 0.2:
        s = 2.0 ** g.randint(-20, 20)
        A = [[x * s for x in w] for w in A]
    return A


def size(g, kind, quick=True):
    if kind:
        return kind, kind
    m = g.choice((1, 2, 2, 3, 3, 4, 5, 6))
    return m, m if g.random() < 0.6 else g.choice((1, 2, 3, 4, 5))


def mset(h, A):
    return line("mset", h, len(A), len(A[0])) + " " + " ".join(tok(x) for w in A for x in w)


def rc(A):
    return line(len(A), len(A[0])) + " " + " ".join(tok(x) for w in A for x in w)


def put(g, r, c, h=1):
    return line("mput", h, g.randint(1, r), g.randint(1, c), g.val())


def dec_scripts(ctx, name, kind, scalar, count):
    g = ctx.gen("dec%s%s" % (name, scalar))
    out = []
    for k in range(count):
        r, c = size(g, kind)
        if not kind and k % 16 == 5:
            r, c = g.choice(((9, 9), (17, 17), (20, 7), (7, 20), (3, 33), (33, 3), (12, 12)))
        A = matrix(g, r, c)
        s = [mset(1, A)]
        for _ in range(g.randint(2, 5)):
            o = g.choice(("mqr", "mlu", "mchol", "mchol", "msvd", "mcup", "mput", "mtr", "msym"))
            if o == "mqr":
                if r < c and (kind or k % 7):
                    continue
                s.append(line("mqr", 1, g.randint(0, 1)))
                if r < c:
                    break
            elif o == "mlu":
                if r != c and k % 7:
                    continue
                s.append("mlu 1")
                if r != c:
                    break
            elif o == "mcup":
                if kind or r != c:
                    continue
                B = matrix(g, r, r, "spd")
                s.append(mset(2, B))
                big = max(abs(x) for w in B for x in w)
                v = [[g.uniform(-1, 1) * math.sqrt(big)] for _ in range(r)]
                how = g.choice(("get", "in"))
                s.append("mcup 2 %s %s %s" % (how, tok(g.choice((1.0, 0.5, 2.0, -0.01, -0.001, g.uniform(0, 3)))), rc(v)))
                if how == "get":
                    s.append("mchol 2")
            elif o == "mput":
                s.append(put(g, r, c))
            elif o == "mtr":
                if r == c:
                    s.append("mtr 1 in 2")
            elif o == "msym":
                if r == c:
                    s.append(line("msym", 1, g.randint(0, 1), 1))
            else:
                s.append(o + " 1")
        if r == c and g.random() < 0.3:          # almost symmetric
            B = matrix(g, r, r, "spd")
            if r > 1:
                B[0][1] += max(1.0, abs(B[0][1])) * 10.0 ** -g.randint(1, 15)
            s += [mset(1, B), "mchol 1"]
        out.append(s)
    return out


@check("C18")
def c18(ctx):
    ex = behaviours(ctx, "MC_Linear", F_LIN, "MC_Linear.cfg", keep=lambda h: all(o["op"] != "minv" for o in h), limit=150 if ctx.quick else 4000)

    def make(name, kind, scalar):
        sc = dec_scripts(ctx, name, kind, scalar, (300 if scalar == "double" else 120) if ctx.quick else 2500)
        if not kind:
            sc += [s + ["mqr 1 0", "mlu 1", "msvd 1", "mchol 1"] for s in ex]
        return sc
    conform_all(ctx, 18, make)


def rhs(g, r, c):
    return [[g.val() for _ in range(c)] for _ in range(r)]


def solve_scripts(ctx, name, kind, scalar, count):
    g = ctx.gen("solve%s%s" % (name, scalar))
    out = []
    for k in range(count):
        r, c = size(g, kind)
        if not kind and k % 16 == 5:
            r, c = g.choice(((9, 9), (17, 17), (20, 7), (7, 20), (3, 33), (33, 3), (12, 12)))
        A = matrix(g, r, c)
        if scalar == "float":
            A = [[f32(x) for x in w] for w in A]
        s = [mset(1, A)]
        for _ in range(g.randint(2, 4)):
            o = g.choice(("minv", "mpinv", "msolve", "msolve", "mls", "mls", "mlsc", "meig", "mput", "mtr"))
            if o == "minv":
                if r != c:
                    continue
                s.append(line("minv", 1, g.choice(("in", "get")), 2))
                if g.random() < 0.4:
                    s.append(line("minv", 2 if s[-1].split()[2] == "get" else 1, "get", 3))
            elif o == "mpinv":
                s.append(line("mpinv", 1, g.choice(("method", "free")), 2, g.choice((0.0, 0.0, 1e-6, 1e-2, 0.5, 2.0))))
            elif o == "msolve":
                nb = g.randint(1, 3)
                B = rhs(g, r, nb)
                if g.random() < 0.5:              # consistent whatever the rank
                    X = [[float(g.randint(-5, 5)) for _ in range(nb)] for _ in range(c)]
                    B = mm(A, X)
                kd = g.choice(("lu", "qr"))
                if kd == "lu" and r != c:
                    kd = "qr"
                if kd == "qr" and r != c and name != "mn":
                    continue
                s.append("msolve 1 %s %s" % (kd, rc(B)))
            elif o == "mls":
                s.append("mls 1 " + rc(rhs(g, r, g.randint(1, 2))))
            elif o == "mlsc":
                if kind:
                    continue
                n = g.randint(2, 4)
                p, m = g.randint(1, n - 1), n + g.randint(1, 3)
                if k % 25 == 0:
                    p, m = g.choice(((n, n + 1), (1, n), (1, n - 1)))
                s += [mset(3, matrix(g, m, n, g.choice(("dense", "int")))), "mlsc 3 %s %s %s" % (rc(rhs(g, m, 1)), rc(matrix(g, p, n, "dense")), rc(rhs(g, p, 1)))]
                if k % 25 == 0:
                    break
            elif o == "meig":
                if r == c and scalar == "double":
                    s.append("meig 1")
            elif o == "mtr":
                if r == c:
                    s.append("mtr 1 in 2")
                    A = tr(A)
            else:
                i, j, x = g.randint(1, r), g.randint(1, c), g.val()
                A[i - 1][j - 1] = x
                s.append(line("mput", 1, i, j, x))
        out.append(s)
    return out


@check("C19")
def c19(ctx):
    ex = behaviours(ctx, "MC_Linear", F_LIN, "MC_Linear.cfg", keep=lambda h: any(o["op"] == "minv" for o in h), limit=250 if ctx.quick else 6000)

    def make(name, kind, scalar):
        sc = solve_scripts(ctx, name, kind, scalar, (300 if scalar == "double" else 120) if ctx.quick else 2500)
        if not kind:
            sc += [s + ["mpinv 1 method 2 0"] for s in ex]
        return sc
    conform_all(ctx, 19, make)


def pred_scripts(ctx, name, kind, scalar, count):
    g = ctx.gen("pred%s%s" % (name, scalar))
    out = []
    names = ("symmetric", "square", "identity", "orthogonal", "psd")
    for k in range(count):
        r, c = size(g, kind)
        if not kind and k % 20 == 7:
            r, c = g.choice(((9, 9), (17, 17), (20, 7), (3, 33)))
        A = matrix(g, r, c, g.choice((None, "sym", "spd", "psd", "neg", "ortho", "perm", "lop", "lop")))
        if g.random() < 0.2 and r == c:
            A = [[1.0 if i == j else 0.0 for j in range(r)] for i in range(r)]
        if g.random() < 0.4:                     # disturb one entry by a power of ten
            i, j = g.randrange(r), g.randrange(c)
            A[i][j] += g.choice((-1, 1)) * 10.0 ** -g.randint(0, 16) * (abs(A[i][j]) + g.choice((0, 1)))
        if scalar == "float":
            A = [[f32(x) for x in w] for w in A]
        s = [mset(1, A)]
        for _ in range(g.randint(3, 8)):
            o = g.choice(("mpred",) * 5 + ("mpart",) * 3 + ("mtr", "msym", "mput", "meq", "meq", "mexpr", "mexpr", "mid", "mnull", "mrand"))
            if o == "mpred":
                n = g.choice(names)
                if n == "psd" and r != c:
                    continue
                s.append(line("mpred", 1, n, g.choice((0.0, 0.0, 1e-3, 1e-9)) if n in ("psd", "identity") else 0.0))
            elif o == "mpart":
                w = g.choice(("col", "row", "diag", "all", "dims"))
                s.append(line("mpart", 1, w, g.randint(1, c if w == "col" else r)))
            elif o == "mtr":
                how = g.choice(("in", "free"))
                if kind == 0 or r == c:
                    s.append(line("mtr", 1, how, 2))
                    if how == "in":
                        r, c = c, r
                    elif r == c:
                        s.append(line("meq", 1, 2, 0.0))
            elif o == "msym":
                if r == c:
                    s.append(line("msym", 1, g.randint(0, 1), g.choice((1, 2))))
            elif o == "mput":
                s.append(put(g, r, c))
            elif o == "meq":
                B = matrix(g, r, c, "dense")
                e = 10.0 ** -g.randint(1, 14)
                C = [[x * (1 + e * g.uniform(-1, 1)) for x in w] for w in B]
                s += [mset(2, B), mset(3, C), line("meq", 2, 3, g.choice((0.0, 1e-12, 1e-6, 1e-3, 0.1)))]
            elif o == "mexpr":
                form = g.choice(("scale", "sum", "tr", "prod", "prod") if r == c else ("scale", "tr") if not kind else ("scale",))
                if form == "prod":
                    s.append(mset(1, matrix(g, r, c, "dense")))
                s.append(line("mexpr", 1, g.choice(("ctor", "assign")), form, g.choice((1, 2)) if form == "prod" else g.choice((2, 3)), g.choice((1.0, -1.0, 2.0, 0.5, g.uniform(-3, 3)))))
            else:
                s.append(o + " 1")
        out.append(s)
    return out


@check("C27")
def c27(ctx):
    ex = behaviours(ctx, "MC_Linear", F_LIN, "MC_Linear.cfg", limit=600 if ctx.quick else 20000)
    preds = ["mpred 1 %s 0" % n for n in ("symmetric", "square", "identity", "orthogonal", "psd")]

    def make(name, kind, scalar):
        sc = pred_scripts(ctx, name, kind, scalar, (500 if scalar == "double" else 200) if ctx.quick else 4000)
        if not kind and scalar == "double":
            sc += [s + preds for s in ex]
        return sc
    conform_all(ctx, 27, make)
