"""C30: threads that share objects they only read."""
from .core import *
from .checks import check

TSAN = ["-fsanitize=thread", "-ftrivial-auto-var-init=pattern", "-pthread"]
KINDS = ["i1", "i1c", "t1", "i2", "t2", "g1", "g2", "g3", "n1", "n2", "p1", "p2", "p3", "c1", "c2", "c3", "sp", "tr", "mx", "vx", "fn"]
NCALLS = {"i1": 4, "i1c": 2, "t1": 4, "i2": 3, "t2": 4, "g1": 3, "g2": 3, "g3": 3, "n1": 3, "n2": 3, "p1": 3, "p2": 3, "p3": 5, "c1": 3, "c2": 3, "c3": 3, "sp": 1, "tr": 1, "mx": 7, "vx": 5, "fn": 24}


def axis(g, n):
    return [0.0] + sorted(g.uniform(0.2, 9.8) for _ in range(n - 2)) + [10.0]


def obj(g, h, kind):
    m = g.randint(0, 2)
    nx, ny = g.randint(4, 9), g.randint(3, 6)
    if kind in ("g3", "n2", "g2"):
        nx = g.randint(3, 5)
    x, y = axis(g, nx), axis(g, ny)
    nv = nx * ny if kind in ("i2", "t2") else nx if kind in ("i1", "i1c", "t1", "sp") else 9
    if kind in ("i2", "t2"):
        m = 0
    if kind == "tr":
        m = g.randint(1, 8)
    return line("obj", h, kind, m, x, y, [g.val() for _ in range(nv)])


def point(g, pool=None):
    """calls of one script share some of their arguments"""
    if pool and g.random() < 0.7:
        return [g.choice(pool) for _ in range(3)]
    return [g.choice((0.0, 10.0, 5.0, g.uniform(0, 10), g.uniform(0, 10))) for _ in range(3)]


def script(g, kinds, programs, ncalls, rounds):
    """objects of the given kinds, ncalls calls on them, the programs (lists of calls per thread), alone before and after"""
    s = [obj(g, i + 1, k) for i, k in enumerate(kinds)]
    pool = [g.uniform(0, 10) for _ in range(2)] + [float(g.randint(0, 10))]
    for c in range(ncalls):
        i = g.randrange(len(kinds))
        s.append(line("def", i + 1, g.randrange(NCALLS[kinds[i]]), *point(g, pool)))
    alone = ["alone %d" % (c + 1) for c in range(ncalls)]
    g.shuffle(alone)
    s += alone
    s += g.sample(alone, len(alone)) + g.choices(alone, k=len(alone))
    s.append(line("par", rounds, len(programs)) + " " + " ".join(line(p) for p in programs))
    return s + alone[::-1]


def conc_scripts(ctx, per_kind, progs):
    g = ctx.gen("conc")
    out = []
    for kind in KINDS:
        for j in range(per_kind * (3 if kind == "fn" else 1)):
            kinds = [kind] if j % 3 else [kind, kind] if j % 2 else [kind, g.choice(KINDS)]
            if j % 2:          # the programs of a behaviour of the specification
                out.append(script(g, kinds, g.choice(progs), 3, g.randint(2, 4)))
            else:              # more threads, more calls
                n, t = g.randint(2, 10), g.randint(2, 6)
                out.append(script(g, kinds, [[g.randint(1, n) for _ in range(g.randint(1, 6))] for _ in range(t)], n, g.randint(1, 3)))
    # every function and method against itself
    for kind in KINDS:
        for k in range(NCALLS[kind]):
            s = [obj(g, 1, kind), line("def", 1, k, *point(g)), line("def", 1, k, *point(g)), "alone 1", "alone 2"]
            out.append(s + ["par 3 3 2 1 2 2 2 1 1 1", "alone 2", "alone 1"])
    return out


@check("C30")
def c30(ctx):
    progs = []
    for cfg in ["MC_Conc.cfg"] + ([] if ctx.quick else ["MC_ConcDeep.cfg"]):
        ex = ctx.path(cfg + ".json")
        model_check(ctx, "MC_Conc", cfg, export=ex)
        seen = set()
        for h in exported(ex):
            by = {}
            for o in h:
                by.setdefault(o["t"], []).append(o["c"])
            seen.add(tuple(tuple(by[t]) for t in sorted(by)))
        os.unlink(ex)
        progs += [[list(p) for p in s] for s in sorted(seen)]
    ctx.notes.append("%d distinct sets of thread programs from the model's interleavings" % len(progs))
    conform(ctx, "conc", "Trace_Conc", conc_scripts(ctx, 40 if ctx.quick else 600, progs), TSAN, "Trace_Conc.cfg")
