"""C11, C12: decision trees."""
import core, treelib as T
from core import THOROUGH, build, run_sessions
from checks import check, more, seedn
from oramlib import gather


def judge(c, profile, sessions, label, **kw):
    ev = run_sessions(build(profile), "tree", sessions)
    c.traces("TreeTrace", ev, T.norm, cmds=sessions, label=label + "-" + profile, **kw)
    return ev


def models(c):
    c.mc("TreeMC", "TreeMC.cfg")
    c.mc("TreeMC", "TreeMC_two.cfg")
    if THOROUGH:
        for v in ("index", "prune", "rightfirst"):
            c.mc("TreeMC", "TreeMC_x_%s.cfg" % v, expect="Refines")


@check("C11")
def c11(c):
    models(c)
    par = [(64, 16, 3, 3, "bushy", {}), (64, 2, 2, 4, "bushy", {}), (16, 16, 1, 3, "wide", {}), (32, 4, 4, 3, "wide", {}), (64, 256, 3, 6, "line", {}), (8, 16, 2, 3, "bushy", dict(bl=6, lv=8)),
           (128, 16, 3, 2, "bushy", dict(kbl=4, klv=13)), (64, 16, 2, 3, "bushy", dict(nbl=7, nlv=8)), (64, 2, 3, 8, "line", dict(bl=7, lv=7))]
    S = gather(lambda k, n, t, nf, md, st, kw: T.programs(T.new(n=n, t=t, **kw), more(5, 20), more(26, 40), seedn(k), nf=nf, maxdepth=md, style=st), par)
    judge(c, "dbg", S, "programs")
    S = []
    # every label shape: every single bit, all ones, the neighbours of powers of two; zero everywhere; missing children; one leaf shared
    s = [T.new(n=16, t=16), dict(c="feat", q=0, f=[3]), dict(c="feat", q=1, f=[4])]
    for lab in [0, 1, 2, 3, 7, 8, 255, 256, (1 << 31) - 1, 1 << 31, (1 << 32) + 1, (1 << 48) - 1, (1 << 49) + 1, (1 << 53) - 1, 1 << 53, (1 << 53) + 1, (1 << 62) + 3, (1 << 63) - 1, 1 << 63, (1 << 64) - 2, (1 << 64) - 1]:
        for tr in (T.I(3, 0, T.L(lab), T.L(0)), T.I(3, 0, None, T.L(lab)), T.I(3, 0, T.L(1), T.L(lab))):
            s += [dict(c="tree", tree=tr)]
            for q, f in ((0, [3]), (1, [4])):
                s += [dict(c="eval", f=f), dict(c="enc", q=q)]
    S.append(s)
    s = [T.new(n=32, t=2), dict(c="feat", q=0, f=[0, 31]), dict(c="feat", q=1, f=[31, 0])]
    for tr in (T.I(0, 0, None, None), T.I(30, 1, T.L(0), T.L(0)), T.I(31, 0, T.L(5), T.L(6)), T.I(0, 0, T.L(5), T.L(6)), T.I(30, 0, T.I(30, 1, None, T.L(9)), T.I(0, 1, T.L(4), None)),
               T.I(0, 0, T.I(0, 0, T.L(1), T.L(2)), T.I(0, 0, T.L(3), T.L(4)))):
        s += [dict(c="tree", tree=tr), dict(c="enc", q=0, times=2), dict(c="enc", q=1), dict(c="eval", f=[0, 31]), dict(c="eval", f=[31, 0]), dict(c="trunc", keep=True), dict(c="enc", q=0), dict(c="enc", q=1)]
    # nodes which cannot change the answer still take part: every pair of children from a few, below every pair of siblings
    z, o2, two = T.L(0), T.L(2), T.L(5)
    pairs = [(a, b) for a in (z, o2, None) for b in (z, o2, None)]
    k = 0
    for a, b in pairs:
        sub = T.I(7, 0, a, b)
        for tr in (T.I(15, 1, sub, T.I(7, 1, T.L(4), two)), T.I(15, 1, T.I(7, 1, T.L(4), two), sub), T.I(15, 1, T.I(20, 0, sub, T.L(9)), T.I(7, 1, sub, T.I(3, 0, T.L(1), T.L(8)))),
                   T.I(15, 1, T.I(20, 0, T.L(9), sub), T.I(7, 1, T.I(3, 0, T.L(1), T.L(8)), sub)), T.I(15, 1, sub, sub), T.I(15, 1, sub, z), T.I(15, 1, o2, sub)):
            if k % 16 == 0:
                S.append(s)
                s = [T.new(n=32, t=2)] + [dict(c="feat", q=q, f=f) for q, f in enumerate(([0, 0], [0, 31], [31, 0], [31, 31], [5, 10], [10, 20]))]
            k += 1
            s += [dict(c="tree", tree=tr)] + [dict(c="enc", q=q) for q in range(4)] + [dict(c="eval", f=[31, 0])]
    S.append(s)
    s = [T.new(n=32, t=2), dict(c="feat", q=0, f=[0, 31]), dict(c="feat", q=1, f=[31, 0])]
    # thresholds and features that do not exist, on and off the path
    for tr in (T.I(32, 0, T.L(1), T.L(2)), T.I(5, 2, T.L(1), T.L(2)), T.I(31, 0, T.L(1), T.I(40, 1, T.L(1), T.L(2))), T.I(31, 0, T.L(1), T.I(4, 2, T.L(1), T.L(2))), T.I(1 << 60, 0, T.L(1), T.L(2)), T.L(3)):
        s += [dict(c="tree", tree=tr), dict(c="enc", q=0), dict(c="eval", f=[0, 31])]
    for f in ([32], [0, 33], [31], [1 << 50], []):
        s += [dict(c="feat", q=2, f=f)]
    S.append(s)
    # all (feature, threshold) pairs of a small ring at a single node, and below another node
    n = 8
    for ft in range(n):
        s = [T.new(n=n, t=16), dict(c="feat", q=0, f=[ft, (ft * 3 + 1) % n])]
        for th in range(n):
            s += [dict(c="tree", tree=T.I(th, 0, T.L(5), T.L(10))), dict(c="enc", q=0), dict(c="tree", tree=T.I(th, 1, T.I(ft, 0, T.L(1), T.L(2)), T.I(th, 0, T.L(4), T.L(8)))), dict(c="enc", q=0)]
        S.append(s)
    # every node's choice by itself: all thresholds of all features (more features than any one tree of the tests has), in
    # trees of different shapes and orders
    for n, nf, kw in ((16, 40, {}), (8, 17, dict(bl=8, lv=6)), (32, 12, {}), (64, 6, {})) + more((), ((128, 5, {}), (16, 100, {}), (256, 2, {}))):
        for shape in ("line", "rows", "mixed"):
            fs = [[c.rng.randrange(n) for _ in range(nf)] for _ in range(more(1, 3))]
            s = [T.new(n=n, t=2, **kw)] + [dict(c="feat", q=q, f=f) for q, f in enumerate(fs)]
            every = [(th, ft) for th in range(n) for ft in range(nf)]
            if shape != "line":
                c.rng.shuffle(every)
            # (documents nest 128 deep)
            part = every[::max(1, len(every) // 90)][:100] if shape == "line" else every[:more(170, 500)] if shape == "mixed" else every[c.rng.randrange(3):: max(1, len(every) // more(170, 500))]
            s += [dict(c="tree", tree=T.shaped(c.rng, part, shape))] + [dict(c="choices", q=q) for q in range(len(fs))]
            S.append(s)
    # the same comparisons again and again in one tree, and features which differ in one place only
    for n, nf in ((16, 24), (32, 3), (8, 9)):
        few = [(c.rng.randrange(n), c.rng.randrange(nf)) for _ in range(6)]
        s = [T.new(n=n, t=2)]
        for q in range(3):
            s += [dict(c="feat", q=q, f=[min(n - 1, max(0, t + c.rng.choice((-1, 0, 1)))) for t in (([th for th, ft in few if ft == j] or [n // 2])[0] for j in range(nf))])]
            s += [dict(c="tree", tree=T.shaped(c.rng, [c.rng.choice(few) for _ in range(20)], "mixed")), dict(c="choices", q=q), dict(c="enc", q=q), dict(c="choices", q=q // 2)]
        S.append(s)
    # a complete tree: every leaf reached
    d = more(3, 5)
    full = lambda lo, hi, k: T.L(k) if hi - lo == 1 else T.I((lo + hi) // 2 - 1, 0, full(lo, (lo + hi) // 2, 2 * k), full((lo + hi) // 2, hi, 2 * k + 1))
    s = [T.new(n=32, t=16), dict(c="tree", tree=full(0, 2 ** d, 1))]
    for v in range(2 ** d + 1):
        s += [dict(c="feat", q=v, f=[v]), dict(c="enc", q=v), dict(c="eval", f=[v])]
    S.append(s)
    judge(c, "dbg", S, "shapes")
    judge(c, "rel", S[-1:] + S[:1], "shapes")
    # the whole protocol at the default parameters, sequential and parallel, more inputs than threads
    sim = [dict(c="tree", tree=T.I(2, 0, T.I(2, 1, T.L(7), T.I(3, 1, T.L(10), T.L(0))), T.L(1)))]
    fs = [[2, 3], [2, 2], [3, 0], [0, 9], [2, 4], [2047, 0], [1, 1]]
    S = [sim + [dict(c="simulate", fs=fs, parallel=True, th=4, cost=9)], sim + [dict(c="simulate", fs=fs[:3], parallel=False, cost=9)],
         [dict(c="tree", tree=T.I(1023, 0, T.L(0), T.L(0))), dict(c="simulate", fs=[[5], [1024]], parallel=True, th=2, cost=4), dict(c="simulate", fs=[], parallel=True, th=2, cost=4)],
         [dict(c="tree", tree=T.I(2047, 0, T.L(3), T.L((1 << 50) - 1))), dict(c="simulate", fs=[[5], [2047]], parallel=False, cost=4), dict(c="simulate", fs=[[2048]], parallel=False)],
         [dict(c="tree", tree=T.I(2046, 0, T.I(100, 1, T.L(1), None), T.L((1 << 50) - 1))), dict(c="simulate", fs=[[2046, 100], [2047, 0], [0, 101], [2046, 99]], parallel=True, th=8, cost=6)]]
    # many inputs with answers in no regular order
    for n, th in ((more(21, 70), 4), (more(10, 33), 3)):
        S.append([dict(c="tree", tree=T.I(1000, 0, T.L(5), T.L(1 << 20))), dict(c="simulate", fs=[[c.rng.choice((3, 1000, 1001, 2040))] for _ in range(n)], parallel=True, th=th, cost=15)])
    if THOROUGH:
        for k in range(16):
            tr = T.rand(c.rng, 1 + k % 4, 2048, 2)
            S.append([dict(c="tree", tree=tr), dict(c="simulate", fs=[[c.rng.randrange(2048), c.rng.randrange(2048)] for _ in range(4)], parallel=k % 2 == 0, th=1 + k % 5, cost=10)])
    judge(c, "rel", S, "simulate")


@check("C12")
def c12(c):
    models(c)
    S = gather(lambda k, nf, md, st: T.programs(None, more(12, 80), 30, seedn(50 + k), nf=nf, maxdepth=md, style=st, enc=False),
               [(3, 3, "bushy"), (1, 2, "wide"), (5, 4, "bushy"), (2, 6, "line"), (4, 5, "wide"), (7, 7, "line")])
    ops = lambda: [dict(c="count"), dict(c="flatten"), dict(c="json"), dict(c="clone"), dict(c="trunc"), dict(c="number"), dict(c="flatten"), dict(c="count"), dict(c="json"), dict(c="trunc", keep=True), dict(c="number"), dict(c="flatten"), dict(c="count")]
    # every shape of depth at most two over two labels (as the model explores them), each operation on each
    leaves = [T.L(0), T.L(5), T.NONE]
    d1 = leaves + [T.I(1, 1, a, b, ix=3) for a in leaves for b in leaves]
    s = []
    for k, a in enumerate(d1):
        for j, b in enumerate(d1):
            s += [dict(c="tree", tree=T.I(k, j, a, b, ix=9))] + ops()
        S.append(s)
        s = []
    for k in range(more(60, 600)):
        tr = T.rand(c.rng, 1 + k % 7, 1 << 16, 1 + k % 9, labels=(0, 0, 1, 2, 1 << 63, (1 << 64) - 1, 77))
        f = [[c.rng.randrange(1 << 16) for _ in range(10)] for _ in range(3)]
        s = [dict(c="load", tree=tr, text=T.text(tr))] + [dict(c="eval", f=x) for x in f] + ops() + [dict(c="eval", f=x) for x in f]
        S.append(s)
    # numbers of 64 bits
    for k in range(more(40, 300)):
        base = T.BASES[k % len(T.BASES)]
        near = lambda: min((1 << 64) - 1, max(0, base + c.rng.choice((0, 1, -1, 2, 3, c.rng.randrange(-4000, 4000)))))
        tr = T.shaped(c.rng, [(near() if c.rng.random() < 0.8 else c.rng.randrange(1 << 20), c.rng.randrange(4)) for _ in range(1 + k % 12)], ("mixed", "line", "rows")[k % 3], ix=lambda: near() if c.rng.random() < 0.5 else 3)
        ths = [x["th"] for x in T.nodes(tr)]
        f = [[c.rng.choice((near(), min((1 << 64) - 1, c.rng.choice(ths) + 1), c.rng.choice(ths), c.rng.randrange(100))) for _ in range(4)] for _ in range(5)]
        s = [dict(c="load", tree=tr, text=T.text(tr))] + [dict(c="eval", f=x) for x in f] + ops() + [dict(c="eval", f=x) for x in f]
        # features which are not looked at
        far = T.I(near(), 1, T.L(3), T.I(near(), near(), T.L(1), tr, ix=near()), ix=near())
        S.append(s + [dict(c="load", tree=far, text=T.text(far)), dict(c="eval", f=[0, 0])] + ops() + [dict(c="eval", f=[0, 0])])
    for d in range(1, 9):
        S.append([dict(c="default", depth=d)] + ops())
    S.append([dict(c="default")] + ops() + [dict(c="tree", tree=T.L(0))] + ops() + [dict(c="tree", tree=T.L(9))] + ops())
    # greater-than nodes are structure as well
    S.append([dict(c="load", tree=T.I(5, 1, T.I(3, 2, T.L(4), T.L(2), op="gt"), T.L(3)), text=T.text(T.I(5, 1, T.I(3, 2, T.L(4), T.L(2), op="gt"), T.L(3))))] + ops())
    judge(c, "dbg", S, "structure")
