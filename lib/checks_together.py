"""C24: independent instances in one process, in turns and at once.

The lanes of a group (databases with their clients, trees, ring programs, contexts; each with parameters of its own) are
driven in the orders TLC draws from TogetherEnv, or each by a thread; every lane has to be a behaviour of its own
specification, which knows nothing of the others."""
import os, shutil
import core, oramlib as O, homlib as H, treelib as T, codeclib as K
from core import build, run_lanes, run_sessions
from checks import check, more, oram_judge, seedn

PARS = [dict(n=8, t=2, bl=5, lv=9), dict(n=16, t=2, bl=8, lv=5), dict(n=8, t=2, bl=8, lv=6), dict(n=64, t=2, bl=5, lv=9), dict(n=32, t=2, bl=6, lv=7), dict(n=16, t=16, bl=5, lv=9),
        dict(n=128, t=16, bl=7, lv=6), dict(n=16, t=2, bl=5, lv=9), dict(n=256, t=256, bl=5, lv=9), dict(n=8, t=2, bl=10, lv=4)]
SHAPES = [("one", 1, 8, 1), ("multi", 1, 8, 1), ("batch", 3, 8, 3), ("one", 1, 4, 1), ("batch", 2, 4, 1), ("multi", 1, 4, 1)]
ORAM, TREE, HOM, SEED = "oram", "tree", "hom", "codec"


def orders(lanes, num, depth, seed):
    d = core.scratch()
    try:
        p = os.path.join(d, "g.cfg")
        open(p, "w").write("SPECIFICATION Spec\nCONSTANTS Lanes = %d Depth = %d\nCONSTRAINT Printed\nCHECK_DEADLOCK FALSE\n" % (lanes, depth))
        return core.tlc_gen("TogetherEnv", p, num, depth + 1, seed)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def oram(k, par, shape, depth, th=(4, 2, 0)):
    """Two databases after one another."""
    mode, rows, cols, h = shape
    items = rows * cols // h
    out = []
    for j, p in enumerate((par, PARS[(k * 3 + 1) % len(PARS)])):
        b = O.behaviours(mode, items, 1, depth, seedn(900 + 2 * k + j), multi=4, batch=min(3, items))[0]
        snap = p["t"] == 2 and p["n"] <= 64
        out += O.session(O.new(rows=rows, cols=cols, h=h, snap=snap, **p), b, th=list(th))
        if not snap:
            out += O.audit(range(items), 5000, kind="batch" if mode == "batch" else "one", mode=mode)
    return [out]


def hom(k, prof, n, t, kw, num, depth):
    P = H.programs(prof, H.new(n=n, t=t, **kw), num, depth, seedn(930 + k))
    return [[c for p in P for c in p]]


def tree(k, n, t, kw, num, depth):
    P = T.programs(T.new(n=n, t=t, **kw), num, depth, seedn(960 + k), nf=2, maxdepth=3, style=("bushy", "line", "wide")[k % 3])
    return [[c for p in P for c in p]]


FS = ("enc", "raw", "gsw", "rlwesk", "pt", "ternary", "lwe", "ksk", "tern", "neg")


def seeds(rng, k):
    out, base = [], 1000 * k
    for j in range(4):
        par = dict(n=(64, 128, 64, 32)[j], t=(16, 16, 256, 2)[j], std=-55, bl=5, lv=9, kbl=5, klv=11, nbl=5, nlv=11)
        out.append(dict(par, c="ctx", x=base + j, secure=j == 3))
    todo = [[dict(c="call", x=base + j, f=FS[(i + j) % len(FS)], v=i % 4) for i in range(12)] for j in range(4)]
    while any(todo):
        q = rng.choice([q for q in todo if q])
        out.append(q.pop(0))
    return out


def twin(cmds, **par):
    """The same commands with other parameters (messages keep their coefficients and get zeros behind them)."""
    out = []
    for c in cmds:
        if c["c"] == "new":
            n = par.get("n", c["n"])
            c = dict(c, **par)
        elif isinstance(c.get("p"), dict) and "e" in c["p"]:
            c = dict(c, p=dict(e=c["p"]["e"] + [0] * (n - len(c["p"]["e"]))))
        out.append(c)
    return out


def twins(rng):
    """Lanes with the same program and other parameters (or other keys only): whatever one of them looks up by what it was asked for, the other asks for as well."""
    out = []
    def both(d, a, b):
        order = [w for k in range(max(len(a), len(b))) for w in (0, 1)]
        out.append((False, [(d, a), (d, b)], order))
        out.append((False, [(d, b), (d, a)], order))
    # every comparison of the smaller ring, in both
    for n, m, kw in ((8, 16, {}), (16, 64, {}), (8, 128, {}), (16, 16, dict(bl=8, lv=5, nbl=6, nlv=8)), (16, 32, dict(kbl=4, klv=13)), (32, 32, dict(t=16)), (16, 16, {})):
        a = [T.new(n=n, t=2)]
        for q in range(2):
            every = [(th, ft) for th in range(n) for ft in range(3)]
            rng.shuffle(every)
            a += [dict(c="feat", q=q, f=[rng.randrange(n) for _ in range(3)]), dict(c="tree", tree=T.shaped(rng, every[:40], "mixed")), dict(c="choices", q=q), dict(c="enc", q=q), dict(c="choices", q=q // 2)]
        both(TREE, a, twin(a, n=m, **kw))
    for k, (prof, n, m, kw) in enumerate((("ring", 8, 16, {}), ("key", 8, 16, {}), ("conv", 8, 16, {}), ("key", 16, 32, {}), ("key", 8, 32, {}), ("conv", 16, 64, {}), ("key", 16, 16, dict(kbl=7, klv=5, nbl=6, nlv=8)),
                                          ("conv", 8, 8, dict(bl=8, lv=6, nbl=6, nlv=8)), ("ring", 16, 16, dict(bl=7, lv=6)), ("ring", 8, 8, dict(t=32)), ("conv", 8, 8, {}), ("key", 16, 16, {}))):
        a = [c for p in H.programs(prof, H.new(n=n, t=16), more(2, 4), 30, seedn(880 + k)) for c in p]
        both(HOM, a, twin(a, n=m, **kw))
    for k, (mode, rows, cols, h, n, m, kw) in enumerate((("one", 1, 8, 1, 8, 16, {}), ("batch", 3, 4, 3, 8, 32, {}), ("multi", 1, 8, 1, 16, 64, {}), ("one", 1, 4, 1, 8, 8, dict(bl=8, lv=6)), ("batch", 3, 4, 3, 16, 16, dict(bl=8, lv=5)),
                                                         ("one", 1, 4, 1, 8, 8, dict(cols=8)), ("multi", 1, 4, 1, 8, 16, dict(cols=16)), ("batch", 3, 4, 3, 8, 8, dict(cols=8)), ("multi", 1, 4, 1, 8, 8, {}), ("batch", 3, 4, 3, 8, 8, {}))):
        if "cols" in kw:
            kw = dict(kw, items_n=rows * kw["cols"] // h)
        b = O.behaviours(mode, rows * cols // h, 1, 10, seedn(860 + k), multi=4, batch=min(3, rows * cols // h))[0]
        a = O.session(O.new(rows=rows, cols=cols, h=h, n=n), b, th=[2, 0])
        both(ORAM, a, twin(a, n=m, **kw))
    return out


@check("C24")
def c24(c):
    c.proof("TogetherProof")
    c.mc("TogetherMC", "TogetherMC.cfg")
    c.mc("TogetherMC", "TogetherMC_keyed.cfg")
    c.mc("TogetherMC", "TogetherMC_turns_slot.cfg")
    for m in ("first", "size", "slot", "count"):
        c.mc("TogetherMC", "TogetherMC_x_%s.cfg" % m, expect="C24Alone")
    nO, nH, nT = more(28, 90), more(12, 40), more(8, 30)
    oS = O.gather(lambda k, j: oram(j, PARS[j % len(PARS)], SHAPES[(j + j // len(PARS)) % len(SHAPES)], more(10, 16)), [(j,) for j in range(nO)])
    hpar = [("ring", 8, 16, {}), ("key", 16, 16, dict(kbl=7, klv=5)), ("conv", 8, 16, dict(bl=8, lv=6, nbl=6, nlv=8)), ("ring", 32, 4, dict(bl=7, lv=6)), ("key", 8, 16, {}), ("conv", 16, 4, {})]
    hS = O.gather(lambda k, j: hom(j, *hpar[j % len(hpar)], 2, more(16, 24)), [(j,) for j in range(nH)])
    tpar = [(64, 16, {}), (16, 16, dict(bl=6, lv=8)), (32, 4, {}), (64, 2, dict(nbl=7, nlv=8)), (16, 2, dict(kbl=4, klv=13))]
    tS = O.gather(lambda k, j: tree(j, *tpar[j % len(tpar)], 2, more(12, 20)), [(j,) for j in range(nT)])
    # groups of lanes: databases of different (and of the same) parameters, with one another and with everything else
    lanes = {ORAM: oS, HOM: hS, TREE: tS}
    kinds = [(ORAM, ORAM, ORAM), (ORAM, HOM, TREE), (ORAM, ORAM, SEED), (HOM, HOM, TREE), (ORAM, ORAM, ORAM, ORAM), (TREE, ORAM, SEED), (ORAM, HOM, SEED, SEED), (TREE, TREE, ORAM)]
    at = {ORAM: 0, HOM: 0, TREE: 0, SEED: 0}
    groups = []
    for g in range(more(16, 60)):
        ls = []
        for d in kinds[g // 2 % len(kinds)]:
            if d == SEED:
                ls.append((d, seeds(c.rng, at[d])))
            else:
                ls.append((d, lanes[d][at[d] % len(lanes[d])]))
            at[d] += 1
        groups.append((g % 2 == 1, ls, None))
    by = {}
    for k in (2, 3, 4):
        by[k] = orders(k, more(8, 30), 60, seedn(990 + k))
    groups = [(tog, ls, [] if tog else by[len(ls)][g % len(by[len(ls)])]) for g, (tog, ls, _) in enumerate(groups)]
    tw = twins(c.rng)
    for prof, part in (("dbg", groups + tw), ("rel", groups[1::5] + tw[:: more(5, 1)])):
        # threads of their own: fewer processes at a time
        ev = run_lanes(build(prof), part, jobs=4)
        L = {d: ([], []) for d in (ORAM, HOM, TREE, SEED)}
        alone = []
        for (tog, ls, order), lv in zip(part, ev):
            for w, ((d, cmds), e) in enumerate(zip(ls, lv)):
                L[d][0].append(dict(lanes=[x for x, _ in ls], at_once=tog, lane=w, order=order, commands=[x for _, x in ls]))
                L[d][1].append(e)
                if d == SEED:
                    alone.append(cmds)
        c.traces("OramTrace", L[ORAM][1], O.norm, cmds=L[ORAM][0], label="databases-" + prof)
        c.traces("HomTrace", L[HOM][1], H.norm, cmds=L[HOM][0], label="programs-" + prof)
        c.traces("TreeTrace", L[TREE][1], T.norm, cmds=L[TREE][0], label="trees-" + prof)
        # reproducible contexts give what they give on their own
        A = run_sessions(build(prof), SEED, alone)
        c.traces("SeedTrace", [[dict(ev="begin", out="ok")] + e + a for e, a in zip(L[SEED][1], A)], K.snorm, cmds=L[SEED][0], label="contexts-" + prof)
    # rings of the size in use, next to small ones
    big = O.gather(lambda k, j: oram(40 + j, dict(n=(1024, 2048)[j % 2], t=256, bl=5, lv=9), (("one", 1, 4, 1), ("batch", 3, 4, 3), ("multi", 1, 4, 1))[j % 3], 5), [(j,) for j in range(more(2, 6))])
    part = [(k % 2 == 0, [(ORAM, b), (ORAM, oS[k % len(oS)]), (HOM, hS[k % len(hS)])], by[3][k % len(by[3])]) for k, b in enumerate(big)]
    ev = run_lanes(build("rel"), part, jobs=2)
    cm = lambda g, w: dict(lanes=[x for x, _ in g[1]], at_once=g[0], lane=w, order=g[2], commands=[x for _, x in g[1]])
    c.traces("OramTrace", [e[w] for e in ev for w in (0, 1)], O.norm, cmds=[cm(g, w) for g in part for w in (0, 1)], label="large-databases-rel")
    c.traces("HomTrace", [e[2] for e in ev], H.norm, cmds=[cm(g, 2) for g in part], label="large-programs-rel")
