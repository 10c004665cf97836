import core, homlib, treelib, oramlib as O
from core import THOROUGH, SEED, Check, build, run_sessions

RUN = {}


def check(pid, level="model_checking"):
    def deco(f):
        def run():
            c = Check(pid, level)
            f(c)
            return c.finish()
        RUN[pid] = run
        return f
    return deco


def more(quick, thorough):
    return thorough if THOROUGH else quick


def oram_judge(c, profile, sessions, label, tmo=600, limit=150, **kw):
    ev = run_sessions(build(profile), "oram", sessions, tmo=tmo, limit=limit)
    cmds, ev = O.split(sessions, ev)
    c.traces("OramTrace", ev, O.norm, cmds=cmds, label=label + "-" + profile, **kw)
    return ev


def anyway(k, cols, n, num, depth, mx=4, th=(4, 0, 8, 2)):
    """One row: every query is executed alone, in a multi request or as a batch of one, in any order."""
    return [O.session(O.new(n=n, t=2, cols=cols), b, th=list(th)) for b in O.behaviours("all", cols, num, depth, seedn(k), multi=mx, pend=mx + 1)]


def seedn(k):
    return SEED * 1000 + k


def long_run(c, kind, n, **kw):
    """Hundreds of accesses to a small database, half of them to a few items."""
    d = dict(n=8, t=2)
    d.update(kw)
    items = d.get("rows", 1) * d["cols"] // d.get("h", 1)
    s, q = [O.new(**d, cost=n)], 1
    for _ in range(n):
        ids, wr = [], set()
        for _ in range(c.rng.choice([1, 1, 2, 3]) if kind == "multi" else 1):
            i = c.rng.randrange(items) if c.rng.random() < 0.5 else c.rng.randrange(min(2, items))
            op = "r" if i in wr else c.rng.choice("rw")
            if op == "w":
                wr.add(i)
            s.append(dict(c="prep", q=q, kind="batch" if kind == "batch" else "one", op=op, items=[i], val={"r": 9000 + q}))
            ids.append(q)
            q += 1
        s.append(dict(c="multi", qs=ids, th=4) if kind == "multi" else dict(c=kind, q=ids[0], th=4))
    return s


def mutants(c, *names):
    """Mistakes which the properties of the model have to reject."""
    for m in names[: more(1, len(names))]:
        c.mc("OramMutMC", "OramMutMC_%s.cfg" % m, expect=["Contract", "ReplicasAgree", "SelectorsOneHot"])


def walk(m, order):
    """Every word of the given length over m letters, each once, as one (cyclic) sequence: a de Bruijn sequence."""
    a, out = [0] * m * order, []

    def db(t, p):
        if t > order:
            if order % p == 0:
                out.extend(a[1:p + 1])
            return
        a[t] = a[t - p]
        db(t + 1, p)
        for j in range(a[t - p] + 1, m):
            a[t] = j
            db(t + 1, t)

    db(1, 1)
    return out + out[: order - 1]


def contacts(letters, order, **kw):
    """Requests follow one another in every way: each word of requests occurs.  A letter: how it is executed, and
    its queries, each (operation, items)."""
    d = dict(n=8, t=2)
    d.update(kw)
    w = walk(len(letters), order)
    s, q = [O.new(**d, cost=len(w))], 1
    for x in w:
        kind, queries = letters[x]
        ids = []
        for op, items in queries:
            s.append(dict(c="prep", q=q, kind="batch" if kind in ("batch", "mix") else "one", op=op, items=list(items), val={"r": 7000 + q}))
            ids.append(q)
            q += 1
        s.append(dict(c="multi", qs=ids, th=4) if kind == "multi" else dict(c="batch", qs=ids, rowpick=True, th=4) if kind == "mix" else dict(c="batch" if kind == "batch" else kind, q=ids[0], th=4))
    return s


ONE = [(k, ((op, (1,)),)) for k in ("one", "multi", "batch") for op in "rw"]
TWO = [(k, ((op, (i,)),)) for k in ("one", "multi", "batch") for op in "rw" for i in (0, 3)]
MANY = [("one", (("r", (1,)),)), ("one", (("w", (1,)),)), ("multi", ()), ("multi", (("r", (1,)),)), ("multi", (("w", (1,)),)), ("multi", (("r", (1,)), ("w", (1,)))), ("multi", (("w", (2,)), ("w", (1,)))),
        ("multi", (("r", (2,)), ("r", (1,)), ("r", (2,)))), ("batch", (("r", (1,)),)), ("batch", (("w", (1,)),))]
SETS = [("batch", ((op, its),)) for op in "rw" for its in ((0,), (1,), (0, 1))] + [("batch", (("r", ()),))]


@check("C01")
def c01(c):
    mutants(c, "answerafter", "lowfirst", "inverted")
    c.loop("OramLoop")
    c.mc("OramMC", "OramMC_one.cfg")
    def f(k, cols, n, t):
        if t == 2:
            return [O.session(O.new(n=n, t=t, cols=cols), b, th=[4, 2, 8, 1]) for b in O.behaviours("one", cols, more(2, 12), 26, seedn(k))]
        return [O.session(O.new(n=n, t=t, cols=cols, snap=False), b, th=[4, 0]) + O.audit(range(cols), 1000) for b in O.behaviours("one", cols, more(1, 6), 24, seedn(k))]
    S = O.gather(f, [(2, 8, 2), (4, 8, 2), (8, 16, 2), (16, 64, 2), (32, 8, 2), (64, 16, 2), (128, 8, 2), (512, 8, 2), (4, 8, 256), (16, 16, 16), (8, 256, 256)])
    S += O.gather(lambda k, cols, n: anyway(60 + k, cols, n, more(1, 6), 26, mx=2), [(4, 8), (8, 8), (2, 16)])
    S += [contacts(ONE, more(3, 4), cols=4), contacts(TWO, more(2, 3), cols=4)]
    oram_judge(c, "dbg", S, "single")
    # every index of a row is read, written and read again, in the shipped profile
    S = []
    for k, (cols, n, t) in enumerate([(8, 8, 2), (16, 8, 4), (32, 16, 2)] + more([], [(64, 8, 2), (128, 16, 2), (256, 8, 2)])):
        s = [O.new(n=n, t=t, cols=cols, snap=(t == 2))] + O.audit(range(cols), 1)
        for i in range(cols):
            s += [dict(c="prep", q=1000 + i, kind="one", op="w", items=[i], val=O.value(4 + i, n, t)), dict(c="one", q=1000 + i, th=4)]
        S.append(s + O.audit(range(cols), 2000))
    S.append(O.session(O.new(n=2048, t=256, cols=4, snap=False, cost=60), O.behaviours("one", 4, 1, more(10, 40), seedn(90))[0]) + O.audit(range(4), 1000))
    S += [long_run(c, "one", more(300, 2500), cols=cols) for cols in (2, 8)]
    oram_judge(c, "rel", S, "sweep")


@check("C02")
def c02(c):
    mutants(c, "singleselector", "sequentially")
    c.loop("OramLoop")
    c.mc("OramMC", "OramMC_multi.cfg")
    def f(k, cols, n, t, mx):
        B = O.behaviours("multi", cols, more(2 if t == 2 else 1, 12), 26, seedn(k), multi=mx, pend=mx + 2)
        if t == 2:
            return [O.session(O.new(n=n, t=t, cols=cols), b, th=[4, 1, 0, 8, 2]) for b in B]
        return [O.session(O.new(n=n, t=t, cols=cols, snap=False), b, th=[4, 0]) + O.audit(range(cols), 1000) + O.audit(range(cols), 2000, mode="multi") for b in B]
    S = O.gather(f, [(2, 8, 2, 4), (2, 16, 2, 6), (4, 8, 2, 5), (8, 8, 2, 5), (16, 16, 2, 6), (32, 8, 2, 4), (4, 8, 256, 5), (8, 64, 16, 5)])
    # many queries of one item in one request, with and without a write, up to 20 queries
    for k, (cols, m) in enumerate([(2, 2), (4, 3), (8, 8), (4, 20)]):
        s = [O.new(n=8, t=2, cols=cols)]
        q = 1
        for wr in (None, 0, m - 1, m // 2):
            ids = []
            for j in range(m):
                s.append(dict(c="prep", q=q, kind="one", op="w" if j == wr else "r", items=[(k + 1) % cols], val={"r": 100 + q}))
                ids.append(q)
                q += 1
            s += [dict(c="multi", qs=ids, th=[4, 8, 2, 3][k]), dict(c="multi", qs=[], th=4)]
        # every item written in one request
        ids = []
        for i in range(cols):
            s.append(dict(c="prep", q=q, kind="one", op="w", items=[i], val={"r": 200 + q}))
            ids.append(q)
            q += 1
        s += [dict(c="multi", qs=ids[::-1], th=8)] + O.audit(range(cols), q + 1)
        S.append(s)
    oram_judge(c, "dbg", S, "multi")
    oram_judge(c, "dbg", O.gather(lambda k, cols, n: anyway(50 + k, cols, n, more(2, 8), 30), [(4, 8), (8, 16), (2, 8), (16, 8)]), "anyway")
    b = O.behaviours("multi", 4, 2, 16, seedn(90), multi=4, pend=6)
    S = [long_run(c, "multi", more(280, 2000), cols=4), contacts(MANY, more(2, 3), cols=4), contacts(ONE, 3, cols=8)]
    # requests of many queries
    for cols, sizes in ((4, (33, 65, 130)), (2, (64, 300)), (16, (17, 48))):
        s, q = [O.new(n=8, t=2, cols=cols)], 1
        for m in sizes:
            ids, wr = list(range(q, q + m)), set()
            for x in ids:
                i = c.rng.randrange(cols)
                op = "r" if i in wr or c.rng.random() < 0.8 else "w"
                if op == "w":
                    wr.add(i)
                s.append(dict(c="prep", q=x, kind="one", op=op, items=[i], val={"r": 600 + x}))
            q += m
            c.rng.shuffle(ids)
            s.append(dict(c="multi", qs=ids, th=8))
        S.append(s + O.audit(range(cols), q))
    S += [O.session(O.new(n=8, t=2, cols=4), b[0], th=[4, 0, 1]), O.session(O.new(n=16, t=2, cols=4), b[1], th=[8, 3])]
    oram_judge(c, "rel", S, "multi")


# rows, cols, replicas, N
SHAPES = [(2, 2, 2, 8), (3, 4, 3, 8), (4, 4, 2, 16), (3, 8, 3, 8), (4, 8, 4, 8), (2, 4, 1, 8), (6, 4, 3, 16), (1, 8, 1, 8), (8, 4, 4, 8), (5, 8, 2, 8), (3, 2, 6, 8), (10, 2, 10, 8), (9, 4, 9, 8), (2, 16, 2, 8), (1, 4, 2, 8)]
TALL = [(16, 2, 2, 8), (17, 4, 4, 8), (24, 2, 3, 8), (33, 2, 3, 8), (66, 2, 2, 8)]


def batches(k, num, depth, shapes, th=(4, 8, 2, 1, 3), **kw):
    def f(j, r, cc, h, n, t=2):
        items = r * cc // h
        B = O.behaviours("batch", items, num, depth, seedn(k + j), batch=min(r, items), pend=2, **kw)
        if t == 2:
            return [O.session(O.new(n=n, t=2, rows=r, cols=cc, h=h), b, th=list(th)) for b in B]
        return [O.session(O.new(n=n, t=t, rows=r, cols=cc, h=h, snap=False), b, th=list(th)) + O.audit(range(items), 1000, kind="batch", mode="batch") for b in B]
    return O.gather(f, shapes)


def reaching(c, shapes, sizes):
    """Every replica of the items in turn is the one which a batched request writes and another one reads."""
    S = []
    for r, cc, h, n, t in shapes:
        items = r * cc // h
        s, q = [O.new(n=n, t=t, rows=r, cols=cc, h=h, snap=t == 2)], 1
        some = c.rng.sample(range(items), min(items, sizes))
        for k in range(h):
            for x in some:
                s += [dict(c="prep", q=q, kind="batch", op="w", reach=[x, k], val={"r": 600 + q}), dict(c="batch", q=q, th=[4, 1, 8][q % 3])]
                s += [dict(c="prep", q=q + 1, kind="batch", op="r", reach=[x, (k + 1 + x) % h], val={"k": 0}), dict(c="batch", q=q + 1, th=4)]
                q += 2
        if t > 2:
            for x in range(items):
                for k in range(h):
                    s += [dict(c="prep", q=q, kind="batch", op="r", reach=[x, k], val={"k": 0}), dict(c="batch", q=q, th=4)]
                    q += 1
        S.append(s)
    return S


REACH = [(4, 4, 2, 8, 2), (6, 4, 3, 8, 2), (8, 8, 4, 8, 2), (10, 8, 5, 8, 2), (12, 16, 6, 8, 2), (16, 16, 8, 8, 2), (6, 4, 3, 16, 256), (8, 4, 4, 8, 16)]


@check("C03")
def c03(c):
    c.loop("BatchLoop")
    mutants(c, "padwrites", "noflag", "firstflag")
    c.mc("OramMC", "OramMC_batch.cfg")
    c.mc("OramMC", "OramMC_batch3.cfg")
    c.mc("OramMC", "OramMC_mix.cfg")
    S = batches(40, 1, more(14, 30), TALL) + batches(0, more(2, 10), 20, SHAPES + [(3, 4, 3, 8, 256), (4, 4, 2, 64, 16)])
    oram_judge(c, "dbg", S, "batch")
    # requests put together from the row queries of several batches: reads and writes mixed over the rows
    S2 = []
    for k, (r, cc, h) in enumerate([(2, 4, 2), (3, 4, 3), (3, 8, 2), (4, 4, 4), (4, 4, 1)]):
        items = r * cc // h
        s, q = [O.new(n=8, t=2, rows=r, cols=cc, h=h)], 1
        for _ in range(more(8, 30)):
            ids, wr = [], set()
            for row in range(r):
                op = c.rng.choice("rw")
                its = [i for i in range(items) if op == "r" or i not in wr]
                its = c.rng.sample(its, min(len(its), c.rng.choice([1, 1, 2])))
                if op == "w":
                    wr |= set(its)
                s.append(dict(c="prep", q=q, kind="batch", op=op, items=its, val={"r": 500 + q}))
                ids.append(q)
                q += 1
            s.append(dict(c="batch", qs=ids, rowpick=True, th=4))
        S2.append(s)
    S2 += [contacts(SETS, more(2, 3), rows=r, cols=cc, h=h) for r, cc, h in ((3, 2, 3), (2, 4, 2), (1, 4, 1), (4, 2, 4))]
    oram_judge(c, "dbg", S2, "mixed")
    oram_judge(c, "dbg", reaching(c, REACH, more(6, 64)), "replicas", chunk=1)
    S = batches(90, 1, 14, [(3, 4, 3, 8), (4, 8, 4, 16)]) + [long_run(c, "batch", more(250, 2000), rows=r, cols=cc, h=h) for r, cc, h in ((3, 4, 3), (2, 4, 2))]
    oram_judge(c, "rel", S, "batch")


@check("C04")
def c04(c):
    c.loop("BatchLoop")
    mutants(c, "nocorrection", "onereplica")
    c.mc("OramMC", "OramMC_batch.cfg")
    c.mc("OramMC", "OramMC_batch3.cfg")
    # write-heavy: every item is written through batches of every size, replicas shown after every request
    S = []
    for k, (r, cc, h, n) in enumerate([s for s in SHAPES if s[2] > 1]):
        items = r * cc // h
        for rep in range(more(2, 8)):
            s = [O.new(n=n, t=2, rows=r, cols=cc, h=h, snap=True)]
            q = 1
            order = list(range(items))
            c.rng.shuffle(order)
            size = 1 + (rep + k) % min(r, items)
            for a in range(0, min(items, 12), size):
                s += [dict(c="prep", q=q, kind="batch", op="w", items=order[a:a + size], val={"r": 300 + q}), dict(c="batch", q=q, th=[4, 2, 8, 1][q % 4])]
                q += 1
                if q % 3 == 0:
                    s += [dict(c="prep", q=q, kind="batch", op="r", items=order[a:a + size], val={"k": 0}), dict(c="batch", q=q, th=4)]
                    q += 1
            S.append(s)
    S += batches(260, 1, more(8, 20), TALL)
    S += reaching(c, REACH, more(4, 64))
    S += [long_run(c, "batch", more(200, 1500), rows=r, cols=cc, h=h) for r, cc, h in ((2, 2, 2), (4, 2, 4))]
    S += batches(200, more(1, 6), 16, [s for s in SHAPES if s[2] > 1])
    S += [contacts(SETS[3:] + SETS[:1], more(3, 4), rows=r, cols=cc, h=h) for r, cc, h in ((3, 2, 3), (2, 4, 2))]
    oram_judge(c, "dbg", S, "replicas")


@check("C07")
def c07(c):
    for cfg in ("one", "multi", "batch"):
        c.mc("OramMC", "OramMC_%s.cfg" % cfg)
    def f(k, pend, mode, rows, cols, h, n):
        items = rows * cols // h
        return [O.session(O.new(n=n, t=2, rows=rows, cols=cols, h=h), b, clients=3, th=[4, 2, 8])
                for b in O.behaviours(mode, items, more(2, 10), 34, seedn(k), clients=3, pend=pend, multi=4, batch=min(rows, items))]
    S = O.gather(f, [(p,) + x for p in (2, 9) for x in [("one", 1, 4, 1, 8), ("one", 1, 16, 1, 8), ("multi", 1, 4, 1, 8), ("multi", 1, 8, 1, 16), ("batch", 3, 4, 3, 8), ("batch", 2, 8, 2, 8), ("one", 1, 2, 1, 16)]])
    # all prepared first, then executed in another order, some never, by several clients
    for k, (cols, n) in enumerate([(4, 8), (8, 16), (16, 8)]):
        s = [O.new(n=n, t=2, cols=cols), dict(c="client"), dict(c="client")]
        ids = list(range(1, more(25, 60)))
        for q in ids:
            s.append(dict(c="prep", q=q, kind="one", op=c.rng.choice("rw"), items=[c.rng.randrange(min(cols, 5))], val={"r": 400 + q}, cl=q % 3))
        c.rng.shuffle(ids)
        for q in ids[: len(ids) * 4 // 5]:
            s.append(dict(c="one", q=q, th=4))
        S.append(s)
    # several databases of the same clients, with different placements, used in turns
    def g(k, mode, rows, cols, hs):
        B = [O.behaviours(mode, rows * cols // h, more(1, 5), 20, seedn(70 + 5 * k + j), clients=2, pend=3, multi=3, batch=min(rows, rows * cols // h)) for j, h in enumerate(hs)]
        return [O.several(c.rng, O.new(n=8, t=2, rows=rows, cols=cols), b, hs, th=[4, 8]) for b in zip(*B)]
    S += O.gather(g, [("one", 1, 8, (1, 1)), ("batch", 3, 4, (3, 3)), ("batch", 4, 4, (2, 4, 1)), ("all", 1, 4, (1, 1, 1)), ("batch", 2, 8, (2, 2))])
    oram_judge(c, "dbg", S, "clients")


@check("C20")
def c20(c):
    c.mc("OramMC", "OramMC_one.cfg")
    S = []
    V = {"r": 7}
    usable = lambda q, kind="one", items=(0, 1): sum(([dict(c="prep", q=q + 2 * j, kind=kind, op="w", items=[i], val={"r": q}), dict(c=kind, q=q + 2 * j, th=4),
                                                     dict(c="prep", q=q + 2 * j + 1, kind=kind, op="r", items=[i], val=V), dict(c=kind, q=q + 2 * j + 1, th=4)] for j, i in enumerate(items)), [])
    # widths that do not match: all pairs of client width and server width
    for scols in (2, 3, 4, 5, 6, 7, 8, 12, 16):
        s = [O.new(n=8, t=2, cols=scols)]
        q = 1
        for k, ccols in enumerate((2, 4, 8, 16, 32, 3, 5, 6, 7, 9, 12)):
            s.append(dict(c="client", cols=ccols))
            for op in "wr":
                s += [dict(c="prep", q=q, kind="one", op=op, items=[1], val=V, cl=k + 1), dict(c="one", q=q, th=4)]
                s += [dict(c="prep", q=q + 1, kind="one", op=op, items=[0], val=V, cl=k + 1), dict(c="prep", q=q + 2, kind="one", op="w", items=[1], val=V, cl=0),
                      dict(c="multi", qs=[q + 1, q + 2], th=4)]
                s += [dict(c="prep", q=q + 3, kind="one", op="w", items=[0], val=V, cl=0), dict(c="prep", q=q + 4, kind="one", op=op, items=[1], val=V, cl=k + 1),
                      dict(c="multi", qs=[q + 3, q + 4], th=4)]
                q += 5
        S.append(s + usable(q))
    # clients whose width is no power of two: the places beyond the last one cannot be asked for
    for scols, cs in ((2, (3,)), (4, (5, 6, 7)), (8, (9, 11, 15)), (16, (17, 31))):
        s, q = [O.new(n=8, t=2, cols=scols)], 1
        for k, ccols in enumerate(cs):
            s.append(dict(c="client", cols=ccols))
            for item in sorted({scols, ccols - 1, c.rng.randrange(scols, ccols), 0, scols - 1}):
                for op in "wr":
                    s += [dict(c="prep", q=q, kind="one", op=op, items=[item], val=V, cl=k + 1), dict(c="one", q=q, th=4)]
                    q += 1
        S.append(s + usable(q))
    # batches without exactly one query per row, or with a query of another width in some row
    for rows, cols, h in ((3, 4, 3), (2, 4, 2), (4, 2, 2), (3, 6, 3), (1, 4, 1)):
        s = [O.new(n=8, t=2, rows=rows, cols=cols, h=h)]
        q = 1
        for k, (cr, cc) in enumerate([(rows + 1, cols), (max(1, rows - 1), cols), (rows, cols * 2), (rows, max(2, cols // 2)), (2 * rows, cols)]):
            s.append(dict(c="client", rows=cr, cols=cc))
            for op in "wr":
                s += [dict(c="prep", q=q, kind="batch", op=op, items=[0], val=V, cl=k + 1), dict(c="batch", q=q, th=4)]
                s += [dict(c="prep", q=q + 1, kind="batch", op=op, items=[1], val=V, cl=0), dict(c="batch", q=q + 1, take=k, th=4)]
                q += 2
        S.append(s + usable(q, "batch"))
    # one odd query in each row position of an otherwise good batch
    for rows, cols, h in ((3, 4, 3), (2, 8, 2)):
        s = [O.new(n=8, t=2, rows=rows, cols=cols, h=h), dict(c="client", cols=cols * 2), dict(c="client", cols=cols // 2)]
        q = 1
        for pos in range(rows):
            for cl in (1, 2):
                ids = list(range(q, q + rows))
                q += rows
                s += [dict(c="prep", q=x, kind="batch", op="w", items=[0], val=V, cl=cl if r == pos else 0) for r, x in enumerate(ids)]
                s.append(dict(c="batch", qs=ids, rowpick=True, th=[4, 1, 8][pos % 3]))
        S.append(s + usable(q, "batch"))
    # items and coefficients that do not exist
    for cols, n, t in ((4, 8, 2), (8, 8, 16), (4, 16, 256)):
        s = [O.new(n=n, t=t, cols=cols, snap=t == 2)]
        q = 1
        for item in (cols, cols + 1, 2 * cols, 1 << 20, (1 << 53) - 1):
            for op in "rw":
                s += [dict(c="prep", q=q, kind="one", op=op, items=[item], val=V), dict(c="one", q=q, th=4)]
                q += 1
        for bad in (t, t + 1, 2 * t, "9223372036854775808", "18446744073709551615", "9223372036854775809"):
            for pos in (0, 1, n - 1):
                e = [0] * n
                e[pos] = bad
                s += [dict(c="prep", q=q, kind="one", op="w", items=[1], val={"e": e}), dict(c="one", q=q, th=4)]
                q += 1
        S.append(s + usable(q) + O.audit(range(cols), q + 100))
    for rows, cols, h, t in ((3, 4, 3, 2), (2, 8, 2, 2), (3, 4, 2, 16), (4, 4, 4, 2)):
        dom = rows * cols // h
        s, q = [O.new(n=8, t=t, rows=rows, cols=cols, h=h, snap=t == 2)], 1
        for its in ([dom], [0, dom], [dom + 1, 1], [1, 2 * dom], [dom * h], [dom * h - 1] if h > 1 else [dom], [rows * cols], [0, rows * cols - 1] if h > 1 else [dom], [1 << 20], [0, 1 << 40]):
            for op in "rw":
                s += [dict(c="prep", q=q, kind="batch", op=op, items=its, val=V), dict(c="batch", q=q, th=4)]
                q += 1
        for bad in (t, t + 1, "9223372036854775808", "18446744073709551615"):
            for pos in (0, 5, 7):
                e = [0] * 8
                e[pos] = bad
                s += [dict(c="prep", q=q, kind="batch", op="w", items=[1], val={"e": e}), dict(c="batch", q=q, th=4)]
                q += 1
        S.append(s + usable(q, "batch") + O.audit(range(dom), q + 100, kind="batch", mode="batch"))
    # one query of a multi request does not fit, in every position
    for m in (2, 3, 5):
        s, q = [O.new(n=8, t=2, cols=8), dict(c="client", cols=16), dict(c="client", cols=4), dict(c="client", cols=2)], 1
        for pos in range(m):
            for cl in (1, 2, 3):
                ids = list(range(q, q + m))
                q += m
                s += [dict(c="prep", q=x, kind="one", op="w", items=[k % 2 if k == pos else k], val=V, cl=cl if k == pos else 0) for k, x in enumerate(ids)]
                s.append(dict(c="multi", qs=ids, th=[4, 1, 8][pos % 3]))
        S.append(s + usable(q))
    oram_judge(c, "dbg", S, "misuse")
    oram_judge(c, "rel", S[::3], "misuse")
    # comparisons and trees: thresholds, features and messages which do not exist
    H = []
    for n, t in ((8, 2), (16, 16), (64, 256), (32, 4)):
        s = [homlib.new(n=n, t=t, nr=2, ng=0, nl=1, showg=False)]
        for m in (0, n - 1, n // 2):
            s.append(dict(c="enc", d=0, p={"s": [[m, 1]]}))
            for bad in (n, n + 1, 2 * n - 1, 2 * n, 3 * n // 2, 1 << 20, 1 << 40):
                s += [dict(c="leq", d=0, k=bad), dict(c="eq", d=0, k=bad)]
            s += [dict(c="leq", d=0, k=n - 1), dict(c="enc", d=0, p={"s": [[m, 1]]}), dict(c="eq", d=0, k=m)]
        for bad in (t, t + 1, "9223372036854775808", "18446744073709551615"):
            for pos in (0, n // 2, n - 1):
                e = [1] * n
                e[pos] = bad
                s += [dict(c="enc", d=1, p={"e": e})]
            if not isinstance(bad, str):
                s += [dict(c="lenc", l=0, k=bad)]
        H.append(s)
    ev = run_sessions(build("dbg"), "hom", H)
    c.traces("HomTrace", ev, homlib.norm, cmds=H, label="ring-misuse")
    T = treelib
    Z = []
    for n in (16, 32):
        s = [T.new(n=n, t=2), dict(c="feat", q=0, f=[0, n - 1]), dict(c="feat", q=1, f=[n - 1, 0])]
        for tr in (T.I(n, 0, T.L(1), T.L(2)), T.I(n - 1, 2, T.L(1), T.L(2)), T.I(n - 1, 0, T.L(1), T.I(n + 8, 1, T.L(1), T.L(2))), T.I(0, 0, T.I(2 * n, 1, T.L(1), T.L(3)), T.L(2)), T.I(n - 1, 0, T.L(1), T.I(4, 5, T.L(1), T.L(2))),
                   T.I(1 << 60, 0, T.L(1), T.L(2)), T.I(3, 0, T.L(1), T.L(2))):
            s += [dict(c="tree", tree=tr), dict(c="enc", q=0), dict(c="enc", q=1), dict(c="eval", f=[0, n - 1])]
        for f in ([n], [0, n], [n + 1, 0], [2 * n], [1 << 50]):
            s += [dict(c="feat", q=2, f=f)]
        Z.append(s + [dict(c="tree", tree=T.I(3, 0, T.L(1), T.L(2))), dict(c="enc", q=0)])
    ev = run_sessions(build("dbg"), "tree", Z)
    c.traces("TreeTrace", ev, T.norm, cmds=Z, label="tree-misuse")


@check("C23")
def c23(c):
    c.mc("OramMC", "OramMC_batch.cfg")
    S = []
    for k, (r, cc, h) in enumerate([(1, 2, 1), (1, 16, 1), (1, 128, 1), (1, 256, 1), (1, 64, 2), (3, 4, 3), (3, 64, 3), (4, 128, 2), (2, 256, 4), (5, 16, 2), (6, 32, 3), (7, 4, 7), (300, 2, 3), (16, 16, 1), (3, 128, 1), (2, 3, 2), (5, 1, 1)]):
        s = [O.new(n=[8, 16, 64][k % 3], t=2, rows=r, cols=cc, h=h, th=[0, 4][k % 2])]
        if cc & (cc - 1) == 0 and cc > 1:
            dom = r * cc // h
            pick = sorted({0, 1 % dom, dom - 1, 127 % dom, 128 % dom, 129 % dom, dom // 2} | {c.rng.randrange(dom) for _ in range(more(3, 30))})
            s += O.audit(pick, 1, kind="one" if r == 1 else "batch", mode="one" if r == 1 else "batch")
        S.append(s)
    for k, (r, cc, h, t) in enumerate([(1, 16, 1, 256), (3, 8, 3, 16), (2, 4, 2, 1 << 16), (3, 256, 3, 256)]):
        s = [O.new(n=[8, 16][k % 2], t=t, rows=r, cols=cc, h=h, snap=False)]
        S.append(s + O.audit(sorted({0, 1, r * cc // h - 1, 128 % (r * cc // h), 5 % (r * cc // h)}), 1, kind="one" if r == 1 else "batch", mode="one" if r == 1 else "batch"))
    # shapes which do not match the placement
    s = []
    for r, cc, h, dom in [(1, 16, 1, 15), (1, 16, 1, 17), (1, 16, 1, 8), (2, 8, 1, 8), (3, 4, 3, 5), (3, 4, 3, 3), (3, 4, 2, 4), (2, 4, 2, 8), (2, 4, 3, 2), (1, 4, 2, 4), (1, 4, 1, 0), (0, 4, 1, 4), (2, 4, 3, 2), (4, 4, 3, 5), (5, 4, 3, 6), (2, 8, 5, 3), (1, 16, 3, 5)]:
        s += [O.new(n=8, t=2, rows=r, cols=cc, h=h, items_n=dom)]
    S.append(s + [O.new(n=8, t=2, rows=2, cols=4, h=2)])
    oram_judge(c, "dbg", S, "setup")
    oram_judge(c, "rel", S[3:8], "setup")
import checks_hom  # noqa
import checks_tree  # noqa
import checks_codec  # noqa
import checks_view  # noqa
import checks_growth  # noqa
import checks_sched  # noqa
import checks_params  # noqa
import checks_c19  # noqa
import checks_together  # noqa
import checks_table  # noqa
