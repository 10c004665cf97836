"""C05 placement, C17 encoding, C22 noise estimates, C21 seeding."""
import itertools
import core, codeclib as K
from core import THOROUGH, build, run_sessions
from checks import check, more, seedn


def judge(c, module, norm, profile, sessions, label, **kw):
    ev = run_sessions(build(profile), "codec", sessions)
    c.traces(module, ev, norm, cmds=sessions, label=label + "-" + profile, **kw)
    return ev


@check("C05")
def c05(c):
    c.loop("PlacementLoop")
    c.mc("PlacementMC", "PlacementMC.cfg")
    c.mc("PlacementMC", "PlacementMC_three.cfg")
    if THOROUGH:
        c.mc("PlacementMC", "PlacementMC_big.cfg")
        for v in ("drop", "steal", "column"):
            c.mc("PlacementMC", "PlacementMC_x_%s.cfg" % v, expect="Valid")
    S = []
    # small domains: every ordered request of distinct items; the placements themselves are drawn by the code
    for rep in range(more(6, 60)):
        for h, dom, ds in ((1, 1, (1,)), (1, 4, (1, 2, 4)), (2, 2, (1, 2, 4)), (2, 3, (2, 3)), (3, 2, (2, 3, 6)), (2, 4, (2, 4)), (3, 4, (4, 2, 3)), (3, 3, (3,)), (4, 2, (2, 4)), (2, 5, (5, 2)), (5, 1, (5, 1)), (1, 5, (3,))):
            s = [dict(c="hash", h=h, dom=dom, clone=rep % 2 == 1)]
            top = min(dom, 4 if THOROUGH else 3)
            lists = [list(p) for n in range(top + 1) for p in itertools.permutations(range(dom), n)]
            for d in ds:
                s += [dict(c="tuples", d=d), dict(c="maps", d=d, lists=lists)]
            S.append(s)
    for rep in range(more(2, 12)):
        for h, dom, ds in ((1, 16, (4, 16)), (2, 32, (8, 16)), (3, 64, (64, 16, 32)), (3, 256, (256, 64)), (4, 100, (25, 100)), (3, 21, (21, 9, 7)), (8, 16, (16, 8)), (2, 500, (250, 128, 1))):
            s = [dict(c="hash", h=h, dom=dom, clone=rep % 2 == 1)]
            for d in ds:
                rows = -(-h * dom // d)
                lists = []
                for _ in range(12):
                    n = min(dom, c.rng.choice([1, 2, 3, rows, rows, rows + 1, max(1, rows - 1), dom]), 40)
                    lists.append(c.rng.sample(range(dom), n))
                lists += [[dom - 1, 0] if dom > 1 else [0], [dom], [0, dom], list(range(min(dom, 30)))]
                s += [dict(c="tuples", d=d), dict(c="maps", d=d, lists=lists)]
            S.append(s)
    # tables with more positions than 16 bits can number
    for h, dom, d in [(1, 70000, 1 << 17), (3, 30000, 30000)] + more([], [(1, 200000, 1 << 18), (4, 33000, 1000), (2, 66000, 512)]):
        top = [65535, 65536, 65537, dom - 1, 0, dom // 2]
        lists = [[x] for x in top if x < dom] + [[x for x in top if x < dom][:h]] + [c.rng.sample(range(dom), min(3, -(-h * dom // d))) for _ in range(4)]
        S.append([dict(c="hash", h=h, dom=dom), dict(c="tuples", d=d), dict(c="maps", d=d, lists=lists)])
    S.append([dict(c="hash", h=0, dom=4)])
    judge(c, "PlacementTrace", K.pnorm, "dbg", S, "placement")
    judge(c, "PlacementTrace", K.pnorm, "rel", S[::5], "placement")


def words(rng, t):
    """Values around every boundary of the encoding of modulus t."""
    q = 1 << 64
    d = q // t
    vs = {0, 1, 2, q - 1, q // 2, q // 2 - 1, q // 2 + 1, d - 1, d, d + 1, d // 2, d // 2 - 1, d // 2 + 1, q - d, q - d // 2, q - d // 2 - 1, q - d // 2 + 1, q - d - 1}
    vs |= {rng.randrange(q) for _ in range(12)}
    for _ in range(6):
        m = rng.randrange(t)
        vs |= {m * d + x for x in (-(d // 2), -(d // 2) + 1, d // 2 - 1, d // 2, -1, 0, 1)}
    return sorted({v % q for v in vs})


def pairs(rng, ms, lim, k=2):
    es = [0, 1, -1, lim - 1, -(lim - 1), lim // 2, -(lim // 2), lim, -lim, lim - 2, -(lim - 2)]
    out = []
    for m in ms:
        for e in es + [rng.randrange(-lim + 1, lim) for _ in range(k)] if lim > 1 else [0]:
            out.append((m, e % (1 << 64)))
    return out


@check("C17")
def c17(c):
    c.mc("LimbsMC", "LimbsMC.cfg")
    c.proof("CodecProof")
    c.mc("CodecMC", "CodecMC.cfg")
    if THOROUGH:
        for v, p in (("floor", "DecodeRefines"), ("quarter", "DecodeRefines"), ("wrapless", "TRefines")):
            c.mc("CodecMC", "CodecMC_x_%s.cfg" % v, expect=p)
    st = lambda xs: [str(x) for x in xs]
    S = []
    for b in range(1, 64):
        t = 1 << b
        lim = 1 << (63 - b)
        ms = sorted({0, 1, t - 1, t // 2, t // 2 - 1, t // 4, t // 3} | {c.rng.randrange(t) for _ in range(more(4, 40))})
        ps = pairs(c.rng, [m for m in ms if m < t], lim, more(2, 6))
        fit = sorted({x for x in ms} | {c.rng.randrange(t) for _ in range(5)})
        bad = [t, t + 1, 2 * t - 1, (1 << 64) - 1, (1 << 63) + 1, t + (t >> 1), (1 << 64) - t]
        s = [dict(c="codec", t=str(t)), dict(c="rt", ms=st(p[0] for p in ps), es=st(p[1] for p in ps)), dict(c="encode", xs=st(fit)),
             dict(c="decode", xs=st(words(c.rng, t)))]
        for k, x in enumerate(bad):
            if t <= x < 1 << 64:
                y = list(fit)
                y.insert([0, len(y), len(y) // 2][k % 3], x)
                s.append(dict(c="encode", xs=st(y)))
        S.append(s)
    # one codec after another; moduli which are not powers of two
    s = []
    for k in range(more(40, 300)):
        x = c.rng.choice([0, 3, 5, 6, 7, 9, 10, 12, 100, 255, 257, 1000, (1 << 64) - 1, (1 << 63) + 1, (1 << 63) - 1, 3 << 62, c.rng.randrange(1 << 64), 3 << c.rng.randrange(60), (1 << c.rng.randrange(2, 62)) + 1])
        s.append(dict(c="codec", t=str(x)))
    S.append(s)
    q = 1 << 64
    third = [0, q // 3, 2 * q // 3, q - q // 3]
    edges = [q // 6, q // 2, 5 * q // 6]
    s = [dict(c="codec", t="2"), dict(c="tenc", xs=st([0, 1, q - 1]))]
    for x in [2, 3, q - 2, q // 2, q - 3, 1 << 32, q // 3, 2 * q // 3, (1 << 63) - 1, 255]:
        s += [dict(c="tenc", xs=st([x])), dict(c="tenc", xs=st([0, 1, x, q - 1]))]
    s.append(dict(c="tdec", xs=st(sorted({(v + e) % q for v in third + edges for e in (0, 1, -1, 5000, -5000, 1 << 20, -(1 << 20), 1 << 58, -(1 << 58), q // 6 - 20000, 20000 - q // 6)} | {c.rng.randrange(q) for _ in range(50)}))))
    for m in (0, 1, q - 1):
        ps = pairs(c.rng, [m], q // 6, 20) + pairs(c.rng, [m], q // 6 - 13000, 20)
        s.append(dict(c="rt", tern=True, ms=st(p[0] for p in ps), es=st(p[1] for p in ps)))
    S.append(s)
    judge(c, "CodecTrace", K.norm, "dbg", S, "codec")
    judge(c, "CodecTrace", K.norm, "rel", S[::4] + S[-2:], "codec")


@check("C22")
def c22(c):
    c.mc("LimbsMC", "LimbsMC.cfg")
    c.mc("NoiseMC", "NoiseMC.cfg")
    if THOROUGH:
        for v in ("unsigned", "overflow", "last", "signed"):
            c.mc("NoiseMC", "NoiseMC_x_%s.cfg" % v, expect="Refines")
    st = lambda xs: [str(x % (1 << 64)) for x in xs]
    S = []
    for k, (n, t, kw) in enumerate([(8, 2, {}), (8, 256, {}), (16, 16, dict(std=-40)), (64, 4, dict(std=-20)), (4, 1 << 32, {}), (8, 1 << 62, dict(std=-63)), (32, 1 << 10, dict(bl=4, lv=6)), (16, 2, dict(bl=15, lv=3)), (8, 256, dict(zerokey=True)),
                                    (128, 256, {}), (2, 4, {}), (2048, 256, dict(reps=14)), (1024, 16, dict(reps=9, std=-40))]):
        s = [dict(c="noisectx", n=n, t=str(t), std=kw.get("std", -55), bl=kw.get("bl", 5), lv=kw.get("lv", 9), kbl=5, klv=11, nbl=5, nlv=11, secure=True, zerokey=kw.get("zerokey", False))]
        forms = ["mod", "tern"] + (["raw"] if True else [])
        for rep in range(kw.get("reps", more(14, 80))):
            for form in forms if n <= 128 else [forms[rep % 3]]:
                p = [c.rng.randrange(t) for _ in range(n)] if form == "mod" else [c.rng.choice([0, 1, (1 << 64) - 1]) for _ in range(n)] if form == "tern" else [c.rng.randrange(1 << 64) for _ in range(n)]
                pos = c.rng.randrange(n)
                z = [0] * n
                kind = rep % 14
                if kind == 0:
                    add, fresh, mask = z, True, False
                elif kind == 1:
                    add, fresh, mask = z, True, True
                else:
                    # the phase is exactly the encoding plus an error: the reference plaintext is what the noise is relative to
                    fresh, mask = False, kind % 2 == 0
                    e = list(z)
                    q = 1 << 64
                    big = c.rng.choice([1, -1, q // 2, q // 2 - 1, -(q // 2) + 1, 1 << c.rng.randrange(63), -(1 << c.rng.randrange(63)), c.rng.randrange(q), 3, q // 3, -q // 6])
                    if kind == 2:
                        pass
                    elif kind < 8:
                        e[pos] = big
                    elif kind < 11:
                        e = [c.rng.randrange(-(abs(big) // 2) - 1, abs(big) // 2 + 1) for _ in e]
                        e[pos] = big
                    else:
                        e = [c.rng.randrange(-5, 6) for _ in e]
                        e[[0, n - 1, pos][kind - 11]] = -abs(big)
                    q3 = q // 3
                    enc = [x * (q // t) for x in p] if form == "mod" else [0 if x == 0 else q3 if x == 1 else 2 * q3 for x in p] if form == "tern" else p
                    add = [(a + b) % q for a, b in zip(enc, e)]
                s.append(dict(c="noise", p=st(p), form=form, fresh=fresh, mask=mask, add=st(add)))
        if n >= 16 and t <= 1 << 32:
            s += [dict(c="gswnoise")] * 3
        S.append(s)
    judge(c, "CodecTrace", K.norm, "dbg", S, "noise")
    judge(c, "CodecTrace", K.norm, "rel", S[:4], "noise")


def seed_programs(k, num, depth):
    import os, shutil
    d = core.scratch()
    try:
        p = os.path.join(d, "g.cfg")
        open(p, "w").write("SPECIFICATION Spec\nCONSTANT Depth = %d\nCONSTRAINT Printed\nCHECK_DEADLOCK FALSE\n" % depth)
        return core.tlc_gen("SeedEnv", p, num, depth + 1, seedn(k))
    finally:
        shutil.rmtree(d, ignore_errors=True)


CLIENT = ["qread", "qwrite", "dummy", "negsk", "bits", "enc", "pt", "gsw", "qread", "qwrite", "subsf", "feat", "l2r", "rlwesk"]


@check("C21")
def c21(c):
    c.mc("SeedMC", "SeedMC.cfg")
    if THOROUGH:
        for v, p in (("clock", "Fresh"), ("shared", "Reproducible"), ("restart", "Fresh"), ("random", "Reproducible")):
            c.mc("SeedMC", "SeedMC_x_%s.cfg" % v, expect=p)
    binary = {p: build(p) for p in ("dbg", "rel")}
    groups, cmds = [], []
    pars = [(64, 256, {}), (128, 2, dict(bl=6, lv=8)), (64, 16, dict(std=-40)), (1024, 256, {}), (64, 256, dict(kbl=4, klv=13, nbl=7, nlv=8))]
    progs = seed_programs(1, more(10, 60), more(14, 30))
    for k, prog in enumerate(progs):
        n, t, kw = pars[k % len(pars)]
        par = dict(n=n, t=t, std=-55, bl=5, lv=9, kbl=5, klv=11, nbl=5, nlv=11)
        par.update(kw)
        other = dict(par, n=par["n"] * 2) if k % 2 else dict(par, t=par["t"] * 2)
        # contexts: reproducible and fresh ones, made directly or by a client, of the same and of other parameters; calls interleaved in one process
        def contexts(base):
            kinds = [("ctx", False, par), ("ctx", True, par), ("ctx", False, par), ("ctx", True, par), ("ctx", False, other), ("client", False, par), ("client", True, par), ("client", False, par)]
            out = []
            for j, (kind, sec, pp) in enumerate(kinds):
                h = [dict(pp, c=kind, x=base + j, secure=sec)]
                if kind == "client":
                    h[0].update(rows=3, cols=4)
                out.append(h + [dict(f, x=base + j) for f in prog])
            # some of them live on other threads
            for q in out[2:]:
                for h in q:
                    if h.get("f") not in ("subsf", "l2r") and c.rng.random() < 0.3:
                        h["at"] = c.rng.choice(["worker", "worker", "thread"])
            return out

        def shuffled(base):
            qs, res = [list(q) for q in contexts(base)], []
            while any(qs):
                q = c.rng.choice([q for q in qs if q])
                res.append(q.pop(0))
            return res
        cmds.append([shuffled(0), [x for q in contexts(100) for x in q], shuffled(200)])
    # secure keys and masks over very many contexts and encryptions, in two processes
    p0 = dict(n=64, t=16, std=-55, bl=5, lv=9, kbl=5, klv=11, nbl=5, nlv=11)
    many = []
    for j in range(more(24, 120)):
        many.append(dict(p0, c="ctx" if j % 2 else "client", x=j, secure=True, rows=1, cols=4))
        many += [dict(c="call", x=j, f=f, v=v) for f, v in (("enc", 0), ("enc", 0), ("gsw", 1), ("raw", 0), ("rlwesk", 0), ("neg", 0), ("lwe", 1))]
    many += [dict(c="call", x=j % 24, f="enc", v=0) for j in range(more(100, 600))]
    many += [dict(c="call", x=j, f="many", v=more(1500, 20000)) for j in (0, 1)]
    cmds.append([many, [dict(x, x=x["x"] + 1000) for x in many]])
    brief = []
    for j in range(more(300, 2000)):
        brief += [dict(p0, c="ctx", x=j, secure=j % 10 != 0), dict(c="call", x=j, f="rlwesk", v=0), dict(c="call", x=j, f="enc", v=0)]
    cmds.append([brief, [dict(x, x=x["x"] + 10000) for x in brief]])
    # contexts made at the same moment on several threads
    rush = [dict(p0, c="ctx", x=0, secure=False)]
    for j in range(more(6, 40)):
        rush += [dict(p0, c="rush", k=(8, 2, 16)[j % 3], each=(60, 5, 1)[j // 3 % 3], secure=j % 4 != 3)]
    cmds.append([rush, [dict(x, secure=x["secure"]) for x in rush]])
    # reproducible to the end
    long = []
    for j in range(3):
        long.append(dict(p0, c="ctx", x=j, secure=False))
        long += [dict(c="call", x=j, f=f, v=v) for _ in range(more(3, 10)) for f, v in (("many", more(700, 5000)), ("pt", 0), ("subs", 0), ("rlwesk", 0), ("ternary", 0), ("binary", 0), ("scalar", 0), ("neg", 0), ("ksk", 0))]
    cmds.append([long[: len(long) // 3 * 2], long[len(long) // 3 * 2 :]])
    # clients through their own calls, with the queries opened where the hook compiles
    b = build("hook", must=False) or binary["dbg"]
    own = len([s for g in cmds for s in g])
    # (many rows: whatever prepares them out of order shows)
    for k in range(more(6, 24)):
        par = dict(n=64, t=(256, 2, 16)[k % 3], std=-55, bl=5, lv=9, kbl=5, klv=11, nbl=5, nlv=11, rows=(1, 24, 2, 64, 3, 8)[k % 6], cols=(4, 2, 8)[k % 3], c="client")
        prog = [dict(c="call", f=f, v=c.rng.randrange(4)) for _ in range(more(2, 4)) for f in c.rng.sample(CLIENT, len(CLIENT))]
        group = []
        for proc in range(3):
            s = [dict(par, x=10 * proc + j, secure=j == 1) for j in range(3)]
            cmds_of = [[dict(f, x=10 * proc + j) for f in prog] for j in range(3)]
            s[2]["at"] = ("here", "worker", "thread")[proc]
            group.append(s + [f for step in zip(*cmds_of) for f in step])
        cmds.append(group)
    flat = [s for g in cmds for s in g]
    flat_ev = []
    binary["hook"] = b
    for p in ("dbg", "rel", "hook"):
        idx = [i for i in range(len(flat)) if p == ("hook" if i >= own else "rel" if i % 3 == 2 else "dbg")]
        for i, ev in zip(idx, run_sessions(binary[p], "codec", [flat[i] for i in idx])):
            flat_ev.append((i, ev))
    evs = dict(flat_ev)
    at, merged, mcmds = 0, [], []
    for g in cmds:
        # the processes of a group are judged together, as one run
        merged.append([dict(ev="begin", out="ok")] + [e for j in range(len(g)) for e in evs[at + j]])
        mcmds.append([x for s in g for x in s])
        at += len(g)
    c.traces("SeedTrace", merged, K.snorm, cmds=mcmds, label="seeding", chunk=400)
