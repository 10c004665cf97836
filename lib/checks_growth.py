"""C09: noise over long histories."""
import core, oramlib as O
from core import THOROUGH, build, run_sessions
from checks import check, more, seedn


def norm(e):
    r = dict(ev=e["ev"], out=e.get("out", "ok"), nz=e.get("nz", []), nq=e.get("nq", 1))
    r["warm"] = e.get("warm", 1)
    r["b"] = (int(e.get("t", 2)).bit_length() - 1) if e["ev"] == "new" else 1
    return r


def history(c, kind, head, n, maxq=4):
    items = head["rows"] * head["cols"] // head["h"]
    s = [dict(head, warm=items)] + O.audit(range(items), 100000, kind="batch" if kind == "batch" else "one", mode=kind)
    q = 1
    for i in range(n):
        op = c.rng.choice("rrw")
        if kind == "one":
            s += [dict(c="prep", q=q, kind="one", op=op, items=[c.rng.randrange(min(items, 3))], val={"r": q}), dict(c="one", q=q, th=4)]
            q += 1
        elif kind == "multi":
            ids, wr = [], set()
            for _ in range(c.rng.choice([1, 2, maxq])):
                it = c.rng.randrange(items)
                op = "r" if it in wr else c.rng.choice("rrw")
                if op == "w":
                    wr.add(it)
                s.append(dict(c="prep", q=q, kind="one", op=op, items=[it], val={"r": q}))
                ids.append(q)
                q += 1
            s.append(dict(c="multi", qs=ids, th=4))
        else:
            s += [dict(c="prep", q=q, kind="batch", op=op, items=[c.rng.randrange(items)], val={"r": q}), dict(c="batch", q=q, th=4)]
            q += 1
    # items which nobody addressed carry the noise of all accesses as well
    return [dict(s[0], cost=n)] + s[1:] + O.audit(range(items), 200000, kind="batch" if kind == "batch" else "one", mode=kind)


@check("C09")
def c09(c):
    c.mc("GrowthMC", "GrowthMC.cfg")
    c.loop("GrowthLoop")
    if THOROUGH:
        for v in ("double", "once", "both"):
            c.mc("GrowthMC", "GrowthMC_x_%s.cfg" % v, expect="Linear")
    # every history is judged twice: the noise against Growth, and what was read against the memory specification
    def judge(profile, S, label, **kw):
        ev = run_sessions(build(profile), "oram", S, tmo=850)
        c.traces("GrowthTrace", ev, norm, cmds=S, label=label + "-noise-" + profile)
        c.traces("OramTrace", ev, O.norm, cmds=S, label=label + "-" + profile)
        return ev
    n = more(160, 1500)
    S = []
    for kind, kw in (("one", dict(n=8, cols=4)), ("one", dict(n=64, cols=8)), ("one", dict(n=16, cols=2, t=16)), ("multi", dict(n=8, cols=4)), ("multi", dict(n=32, cols=2, t=16)),
                     ("batch", dict(n=8, rows=2, cols=2, h=2)), ("batch", dict(n=16, rows=3, cols=4, h=3)), ("batch", dict(n=8, rows=4, cols=2, h=2, t=256))):
        d = dict(t=2, snap=False)
        d.update(kw)
        S.append(history(c, kind, O.new(**d), n))
    judge("rel", S, "long")
    # other supported decompositions of the selection, and the default parameters of the program
    n = more(40, 300)
    S = [history(c, kind, O.new(n=64, t=2, cols=4, snap=False, bl=bl, lv=lv), n) for kind, bl, lv in (("one", 4, 10), ("one", 6, 8), ("multi", 7, 7), ("one", 3, 12), ("multi", 8, 6), ("one", 10, 4))]
    S.append(history(c, "batch", O.new(n=64, t=2, rows=2, cols=4, h=2, snap=False, bl=6, lv=8), n))
    judge("rel", S, "decompositions")
    S = [history(c, "one", O.new(n=2048, t=256, cols=16, snap=False), more(45, 400)), history(c, "multi", O.new(n=2048, t=256, cols=4, snap=False), more(12, 100), maxq=3),
         history(c, "batch", O.new(n=2048, t=256, rows=3, cols=4, h=3, snap=False), more(20, 150))]
    judge("rel", S, "default")
