"""C08: what the server sees."""
import core, oramlib as O
from core import THOROUGH, build, run_sessions
from checks import check, more, seedn


def norm(e):
    r = dict(ev=e["ev"], out=e.get("out", "ok"), kind=e.get("kind", "one"))
    for k in ("rows", "cols", "n", "crows", "ccols", "nq"):
        r[k] = e.get(k, 0)
    r["ct"] = e.get("ct", [])
    r["touch"] = e.get("touch", [])
    return r


@check("C08")
def c08(c):
    c.mc("ViewMC", "ViewMC.cfg")
    c.mc("ViewMC", "ViewMC_wide.cfg")
    if THOROUGH:
        for v, p in (("addressed", "Indistinguishable"), ("nodata", "Indistinguishable"), ("bits", "Indistinguishable"), ("readonly", "Indistinguishable"), ("padding", "AllFresh"), ("reuse", "AllFresh")):
            c.mc("ViewMC", "ViewMC_x_%s.cfg" % v, expect=p)
    b = build("hook", must=False)
    if b is None:
        c.notes.append("the guarded accessors do not compile with this tree: only the model was checked")
        core.log("C08: hooked build failed; the model alone was checked")
        return
    def f(k, mode, rows, cols, h, t):
        items = rows * cols // h
        B = O.behaviours(mode, items, more(1, 5), more(16, 30), seedn(800 + k), clients=2, pend=4, multi=4, batch=min(rows, items))
        return [O.session(O.new(n=64, t=t, rows=rows, cols=cols, h=h, snap=False, serverview=True), x, clients=2, th=[4, 2, 1]) for x in B]
    S = O.gather(f, [("one", 1, 2, 1, 2), ("one", 1, 8, 1, 256), ("multi", 1, 4, 1, 2), ("multi", 1, 16, 1, 16), ("batch", 3, 4, 3, 2), ("batch", 2, 8, 2, 256), ("batch", 4, 4, 2, 2), ("batch", 3, 2, 3, 2), ("batch", 5, 2, 2, 16)])
    # every index, read and written, by two clients
    for rows, cols, h in ((1, 16, 1), (3, 8, 3), (2, 4, 2)) + ((((1, 64, 1), (4, 32, 4))) if THOROUGH else ()):
        kind = "one" if rows == 1 else "batch"
        s, q = [O.new(n=64, t=2, rows=rows, cols=cols, h=h, snap=False, serverview=True), dict(c="client")], 1
        for i in range(rows * cols // h):
            for op in "rw":
                s.append(dict(c="prep", q=q, kind=kind, op=op, items=[i], val=[{"k": 0}, {"k": 1}, {"r": i}][q % 3], cl=q % 2))
                if i % 3 == 0:
                    s.append(dict(c=kind, q=q, th=4))
                q += 1
        if kind == "batch":
            for n in (0, 2, 3):
                its = list(range(min(n, rows * cols // h)))
                for op in "rw":
                    s += [dict(c="prep", q=q, kind=kind, op=op, items=its, val={"r": 5}), dict(c=kind, q=q, th=4)]
                    q += 1
        S.append(s)
    # the same request again and again
    s = [O.new(n=64, t=256, cols=4, snap=False, serverview=True)]
    for q in range(1, more(12, 60)):
        s += [dict(c="prep", q=q, kind="one", op="rw"[q % 3 == 0], items=[2], val={"k": 0})]
    s += [dict(c="one", q=1, th=4), dict(c="multi", qs=[2, 3, 4, 5], th=4), dict(c="multi", qs=[], th=4), dict(c="multi", qs=[6], th=2)]
    S.append(s)
    # a client that prepares very many queries
    s = [O.new(n=64, t=16, cols=2, snap=False, serverview=True, bl=16, lv=2), dict(c="client")]
    s += [dict(c="prep", q=q, kind="one", op="rw"[q % 2], items=[q // 2 % 2], val={"k": 0}, cl=int(q % 40 == 39)) for q in range(1, more(600, 5000))]
    S.append(s)
    s = [O.new(n=64, t=16, rows=3, cols=2, h=3, snap=False, serverview=True, bl=16, lv=2)]
    s += [dict(c="prep", q=q, kind="batch", op="rw"[q % 2], items=[q // 2 % 2], val={"k": 0}) for q in range(1, more(150, 1500))]
    S.append(s)
    # the default parameters
    S.append([O.new(n=2048, t=256, cols=4, snap=False, serverview=True, cost=60)] + [dict(c="prep", q=q, kind="one", op="rw"[q % 2], items=[q % 4], val={"r": q}) for q in range(1, 5)] + [dict(c="one", q=1, th=4), dict(c="multi", qs=[2, 3], th=4)])
    ev = run_sessions(b, "oram", S)
    for s in ev:
        # nothing but the view is judged here; a request that could not be prepared is not executed
        for e in s:
            if e.get("out") == "ok" and e["ev"] == "prep" and "ct" not in e:
                raise core.ToolError("the hooked build shows nothing")
    c.traces("ViewTrace", [[e for e in s if e["ev"] in ("new", "prep", "one", "multi", "batch")] for s in ev], norm, label="view", chunk=60)
