"""Drivers and normalisation for the ORAM trace specification."""
import os, shutil
import core

DEF = dict(ev="", out="ok", q=0, qs=[], items=[], map=[], val=[], vbig=0, op="r", kind="one", ccols=0, crows=0, len=0,
           rows=0, cols=0, h=1, t=2, items_n=0, tab=[], mem=[], cells=[], hc=0, resp=[], nq=0)


def norm(e):
    """Only what the specification looks at, with every field present and well typed."""
    r = dict(ev=e["ev"], out=e.get("out", "ok"))
    ev = e["ev"]
    if ev == "new":
        for k in ("rows", "cols", "h"):
            r[k] = e.get(k, 1)
        r["items_n"] = e.get("items_n", r["rows"] * r["cols"] // r["h"])
        if e["out"] == "ok":
            for k in ("t", "tab", "mem"):
                r[k] = e[k]
    elif ev == "prep":
        for k in ("q", "items", "op", "kind", "ccols", "crows", "vbig"):
            r[k] = e.get(k, DEF[k])
        if e["out"] == "ok":
            for k in ("map", "len", "val"):
                r[k] = e[k]
        r["items"] = [min(i, 10 ** 6) for i in r["items"]]
    elif ev in ("one", "multi", "batch"):
        r["qs"] = e["qs"] if "qs" in e else [e.get("q", 0)]
        r["nq"] = e.get("nq", 10 ** 6)
        r["resp"] = e.get("resp", [])
        r["mix"] = 1 if e.get("rowpick") else 0
    elif ev == "drop":
        r["q"] = e["q"]
    if "cells" in e:
        c = e["cells"]
        r["hc"] = 2 if c == "panic" else (1 if isinstance(c, list) else 0)
        if r["hc"] == 1:
            r["cells"] = c
    else:
        r["hc"] = 0
    return r


def behaviours(mode, items, num, depth, seed, nvals=6, clients=2, pend=3, multi=4, batch=3):
    """Histories generated by TLC's simulator from OramEnv."""
    d = core.scratch()
    try:
        p = os.path.join(d, "g.cfg")
        open(p, "w").write("""SPECIFICATION Spec
CONSTANTS Mode = "%s" NItems = %d NVals = %d NClients = %d MaxPend = %d MaxMulti = %d MaxBatch = %d Depth = %d
CONSTRAINT Printed
CHECK_DEADLOCK FALSE
""" % (mode, items, nvals, clients, pend, multi, batch, depth))
        return core.tlc_gen("OramEnv", p, num, depth + 1, seed)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def gather(fn, args):
    """fn(index, *arg) -> list of sessions, computed in parallel (each runs TLC), concatenated in order."""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(core.NPROC) as ex:
        fs = [ex.submit(fn, k, *(a if isinstance(a, tuple) else (a,))) for k, a in enumerate(args)]
        return [s for f in fs for s in f.result()]


def new(n=8, t=2, rows=1, cols=16, h=1, snap=True, setup="random", th=0, **kw):
    c = dict(c="new", n=n, t=t, rows=rows, cols=cols, h=h, snap=snap, setup=setup, th=th, items_n=rows * cols // h)
    c.update(kw)
    return c


def value(v, n, t):
    """Payload number v; binary ones are needed where decrypt_db shows the cells."""
    if v == 1:
        return {"k": t - 1}
    if v == 2:
        return {"s": [[n - 1, t - 1]]}
    if v == 3:
        return {"k": 0}
    return {"r": 7000 + v}


def session(head, hist, clients=2, th=None):
    """A TLC behaviour as harness commands for one concrete configuration."""
    n, t = head["n"], head["t"]
    out = [dict(head, cost=3)]
    out += [dict(c="client") for _ in range(clients - 1)]
    for a in hist:
        a = dict(a)
        if a["c"] == "prep":
            a["val"] = value(a.pop("v"), n, t)
            a["cl"] = min(a.get("cl", 0), clients - 1)
        elif a["c"] in ("one", "multi", "batch"):
            a["th"] = th[len(out) % len(th)] if th else 4
            a["cost"] = 1 + head["rows"] * head["cols"] * n // 4096
        out.append(a)
    return out


def audit(items, start, kind="one", mode="one", th=4):
    out = []
    for k, i in enumerate(items):
        out.append(dict(c="prep", q=start + k, kind=kind, op="r", items=[i], cl=0))
        out.append(dict(c=mode, **({"q": start + k} if mode != "multi" else {"qs": [start + k]}), th=th))
    return out


def several(rng, head, hists, hs, clients=2, th=None):
    """Behaviours of several databases of the same clients, interleaved; hs: replicas per database."""
    K = len(hists)
    out = [dict(head, h=hs[0], items_n=head["rows"] * head["cols"] // hs[0])]
    out += [dict(c="share", db=k, h=hs[k]) for k in range(1, K)]
    out += [dict(c="client") for _ in range(clients - 1)]
    todo = []
    for k, b in enumerate(hists):
        todo.append([dict(a) for a in session(head, b, clients, th)[clients:]])
    while any(todo):
        k = rng.choice([k for k in range(K) if todo[k]])
        a = todo[k].pop(0)
        a["db"] = k
        if "q" in a:
            a["q"] = a["q"] * K + k
        if "qs" in a:
            a["qs"] = [q * K + k for q in a["qs"]]
        out.append(a)
    return out


def split(cmds, evs):
    """The events of each database on their own: each projection has to be a behaviour of Oram."""
    C, E = [], []
    for c, s in zip(cmds, evs):
        for k in sorted({e.get("db", 0) for e in s}):
            E.append([e for e in s if e.get("db", 0) == k])
            C.append(c)
    return C, E
