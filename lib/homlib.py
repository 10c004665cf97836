"""Drivers and normalisation for the ring-operation trace specification."""
import os, shutil
import core

BIG = 1 << 30
INTS = ("d", "a", "b", "g", "l", "k", "key", "bit", "width", "nbits")


def clamp(x):
    x = int(x)
    return x if -BIG < x < BIG else (BIG if x > 0 else -BIG)


def norm(e):
    r = dict(ev=e["ev"], out=e.get("out", "ok"), form=e.get("form", "std"))
    for k in INTS:
        r[k] = clamp(e.get(k, 0) or 0)
    r["bits"] = e.get("bits", []) or []
    r["outs"] = e.get("outs", [])
    r["res"] = [clamp(x) for x in e.get("res", [])]
    p = e.get("p", [])
    r["p"] = [clamp(x) for x in p] if isinstance(p, list) else []
    for k in ("v0", "v1", "gv", "raw", "lraw", "ls"):
        r[k] = e.get(k, [])
    if e["ev"] == "new":
        for k in ("n", "t", "sk"):
            r[k] = e.get(k, 0)
        for k, d in PAR.items():
            r[k] = e.get(k, d)
        r["ng"] = e.get("ng", 2)
    return r


PAR = dict(std=-55, bl=5, lv=9, kbl=5, klv=11, nbl=5, nlv=11)


def new(n=8, t=16, nr=4, ng=2, nl=2, showg=True, show1=False, **kw):
    c = dict(c="new", n=n, t=t, nr=nr, ng=ng, nl=nl, showg=showg, show1=show1, secure=True)
    c.update(PAR)
    c.update(kw)
    return c


def programs(profile, head, num, depth, seed):
    d = core.scratch()
    try:
        p = os.path.join(d, "g.cfg")
        open(p, "w").write("""SPECIFICATION Spec
CONSTANTS N = %d T = %d NegStd = %d Bl = %d Lv = %d Kbl = %d Klv = %d Nbl = %d Nlv = %d NR = %d NG = %d NL = %d Profile = "%s" Depth = %d
CONSTRAINT Printed
CHECK_DEADLOCK FALSE
""" % (head["n"], head["t"], -head["std"], head["bl"], head["lv"], head["kbl"], head["klv"], head["nbl"], head["nlv"],
            head["nr"], head["ng"], head["nl"], profile, depth))
        return [[head] + b for b in core.tlc_gen("HomEnv", p, num, depth + 1, seed)]
    finally:
        shutil.rmtree(d, ignore_errors=True)
