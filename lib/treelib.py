"""Drivers and normalisation for the decision-tree trace specification."""
import os, shutil
import core

# Thresholds, features and indices have 64 bits, TLC's integers 32.  The specification only compares them, so they are told
# to it through a map which keeps their order: itself up to BIG, and one to one on the numbers within REACH of the bases, which
# are the large ones the drivers use (what lies between two of these ranges becomes one number, different from all of them).
BIG = 1 << 30
REACH = 5000
BASES = [1 << 32, 1 << 48, 1 << 53, (1 << 54) + 40000, 1 << 60, 1 << 62, 1 << 63, (1 << 64) - 1]


def small(v):
    if v <= BIG:
        return v
    for k, b in enumerate(BASES):
        at = BIG + 1 + k * (2 * REACH + 2)
        if v < b - REACH:
            return at
        if v <= b + REACH:
            return at + 1 + v - (b - REACH)
    return at + 1


def clampt(t):
    if t.get("k") != "i":
        return t
    return dict(t, th=small(t["th"]), ft=small(t["ft"]), ix=small(t["ix"]), l=clampt(t["l"]), r=clampt(t["r"]))


NONE = dict(k="n")


def norm(e):
    r = dict(ev=e["ev"], out=e["out"])
    for k in ("tree", "after", "res", "res2"):
        r[k] = clampt(e[k]) if isinstance(e.get(k), dict) else NONE
    for k in ("q", "last", "leaves", "internal", "depth", "maxft", "count", "inputs", "n", "lv"):
        r[k] = small(int(e.get(k, 0) or 0))
    if e["ev"] == "default":
        r["depth"] = e.get("depth", 1)
    r["keep"] = bool(e.get("keep", False))
    r["f"] = [small(x) for x in e.get("f", [])]
    r["fs"] = [[small(x) for x in f] for f in e.get("fs", [])]
    r["flat"] = [dict(x, th=small(x["th"]), ft=small(x["ft"]), ix=small(x["ix"])) for x in e.get("flat", [])]
    for k in ("v", "max", "vs", "outs", "levels"):
        r[k] = e.get(k, [])
    return r


def new(n=64, t=16, **kw):
    c = dict(c="new", n=n, t=t, std=-55, bl=5, lv=9, kbl=5, klv=11, nbl=5, nlv=11, secure=True)
    c.update(kw)
    return c


def programs(head, num, depth, seed, nf=3, maxdepth=3, style="bushy", enc=True):
    d = core.scratch()
    try:
        p = os.path.join(d, "g.cfg")
        open(p, "w").write("""SPECIFICATION Spec
CONSTANTS N = %d NF = %d MaxDepth = %d Style = "%s" Depth = %d EncOn = %s
CONSTRAINT Printed
CHECK_DEADLOCK FALSE
""" % (head["n"] if head else 1000, nf, maxdepth, style, depth, "TRUE" if enc else "FALSE"))
        return [([head] if head else []) + b for b in core.tlc_gen("TreeEnv", p, num, depth + 1, seed)]
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---- drivers' own trees: label given as a number
def L(x):
    return dict(k="l", v=[i for i in range(64) if (x >> i) & 1])


def I(th, ft, l, r, ix=0, op="leq"):
    return dict(k="i", th=th, ft=ft, ix=ix, op=op, l=l or NONE, r=r or NONE)


def num(t):
    return sum(1 << i for i in t["v"])


def text(t):
    """The tree as a document in the documented format."""
    if t["k"] == "n":
        return "null"
    if t["k"] == "l":
        return '{"leaf":%d}' % num(t)
    return '{"internal":{"threshold":%d,"feature":%d,"index":%d,"op":"%s","left":%s,"right":%s}}' % (t["th"], t["ft"], t["ix"], t["op"], text(t["l"]), text(t["r"]))


def rand(rng, d, n, nf, labels=(0, 1, 2, 3, 10, 200), pnone=0.08, pleaf=0.2, top=True):
    if d == 0 or (not top and rng.random() < pleaf):
        return L(rng.choice(labels))
    if not top and rng.random() < pnone:
        return NONE
    return I(rng.choice([0, n - 1, rng.randrange(n), rng.randrange(n)]), rng.randrange(nf), rand(rng, d - 1, n, nf, labels, pnone, pleaf, False),
             rand(rng, d - 1, n, nf, labels, pnone, pleaf, False), ix=rng.randrange(5))


def nodes(t):
    """The internal nodes, depth first, left to right."""
    return [t] + nodes(t["l"]) + nodes(t["r"]) if t["k"] == "i" else []


def shaped(rng, comps, style, ix=lambda: 0):
    """A tree whose internal nodes make the given (threshold, feature) comparisons, in this order."""
    if not comps:
        return rng.choice([L(rng.randrange(16)), L(1), L(2)]) if rng.random() < 0.9 else NONE
    (th, ft), rest = comps[0], comps[1:]
    k = {"line": rng.choice((0, len(rest))), "rows": len(rest) // 2, "mixed": rng.randrange(len(rest) + 1)}[style]
    return I(th, ft, shaped(rng, rest[:k], style, ix), shaped(rng, rest[k:], style, ix), ix=ix())
