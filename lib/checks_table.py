"""C25: tables of numbers and bits."""
import shutil
import core
from core import THOROUGH, build, run_sessions, scratch
from checks import check, more, seedn


def norm(e):
    small = [min(int(x), 2) for x in e.get("xs", [])]
    return dict(ev=e["ev"], out=e.get("out", "ok"), text=e.get("text", []), absent=bool(e.get("absent", False)), rows=e.get("rows", []),
                table=e.get("table", []), xs=small, x=e.get("x", []))


def render(t):
    return "".join("0123456789,\n\r\"+- .aé"[i] for i in t)


def digits(x):
    return [int(d) for d in str(x)]


def big(c, lines, width, slip=None):
    """A long text (longer than any reading buffer), written row by row."""
    t = []
    for i in range(lines):
        for j in range(width):
            t += ([10] if j else []) + ([18] if i == 0 else digits(c.rng.choice([c.rng.randrange(10), c.rng.randrange(1 << 12), c.rng.randrange(1 << 64)])))
        if i == slip:
            t += [10, 1]
        t += [11] if i % 50 else [12, 11]
    return t


@check("C25")
def c25(c):
    c.mc("TableMC", "TableMC.cfg")
    if THOROUGH:
        for v in ("header", "ragged", "skip", "lastline", "unquoted"):
            c.mc("TableMC", "TableMC_x_%s.cfg" % v, expect="RightSoFar")
    d = scratch()
    try:
        texts = [e["text"] for e in core.tlc_gen("TableEnv", "TableEnv.cfg", more(1500, 12000), 45, seedn(25))]
        fixed = [[], [11], [18], [18, 11], [18, 11, 5], [18, 11, 5, 11], [12, 11, 18, 12, 11, 5], [18, 10, 18, 11, 1, 10, 2, 11, 11, 11, 3, 10, 4], [13, 18, 13, 11, 13, 7, 13],
                 [18, 11, 13, 7], [18, 11, 13], [18, 10, 11, 1, 10], [10, 11, 1, 10, 2], [18, 12, 1, 12, 2, 12], [13, 18, 11, 18, 13, 11, 4, 11]]
        texts += fixed + [big(c, 400, 5), big(c, 60, 40), big(c, 400, 5, slip=397), big(c, 1500, 1)] + [big(c, c.rng.randrange(2, 300), c.rng.randrange(1, 9)) for _ in range(more(6, 40))]
        cmds = [dict(c="csv", q=i, text=t) for i, t in enumerate(texts)] + [dict(c="csv", q=10 ** 6, text=[], absent=True)]
        # tables of all small shapes, and their columns
        for r in list(range(1, 13)) + [17, 40]:
            for w in list(range(0, 13)) + [16, 33]:
                cmds.append(dict(c="columns", table=[[c.rng.randrange(1 << 30) for _ in range(w)] for _ in range(r)]))
        for n in [0, 1, 2, 8, 31, 32, 33, 63, 64, 65, 128] * more(6, 40):
            xs = [c.rng.randrange(2) for _ in range(n)]
            cmds.append(dict(c="bits", xs=list(xs)))
            if n:
                i = c.rng.randrange(n)
                cmds.append(dict(c="bits", xs=[1 if k == i else 0 for k in range(n)]))
                cmds.append(dict(c="bits", xs=[1 - int(k == i) for k in range(n)]))
                xs[i] = c.rng.choice([2, 3, 1 << 32, (1 << 64) - 1])
                cmds.append(dict(c="bits", xs=list(xs)))
        S = [cmds[i::8] for i in range(8)]
        for profile in ("dbg", "rel"):
            ev = run_sessions(build(profile), "codec", S, env=dict(TMPDIR=d))
            c.traces("TableTrace", ev, norm, cmds=S, label="tables-" + profile)
    finally:
        shutil.rmtree(d, ignore_errors=True)
