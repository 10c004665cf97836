"""C19: every valid parameter set gives a working protocol.

TLC draws parameter sets from ParamEnv19 (valid by ParamSpace's error bound); the real protocol is run under each and
judged by the same trace specifications as the other properties (which do not mention parameters at all)."""
import os, shutil
import core, homlib as H, oramlib as O, treelib as T
from core import THOROUGH, build, run_sessions
from checks import check, more, oram_judge, seedn

MUTANTS = ("fillctx", "fillks", "consumesel", "consumeneg", "lwesel", "kslevelsel", "neglevelks", "truncneg")


def draw(kind, mink, maxk, cols, acc, num, seed):
    d = core.scratch()
    try:
        p = os.path.join(d, "g.cfg")
        open(p, "w").write("""SPECIFICATION Spec
CONSTANTS Kind = "%s" MinK = %d MaxK = %d Cols = %d Acc = %d
CONSTRAINT Printed
CHECK_DEADLOCK FALSE
""" % (kind, mink, maxk, cols, acc))
        # some draws meet no valid set of the asked shape
        return core.tlc_gen("ParamEnv19", p, 6 + 4 * num, 2, seed)[:num]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def concrete(x, k):
    p = x["p"]
    return dict(n=1 << p["k"], t=1 << p["lt"], std=p["sg"] - 64, bl=p["sel"][0], lv=p["sel"][1], kbl=p["ks"][0], klv=p["ks"][1],
                nbl=p["neg"][0], nlv=p["neg"][1], secure=k % 4 != 3)


def oram(par, k, mode, rows, cols, h, depth, th):
    items = rows * cols // h
    b = O.behaviours(mode, items, 1, depth, seedn(700 + k), multi=4, batch=min(3, items))[0]
    snap = par["t"] == 2 and par["n"] <= 64
    s = O.session(O.new(rows=rows, cols=cols, h=h, snap=snap, cost=3 + par["n"] // 64, **par), b, th=th)
    if not snap:
        m = "batch" if mode == "batch" else mode
        s += O.audit(range(items), 5000, kind="batch" if mode == "batch" else "one", mode=m)
    return s


def tree(par, k, depth, num):
    return T.programs(T.new(cost=3 + par["n"] // 16, **par), num, depth, seedn(800 + k), nf=2, maxdepth=3, style=("bushy", "line", "wide")[k % 3])


def chained(S, k):
    """k sessions after one another in a process: what one parameter set leaves behind must not matter to the next."""
    m = -(-len(S) // k)
    return [[x for s in S[i::m] for x in s] for i in range(m)]


@check("C19")
def c19(c):
    c.mc("Wiring", "Wiring.cfg")
    for m in MUTANTS if THOROUGH else MUTANTS[:2]:
        # a mistake shows up only where the decompositions differ
        c.mc("Wiring", "Wiring_x_%s.cfg" % m, expect="C19Wiring")
        c.mc("Wiring", "Wiring_same_%s.cfg" % m)
    f = lambda k, *a: draw(*a, seedn(600 + k))
    P = O.gather(f, [("oram", 3, 6, 16, 60, more(14, 60))] * 4 + [("oram", 7, 10, 8, 40, more(6, 30))])
    PT = O.gather(f, [("tree", 4, 6, 2, 4, more(16, 60))] * 2 + [("tree", 7, 9, 2, 4, more(5, 20))])
    PB = O.gather(f, [("oram", 11, 11, 4, 16, more(5, 24))])
    PTB = O.gather(f, [("tree", 11, 11, 2, 4, more(3, 12))])
    shapes = [("one", 1, 8, 1), ("multi", 1, 4, 1), ("batch", 3, 8, 3), ("one", 1, 16, 1), ("multi", 1, 8, 1), ("batch", 4, 4, 2), ("one", 1, 2, 1)]
    small = [(p, k) for k, p in enumerate(P)]
    S = O.gather(lambda k, x, j: [oram(concrete(x, j), j, *shapes[j % len(shapes)], depth=more(14, 24) if x["p"]["k"] < 7 else 8, th=[4, 2, 8])], small)
    oram_judge(c, "dbg", chained(S, 3), "parameters")
    ST = O.gather(lambda k, x, j: tree(concrete(x, j), j, 14 if x["p"]["k"] < 7 else 8, 1), [(p, k) for k, p in enumerate(PT)])
    ST = chained(ST, 3)
    ev = run_sessions(build("dbg"), "tree", ST)
    c.traces("TreeTrace", ev, T.norm, cmds=ST, label="tree-parameters")
    # large rings, in the shipped profile
    SB = O.gather(lambda k, x, j: [oram(concrete(x, j), 50 + j, *shapes[(j * 2 + 1) % 6][:1], *((1, 4, 1) if shapes[(j * 2 + 1) % 6][0] != "batch" else (3, 4, 3)), depth=6, th=[4])], [(p, k) for k, p in enumerate(PB)])
    oram_judge(c, "rel", SB, "large-parameters")
    ST = O.gather(lambda k, x, j: tree(concrete(x, j), j, 6, 1), [(p, 60 + k) for k, p in enumerate(PTB)])
    ev = run_sessions(build("rel"), "tree", ST)
    c.traces("TreeTrace", ev, T.norm, cmds=ST, label="large-tree-parameters")
    c.notes.append("parameter sets: " + " ".join("%d:%s" % (1 << x["p"]["k"], "/".join("%dx%d" % tuple(x["p"][r]) for r in ("sel", "ks", "neg"))) for x in (P + PT + PB + PTB)))
