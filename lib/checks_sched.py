"""C06: the outcome of a request does not depend on scheduling.

Histories generated from OramEnv are replayed on pools of many sizes and from several kinds of calling thread, with
rayon as shipped and with a rayon whose splitting, ordering and stealing decisions follow a seed (harness_shim); every
observation is judged against the sequential specification (OramTrace)."""
import json
from concurrent.futures import ThreadPoolExecutor
import core, oramlib as O
from core import build, run_sessions, THOROUGH
from checks import check, more, seedn

HOW = ["", "thread", "spawn", "deep", "busy", ""]
SMALL = ["OramSched_one", "OramSched_multi", "OramSched_multi0", "OramSched_multi1", "OramSched_batch", "OramSched_oneout", "OramSched_multi3", "OramSched_batchout"]
BIG = ["OramSched_one3", "OramSched_batch3"]
SAME = ["SameResponses", "SameCells"]
MUT = [("x_fused", SAME), ("x_accumulate", "Accumulated"), ("x_nolock", SAME), ("x_holdall", "Deadlock"), ("x_upgrade", "Deadlock"),
       ("x_identity", SAME), ("x_smallpool", "NoPanic"), ("x_tidunwrap", "NoPanic"), ("x_nested", "Deadlock")]


def dress(rng, s, ths, hows=HOW, **head):
    """Threads and calling threads for the requests of a session."""
    out = []
    for a in s:
        a = dict(a)
        if a["c"] == "new":
            a.update(head)
        elif a["c"] in ("one", "multi", "batch"):
            a["th"] = rng.choice(ths)
            a["via"] = rng.choice(hows)
        out.append(a)
    return out


# mode, rows, cols, replicas, N, queries per request
CASES = [("one", 1, 2, 1, 8, 1), ("one", 1, 8, 1, 16, 1), ("one", 1, 64, 1, 8, 1), ("multi", 1, 2, 1, 8, 4), ("multi", 1, 4, 1, 16, 9), ("multi", 1, 8, 1, 8, 5), ("multi", 1, 32, 1, 8, 3),
         ("batch", 2, 4, 2, 8, 2), ("batch", 3, 8, 3, 8, 3), ("batch", 8, 4, 4, 8, 5), ("batch", 5, 8, 2, 16, 4), ("batch", 1, 8, 1, 8, 1), ("batch", 9, 2, 3, 8, 6)]
WIDE = [("one", 1, 128, 1, 8, 1), ("multi", 1, 64, 1, 8, 6), ("multi", 1, 32, 1, 8, 12), ("batch", 4, 32, 4, 8, 4), ("batch", 6, 64, 3, 8, 6)]


def sessions(c, cases, num, depth, base, ths, hows=HOW, **head):
    def f(k, mode, rows, cols, h, n, m):
        items = rows * cols // h
        B = O.behaviours(mode, items, num, depth, seedn(base + k), multi=m, pend=m + 2, batch=min(rows, items))
        return [O.session(O.new(n=n, t=2, rows=rows, cols=cols, h=h), b) for b in B]
    return [dress(c.rng, s, ths, hows, **head) for s in O.gather(f, cases)]


def sweep(rng, mode, rows, cols, h, n, th, per=1, via="", k=0, **head):
    """Every cell is overwritten, on a pool of the given size."""
    items = rows * cols // h
    out = [O.new(n=n, t=2, rows=rows, cols=cols, h=h, cost=items, **head)]
    order = list(range(items))
    rng.shuffle(order)
    # two items of a batch may have no placement together: one at a time
    per = 1 if mode == "batch" else per
    q = 0
    while order:
        part, order = order[:per], order[per:]
        ids = []
        for i in part:
            q += 1
            ids.append(q)
            out.append(dict(c="prep", q=q, kind="batch" if mode == "batch" else "one", op="w", items=[i], cl=0, val=O.value((q + k) % 6, n, 2)))
        out.append(dict(c=mode, th=th, via=via, **(dict(qs=ids) if mode == "multi" else dict(q=ids[0]))))
    return out


SWEEP = [("one", 1, 8, 1, 8), ("multi", 1, 8, 1, 8), ("batch", 3, 8, 3, 8), ("one", 1, 16, 1, 16), ("multi", 1, 16, 1, 8), ("batch", 2, 8, 2, 8), ("one", 1, 4, 1, 8), ("multi", 1, 4, 1, 8), ("batch", 4, 4, 2, 8)]


def sweeps(rng, ths, hows=("",), each=3, **head):
    """each: how many of the shapes every pool size sees."""
    return [sweep(rng, *SWEEP[(j * each + i) % len(SWEEP)], th=th, per=1 + (i + j) % 3, via=hows[(i + j) % len(hows)], k=j, **head) for j, th in enumerate(ths) for i in range(each)]


@check("C06")
def c06(c):
    for m in SMALL + (BIG + ["OramSched_x_nobarrier"] if THOROUGH else []):
        c.mc("OramSched", m + ".cfg", expect=SAME if "_x_" in m else None, tmo=1500)
    for m, inv in MUT:
        c.mc("OramSched", "OramSched_%s.cfg" % m, expect=inv)
    # rayon as it is: pools smaller and larger than the request, callers inside and outside, another server at work
    S = sessions(c, CASES, more(1, 8), 22, 0, [0, 1, 2, 3, 5, 8, 16, 32], twin=True)
    ev = run_sessions(build("dbg"), "oram", S, limit=120)
    c.traces("OramTrace", ev, O.norm, cmds=S, label="threads-dbg")
    S = [s for k in range(more(1, 5)) for s in sessions(c, WIDE, 1, more(8, 14), 40 + 10 * k, [2, 3, 4, 8, 16], twin=True)]
    ev = run_sessions(build("dbg"), "oram", S, limit=120, jobs=4)
    c.traces("OramTrace", ev, O.norm, cmds=S, label="wide-dbg")
    S = sweeps(c.rng, [1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 16, 17] if not THOROUGH else range(1, 34), each=more(3, 9))
    ev = run_sessions(build("dbg"), "oram", S, limit=120)
    c.traces("OramTrace", ev, O.norm, cmds=S, label="sweep-dbg")
    # the global pool of several sizes (requests from outside any pool)
    for g in more((1, 3, 5), (1, 2, 3, 4, 5, 6, 7, 16, 64)):
        S = sessions(c, CASES[1::3], 1, 14, 50 + g, [0], ["", "thread", "spawn"], global_threads=g) + sweeps(c.rng, [0] * more(1, 3), ["", "thread", "spawn"], each=3, global_threads=g)
        ev = run_sessions(build("dbg"), "oram", S, limit=120, env={"RAYON_NUM_THREADS": str(g)})
        c.traces("OramTrace", ev, O.norm, cmds=S, label="global%d" % g)
    S = sessions(c, CASES[2::3], 1, 14, 80, [0, 1, 2, 8], twin=True)
    ev = run_sessions(build("rel"), "oram", S, limit=120)
    c.traces("OramTrace", ev, O.norm, cmds=S, label="threads-rel")
    # controlled schedules
    binary = build("shim", must=False)
    if binary is None:
        c.notes.append("the harness does not build with the controlled scheduler; only rayon's own schedules were explored")
        return
    S, E = [], []
    jobs = []
    for seed in range(more(20, 240)):
        cases = [CASES[(seed * 3 + j) % len(CASES)] for j in range(3)]
        ss = sessions(c, cases, 1, more(10, 14), 100 + 7 * seed, [1, 1, 2, 3, 4], sched=seed, twin=seed % 5 == 0)
        if seed % more(4, 2) == 1:
            ss += sessions(c, [WIDE[seed // more(4, 2) % len(WIDE)]], 1, 6, 103 + 7 * seed, [2, 3, 4], sched=seed)
        ss += sweeps(c.rng, [2 + seed % 6], each=1 if seed % 3 else 2, sched=seed)
        jobs.append((seed + 4 * core.SEED, ss))
    def run(j):
        seed, ss = j
        return run_sessions(binary, "oram", ss, limit=120, jobs=2, env={"PVH_SCHED": str(seed), "RAYON_NUM_THREADS": str(1 + seed % 4)})
    with ThreadPoolExecutor(4) as ex:
        for (seed, ss), ev in zip(jobs, ex.map(run, jobs)):
            S += ss
            E += ev
    c.traces("OramTrace", E, O.norm, cmds=S, label="scheduled")
