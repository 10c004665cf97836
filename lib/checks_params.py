"""C18: parameter files, the command line and what the program reports.

Inputs are drawn from ParamsEnv, given to the real parser (by library call) and to the real program (dry runs, and real
runs at small parameters), and what they did is judged by ParamsTrace."""
import json, os, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
import core, oramlib as O
from core import build, run_sessions, scratch, THOROUGH, ToolError
from checks import check, more, seedn

MEASURED = ("setup_duration", "server_duration", "response_duration", "final_noise")


def mode_json(o):
    if o["m"] == 0:
        return {"SingleQuery": {"item_count": o["a"], "iterations": o["it"]}}
    if o["m"] == 1:
        return {"MultiQuery": {"item_count": o["a"], "query_count": o["b"], "iterations": o["it"]}}
    return {"Batched": {"rows": o["a"], "cols": o["b"], "iterations": o["it"]}}


def tfhe_json(t):
    return {"standard_deviation": float(t["std"]), "polynomial_size": t["n"], "base_log": t["bl"], "level_count": t["lv"],
            "key_switch_base_log": t["kbl"], "key_switch_level_count": t["klv"], "negs_base_log": t["nbl"], "negs_level_count": t["nlv"],
            "plaintext_modulus": 1 << t["lt"], "secure_seed": t["ss"] == "true"}


def text(l):
    return json.dumps([[[mode_json(o) for o in g["orams"]], [tfhe_json(t) for t in g["tfhes"]]] for g in l], indent=1)


ONE = [[[{"SingleQuery": {"item_count": 16, "iterations": 1}}], [tfhe_json(dict(std="-55", n=2048, bl=5, lv=9, kbl=5, klv=11, nbl=5, nlv=11, lt=8, ss="true"))]]]


def malformed(k):
    """Texts which are no parameter list."""
    def edit(f):
        x = json.loads(json.dumps(ONE))
        f(x[0])
        return json.dumps(x)
    L = ["", "{", "null", "7", json.dumps(ONE)[:-1], json.dumps(ONE) + " x", "[[[]]]", "[[[],[],[]]]",
         edit(lambda g: g[1][0].pop("base_log")), edit(lambda g: g[1][0].pop("secure_seed")), edit(lambda g: g[0][0]["SingleQuery"].pop("iterations")),
         edit(lambda g: g[0].append({"Single": {"item_count": 1, "iterations": 1}})), edit(lambda g: g[0].append({"Batched": {"rows": 3, "iterations": 1}})),
         edit(lambda g: g[1][0].update(level_count=-1)), edit(lambda g: g[1][0].update(level_count=2.5)), edit(lambda g: g[1][0].update(secure_seed="yes")),
         edit(lambda g: g[1][0].update(polynomial_size="2048")), edit(lambda g: g[0][0]["SingleQuery"].update(item_count=None)), "[[1,2]]", "\x00\x01"]
    return L[k % len(L)]


def command(i, path):
    a = ["--params", path] if path is not None else []
    names = dict(mode=("cli", "mode"), item_count=("cli", "item_count"), query_count=("cli", "query_count"), rows=("cli", "rows"), cols=("cli", "cols"),
                 standard_deviation=("tfhe", "std"), polynomial_size=("tfhe", "n"), base_log=("tfhe", "bl"), level_count=("tfhe", "lv"),
                 key_switch_base_log=("tfhe", "kbl"), key_switch_level_count=("tfhe", "klv"), negs_base_log=("tfhe", "nbl"), negs_level_count=("tfhe", "nlv"),
                 plaintext_modulus=("tfhe", "lt"))
    for f in sorted(i["given"]):
        p, k = names[f]
        v = i[p][k]
        a += ["--" + f.replace("_", "-"), str(1 << v if f == "plaintext_modulus" else v)]
    return a + (["--dryrun"] if i["dry"] else [])


def measured(name, s, lt):
    if s == "-":
        return s
    try:
        x = float(s)
    except ValueError:
        return s
    # a verified result has its noise inside the decryption margin
    ok = 0 <= x < 1e6 and (name != "final_noise" or x <= 64 - lt - 1)
    return "num" if ok else s


def run_program(binary, i, n):
    d = scratch()
    try:
        path = None
        if i["file"] != "absent":
            path = os.path.join(d, "p.json")
            open(path, "w").write(text(i["list"]) if i["file"] == "ok" else malformed(i["bad"]))
        elif n % 3 == 0:
            path = os.path.join(d, "missing", "p.json")
        args = command(i, path)
        for attempt in range(3):
            try:
                p = subprocess.run([binary] + args, capture_output=True, text=True, timeout=250, cwd=d)
            except subprocess.TimeoutExpired:
                return dict(i, ev="run", out="hang", args=args)
            # two items may rarely fail to be placed: such a batch is refused
            if not (p.returncode == 101 and "plac" in p.stderr and "mapping" in p.stderr):
                break
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return dict(i, ev="run", out="ok", args=args, stdout=p.stdout, stderr=p.stderr[-400:], rc=p.returncode)


def parse(e):
    """The program's output as header names, rows keyed by header name, comment lines per row, and anything else."""
    txt = e["stdout"]
    lines = txt.split("\n")
    lines.pop()  # an unfinished line is not a report
    heads = [k for k, x in enumerate(lines) if "standard_deviation" in x and "final_noise" in x]
    r = dict(headers=len(heads), header=[], rows=[], extra=[], junk=0)
    if not heads:
        r["junk"] = len(lines)
        return r
    h = [x.strip() for x in lines[heads[0]].split(",")]
    r["header"] = h
    r["junk"] = heads[0]
    for k, x in enumerate(lines[heads[0] + 1:]):
        if heads[0] + 1 + k in heads:
            continue
        if x.startswith("###"):
            try:
                kv = dict(y.split("=") for y in x[3:].replace(" ", "").split(","))
                float(kv["noise"])
                r["extra"][-1].append(dict(mode=int(kv["mode"]), iter=int(kv["iter"])))
            except (ValueError, KeyError, IndexError):
                r["junk"] += 1
            continue
        c = [y.strip() for y in x.split(",")]
        if len(c) != len(h):
            r["rows"].append(dict(ragged=x))
            r["extra"].append([])
            continue
        row = dict(zip(h, c))
        try:
            lt = int(row.get("plaintext_modulus", "2^0").split("^")[1])
        except (ValueError, IndexError):
            lt = 0
        for m in MEASURED:
            if m in row:
                row[m] = measured(m, row[m], lt)
        r["rows"].append(row)
        r["extra"].append([])
    return r


def with_broken(cfgs):
    for x in cfgs:
        x["tfhe"]["broken"] = {"-1": 1, "-2": 1, "-3": 1, "-26": 2}.get(x["tfhe"]["std"], 0)
    return cfgs


def norm(e):
    r = dict(ev=e["ev"], out=e["out"])
    if e["out"] != "ok":
        return r
    r.update(file=e["file"], list=e["list"])
    if e["ev"] == "expand":
        r.update(parsed=e["parsed"], cfgs=with_broken(e["cfgs"]), again=with_broken(e["again"]))
    else:
        r.update(cli=e["cli"], tfhe=e["tfhe"], dry=e["dry"], exit="ok" if e["rc"] == 0 else "failed")
        r.update(parse(e))
    return r


def inputs(real, num, seed):
    return core.tlc_gen("ParamsEnv", "ParamsEnv_real.cfg" if real else "ParamsEnv.cfg", num, 2, seed)


def unreadable(c):
    """Parameters under which nothing can be read back, or not for long, in every mode, at every place of a list."""
    t0 = dict(std="-55", n=64, bl=5, lv=9, kbl=5, klv=11, nbl=5, nlv=11, lt=4, ss="true", broken=0)
    good, bad = [], []
    for m, a, b in ((0, 4, 0), (1, 8, 3), (2, 12, 4)):
        good.append(dict(m=m, a=a, b=b, it=1 + m))
    for std in ("-1", "-2", "-3"):
        bad.append(dict(t0, std=std, broken=1))
    L = []
    for k, o in enumerate(good):
        L.append([dict(orams=[dict(o, it=1)], tfhes=[bad[k]])])
        L.append([dict(orams=[dict(o, it=3)], tfhes=[t0, bad[(k + 1) % 3], t0])])
        L.append([dict(orams=[good[(k + 1) % 3]], tfhes=[t0]), dict(orams=[o], tfhes=[bad[(k + 2) % 3]]), dict(orams=[o], tfhes=[t0])])
    # wearing out takes about fifty accesses
    worn = dict(t0, std="-26", broken=2)
    for o in (dict(m=0, a=2, b=0, it=250), dict(m=1, a=2, b=1, it=250), dict(m=2, a=6, b=2, it=250)):
        L.append([dict(orams=[o], tfhes=[worn, t0])])
    out = [dict(file="ok", list=l, cli=dict(mode=2, item_count=4096, query_count=1, rows=96, cols=64), tfhe=dict(t0, n=2048, lt=8), given=[], bad=0, dry=0) for l in L]
    for m in (0, 1, 2):
        t = dict(t0, std="-3", broken=1)
        out.append(dict(file="absent", list=[], cli=dict(mode=m, item_count=4, query_count=2, rows=12, cols=4), tfhe=t, dry=0, bad=0,
                        given=["mode", "item_count", "query_count", "rows", "cols", "standard_deviation", "polynomial_size", "base_log", "level_count", "plaintext_modulus"]))
    return out


@check("C18")
def c18(c):
    c.mc("ParamsMC", "ParamsMC.cfg")
    for x in ("inner", "zip", "merged", "dedup", "badcli"):
        c.mc("ParamsMC", "ParamsMC_x_%s.cfg" % x, expect="C18Report")
    dry = inputs(False, more(120, 1200), seedn(1))
    bads = [dict(dry[0], file="bad", list=[], bad=k) for k in range(20)]
    real = inputs(True, more(24, 200), seedn(2))
    real += unreadable(c)
    # every command-line flag alone, and the documented defaults
    base = dict(file="absent", list=[], bad=0, dry=1)
    cli0 = dict(mode=2, item_count=4096, query_count=1, rows=96, cols=64)
    t0 = dict(std="-55", n=2048, bl=5, lv=9, kbl=5, klv=11, nbl=5, nlv=11, lt=8, ss="true", broken=0)
    flags = [[]] + [[f] for f in ("mode", "item_count", "query_count", "rows", "cols", "standard_deviation", "polynomial_size", "base_log", "level_count",
                                  "key_switch_base_log", "key_switch_level_count", "negs_base_log", "negs_level_count", "plaintext_modulus")]
    single = []
    for m in (0, 1, 2):
        for f in flags:
            g = sorted(set(f) | {"mode"}) if m != 2 else f
            cli = dict(cli0, mode=m)
            t = dict(t0)
            for x in f:
                if x in cli and x != "mode":
                    cli[x] = dict(item_count=512, query_count=9, rows=48, cols=128)[x]
            for x, k, v in (("standard_deviation", "std", "-42.5"), ("polynomial_size", "n", 1024), ("base_log", "bl", 7), ("level_count", "lv", 3),
                            ("key_switch_base_log", "kbl", 8), ("key_switch_level_count", "klv", 2), ("negs_base_log", "nbl", 6), ("negs_level_count", "nlv", 4),
                            ("plaintext_modulus", "lt", 33)):
                if x in f:
                    t[k] = v
            single.append(dict(base, cli=cli, tfhe=t, given=g))
    # the library's parser
    S = [[dict(c="expand", text=text(i["list"]), file="ok", list=i["list"]) for i in dry if i["file"] == "ok"]
         + [dict(c="expand", text=malformed(k), file="bad", list=[]) for k in range(20)]
         + [dict(c="expand", text=text([]), file="ok", list=[])]]
    S.append([dict(c="expand", text=text(i["list"]), file="ok", list=i["list"]) for i in real if i["file"] == "ok"])
    ev = run_sessions(build("dbg"), "codec", S)
    c.traces("ParamsTrace", ev, norm, cmds=S, label="parameter-files")
    # the program
    binary = build("cli")
    todo = dry + bads + single
    with ThreadPoolExecutor(core.NPROC) as ex:
        E = list(ex.map(lambda k: run_program(binary, todo[k], k), range(len(todo))))
    c.traces("ParamsTrace", [[e] for e in E], norm, label="dry-runs", chunk=200)
    with ThreadPoolExecutor(4) as ex:
        E = list(ex.map(lambda k: run_program(binary, real[k], k), range(len(real))))
    c.traces("ParamsTrace", [[e] for e in E], norm, label="runs", chunk=200)
