"""Building, running and judging: shared by all checks.  No oracle logic lives here or in the harness;
verdicts come from TLC evaluating the TLA+ trace specifications on recorded events."""
import fcntl, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
WORK = os.path.join(VERIF, ".work")
SPEC = os.path.join(VERIF, "spec")
NPROC = os.cpu_count() or 8
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
THOROUGH = TIER == "thorough"
BASEFLAGS = "-C target-cpu=x86-64-v3"


class ToolError(Exception):
    pass


def log(*a):
    print("[check]", *a, file=sys.stderr, flush=True)


def env_cargo(flags):
    e = dict(os.environ)
    e.update(HOME="/root", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTFLAGS=flags, RUSTC_WRAPPER="",
             RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_INCREMENTAL="0")
    e.pop("CARGO_TARGET_DIR", None)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    return e


def repo_stamp():
    h = hashlib.sha256()
    files = []
    for base in ("src", "benches"):
        for d, _, fs in os.walk(os.path.join(REPO, base)):
            files += [os.path.join(d, f) for f in fs]
    files += [os.path.join(REPO, f) for f in ("Cargo.toml", "Cargo.lock", "build.rs") if os.path.exists(os.path.join(REPO, f))]
    for f in sorted(files):
        h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()


# name -> (crate dir, target dir, profile, extra rustc flags, cargo features, binary)
BUILDS = {
    "dbg": ("harness", "target", "dbg", "", [], "pvh"),
    "rel": ("harness", "target", "release", "", [], "pvh"),
    "hook": ("harness", "target-hook", "dbg", "--cfg panacea_verif", [], "pvh"),
    "shim": ("harness_shim", "target-shim", "dbg", "", [], "pvh_shim"),
    "cli": (None, "target-cli", "release", "", [], "panacea"),
}


def build(name, must=True):
    """Build from /repo's current working tree; returns the binary's path, or None if it does not compile and must is False."""
    crate, target, profile, extra, feats, binary = BUILDS[name]
    os.makedirs(WORK, exist_ok=True)
    tdir = os.path.join(WORK, target)
    with open(os.path.join(WORK, "build-%s.lock" % target), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stampf = os.path.join(tdir, "stamp-" + name)
        stamp = repo_stamp()
        flags = (BASEFLAGS + " " + extra).strip()
        env = env_cargo(flags)
        manifest = os.path.join(VERIF, crate, "Cargo.toml") if crate else os.path.join(REPO, "Cargo.toml")
        old = open(stampf).read() if os.path.exists(stampf) else ""
        base = ["cargo"]
        tail = ["--offline", "--locked", "--manifest-path", manifest, "--target-dir", tdir, "--profile", profile]
        if crate is None:
            for k, v in (("LTO", "off"), ("CODEGEN_UNITS", "16")):
                env["CARGO_PROFILE_RELEASE_" + k] = v
        if old != stamp and os.path.isdir(tdir):
            # freshness by content, not by mtime: drop whatever was compiled from other sources
            for pk in (["panacea", binary] if crate else ["panacea"]):
                subprocess.run(base + ["clean", "-p", pk] + tail, env=env, cwd=WORK, capture_output=True)
        cmd = base + ["build"] + tail + (["--bin", binary] if crate is None else [])
        for attempt in (1, 2):
            r = subprocess.run(cmd, env=env, cwd=WORK, capture_output=True, text=True)
            if r.returncode == 0:
                break
        if r.returncode != 0:
            if must:
                raise ToolError("build %s failed:\n%s" % (name, r.stderr[-3000:]))
            log("build", name, "failed:", r.stderr[-1500:])
            return None
        open(stampf, "w").write(stamp)
        src = os.path.join(tdir, "release" if profile == "release" else profile, binary)
        # a private copy, so that a concurrent rebuild cannot pull it away
        dst = os.path.join(tdir, "bin-%s-%s" % (name, stamp[:12]))
        if not os.path.exists(dst) or os.path.getmtime(dst) < os.path.getmtime(src):
            tmp = dst + ".%d" % os.getpid()
            shutil.copy2(src, tmp)
            os.replace(tmp, dst)
        for f in os.listdir(tdir):
            if f.startswith("bin-%s-" % name) and f != os.path.basename(dst):
                try:
                    os.unlink(os.path.join(tdir, f))
                except OSError:
                    pass
        return dst


def scratch():
    d = os.path.join(WORK, "scratch")
    os.makedirs(d, exist_ok=True)
    return tempfile.mkdtemp(prefix="r%d_" % os.getpid(), dir=d)


def _run_one(binary, domain, cmds, limit, tmo, env):
    d = scratch()
    try:
        ci, eo = os.path.join(d, "c"), os.path.join(d, "e")
        with open(ci, "w") as f:
            for c in cmds:
                f.write(json.dumps(c) + "\n")
        e = dict(os.environ)
        e.update(env or {})
        p = subprocess.run(["timeout", "-k", "5", str(tmo), binary, domain, ci, eo, str(limit)], capture_output=True, text=True, env=e)
        ev = []
        if os.path.exists(eo):
            for line in open(eo):
                try:
                    ev.append(json.loads(line))
                except ValueError:
                    break
        if p.returncode == 0:
            if len(ev) != len(cmds):
                raise ToolError("harness lost events: %d of %d" % (len(ev), len(cmds)))
            return ev
        if p.returncode in (124, 137, -9):
            raise ToolError("harness timeout or killed (rc %d) after %d of %d commands" % (p.returncode, len(ev), len(cmds)))
        if p.returncode == 97:  # the watchdog logged a hang
            pass
        elif p.returncode == 2 or (p.returncode == 101 and "harness" in p.stderr):
            raise ToolError("harness error: " + p.stderr[-500:])
        elif len(ev) < len(cmds):
            c = dict(cmds[len(ev)])
            c.update(ev=c["c"], out="abort", msg="process ended with %d" % p.returncode)
            ev.append(c)
        # nothing of this process remains: the rest was not executed
        return ev
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_sessions(binary, domain, sessions, limit=150, tmo=600, jobs=NPROC, env=None):
    """Each session (list of commands) starts from scratch; returns the events per session."""
    if not sessions:
        return []
    order = sorted(range(len(sessions)), key=lambda i: -sum(c.get("cost", 1) for c in sessions[i]))
    out = [None] * len(sessions)

    def one(i):
        out[i] = _run_one(binary, domain, [{k: v for k, v in c.items() if k != "cost"} for c in sessions[i]], limit, tmo, env)

    with ThreadPoolExecutor(jobs) as ex:
        for fu in [ex.submit(one, i) for i in order]:
            fu.result()
    return out


def run_lanes(binary, groups, limit=150, tmo=600, jobs=NPROC, env=None):
    """Several independent instances in one process.  A group is (together, [(domain, commands) per lane], order) with
    order = the lane of each step (ignored when they run at once).  Returns the events per group and lane."""
    def one(i):
        together, lanes, order = groups[i]
        left = [list(c) for _, c in lanes]
        cmds = []
        for w in order if not together else []:
            if left[w]:
                cmds.append(dict(left[w].pop(0), who=w))
        for w, l in enumerate(left):
            cmds += [dict(c, who=w) for c in l]
        ev = _run_one(binary, ("|" if together else "+").join(d for d, _ in lanes), [{k: v for k, v in c.items() if k != "cost"} for c in cmds], limit, tmo, env)
        return [[e for e in ev if e.get("who", 0) == w] for w in range(len(lanes))]

    with ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(one, range(len(groups))))


# ---------------------------------------------------------------- TLC
def _tlc(module, cfg, args, env=None, tmo=600, workers=1, mem=None, short=False):
    meta = scratch()
    e = dict(os.environ)
    jo = "-Xss16m " + ("-XX:TieredStopAtLevel=1 -XX:ParallelGCThreads=1" if short else "-XX:ParallelGCThreads=4")
    if mem:
        jo += " -Xmx" + mem
    e["JAVA_TOOL_OPTIONS"] = jo
    e.update(env or {})
    cfgp = cfg if os.path.isabs(cfg) else os.path.join(SPEC, cfg)
    try:
        p = subprocess.run(["timeout", "-k", "5", str(tmo), "tlc", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta, "-config", cfgp] + args + [module + ".tla"],
                           capture_output=True, text=True, cwd=SPEC, env=e)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout + p.stderr


def _stats(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    g, d = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
    return g, d


def tlc_mc(module, cfg, expect=None, tmo=600, workers=NPROC, extra=()):
    """Exhaustive model check.  expect=None: must hold; otherwise the named property must be violated (non-vacuity)."""
    rc, out = _tlc(module, cfg, list(extra), tmo=tmo, workers=workers)
    g, d = _stats(out)
    if rc in (124, 137):
        raise ToolError("TLC timeout on %s/%s" % (module, cfg))
    viol = re.findall(r"Invariant (\w+) is violated|Action property (\w+) is violated|Temporal properties were (violated)|(Deadlock) reached|property (\w+) is violated", out)
    names = {x for t in viol for x in t if x}
    if expect is None:
        if rc != 0 or "No error has been found" not in out:
            raise ToolError("TLC did not accept %s/%s:\n%s" % (module, cfg, out[-3000:]))
    else:
        if not (names & set([expect] if isinstance(expect, str) else expect)):
            raise ToolError("mutant %s/%s was not rejected by %s (got %s):\n%s" % (module, cfg, expect, names, out[-1500:]))
    return g, d


def tlc_gen(module, cfg, num, depth, seed, tmo=300):
    """Behaviours of a specification, printed by it as JSON lines starting with @@."""
    rc, out = _tlc(module, cfg, ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)], tmo=tmo, workers=1, short=True)
    res = []
    for line in out.splitlines():
        i = line.find("@@")
        if i < 0:
            continue
        txt = line[i + 2:].rstrip()
        if txt.endswith('"'):
            txt = txt[:-1]
        txt = txt.replace('\\"', '"').replace("\\\\", "\\")
        res.append(json.loads(txt))
    if not res:
        raise ToolError("no behaviours from %s/%s:\n%s" % (module, cfg, out[-2000:]))
    return res


def tlc_eval(module, cfg, tmo=300):
    """Everything a specification prints as JSON while TLC explores it exhaustively."""
    rc, out = _tlc(module, cfg, [], tmo=tmo, workers=1)
    res = []
    for line in out.splitlines():
        i = line.find("@@")
        if i >= 0:
            txt = line[i + 2:].rstrip()
            if txt.endswith('"'):
                txt = txt[:-1]
            res.append(json.loads(txt.replace('\\"', '"').replace("\\\\", "\\")))
    if rc != 0 or not res:
        raise ToolError("TLC failed on %s/%s:\n%s" % (module, cfg, out[-2000:]))
    return res, _stats(out)


class Rejected(Exception):
    def __init__(self, session, index, event, diag, detail):
        self.session, self.index, self.event, self.diag, self.detail = session, index, event, diag, detail


def validate(module, sessions, norm, cfg=None, jobs=4, tmo=600, chunk=None):
    """Check recorded sessions (lists of events) against a trace specification.
    Returns ([Rejected...], events validated, states)."""
    cfg = cfg or module + ".cfg"
    todo = [(i, s) for i, s in enumerate(sessions) if s]
    total = sum(len(s) for _, s in todo)
    if chunk is None:
        chunk = max(150, -(-total // jobs))
    groups, cur, n = [], [], 0
    for i, s in todo:
        cur.append((i, s))
        n += len(s)
        if n >= chunk:
            groups.append(cur)
            cur, n = [], 0
    if cur:
        groups.append(cur)

    def one(group):
        rej, states, seen = [], 0, 0
        group = list(group)
        while group:
            lines, idx = [], []
            for i, s in group:
                for k, ev in enumerate(s):
                    lines.append(json.dumps(norm(ev)))
                    idx.append((i, k, ev))
            d = scratch()
            tf = os.path.join(d, "trace.ndjson")
            open(tf, "w").write("\n".join(lines) + "\n")
            try:
                rc, out = _tlc(module, cfg, [], env={"TRACE": tf}, tmo=tmo, workers=1, short=len(lines) < 400)
            finally:
                shutil.rmtree(d, ignore_errors=True)
            g, dd = _stats(out)
            states += dd
            if rc == 0 and "No error has been found" in out:
                seen += len(lines)
                break
            if rc in (124, 137):
                raise ToolError("TLC timeout validating " + module)
            ls = re.findall(r"^/\\ l = (\d+)", out, re.M)
            dg = re.findall(r"^/\\ diag = (\{.*?\})\s*$", out, re.M | re.S)
            inv = re.findall(r"(?:Invariant|Action property|property) (\w+) is violated", out)
            if not ls or not inv:
                raise ToolError("TLC failed validating %s:\n%s" % (module, out[-3500:]))
            at = int(ls[-1]) - 2  # l counts the next line, 1-based
            i, k, ev = idx[at]
            diag = sorted(set(re.findall(r'"([^"]+)"', dg[-1]))) if dg else []
            rej.append(Rejected(i, k, ev, diag or inv, out[-6000:]))
            # the rest: sessions after this one
            seen += at + 1
            pos = [j for j, (ii, _) in enumerate(group) if ii == i][0]
            group = group[pos + 1:]
            if len(rej) >= 12:
                break
        return rej, seen, states

    rejs, seen, states = [], 0, 0
    with ThreadPoolExecutor(jobs) as ex:
        for r, s, st in ex.map(one, groups):
            rejs += r
            seen += s
            states += st
    rejs.sort(key=lambda r: (r.session, r.index))
    return rejs, seen, states


# ---------------------------------------------------------------- verdict
def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


class Check:
    def __init__(self, pid, level):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.rng = random.Random("%s-%d-%s" % (pid, SEED, TIER))
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.models = []
        self.viol = []
        self.notes = []
        self.assumptions = []
        self.events = 0
        self.distinct = set()
        self.kinds = {}
        self.pool, self.futs = None, []

    def mc(self, module, cfg, expect=None, **kw):
        """Started in the background, joined in finish()."""
        if self.pool is None:
            self.pool = ThreadPoolExecutor(2)
        kw.setdefault("workers", 4)
        self.futs.append(self.pool.submit(self._mc, module, cfg, expect, **kw))

    def proof(self, module):
        """A TLAPS proof, for all constants."""
        if self.pool is None:
            self.pool = ThreadPoolExecutor(2)
        self.futs.append(self.pool.submit(self._proof, module))

    def loop(self, name):
        """A loop of the design: model checked for small constants, reaching its end; proved for all of them."""
        m = name if os.path.exists(os.path.join(SPEC, name + ".cfg")) else name + "MC"
        self.mc(m, m + ".cfg")
        self.mc(m, m + "_x_done.cfg", expect="NeverDone")
        self.proof(name.replace("Loop", "Proof"))

    def _proof(self, module):
        t = time.time()
        d = scratch()
        try:
            for m in (module, module.replace("Proof", "Loop"), module.replace("Proof", "")):
                f = os.path.join(SPEC, m + ".tla")
                if os.path.exists(f):
                    shutil.copy(f, d)
            r = subprocess.run(["tlapm", "--cleanfp", "--stretch", "6", module + ".tla"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=1200 if THOROUGH else 240)
            m = re.search(r"All (\d+) obligations proved", r.stdout)
            if not m and not THOROUGH:
                # the proofs are about the design alone: a prover out of time is no verdict on the code
                self.notes.append("TLAPS did not prove %s in this run" % module)
                log("proof", module, "not completed")
                return
            if not m:
                raise ToolError("TLAPS did not prove %s:\n%s" % (module, r.stdout[-2000:]))
            self.models.append(dict(model=module, obligations=int(m.group(1)), expected="proved by TLAPS for all constants", wall_s=round(time.time() - t, 1)))
            log("proof", module, m.group(1), "obligations", "%.1fs" % (time.time() - t))
        except (OSError, subprocess.TimeoutExpired):
            if THOROUGH:
                raise ToolError("TLAPS did not end for " + module)
            self.notes.append("TLAPS did not prove %s in this run" % module)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def _mc(self, module, cfg, expect=None, **kw):
        t = time.time()
        g, d = tlc_mc(module, cfg, expect, **kw)
        if expect is None:
            self.cov["states"] += d
            self.cov["transitions"] += g
        self.models.append(dict(model=cfg, distinct_states=d, transitions=g, expected=("violation of %s" % (expect,)) if expect else "holds", wall_s=round(time.time() - t, 1)))
        log("model", cfg, "distinct", d, "generated", g, "%.1fs" % (time.time() - t))

    def traces(self, module, sessions, norm, cmds=None, cfg=None, label="", **kw):
        """Judge recorded sessions; remembers violations."""
        t = time.time()
        rej, seen, states = validate(module, sessions, norm, cfg=cfg, **kw)
        full = sum(1 for s in sessions if s)
        self.cov["traces_validated_against_impl"] += full - len({r.session for r in rej})
        self.events += seen
        self.cov["states"] += states
        self.cov["transitions"] += seen
        for s in sessions:
            for e in s:
                k = e.get("ev", "?") + ("" if e.get("out") == "ok" else ":" + str(e.get("out")))
                self.kinds[k] = self.kinds.get(k, 0) + 1
        if sessions and len(self.cov["samples"]) < 6:
            s = next((s for s in sessions if s), None)
            if s:
                self.cov["samples"].append(dict(source=label or module, events=len(s), first=_short(s[0]), last=_short(s[-1])))
        for r in rej:
            self.viol.append(dict(kind=label or module, diag=r.diag, event_index=r.index, event=r.event,
                                  commands=(cmds[r.session] if cmds else None), trace=sessions[r.session][: r.index + 1], tlc=r.detail))
        log("traces", label or module, "sessions", len(sessions), "events", seen, "rejected", len(rej), "%.1fs" % (time.time() - t))
        return rej

    def violation(self, kind, diag, **kw):
        self.viol.append(dict(kind=kind, diag=diag, **kw))

    def finish(self, explain=None, extra=None):
        trouble = None
        for f in self.futs:
            try:
                f.result()
            except Exception as e:
                trouble = e
        if trouble and not self.viol:
            raise trouble
        known = known_findings(self.pid)
        real, hit = [], {}
        for v in self.viol:
            key = v["kind"] + "/" + "+".join(v["diag"])
            k = next((k for k, _ in known if k == key), None)
            if k:
                hit[k] = True
            else:
                real.append(v)
        for k, txt in known:
            if k in hit:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, txt))
        cov = dict(self.cov)
        cov["events_validated"] = self.events
        cov["event_kinds"] = self.kinds
        cov["models"] = self.models
        cov["evaluations"] = self.events
        if explain:
            cov["explanation"] = explain
        if self.notes:
            cov["notes"] = self.notes
        cov.update(extra or {})
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = dict(property=self.pid, tier="thorough" if THOROUGH else "quick", seed=SEED, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(real))
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if real:
            rd = os.path.join(WORK, "replay")
            os.makedirs(rd, exist_ok=True)
            for n, v in enumerate(real[:5]):
                path = os.path.join(rd, "%s-%d.json" % (self.pid, n))
                with open(path, "w") as f:
                    json.dump(v, f, indent=1, default=str)
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
                log(v["kind"], "differs in", v["diag"], "at event", v.get("event_index"), _short(v.get("event"), 400))
            sys.stdout.flush()
            return 1
        log("%s held on everything explored: %d events in %d sessions, %d model states, %.1fs" % (self.pid, self.events, cov["traces_validated_against_impl"], cov["states"], time.time() - self.t0))
        return 0


def _short(e, n=600):
    s = json.dumps(e, default=str)
    return s if len(s) <= n else s[:n] + "..."
