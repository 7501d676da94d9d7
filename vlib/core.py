"""Machinery shared by all checks: builds, harness runs, TLC runs, verdicts."""
import json, math, os, re, shutil, subprocess, sys, tempfile, threading, time
from collections import defaultdict
from decimal import Decimal, getcontext

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
TARGET = os.path.join(ROOT, "target")
RUN = os.path.join(ROOT, "run")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JOBS = 8
BUILDS = {
    "def": ("std", ""),
    "all": ("all", ""),
    "nat": ("all", "-C target-feature=+avx2,+fma"),
    "nostd": ("", ""),
    "np": ("par,kofft/compile-time-rfft,kofft/x86_64", ""),
    "it": ("it", ""),
    "xt": ("xt", ""),
}
# programs of the repository itself: name -> (manifest arguments, binary)
PROGRAMS = {
    "xtb": ("--manifest-path /repo/xtask/Cargo.toml", "xtask"),
    "sc": ("--manifest-path /repo/sanity-check/Cargo.toml", "sanity-check"),
    "ex": ("--manifest-path /repo/Cargo.toml --example spectrogram", "examples/spectrogram"),
    "sch": (f"--manifest-path {ROOT}/harness-sc/Cargo.toml", "sc-harness"),
    "web": (f"--manifest-path {ROOT}/harness-web/Cargo.toml", "web-harness"),
    "websrv": ("--manifest-path /repo/web-spectrogram/Cargo.toml", "web-spectrogram"),
    "bn": ("--release --manifest-path /repo/kofft-bench/Cargo.toml --benches --examples", ""),
    "bnp": ("--release --manifest-path /repo/kofft-bench/Cargo.toml --benches --examples --features parallel", ""),
}


class ToolError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------- building
def build(names):
    """Rebuild the harness (and with it /repo's crate) in the given configurations."""
    os.makedirs(TARGET, exist_ok=True)
    procs = []
    for n in sorted(set(names)):
        feats, flags = BUILDS.get(n, ("", ""))
        what = PROGRAMS[n][0] if n in PROGRAMS else f"--manifest-path {ROOT}/harness/Cargo.toml"
        env = dict(os.environ)
        env["CARGO_NET_OFFLINE"] = "true"
        env.pop("RUSTFLAGS", None)
        env.pop("CARGO_TARGET_DIR", None)
        if flags:
            env["RUSTFLAGS"] = flags
        cmd = ["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; unset CARGO_TARGET_DIR RUSTFLAGS; "
               + (f"export RUSTFLAGS='{flags}'; " if flags else "")
               + f"exec cargo build --offline -q {what} "
               f"--target-dir {TARGET}/{n}" + (f" --features {feats}" if feats else "")]
        out = tempfile.TemporaryFile("w+")
        procs.append((n, subprocess.Popen(cmd, env=env, stdout=out, stderr=subprocess.STDOUT), out))
    for n, p, out in procs:
        if p.wait() != 0:
            out.seek(0)
            raise ToolError(f"build {n} failed:\n" + out.read()[-3000:])


def binary(b):
    if b in PROGRAMS:
        return os.path.join(TARGET, b, "debug", PROGRAMS[b][1])
    return os.path.join(TARGET, b, "debug", "kofft-harness")


# ------------------------------------------------------------------- sessions
class Cmd:
    """One call: harness operation + parameters, and the fields of its trace event."""
    __slots__ = ("op", "kv", "ev", "id", "out")

    def __init__(self, op, kv=None, ev=None, **kw):
        self.op, self.kv, self.ev = op, dict(kv or {}), dict(ev or {})
        self.kv.update(kw)
        self.out = None
        self.id = None


class Session:
    """A sequence of calls on fresh objects.  spec: trace module; group: sharding affinity."""

    def __init__(self, spec, build, cmds, group=None, env=None, cost=1.0, sigs=(), note=""):
        self.spec, self.build, self.cmds = spec, build, list(cmds)
        self.group, self.env, self.cost = group, tuple(sorted((env or {}).items())), cost
        self.note = note


def enc(v):
    if isinstance(v, bool):
        return "1" if v else "0"
    if isinstance(v, (list, tuple)):
        if v and isinstance(v[0], (list, tuple)):
            return ";".join(enc_list(r) for r in v)
        return enc_list(v)
    return str(v)


def enc_list(v):
    if not v:
        return "-"
    out, i = [], 0
    while i < len(v):
        j = i
        while j < len(v) and v[j] == v[i]:
            j += 1
        out.append(str(v[i]) if j - i == 1 else f"{v[i]}*{j - i}")
        i = j
    return ",".join(out)


def lines_of(sess):
    ls = ["0 reset"]
    for c in sess.cmds:
        ls.append(f"{c.id} {c.op} " + " ".join(f"{k}={enc(v)}" for k, v in c.kv.items()))
    return ls


def _drive(bin_, env, sessions, idle):
    """Run sessions through harness processes; a crash or a hang ends only its own session."""
    todo, bad = list(sessions), 0
    while todo:
        p = subprocess.Popen([bin_], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             env=env, text=True, bufsize=1 << 16)
        text = "\n".join("\n".join(lines_of(s)) for s in todo) + "\n"
        got, last, errs = {}, [time.time()], []

        def feed():
            try:
                p.stdin.write(text)
                p.stdin.close()
            except (BrokenPipeError, OSError):
                pass

        def read():
            for line in p.stdout:
                i, j = line.split("\t", 1)
                got[int(i)] = j
                last[0] = time.time()

        def rerr():
            errs.append(p.stderr.read())

        ts = [threading.Thread(target=f, daemon=True) for f in (feed, read, rerr)]
        for t in ts:
            t.start()
        hung = False
        while ts[1].is_alive():
            ts[1].join(0.2)
            if time.time() - last[0] > idle:
                hung = True
                p.kill()
                break
        rc = p.wait()
        ts[1].join(5)
        ts[2].join(5)
        if rc == 3:
            raise ToolError("harness: " + "".join(errs)[-500:])
        nxt = None
        for k, s in enumerate(todo):
            for c in s.cmds:
                if c.id in got:
                    c.out = json.loads(got[c.id])
                else:
                    nxt = k
                    c.out = {"ret": "hang" if hung else "crash"}
                    break
            if nxt is not None:
                break
        if nxt is None:
            return
        bad += 1
        s = todo[nxt]
        i = next(i for i, c in enumerate(s.cmds) if c.out and c.out.get("ret") in ("hang", "crash"))
        s.cmds = s.cmds[: i + 1]
        todo = todo[nxt + 1:]
        if hung or bad >= 20:
            # enough evidence: do not wait for every further hang
            for t in todo:
                t.cmds = []
            return


def run_harness(sessions, idle=40):
    n = 0
    for s in sessions:
        for c in s.cmds:
            n += 1
            c.id = n
    buckets = defaultdict(list)
    for s in sessions:
        if s.build not in PROGRAMS:      # those carry what was recorded already
            buckets[(s.build, s.env)].append(s)
    jobs = []
    for (b, e), ss in buckets.items():
        env = {k: v for k, v in os.environ.items() if not k.startswith("KOFFT_")}
        env.update(dict(e))
        parts = max(1, min(4, len(ss) // 50))
        for k in range(parts):
            if ss[k::parts]:
                jobs.append((binary(b), env, ss[k::parts]))
    err, lock = [], threading.Lock()

    def work():
        while True:
            with lock:
                if not jobs or err:
                    return
                j = jobs.pop()
            try:
                _drive(*j, idle)
            except Exception as ex:  # noqa
                err.append(ex)

    ts = [threading.Thread(target=work) for _ in range(JOBS)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if err:
        raise err[0] if isinstance(err[0], ToolError) else ToolError(f"harness driver: {err[0]!r}")
    return n


# ------------------------------------------------------------------------ TLC
def tlc(module, cfg=None, env=None, workers=1, timeout=800, mem="3g", extra=(), cwd=SPEC):
    """Run TLC; returns (returncode, output)."""
    meta = tempfile.mkdtemp(prefix="tlc", dir=RUN)
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", f"-Xmx{mem}", "-Xss64m", f"-Djava.io.tmpdir={meta}",
           "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-deadlock", "-noGenerateSpecTE",
           "-config", (cfg or module) + ".cfg", *extra, module + ".tla"]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    try:
        p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        out, failed = [], []

        def read():
            for line in p.stdout:
                out.append(line)
                if line.startswith("Error: ") and not failed:
                    failed.append(time.time())

        t = threading.Thread(target=read, daemon=True)
        t.start()
        end = time.time() + timeout
        note = ""
        # after an evaluation error TLC re-evaluates to print a call stack, which can take very long
        while t.is_alive():
            t.join(0.05 if time.time() < end - timeout + 5 else 0.5)
            if time.time() > end or failed and time.time() > failed[0] + 45:
                note = "\nTIMEOUT"
                p.kill()
                break
        rc = p.wait()
        t.join(10)
        return (-9 if note else rc), "".join(out) + note
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def states(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


# --------------------------------------------------------------- cosine tables
getcontext().prec = 40
_PI = Decimal("3.14159265358979323846264338327950288419716939937510")


def _cos_sin(x):
    # Taylor series, |x| <= pi/4 after octant reduction by the caller
    c = s = Decimal(0)
    t = Decimal(1)
    for k in range(0, 36):
        if k % 4 == 0:
            c += t
        elif k % 4 == 1:
            s += t
        elif k % 4 == 2:
            c -= t
        else:
            s -= t
        t = t * x / (k + 1)
    return c, s


_tabs = {}
FARN = 131072        # longer transforms use compact tables


def root(m, n):
    """(cos, sin) of 2 pi m/n as Decimals."""
    m %= n
    # octant reduction on the exact rational m/n
    q, r = divmod(8 * m, n)          # angle = q*pi/4 + r/(8n)*2pi
    x = _PI * 2 * Decimal(r) / (8 * Decimal(n))
    if q % 2 == 1:                    # reflect: use angle from the next multiple of pi/2
        x = _PI / 4 - x
    c, s = _cos_sin(x)
    return [(c, s), (s, c), (-s, c), (-c, s), (-c, -s), (-s, -c), (s, -c), (c, -s)][q]


M6 = Decimal(10) ** 6


def _limbs(v):
    u = v * M6
    h = int(u.to_integral_value(rounding="ROUND_FLOOR"))
    l = int(((u - h) * M6).to_integral_value(rounding="ROUND_HALF_EVEN"))
    if l >= 10 ** 6:
        h, l = h + 1, l - 10 ** 6
    return h, l


def table(n, wide):
    key = (n, wide)
    if key in _tabs:
        return _tabs[key]
    if n > FARN:
        # compact table (Dft.tla, FarTableOk)
        q = 512 if n <= 2 ** 19 else 1024
        w = lambda m: (round(math.cos(2 * math.pi * m / n) * 1e6), round(math.sin(2 * math.pi * m / n) * 1e6))
        co, fi = [w(q * a) for a in range(n // q + 1)], [w(b) for b in range(q)]
        t = {"far": q, "n": n, "cc": [c for c, _ in co], "cs": [s for _, s in co], "fc": [c for c, _ in fi], "fs": [s for _, s in fi]}
        _tabs[key] = t
        return t
    t = {"c": [], "s": []}
    if wide:
        t.update(ch=[], cl=[], sh=[], sl=[])
    for m in range(n):
        if wide and n > 9000:
            # long tables: double precision (1e-16) is below the last digit kept (1e-12)
            if 2 * m > n:
                c, s = t["c"][n - m], -t["s"][n - m]
                t["c"].append(c); t["s"].append(s)
                hs, ls = -t["sh"][n - m], t["sl"][n - m]
                if ls:
                    hs, ls = hs - 1, 10 ** 6 - ls
                t["ch"].append(t["ch"][n - m]); t["cl"].append(t["cl"][n - m]); t["sh"].append(hs); t["sl"].append(ls)
                continue
            for v, k in ((math.cos(2 * math.pi * m / n), "c"), (math.sin(2 * math.pi * m / n), "s")):
                i = round(v * 10 ** 12)
                t[k + "h"].append(i // 10 ** 6); t[k + "l"].append(i % 10 ** 6); t[k].append(round(v * 10 ** 6))
        elif wide:
            c, s = root(m, n)
            a, b = _limbs(c), _limbs(s)
            t["ch"].append(a[0]); t["cl"].append(a[1]); t["sh"].append(b[0]); t["sl"].append(b[1])
            t["c"].append(int((c * M6).to_integral_value())); t["s"].append(int((s * M6).to_integral_value()))
        else:
            k = 8 * m
            # symmetric evaluation keeps the exact symmetries of the table
            if 2 * m > n:
                t["c"].append(t["c"][n - m]); t["s"].append(-t["s"][n - m])
                continue
            c, s = math.cos(2 * math.pi * m / n), math.sin(2 * math.pi * m / n)
            t["c"].append(round(c * 1e6)); t["s"].append(round(s * 1e6))
    _tabs[key] = t
    return t


# ------------------------------------------------------------- trace validation
class Violation(Exception):
    def __init__(self, what, replay):
        self.what, self.replay = what, replay


class Trace:
    """Collects events of one shard and the tables / signals they need."""

    def __init__(self):
        self.events, self.where = [], []


def _resolve(v, sigs, order):
    """Replace signal objects in an event by their 1-based index in the trace file."""
    if hasattr(v, "rec") and hasattr(v, "ks"):
        if id(v) not in sigs:
            order.append(v)
            sigs[id(v)] = len(order)
        return sigs[id(v)]
    if isinstance(v, list) and v and hasattr(v[0], "rec"):
        return [_resolve(x, sigs, order) for x in v]
    return v


def validate(prop, sessions, shards=JOBS, timeout=700, extra=None):
    """Group sessions into shards, write them, and let TLC accept or reject each.

    Event fields may hold signal objects; `_tabs` in an event lists (n, wide) tables it needs.
    Returns (number of events, number of traces, states)."""
    groups = defaultdict(list)
    for i, s in enumerate(sessions):
        groups[(s.spec, s.build in ("nostd", "np"), s.group if s.group is not None else i)].append(s)
    classes = defaultdict(list)
    for (spec, ns, _), ss in groups.items():
        classes[(spec, ns)].append(ss)
    total = sum(s.cost for s in sessions) or 1
    plan = []
    for (spec, ns), gs in classes.items():
        cost = sum(s.cost for g in gs for s in g)
        k = max(1, min(len(gs), round(shards * cost / total)))
        bins = [[0, []] for _ in range(k)]
        for g in sorted(gs, key=lambda g: -sum(s.cost for s in g)):
            b = min(bins, key=lambda b: b[0])
            b[0] += sum(s.cost for s in g)
            b[1].extend(g)
        for b in bins:
            plan.append((spec, ns, b[1]))
    d = tempfile.mkdtemp(prefix=f"{prop}-", dir=RUN)
    if os.environ.get("VMUT"):           # corrupted traces, see tools/mutants.py
        sys.path.insert(0, os.path.join(ROOT, "tools"))
        import mutants
        muttags = {}
    jobs = []
    for i, (spec, ns, ss) in enumerate(plan):
        ev, where = [], []
        sigs, order, tabs = {}, [], {}
        for s in ss:
            ev.append({"op": "reset"})
            where.append((s, None))
            for c in s.cmds:
                if c.out is None:
                    break
                e = {"op": c.op}
                wide = c.kv.get("p", "32") != "32"
                for k, v in c.ev.items():
                    if k == "_tabs":
                        for n, w in v:
                            tabs[n] = tabs.get(n, False) or w
                        continue
                    if wide:
                        for q in (v if isinstance(v, list) else [v]):
                            if hasattr(q, "rec"):
                                q.wide = True
                    e[k] = _resolve(v, sigs, order)
                e.update({k: v for k, v in c.out.items() if k != "msg"})
                ev.append(e)
                where.append((s, c))
        for g in order:
            if g.n > 1:
                tabs[g.n] = tabs.get(g.n, False) or g.wide
            for n in getattr(g, "tabs", ()):
                tabs.setdefault(n, False)
        doc = {"events": ev, "nostd": ns, "sigs": [g.rec() for g in order],
               "tabs": {str(n): table(n, w) for n, w in sorted(tabs.items()) if n > 0}}
        if extra:
            doc.update(extra)
        if os.environ.get("VMUT"):
            doc["mut"], muttags[i] = mutants.make(ev, where)
        path = os.path.join(d, f"t{i}.json")
        with open(path, "w") as f:
            json.dump(doc, f, separators=(",", ":"))
        jobs.append((spec, path, ev, where))
    if os.environ.get("VMUT"):
        mutants.survey(prop, jobs, muttags)
    res, lock, queue = [], threading.Lock(), list(jobs)

    def work():
        while True:
            with lock:
                if not queue:
                    return
                j = queue.pop(0)
            t0 = time.time()
            rc, out = tlc(j[0], env={"TRACE": j[1]}, timeout=timeout, mem="3500m")
            res.append((j, rc, out, time.time() - t0))

    ts = [threading.Thread(target=work) for _ in range(JOBS)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    nst, viol = 0, []
    for (spec, path, ev, where), rc, out, dt in res:
        nst += states(out)[1]
        if os.environ.get("VDEBUG"):
            log(f"  shard {spec} {len(ev)} events {dt:.1f}s rc={rc}")
        if rc == 0 and "No error has been found" in out and states(out)[1] == len(ev) + 1:
            continue
        m = re.search(r'"REJECTED", (\d+)', out)
        if "StackOverflow" in out or "OutOfMemory" in out:
            raise ToolError(f"TLC ran out of stack or memory on {path}\n" + out[-3000:])
        if m:
            k = int(m.group(1))          # events accepted = diameter - 1; ev[k-1] rejected
        else:
            ms = re.findall(r"\bl = (\d+)", out)
            if ms and ("TLC threw an unexpected exception" in out or "Error: Evaluating" in out
                       or "Attempted to" in out or "overflow" in out.lower()) and "OutOfMemory" not in out:
                k = int(ms[-1])
            else:
                raise ToolError(f"TLC on {path}: rc={rc}\n" + out[-3000:])
        s, c = where[k - 1]
        viol.append((spec, s, c, ev[k - 1], out))
    if viol:
        spec, s, c, e, out = viol[0]
        rp = os.path.join(RUN, f"{prop}-replay.json")
        lines = []
        for l in lines_of(s):
            lines.append(l)
            if c is not None and l.startswith(f"{c.id} "):
                break
        with open(rp, "w") as f:
            json.dump({"property": prop, "spec": spec, "build": s.build, "env": dict(s.env), "note": s.note,
                       "script": lines, "rejected_event": e, "tlc": out[-2500:],
                       "how": "feed the script lines to target/<build>/debug/kofft-harness and compare its last "
                              "output with what the trace specification allows for that call"}, f, indent=1)
        short = {k: v for k, v in e.items() if not isinstance(v, (list, dict))}
        if os.environ.get("VDEBUG"):
            for _, s2, c2, e2, _ in viol:
                log("VIOL", s2.build, s2.note, (f"{c2.op} {c2.kv}"[:300] if c2 else ""), str(e2)[:500])
        raise Violation(f"{spec} rejects call {short} (build {s.build}, {len(viol)} shard(s) rejected)", rp)
    if not os.environ.get("VKEEP"):
        shutil.rmtree(d, ignore_errors=True)
    return sum(len(j[2]) for j in jobs), len(jobs), nst


# ------------------------------------------------------------------ check context
def known(prop):
    """Unrepaired findings listed for a property ('finding: property=ID text')."""
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                out.append(m.group(2))
    return out


class Ctx:
    def __init__(self, prop, tier, rng, cov, memo=None, round_=0):
        self.prop, self.tier, self.rng, self.cov = prop, tier, rng, cov
        self.memo, self.round = {} if memo is None else memo, round_
        self.quick = tier == "quick"
        self.assumptions = []
        self.builds = set()
        self.sessions = []
        self._built = self.memo.setdefault("built", set())
        self._design = []

    def assume(self, *a):
        self.assumptions += a

    def build(self, *names):
        todo = [n for n in names if n not in self._built]
        if todo:
            build(todo)
            self._built |= set(todo)

    def design(self, module, cfg=None, env=None, workers=4, mem="6g", timeout=600, extra=(), expect=None):
        """Model-check a design specification; a failure there is an error of the check itself."""
        key = ("design", module, cfg)
        if key in self.memo:
            return self.memo[key]
        rc, out = tlc(module, cfg, env, workers, timeout, mem, extra)
        if rc != 0 or "No error has been found" not in out and "-simulate" not in extra:
            raise ToolError(f"design specification {cfg or module} fails:\n" + out[-3000:])
        g, d = states(out)
        self.cov["states"] += d
        self.cov["transitions"] += g
        self._design.append((cfg or module, d))
        if expect is not None and d < expect:
            raise ToolError(f"design specification {cfg or module}: only {d} states (expected at least {expect})")
        self.memo[key] = out
        return out

    def refute(self, module, cfg):
        """A defective variant of a design must be refuted, or the specification decides nothing."""
        if self.round:
            return
        rc, out = tlc(module, cfg)
        if "is violated" not in out:
            raise ToolError(f"{cfg}: the defective design was not refuted\n" + out[-1500:])

    def start_design(self, *a, **k):
        """Model-check a design specification in the background; joined by finish()."""
        box = {}
        if self.round:
            return box
        bad = k.pop("refute", ())

        def go():
            try:
                box["out"] = self.design(*a, **k)
                for c in bad:
                    self.refute(a[0], c)
            except Exception as e:  # noqa
                box["err"] = e

        t = threading.Thread(target=go)
        t.start()
        self._bg = getattr(self, "_bg", []) + [(t, box)]
        return box

    def add(self, *ss):
        for s in ss:
            # every second round: the no-std build with parallel, compile-time-rfft and x86_64 features
            if self.round % 2 and s.build == "nostd":
                s.build = "np"
            self.sessions.append(s)

    def run(self, shards=JOBS, timeout=None, extra=None, idle=40):
        """Drive the real code through all sessions and validate the recorded traces."""
        ss, self.sessions = self.sessions, []
        if not ss:
            return
        self.build(*{s.build for s in ss})
        t0 = time.time()
        run_harness(ss, idle)
        t1 = time.time()
        ne, nt, ns = validate(self.prop, ss, shards, timeout or (600 if self.quick else 7200), extra)
        if os.environ.get("VDEBUG"):
            log(f"harness {t1 - t0:.1f}s validate {time.time() - t1:.1f}s events {ne}")
        self.cov["events"] = self.cov.get("events", 0) + ne
        self.cov["traces_validated_against_impl"] += len(ss)
        self.cov["states"] += ns
        self.cov["transitions"] += ne
        self.cov["trace_files"] = self.cov.get("trace_files", 0) + nt
        for s in ss[:: max(1, len(ss) // 6)][:6]:
            c = s.cmds[-1]
            self.cov["samples"].append({"build": s.build, "calls": len(s.cmds), "op": c.op,
                                        "last": " ".join(f"{k}={enc(v)}" for k, v in c.kv.items())[:200]})
        self.cov["samples"] = self.cov["samples"][:8]

    def finish(self):
        for t, box in getattr(self, "_bg", []):
            t.join()
            if "err" in box:
                raise box["err"] if isinstance(box["err"], ToolError) else ToolError(repr(box["err"]))
        if self._design:
            self.cov["design_models"] = [f"{n}: {d} states" for n, d in self._design]
