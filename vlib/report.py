"""C24: benchmark records and the table in the benchmark readme."""
import glob, hashlib, json, os, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from . import core
from .core import Cmd, Session, RUN, ToolError
from .dsp import hist

SPEC = "TraceReport"
MODES = [("kofft", "Complex", "Single"), ("kofft", "Complex", "Radix2"), ("kofft", "Complex", "Radix4"), ("kofft", "Complex", "SplitRadix"),
         ("kofft", "Complex", "Auto"), ("rustfft", "Complex", "Single"), ("kofft", "Real", "Direct"), ("kofft", "Real", "Packed"),
         ("realfft", "Real", "Single"), ("kofft", "Complex", "Parallel"), ("kofft", "DCT-II", "slow"), ("a b", "x|y", "")]
START, END = "<!-- BENCH_START -->", "<!-- BENCH_END -->"


def programs(b):
    rel = os.path.join(core.TARGET, b, "release")
    bench = [p for p in glob.glob(rel + "/deps/bench_fft-*") if not p.endswith(".d") and os.access(p, os.X_OK)]
    if not bench:
        raise ToolError("no benchmark program built")
    return max(bench, key=os.path.getmtime), rel + "/examples/update_bench_readme"


def read(p):
    try:
        with open(p, "rb") as f:
            return f.read()
    except FileNotFoundError:
        return None


class World:
    """Scratch directory with the layout the two programs expect, and what they did in it."""

    def __init__(self, d, rng, b, par):
        self.d, self.rng, self.par = d, rng, par
        self.bench, self.update = programs(b)
        os.makedirs(d + "/kofft-bench")
        os.makedirs(d + "/benchmarks")
        self.lat, self.prv, self.doc = (f"{d}/benchmarks/{n}" for n in ("latest.json", "previous.json", "README.md"))

    def files(self):
        h = lambda p: "-" if read(p) is None else hashlib.sha1(read(p)).hexdigest()[:12]
        doc = read(self.doc)
        return {"lat": h(self.lat), "prv": h(self.prv), "doc": "-" if doc is None else doc.decode()}

    def run(self, cmd, cwd="/kofft-bench", **env):
        e = {k: v for k, v in os.environ.items() if not k.startswith(("KOFFT_", "RUSTFLAGS", "RUNNER_"))}
        e.update(env)
        try:
            r = subprocess.run(cmd, cwd=self.d + cwd, env=e, stdin=subprocess.DEVNULL, capture_output=True, text=True, timeout=120)
            return r.returncode, r.stderr
        except subprocess.TimeoutExpired:
            return 999, "timeout"

    def step(self, op):
        rng = self.rng
        if op == "bench":
            sizes = rng.sample(range(1, 9), rng.choice([0, 1, 1, 2, 2]))
            text = [str(p) for p in sizes]
            for junk in rng.sample(["x", "", "-3", "2.5"], rng.choice([0, 0, 1])):
                text.insert(rng.randint(0, len(text)), junk)
            env = {"RUNNER_NAME": "ci-7"} if rng.random() < 0.3 else {}
            if rng.random() < 0.3:
                env["RUSTFLAGS"] = "-C target-cpu=native"
            rc, err = self.run([self.bench, "--test"], KOFFT_BENCH_POWERS=rng.choice([",", " , ", ", "]).join(text), **env)
            ev = {"ret": rc, "sizes": [1 << p for p in sizes], "par": self.par, "recs": [], "env": {}, "envok": False, **self.files()}
            try:
                doc = json.loads(read(self.lat))
                e = doc["env"]
                ev["recs"] = [rec_of(r) for r in doc["results"]]
                ev["env"] = {k: str(v) for k, v in e.items()}
                ev["envok"] = e["runner"] == env.get("RUNNER_NAME", "local") and e["flags"] == env.get("RUSTFLAGS", "") and \
                    e["rustc"].startswith("rustc") and len(e["date"]) > 19 and e["date"][10] == "T"
            except (TypeError, ValueError, KeyError):
                pass
            return [Cmd("bench", {"powers": "/".join(text)}, ev)]
        if op == "publish":
            rc, err = self.run([self.update])
            return [Cmd("publish", {"err": err.split('"')[1] if '"' in err else ""}, {"ret": rc, **self.files()})]
        if op == "publish-root":
            # as the build helper starts it: in the directory of the repository
            rc, err = self.run([self.update], cwd="")
            return [Cmd("publish", {"err": "NotFound" if "NotFound" in err else ""}, {"ret": rc, **self.files()})]
        if op == "adapt":
            # the records of a run under the names the update program asks for
            doc = json.loads(read(self.lat))
            doc["env"]["_os"] = doc["env"]["os"]
            for r in doc["results"]:
                r["_peak_bytes"] = r["peak_bytes"]
                while round(r["time_per_op_ns"]) % 1000 == 500:
                    r["time_per_op_ns"] += 1
                r["time_per_op_ns"] = float(round(r["time_per_op_ns"]))
            return [self.write(doc)]
        if op == "edit":
            env = {"cpu": rng.choice(["cpu", "CPU @ 2.80GHz"]), "os": "o", "_os": "o", "rustc": "rustc 1.2.3", "flags": rng.choice(["", "-C opt"]),
                   "date": rng.choice(["2025-08-15T11:15:43.27+00:00", "2025-08-15", "", "T12"]), "runner": rng.choice(["local", "a b"])}
            res = []
            for _ in range(rng.choice([0, 1, 3, 6, 12])):
                lib, tr, mode = rng.choice(MODES)
                t = rng.choice([1, 99, 1000, 37431, 999499, 999501, 12345678, rng.randint(1, 10 ** 6), rng.randint(1, 2 * 10 ** 9)])
                t += t % 1000 == 500
                r = {"library": lib, "transform": tr, "size": rng.choice([2, 4, 8, 16, 32, 64, 128, 256, 1048576]), "mode": mode, "time_per_op_ns": float(t),
                     "ops_per_sec": rng.choice([0.25, 26715.5, 10956.75, 1e9, 7.0]), "allocations": rng.choice([0, 3, 38]), "peak_bytes": 5, "_peak_bytes": 5, "best": rng.random() < .5}
                if rng.random() < 0.3:
                    r.update(prev_time_per_op_ns=5.0, change_vs_prev=-1.5)
                res.append(r)
            return [self.write({"env": env, "results": res})]
        if op == "corrupt":
            good = json.dumps({"env": {"cpu": "", "os": "", "_os": "", "rustc": "", "flags": "", "date": "", "runner": ""},
                               "results": [{"library": "a", "transform": "b", "size": 1, "mode": "c", "time_per_op_ns": 1.0, "ops_per_sec": 1.0,
                                            "allocations": 0, "peak_bytes": 0, "_peak_bytes": 0, "best": True}]})
            text = rng.choice(["", "{", "[]", "{}", good[:-1], good.replace('"size": 1', '"size": -1'), good.replace('"mode": "c", ', ""), good.replace('"runner": ""', '"runner": 3'), good + "x"])
            with open(self.lat, "w") as f:
                f.write(text)
            return [Cmd("edit", {}, {"ok": False, "env": {}, "recs": [], **self.files()})]
        if op == "remove":
            if os.path.exists(self.lat):
                os.remove(self.lat)
            return [Cmd("edit", {}, {"ok": False, "env": {}, "recs": [], **self.files()})]
        if op in ("marks", "nomarks"):
            pre, mid, post = (rng.choice(["", "\n", "# Benchmarks\n\ntext\n", "a | b\n<!-- x -->\n", "BENCH_START -->"]) for _ in range(3))
            text = pre + START + mid + END + post if op == "marks" else rng.choice([pre, pre + START + post, pre + END + post, pre + START[:-1] + mid + END + post])
            if op == "marks" and rng.random() < 0.2:
                text += rng.choice([START, END, START + "z" + END])
            with open(self.doc, "w") as f:
                f.write(text)
        if op == "noreadme" and os.path.exists(self.doc):
            os.remove(self.doc)
        return [Cmd("doc", {}, self.files())]

    def write(self, doc):
        with open(self.lat, "w") as f:
            json.dump(doc, f)
        return Cmd("edit", {}, {"ok": True, "env": {k: str(v) for k, v in doc["env"].items()}, "recs": [rec_of(r) for r in doc["results"]], **self.files()})


def rec_of(r):
    w, c = f"{r['ops_per_sec']:.2f}".split(".")
    return {"lib": r["library"], "tr": r["transform"], "size": r["size"], "mode": r["mode"], "t": round(r["time_per_op_ns"]), "ow": min(int(w), 2 * 10 ** 9), "oc": int(c),
            "al": r["allocations"], "best": r["best"], "prev": [round(r["prev_time_per_op_ns"])] if "prev_time_per_op_ns" in r else [],
            "chg": [max(-10 ** 9, int(r["change_vs_prev"] // 1))] if "change_vs_prev" in r else []}


def C24(ctx):
    rng = ctx.rng
    t = "quick" if ctx.quick else "thorough"
    hs = hist(ctx.design("Report", f"Report_{t}", workers=1, expect=500))
    builds = [("bn", False)] if ctx.quick else [("bn", False), ("bnp", True)]
    ctx.build(*[b for b, _ in builds])
    if ctx.quick:
        hs = rng.sample(hs, 150)
    else:
        hs = rng.sample(hs, 4000)
    names = core.known("C24")
    tmp = tempfile.mkdtemp(prefix="report-", dir=RUN)
    lost = []

    def play(job):
        i, h, seed = job
        import random
        r = random.Random(seed)
        b, par = builds[i % len(builds)]
        w = World(f"{tmp}/w{i}", r, b, par)
        cmds, raw = w.step("marks"), False
        for o in h:
            if o == "publish" and raw:
                # the update refuses what a run has written (known finding, counted); then the same records readable
                c = w.step("publish")[0]
                if c.ev["ret"] and c.kv["err"] == "missing field `_os`" and any("missing field `_os`" in n for n in names):
                    lost.append(i)
                    if c.ev["doc"] != cmds[-1].ev["doc"] and cmds[-1].op != "bench":
                        raise ToolError("a refused update changed the readme")
                else:
                    cmds.append(c)
                cmds += w.step("adapt")
                raw = False
            if o == "publish" and i % 10 == 0:
                c = w.step("publish-root")[0]
                if c.ev["ret"] and c.kv["err"] == "NotFound" and any("repository's own directory" in n for n in names):
                    lost.append(i)
                else:
                    cmds.append(c)
            cmds += w.step(o)
            raw = o == "bench" and cmds[-1].ev["ret"] == 0 or raw and o not in ("edit", "corrupt", "remove", "bench")
        shutil.rmtree(w.d, ignore_errors=True)
        return h, b, cmds

    try:
        jobs = [(i, list(h) + (["publish"] if rng.random() < 0.6 else []), rng.random()) for i, h in enumerate(hs)]
        # longer histories of runs and updates
        for q in range(25 if ctx.quick else 300):
            jobs.append((len(jobs), [rng.choice(["bench", "bench", "publish", "publish", "edit", "marks", "corrupt", "remove"]) for _ in range(rng.randint(5, 10))], rng.random()))
        with ThreadPoolExecutor(8) as ex:
            for h, b, cmds in ex.map(play, jobs):
                for c in cmds:
                    c.out = {k: v for k, v in c.ev.items()}
                ctx.add(Session(SPEC, b, cmds, cost=len(cmds), note=" ".join(h)))
        ctx.run()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ctx.cov["refused_runs"] = ctx.cov.get("refused_runs", 0) + len(lost)
    ctx.assume("benchmark programs run in their one-iteration mode (times are real, short ones); markers, when both are there, come in order",
               "the update program is started in the directory of the benchmark crate, where its relative paths lead to the repository")
