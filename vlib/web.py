"""C25: the browser spectrogram (streamed rows, wrappers, canvas pictures, server, service worker)."""
import json, os, shutil, subprocess, sys, tempfile
from urllib.parse import quote
from . import core
from .audio import MAPS, nums
from .core import Cmd, Session, RUN, ROOT, ToolError, binary
from .dsp import hist

SPEC = "TraceWeb"
SIZES = {"0": [0], "1": [1, 17, 200, 511], "2": [512], "3": [513, 700, 1023], "4": [1024], "5": [1025, 1200, 1500], "7": [1536, 1537, 1800, 2500]}


def drive(lines):
    """Answers to command lines, one process; a crash (aborting refusal) ends its session."""
    p = subprocess.run([binary("web")], input="\n".join(lines) + "\n", stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=300)
    if p.returncode == 3:
        raise ToolError("web-harness: bad command")
    got = [json.loads(x) for x in p.stdout.splitlines()]
    return got + [{"ret": "crash"}] * (len(lines) - len(got))


class Stream:
    def __init__(self, rng):
        self.rng, self.lines, self.cmds, self.seen = rng, [], [], set()
        self.next = rng.randint(0, 900)     # samples to the next impulse
        self.lim = rng.choice([100, 100, 30, 5, 1000, 10000])
        self.wide = rng.random() < 0.3      # loudness varies over several decades
        self.step = rng.randint(2, 6) if rng.random() < 0.5 else 0      # a quiet start, then suddenly loud
        self.palette("rainbow")

    def add(self, line, op, ev):
        self.lines.append(line)
        self.cmds.append(Cmd(op, {"line": line[:400]}, ev))

    def palette(self, m):
        if m not in self.seen:
            self.seen.add(m)
            self.add(f"palette {m} 400", "palette", dict(name=m))

    def push(self, k):
        imp, p = [], 0
        while self.next < k - p:
            p += self.next
            rng = self.rng
            v = rng.choice([-1, 1]) * self.rng.choice([self.rng.randint(1, self.lim), self.lim, 1])
            if self.wide and rng.random() < 0.6:
                v = rng.choice([-1, 1]) * int(rng.choice([10, 100, 1000, 10000]) ** rng.random())
            close = False
            if self.step:
                self.step -= 1
                close = self.step == 0      # two loud ones together
                v = rng.choice([-1, 1]) * rng.randint(2, 12)
                if close:
                    self.wide, self.lim = False, rng.choice([3000, 10000])
                    v = rng.randint(self.lim // 2, self.lim)
            imp.append([p, v])
            # distances that make spectra alternate, and any others; at most three impulses in a window
            self.next = rng.randint(60, 400) if close else self.rng.choice([512, 512, 448, 640, 768, 1024, self.rng.randint(400, 900), self.rng.randint(1200, 4000)])
        self.next -= k - p
        self.add(f"frame {k} " + (",".join(f"{a}:{b}" for a, b in imp) or "-"), "frame", dict(len=k, imp=imp, _tabs=[(1024, False)]))

    def reset(self):
        self.add("reset", "clear", {})

    def map(self, name):
        m = name.lower() if name.lower() in MAPS else "fire"
        self.palette(m)
        self.add(f"cmap {name}", "cmap", dict(name=m))

    def session(self, note):
        rows = 0
        for c, o in zip(self.cmds, drive(self.lines)):
            c.out = o
            if c.op == "frame":
                o.setdefault("row", [])
                rows += bool(o["row"])
        return Session(SPEC, "web", self.cmds, cost=1 + 6 * rows, note=note)


def streams(ctx, hs):
    rng = ctx.rng
    for h in hs:
        s = Stream(rng)
        twoname = [rng.choice(MAPS + ["FIRE", "Gray", "VIRIDIS", "other"]) for _ in range(2)]
        for o in h:
            if o == "reset":
                s.reset()
            elif o.startswith("map"):
                s.map(twoname[int(o[3])])
            else:
                s.push(rng.choice(SIZES[o]))
        for _ in range(rng.choice([0, 1, 2])):
            s.push(rng.choice([0, 512]))
        yield s, " ".join(h)
    for q in range(6 if ctx.quick else 60):
        s = Stream(rng)
        for _ in range(rng.randint(8, 40) if ctx.quick else rng.randint(20, 120)):
            k = rng.random()
            if k < 0.06:
                s.reset()
            elif k < 0.16:
                s.map(rng.choice(MAPS))
            else:
                s.push(rng.choice([0, 1, 256, 512, 512, 512, 513, rng.randint(1, 600)]))
        yield s, "long stream"
    for q in range(4 if ctx.quick else 40):
        # samples arrive faster than rows are asked for, and the backlog is worked off later
        s = Stream(rng)
        for _ in range(rng.randint(1, 3)):
            for _ in range(rng.choice([1, 1, 2, 6])):
                s.push(rng.choice([2048, 3000, 4096, 8192, 10000, 20000, rng.randint(1000, 30000)]))
            if rng.random() < 0.3:
                s.map(rng.choice(MAPS))
            for _ in range(rng.randint(4, 18) if ctx.quick else rng.randint(10, 60)):
                s.push(rng.choice([0, 0, 0, 0, 512, 1, 700]))
        yield s, "backlog"


def wrappers(ctx):
    rng = ctx.rng
    jobs = []
    v = lambda n: [rng.randint(-99, 99) for _ in range(n)]
    for _ in range(60 if ctx.quick else 400):
        n, win, hop = rng.choice([0, 1, 5, 16, 33, 100]), rng.choice([1, 2, 3, 4, 5, 7, 8, 16, 20]), rng.choice([1, 2, 3, 4, 8, 25])
        jobs.append((f"stft {win} {hop} {nums(v(n))}", "stft", dict(win=win, hop=hop, n=n, refuse=False)))
        n = rng.choice([1, 2, 3, 4, 8, 12, 16, 31])
        jobs.append((f"split {nums(v(n))} {nums(v(n))}", "wrap", dict(refuse=False)))
        jobs.append((f"dct2 {nums(v(rng.randint(0, 20)))}", "wrap", dict(refuse=False)))
        jobs.append((f"haar {nums(v(2 * rng.randint(1, 10)))}", "wrap", dict(refuse=False)))
        mx = rng.randint(1, 1000)
        jobs.append((f"colour {rng.randint(0, 100) / 100},{rng.randint(0, mx)},{mx},{-rng.choice([20, 60, 80, 120])}", "wrap", dict(refuse=False)))
    for line, op, ev in jobs:
        yield [(line, op, ev)]
    yield [("split 1,2 1", "wrap", dict(refuse=True))]
    yield [("split - -", "wrap", dict(refuse=True))]
    yield [("stft 4 0 1,2,3", "stft", dict(win=4, hop=0, n=3, refuse=True))]
    yield [("stft 0 2 1,2,3", "stft", dict(win=0, hop=2, n=3, refuse=True))]


def pictures(ctx, tmp):
    rng = ctx.rng
    jobs, evs = [], []
    for _ in range(150 if ctx.quick else 1500):
        w, h = rng.choice([0, 1, 1, 2, 3, 7, 20]), rng.choice([0, 1, 2, 3, 5, 16])
        mags = [rng.randint(0, (1 << 24) - 1) for _ in range(w * h)]
        mx, m = rng.randint(1, 1 << 24), rng.randint(0, 6)
        jobs.append(dict(op="draw", mags=mags, w=w, h=h, max=mx, map=m))
        evs.append(("draw", dict(mags=mags, w=w, h=h, wantarg=f"{mx},-80,{m}")))
    urls = ["/", "/index.html", "/app.mjs", "/manifest.json", "/pkg/a.wasm", "/x", "/x?y=1", "/index.html?z"]
    for _ in range(40 if ctx.quick else 300):
        cached = rng.sample(urls, rng.randint(0, 4))
        steps = [rng.choice(urls + ["install"]) for _ in range(rng.randint(1, 8))]
        jobs.append(dict(op="sw", cached=cached, steps=steps))
        evs.append(("sw", dict(cached=cached, steps=steps)))
    p = f"{tmp}/jobs.json"
    with open(p, "w") as f:
        json.dump(jobs, f)
    r = subprocess.run(["node", f"{ROOT}/harness-web/draw.mjs", p], capture_output=True, text=True, timeout=300)
    if r.returncode or not r.stdout.startswith("["):
        # the script does not load: nothing can be drawn
        outs = [{"ret": "noscript", "what": r.stderr[-300:]}] * len(jobs)
    else:
        outs = json.loads(r.stdout)
    for (op, ev), o in zip(evs, outs):
        c = Cmd(op, {k: v for k, v in ev.items() if k in ("w", "h", "steps", "cached")}, ev)
        c.out = o
        yield Session(SPEC, "web", [c], cost=0.5 + len(ev.get("mags", [])) / 100, note=op)


def hexed(rng, s):
    """A segment as it may be written in an address."""
    return "".join(f"%{b:02{rng.choice('xX')}}" if rng.random() < 0.1 else quote(chr(b), safe="") if b < 128 else f"%{b:02X}" for b in s.encode())


def served(ctx, tmp):
    rng = ctx.rng
    jobs, evs = [], []
    for q in range(6 if ctx.quick else 40):
        d = f"{tmp}/srv{q}"
        static = f"{d}/static"
        os.makedirs(static)
        tree = set()
        if q % 3 != 2:
            tree.add(("index.html",))
        for _ in range(rng.randint(1, 9)):
            dirs = rng.choice([(), (), ("a",), ("a", "b"), ("pkg",), ("d d",)])
            f = dirs + (rng.choice(["x.txt", "app.mjs", "index.html", "sp ace.txt", "p%41.txt", "ü.bin", "web.wasm", "noext", "sw.js", "index.htm"]),)
            tree.add(f)
        # names next to the folder must stay out of reach
        for name in ("secret.txt", "index.html", "Cargo.toml"):
            with open(f"{d}/{name}", "w") as f:
                f.write("outside")
        for f in tree:
            p = os.path.join(static, *f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as o:
                o.write("file:" + json.dumps(f))
        known = sorted(tree)
        reqs = []
        for _ in range(60 if ctx.quick else 150):
            k = rng.random()
            if k < 0.35:
                segs = list(rng.choice(known))
            elif k < 0.55:
                f = rng.choice(known)
                segs = list(f[:rng.randint(0, len(f) - 1)]) + rng.choice([[], [], ["index.html"], ["x.txt"], ["nothing"]])
            elif k < 0.75:
                segs = [rng.choice(["a", "b", "x.txt", "missing", "pkg", "index.html", "INDEX.HTML", "d d"]) for _ in range(rng.randint(0, 3))]
            else:
                segs = [rng.choice(["..", "..", "secret.txt", "a", "static", "Cargo.toml", "etc", "passwd", "index.html", "x.txt"]) for _ in range(rng.randint(1, 5))]
            if rng.random() < 0.15:
                segs.insert(rng.randint(0, len(segs)), rng.choice(["", "."]))
            slash = not segs or rng.random() < 0.2
            if "..%" in segs:
                continue
            path = "/" + "/".join(s if s == ".." and rng.random() < 0.5 else "%2e%2e" if s == ".." else hexed(rng, s) for s in segs) + ("/" if slash and segs else "")
            if slash and segs and segs[-1] in ("", ".") or path.startswith("//"):
                continue
            slash = path.endswith("/")
            if rng.random() < 0.2:
                path += rng.choice(["?v=1", "?a=/x.txt", "?"])
            method = rng.choice(["GET"] * 8 + ["HEAD", "POST", "PUT", "DELETE"])
            clean = [s for s in segs if s not in ("", ".")]
            if clean[:1] == ["health"]:
                continue
            reqs.append((method, path, segs, slash, False))
        reqs.insert(rng.randint(0, len(reqs)), ("GET", "/health", ["health"], False, True))
        reqs.append(("GET", "/", [], True, False))
        jobs.append(dict(dir=d, requests=[dict(method=m, path=p) for m, p, _, _, _ in reqs]))
        for m, p, segs, slash, health in reqs:
            evs.append(("get", dict(method=m, path=p, segs=segs, slash=slash, health=health, tree=[list(f) for f in known])))
    p = f"{tmp}/requests.json"
    with open(p, "w") as f:
        json.dump(jobs, f)
    cmd = [sys.executable, f"{ROOT}/vlib/webserve.py", binary("websrv"), p]
    r = None
    for pre in (["unshare", "-Urn"], []):
        try:
            r = subprocess.run(pre + cmd, capture_output=True, text=True, timeout=240)
        except (FileNotFoundError, subprocess.TimeoutExpired):
            continue
        if r.returncode == 0:
            break
    if r is None or r.returncode:
        raise ToolError("server could not be driven: " + (r.stderr[-500:] if r else ""))
    from urllib.parse import unquote
    for (op, ev), o in zip(evs, json.loads(r.stdout)):
        t = o.pop("text")
        c = Cmd(op, dict(method=ev["method"], path=ev["path"]), ev)
        body = json.loads(t[5:]) if t.startswith("file:") else [] if not t else ["?" + t[:50]]
        loc = o.pop("location")
        to = [unquote(s) for s in loc.split("?")[0].split("/") if s] if loc.split("?")[0].endswith("/") else ["?"]
        c.out = dict(o, body=body, to=to)
        yield Session(SPEC, "websrv", [c], cost=0.3, note="server")


def C25(ctx):
    rng = ctx.rng
    t = "quick" if ctx.quick else "thorough"
    hs = hist(ctx.design("WebStream", f"WebStream_{t}", workers=1, expect=900))
    ctx.refute("WebStream", "WebStream_defect")
    ctx.build("web", "websrv")
    tmp = tempfile.mkdtemp(prefix="web-", dir=RUN)
    os.chmod(tmp, 0o755)
    try:
        for s, note in streams(ctx, rng.sample(hs, min(len(hs), 70 if ctx.quick else 1500))):
            ctx.add(s.session(note))
        for job in wrappers(ctx):
            outs = drive([j[0] for j in job])
            cmds = []
            for (line, op, ev), o in zip(job, outs):
                c = Cmd(op, {"line": line[:400]}, ev)
                c.out = dict(o)
                if o.get("answered"):
                    c.out["ret"] = "answered"
                cmds.append(c)
            ctx.add(Session(SPEC, "web", cmds, cost=0.5, note="wrapper"))
        for s in pictures(ctx, tmp):
            ctx.add(s)
        for s in served(ctx, tmp):
            ctx.add(s)
        ctx.run()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ctx.assume("the library and the server run natively, the scripts under node with a recording canvas and cache; the WebGL route, audio decoding by the browser "
               "and the WASM build itself are not exercised",
               "the palettes are those the core library gives (C17 decides those)")
