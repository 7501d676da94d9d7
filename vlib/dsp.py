"""C12, C13, C16, C17, C18, C20, C21: real transforms, wavelets, windows, detectors, spectrogram (spec/TraceDsp.tla)."""
import json, math, os
from . import core
from .core import Cmd, Session, ToolError
from .gen import NS, Sig, dense, sparse, ispow2

SPEC = "TraceDsp"
ALLB = ("def", "all", "nat", "nostd")
STACK = [0, 1, 2, 3, 4, 6, 8, 10, 12, 16, 32, 64, 128, 256, 1024]
KINDS = ["dct1", "dct2", "dct3", "dct4", "dst1", "dst2", "dst3", "dst4", "dht"]
STACKR = ["dct1", "dct2", "dst2", "dst2f", "dst3", "dst4"]


def base(r):
    return {"slow2": "dct2", "slow3": "dct3", "slow4": "dct4", "dst2f": "dst2"}.get(r, r)


def tablen(r, n):
    b = base(r)
    if b == "dct1":
        return 1 if n <= 1 else 2 * (n - 1)
    if b in ("dct2", "dct3", "dst2", "dst3"):
        return 4 * n
    if b in ("dct4", "dst4"):
        return 8 * n
    return 2 * (n + 1) if b == "dst1" else n


class TrigSig(Sig):
    """Real signal with the transforms applied to it."""

    def __init__(self, n, x):
        super().__init__(n, x)
        self.kinds = set()

    @property
    def tabs(self):
        return [tablen(r, self.n) for r in self.kinds if self.n]

    def rec(self):
        return {"n": self.n, "x": self.x, "ks": [], "t": sorted(self.kinds)}


def tsig(rng, n, mode=None):
    if mode is None:
        mode = rng.choice(["dense", "sparse", "impulse", "const", "big"]) if n <= 24 else rng.choice(["dense", "sparse"]) if n <= 64 else "sparse"
    if n == 0:
        return TrigSig(0, [])
    if mode == "dense":
        return TrigSig(n, dense(rng, n, 9, True))
    if mode == "big":
        return TrigSig(n, sparse(rng, n, 4, 120, True))
    if mode == "impulse":
        return TrigSig(n, [(rng.randrange(n), rng.choice([1, -3]), 0)])
    if mode == "const":
        return TrigSig(n, [(p, 2, 0) for p in range(n)])
    return TrigSig(n, sparse(rng, n, 10, 30, True))


def tcost(s):
    return s.n * max(1, len(s.x)) / 150.0


def plain(r, s, **kw):
    s.kinds.add(base(r))
    return Cmd("trig", {"form": "plain", "r": r, "x": s.re(), **kw}, {"form": "plain", "r": r, "sid": s})


def stack(r, s, **kw):
    if s.n and s.n % 2 == 0 and ispow2(s.n):
        s.kinds.add(base(r))
    return Cmd("trig", {"form": "stack", "r": r, "x": s.re(), **kw}, {"form": "stack", "r": r, "sid": s})


def planned(pl, ss, o="p", ols=None, **kw):
    ols = ols or [s.n for s in ss]
    for s in ss:
        if s.n == pl:
            s.kinds.add("dct2")
    return Cmd("trig", {"form": "planned", "r": "dct2p", "o": o, "pl": pl, "xs": [s.re() for s in ss], "ols": ols, **kw},
               {"form": "planned", "r": "dct2p", "pl": pl, "xs": list(ss), "ols": ols})


def many(form, r, ss, **kw):
    for s in ss:
        s.kinds.add(base(r))
    return Cmd("trig", {"form": form, "r": r, "xs": [s.re() for s in ss] or "none", **kw}, {"form": form, "r": r, "xs": list(ss)})


def amp(rng):
    a = rng.choice([0, 0, 0, 0, -20, -8, 10, 20])
    return {"amp": a} if a else {}


def dstplanner(r, n, p, o="d"):
    return Cmd("dstplanner", {"r": r, "n": n, "p": p, "o": o}, {"r": r, "n": n, "p": p, "_tabs": [(4 * n, p != "32")] if n and r != "scratch" else []})


def hist(out):
    return [json.loads(json.loads(l)[5:]) for l in out.splitlines() if l.startswith('"HIST ')]


# ------------------------------------------------------------------------ C12
def lemma_tabs(maxn):
    ns = set()
    for n in range(1, maxn + 1):
        for r in KINDS:
            ns.add(tablen(r, n))
    path = os.path.join(core.RUN, f"lemma-{maxn}.json")
    with open(path, "w") as f:
        json.dump({"tabs": {str(n): core.table(n, False) for n in sorted(ns)}}, f)
    return path


def C12(ctx):
    rng = ctx.rng
    ctx.build(*ALLB)
    t, mx = ("quick", 10) if ctx.quick else ("thorough", 40)
    ctx.start_design("TrigLemmas", f"TrigLemmas_{t}", env={"TRACE": lemma_tabs(mx)}, workers=1, expect=300)
    lens = list(range(0, 34)) + [48, 64, 100, 127, 256] + rng.sample(range(129, 420), 4) + rng.sample(range(34, 129), 2) + [rng.choice([511, 513, 600, 1000, 1023, 1024, 1025, 1500, 2048])] if ctx.quick else \
        list(range(0, 101)) + [127, 128, 200, 256, 257, 500, 512, 1000, 1024, 1025, 1500, 2048, 4000] + rng.sample(range(101, 700), 24)
    for n in lens:
        sigs = [tsig(rng, n) for _ in range(1 if n > 1100 else 2 if n > 40 else 3)]
        if n > 420:
            for s in sigs:
                s.x = s.x[:6]
        for b in ALLB if n <= 128 or not ctx.quick else rng.sample(ALLB, 3 if n <= 500 else 1):
            cmds = []
            for r in KINDS[:-1] + (["slow2", "slow3", "slow4"] if b in ("all", "nat") else []):
                for s in rng.sample(sigs, 1 if b in ("nat",) or n > 64 else 2):
                    cmds.append(plain(r, s, **amp(rng)))
            if n in STACK:
                for r in STACKR if n <= 256 or not ctx.quick else rng.sample(STACKR, 2):
                    cmds.append(stack(r, rng.choice(sigs)))
            if n or True:
                cmds.append(planned(n, rng.sample(sigs, min(2, len(sigs))), **(amp(rng) if n and (b not in NS or ispow2(n)) else {})))
            ctx.add(Session(SPEC, b, cmds, group=f"n{n}", cost=len(cmds) * n / 60.0 + (sum(map(tcost, sigs)) * 8 if b == "def" else 1), note=f"trig n={n}"))
    # round trips of data through the pairs are theorems of the definitions (TrigLemmas); planner histories
    dct_histories(ctx)
    planner_tables(ctx)
    ctx.run()
    ctx.assume("integer signals scaled by powers of two; f32; values within the rounding bound of a naive single-precision sum")


def dct_histories(ctx):
    """Planned DCT-II under planner histories enumerated by Engine.tla."""
    from .fft import hist_groups
    rng = ctx.rng
    t = "quick" if ctx.quick else "thorough"
    hs = hist_groups(ctx.design("Engine", f"Engine_dct_{t}", workers=1, expect=5))
    NG = 12
    pool = {}
    ctx.keep_dct = pool

    def sig(g, n):
        k = (g, n)
        if k not in pool:
            pool[k] = [tsig(rng, n) for _ in range(2)]
        return rng.choice(pool[k])

    i = 0
    for h, loops, changing in hs:
        runs = [h + loops] + [h + [op] + rng.sample(loops, min(2, len(loops))) for op in changing]
        for run in runs:
            if not ctx.quick and len(hs) > 600 and rng.random() > 0.5:
                continue
            i += 1
            g = i % NG
            b = rng.choice(ALLB)
            cmds = []
            for op in run:
                n = op[1]
                if op[0] == "err":
                    ss = [sig(g, n), sig(g, n + 1), sig(g, n)]
                    cmds.append(planned(n, ss, ols=[n, n + 1, n + rng.choice([1, -1])]))
                else:
                    ss = [sig(g, n) for _ in range(rng.choice([1, 2]))]
                    cmds.append(planned(n, ss))
            ctx.add(Session(SPEC, b, cmds, group=f"h{g}", cost=sum(1 + c.kv["pl"] / 8 for c in cmds), note=f"dct planner history {run}"))
    for q in range(20 if ctx.quick else 150):
        b = rng.choice(ALLB)
        base, d = rng.choice([1, 2, 3, 5, 8, 12, 17, 40]), rng.choice([16, 32, 64, 128, 256])
        ls = [base, base + d]
        if q % 4 == 0:
            ls = rng.sample(range(1, 90), 40)
        elif q % 2:
            ls.reverse()
        cmds = [planned(n, [sig(q % NG, n)]) for n in ls + ls[:15]]
        ctx.add(Session(SPEC, b, cmds, group=f"h{q % NG}", cost=len(ls) + sum(ls) / 10.0, note=f"dct planner, lengths {ls[:3]}"))
    for q in range(30 if ctx.quick else 250):
        g = q % NG
        b = rng.choice(ALLB)
        cmds = []
        for _ in range(8):
            n = rng.choice([0, 1, 2, 3, 5, 6, 7, 8, 12, 16, 17, 20, 32, 33, 64])
            ss = [sig(g, rng.choice([n, n, n, max(0, n - 1), n + 1, 2 * n])) for _ in range(rng.choice([1, 2, 3]))]
            ols = [rng.choice([s.n, s.n, s.n, s.n + 1, max(0, s.n - 1), n]) for s in ss]
            cmds.append(planned(n, ss, o=rng.choice("pq"), ols=ols))
        ctx.add(Session(SPEC, b, cmds, group=f"h{g}", cost=12, note="random dct planner history"))


def planner_tables(ctx):
    rng = ctx.rng
    q = 0
    for b in ALLB:
        for p in ("32", "64"):
            for _ in range(5 if ctx.quick else 30):
                base, d = rng.randint(1, 60), rng.choice([16, 32, 64, 128, 256, 512])
                ls = [base, base + d] if rng.random() < 0.5 else [base + d, base]
                cmds = [dstplanner(r, n, p, "d") for n in ls + ls for r in rng.sample(["dst2", "dst3", "dst4"], 2)]
                q += 1
                ctx.add(Session(SPEC, b, cmds, group=f"dp{q}", cost=len(cmds) * 4, note="dst planner, colliding lengths"))
            ns = list(range(0, 41 if ctx.quick else 200)) + [64, 100, 128, 255, 256, 500]
            rng.shuffle(ns)
            for part in range(0, len(ns), 12):
                ch = ns[part:part + 12]
                cmds = [dstplanner(r, n, p, rng.choice("de")) for n in ch + rng.sample(ch, len(ch) // 2)
                        for r in rng.sample(["dst2", "dst3", "dst4", "scratch"], 3)]
                q += 1
                ctx.add(Session(SPEC, b, cmds, group=f"dp{q}", cost=len(cmds) * 1.5, note="dst planner tables"))


# ------------------------------------------------------------------------ C13
WK = ["haar", "db2", "db4", "sym4", "coif1"]


def ints(rng, n, a=9):
    v = [rng.randint(-a, a) for _ in range(n)]
    r = rng.random()
    if n > 2 and r < 0.16:
        # structured data: zero, constant, symmetric, alternating, ramps, half empty
        v = [0] * n if r < 0.03 else [v[0]] * n if r < 0.06 else v[:(n + 1) // 2] + v[:n // 2][::-1] if r < 0.08 else \
            [v[0] * (-1) ** i for i in range(n)] if r < 0.1 else [i % (a + 1) for i in range(n)] if r < 0.12 else \
            [x if i % 2 else 0 for i, x in enumerate(v)] if r < 0.14 else [x if i < n // 2 else 0 for i, x in enumerate(v)]
    return v


TAPS = {"db2": [.483, .837, .224, -.129], "db4": [-.0106, .0329, .0308, -.187, -.028, .631, .715, .23],
        "sym4": [-.0758, -.0296, .498, .804, .298, -.0992, -.0126, .0322], "coif1": [-.0157, -.0727, .385, .853, .338, -.0727]}


def peak(k, x, lv):
    """rough bound on the values of a decomposition into lv levels and its reconstruction (TLC's integers have 32 bits)"""
    if k == "haar" or len(x) < 2:
        return max([abs(v) for v in x] or [0])
    h = TAPS[k]
    g = [v * (-1) ** i for i, v in enumerate(h[::-1])]

    def refl(i, n):
        m = i % (2 * (n - 1))
        return m if m < n else 2 * (n - 1) - m
    top, ds, u = max(map(abs, x)), [], list(x)
    for _ in range(lv):
        u = u + u[-1:] if len(u) % 2 else u
        n = len(u)
        if n < 2:
            break
        rows = [[u[refl(2 * i + j, n)] for j in range(len(h))] for i in range(n // 2)]
        u, d = [sum(a * b for a, b in zip(r, h)) for r in rows], [sum(a * b for a, b in zip(r, g)) for r in rows]
        ds.append(d)
        top = max([top] + [abs(v) for v in u + d])
    for d in reversed(ds):
        u, n = u[:len(d)], 2 * len(d)
        y = [0.0] * n
        for i in range(len(u)):
            for j in range(len(h)):
                y[refl(2 * i + j, n)] += u[i] * h[j] + d[i] * g[j]
        u = y
        top = max(top, max(map(abs, u)))
    return top


def tame(rng, k, n, lv, a=9):
    """signal whose decomposition and reconstruction stay within the range of the specification's numbers"""
    x = ints(rng, n, a)
    while peak(k, x, lv) > 190 and a > 1:
        a = max(1, a // 2)
        x = ints(rng, n, a)
    return x if peak(k, x, lv) <= 190 else [v if i % 37 == 5 else 0 for i, v in enumerate(x)]


def wv(k, r, kv, ev):
    return Cmd("wavelet", {"k": k, "r": r, **kv}, {"k": k, "r": r, **ev})


def rows(v):
    return v or "none"


def wavelet_batch(rng, k, xs, b, lv):
    """batch forms of one family"""
    out = [wv(k, "mbfwd", {"xs": rows(xs), "lv": lv}, {"xs": xs, "lv": lv}), wv(k, "mbrt", {"xs": rows(xs), "lv": lv}, {"xs": xs, "lv": lv})]
    if k in ("haar", "db2"):
        out.append(wv(k, "bfwd", {"xs": rows(xs)}, {"xs": xs}))
        a = [ints(rng, len(x) // 2 + 1) for x in xs]
        d = [ints(rng, len(x) // 2 + 1) for x in xs]
        out.append(wv(k, "binv", {"xa": rows(a), "xdt": rows(d)}, {"xas": a, "xds": d}))
    return out


def C13(ctx):
    rng = ctx.rng
    ctx.build(*ALLB)
    t = "quick" if ctx.quick else "thorough"
    ctx.start_design("WaveletLemmas", f"WaveletLemmas_{t}", workers=2, expect=300)
    lens = list(range(0, 26)) + [31, 32, 33, 47, 48, 64, 100] if ctx.quick else list(range(0, 81)) + [96, 100, 127, 128, 129, 200, 256]
    for n in lens:
        for b in ALLB if n <= 33 or not ctx.quick else ("def", "nostd"):
            cmds = []
            for k in WK:
                x = ints(rng, n, rng.choice([9, 200]) if k == "haar" else 9)
                am = amp(rng)
                cmds += [wv(k, "fwd", {"x": x, **am}, {"x": x}), wv(k, "rt", {"x": x, **am}, {"x": x})]
                a, d = ints(rng, n // 2), ints(rng, n // 2)
                cmds.append(wv(k, "inv", {"a": a, "d": d}, {"xa": a, "xd": d}))
                for lv in rng.sample(range(0, 7), 1 if n > 33 else 2):
                    gen = rng.choice([0, 1])
                    if peak(k, x, lv) > 190 and k != "haar":
                        x = tame(rng, k, n, lv)
                    cmds.append(wv(k, "mfwd", {"x": x, "lv": lv, "gen": gen}, {"x": x, "lv": lv}))
                    cmds.append(wv(k, "mrt", {"x": x, "lv": lv, "gen": gen}, {"x": x, "lv": lv}))
                # synthesis of arbitrary multi-level coefficients, details of every consistent length
                lv = rng.randint(0, 3)
                ds, m = [], rng.randint(1, 4)
                a = ints(rng, m)
                for _ in range(lv):
                    ds.insert(0, ints(rng, m))
                    m = 2 * m - rng.choice([0, 0, 1]) if m > 1 else 2 * m
                cmds.append(wv(k, "minv", {"a": a, "ds": rows(ds)}, {"xa": a, "xds": ds}))
            if n in (0, 2, 4, 6, 8, 10, 16, 32):
                x = ints(rng, n)
                cmds.append(wv("haar", "sfwd", {"x": x}, {"x": x}))
            a, d = ints(rng, n // 2), ints(rng, n // 2)
            cmds.append(wv("haar", "sinv", {"a": a, "d": d}, {"xa": a, "xd": d}))
            ctx.add(Session(SPEC, b, cmds, group=f"w{n % 40}{b}", cost=len(cmds) * (2 + n) / 20.0, note=f"wavelet n={n}"))
    # long signals, deep decompositions
    for n in rng.sample(range(101, 900), 6) + [128, 255, 256, 257, 1000, 1024] + ([1025, 2048, 4095, 4096, 10000] if not ctx.quick else [2049]):
        for b in rng.sample(ALLB, 2):
            cmds = []
            for k in WK:
                x = ints(rng, n, 200 if k == "haar" else 9)
                a, d = ints(rng, n // 2), ints(rng, n // 2)
                cmds += [wv(k, "fwd", {"x": x, **amp(rng)}, {"x": x}), wv(k, "rt", {"x": x}, {"x": x}), wv(k, "inv", {"a": a, "d": d}, {"xa": a, "xd": d})]
                lv = rng.randint(1, 12)
                gen = rng.choice([0, 1])
                # approximations of the filter banks grow by up to sqrt 2 per level
                x = ints(rng, n, 200) if k == "haar" else tame(rng, k, n, lv, max(1, min(9, int(90 / 2 ** (lv / 2)))))
                cmds += [wv(k, "mfwd", {"x": x, "lv": lv, "gen": gen}, {"x": x, "lv": lv}), wv(k, "mrt", {"x": x, "lv": lv, "gen": gen}, {"x": x, "lv": lv})]
            ctx.add(Session(SPEC, b, cmds, cost=n / 8.0, note=f"wavelet n={n}"))
    for q in range(4 if ctx.quick else 24):
        b = ALLB[q % 4]
        cmds = []
        for k in WK:
            m = rng.choice([16, 17, 32, 33, 40, 64, 65])
            xs = [ints(rng, rng.choice([0, 1, 2, 5, 8, 16, 21])) for _ in range(m)]
            cmds += wavelet_batch(rng, k, xs, b, rng.randint(0, 3))
        ctx.add(Session(SPEC, b, cmds, cost=30, note="large wavelet batch"))
    # recordings of many thousand samples: data by law, answers at sampled places (a run at a time, and both ends)
    for n in [rng.randrange(2000, 20000), rng.choice([32768, 40000, 65535, 65537]), 2 * rng.randrange(32769, 70000), 2 * rng.randrange(70000, 150000)]:
        for b in rng.sample(ALLB, 1 if ctx.quick else 4):
            cmds = []
            for k in WK:
                for r in ("ffwd", "frt", "finv") + (("fmrt",) if k == "haar" else ()):
                    if r in ("ffwd", "frt") and n % 2:
                        continue
                    top = n // 2 if r == "ffwd" else n if r != "finv" else 2 * (n // 2)
                    ks = set(range(12)) | set(range(top - 12, top)) | {rng.randrange(top) for _ in range(40)}
                    for q0 in (top // 2, rng.randrange(top), 1 << rng.randrange(4, top.bit_length())):
                        ks |= {q for q in range(q0 - 10, q0 + 10) if 0 <= q < top}
                    ks = sorted(ks)
                    kv = {"n": n, "ga": rng.randrange(2, 1009), "gb": rng.randrange(2, 1009), "ks": ks}
                    cmds.append(wv(k, r, {**kv, "lv": rng.randint(1, 14)}, kv))
            ctx.add(Session(SPEC, b, cmds, cost=25, note=f"far wavelet n={n}"))
    for n in (2, 3, 4, 5, 8, 13, 16, 33):
        # odd/even lengths at every level, Haar: exact reconstruction for all level counts
        for b in ("def", "nostd"):
            cmds = []
            for lv in range(0, 8):
                x = ints(rng, n, 200)
                cmds.append(wv("haar", "mrt", {"x": x, "lv": lv, "gen": lv % 2}, {"x": x, "lv": lv}))
            ctx.add(Session(SPEC, b, cmds, cost=6, note="haar levels"))
    for q in range(16 if ctx.quick else 120):
        b = rng.choice(ALLB)
        cmds = []
        for k in rng.sample(WK, 3):
            xs = [ints(rng, rng.choice([0, 1, 2, 3, 4, 7, 8, 16, 21])) for _ in range(rng.choice([0, 1, 2, 3, 5]))]
            cmds += wavelet_batch(rng, k, xs, b, rng.randint(0, 3))
        ctx.add(Session(SPEC, b, cmds, cost=10, note="wavelet batch"))
    ctx.run()
    ctx.assume("integer samples up to 200 (Haar) / 9 in magnitude; filters known to seven digits")


# ------------------------------------------------------------------------ C16
WR = ["hann", "hamming", "blackman", "bartlett", "bohman", "nuttall"]


def window_cmds(rng, r, n):
    if r == "kaiser":
        out = []
        for b, bd in rng.sample([(0, 1), (1, 1), (3, 2), (2, 1), (5, 1), (17, 2), (8, 1), (11, 1), (14, 1), (18, 1), (20, 1), (1, 4), (30, 1), (50, 1), (80, 1), (40, 2), (24, 1), (40, 1), (60, 1), (133, 2), (71, 1)], 6):
            out.append(Cmd("window", {"r": r, "n": n, "beta": b / bd}, {"r": r, "n": n, "b": b, "bd": bd}))
        return out
    if r == "tukey":
        out = []
        for p, q in rng.sample([(0, 1), (-1, 2), (1, 8), (1, 4), (3, 8), (1, 2), (5, 8), (3, 4), (7, 8), (1, 1), (3, 2), (5, 1), (1, 16), (1, 32)], 6):
            m = 2 * min(p, q) * (n - 1)
            out.append(Cmd("window", {"r": r, "n": n, "alpha": p / q}, {"r": r, "n": n, "b": p, "bd": q, "_tabs": [(m, False)] if m > 0 else []}))
        return out
    m = {"hann": n, "hamming": n, "blackman": n, "nuttall": n - 1, "bohman": 2 * (n - 1)}.get(r.replace("_s", ""), 0)
    return [Cmd("window", {"r": r, "n": n}, {"r": r, "n": n, "_tabs": [(m, False)] if m > 0 else []})]


def C16(ctx):
    rng = ctx.rng
    ctx.build(*ALLB)
    lens = list(range(0, 66)) + [100, 127, 128, 255, 256, 257, 512, 1000, 1024] + rng.sample(range(66, 1100), 3) if ctx.quick else \
        list(range(0, 201)) + [255, 256, 257, 400, 511, 512, 1000, 1024, 1100]
    for n in lens:
        for b in ALLB if n <= 200 or not ctx.quick else rng.sample(ALLB, 2):
            rs = list(WR) + ["kaiser", "tukey"]
            if n in (0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 31, 33, 64, 100):
                rs += ["hann_s", "hamming_s", "blackman_s"]
            cmds = [c for r in rs for c in window_cmds(rng, r, n)]
            ctx.add(Session(SPEC, b, cmds, group=f"{n % 48}{b}", cost=2 + n * len(cmds) / 100.0, note=f"windows n={n}"))
    # long windows
    for n in [rng.choice([2048, 3000, 4096, 4400]), rng.choice([8192, 10000, 16384, 20000])] if ctx.quick else [1500, 2047, 2048, 2049, 3000, 4096, 4400, 8192, 10000, 16384, 20000]:
        for b in rng.sample(ALLB, 1 if ctx.quick else 3):
            cmds = [c for r in list(WR) + ["kaiser", "tukey"] for c in window_cmds(rng, r, n)
                    if r not in ("kaiser", "tukey") or r == "kaiser" and n <= 4400 and c.ev["bd"] == 1 and c.ev["b"] <= 20 or r == "tukey" and 0 <= c.ev["b"] <= c.ev["bd"] <= 4]
            for i, c in enumerate(cmds):
                ctx.add(Session(SPEC, b, [c], group=f"{n}{b}{i}", cost=n / 300.0, note=f"windows n={n}"))
    # hundreds of thousands of points, at sampled places
    n = rng.choice([131074, rng.randrange(131074, 170000)])
    for b in rng.sample(ALLB, 1 if ctx.quick else 4):
        for r in WR + ["kaiser", "tukey"]:
            for c in window_cmds(rng, r, n):
                if r == "kaiser" and rng.random() < 0.6 or r == "tukey" and not 0 <= c.ev["b"] <= c.ev["bd"] <= 4 or c.ev.get("b") == 3:
                    continue
                ks = set(range(8)) | set(range(n - 8, n)) | {rng.randrange(n) for _ in range(60)} | {n // 2 - 1, n // 2, n // 2 + 1, 65535, 65536, 65537}
                for q0 in (rng.randrange(n), 1 << rng.randrange(4, 18)):
                    ks |= {q for q in range(q0 - 8, q0 + 8) if 0 <= q < n}
                c.kv["ks"] = c.ev["ks"] = sorted(ks)
                ctx.add(Session(SPEC, b, [c], group=f"far{b}", cost=6, note=f"windows n={n}"))
    ctx.run()
    ctx.assume("Kaiser shape 0..80 (beyond 20 a sample of the values is compared); Tukey taper boundary sample may fall on either side")


# ------------------------------------------------------------------------ C17
CMN = ["fire", "legacy", "gray", "viridis", "plasma", "inferno", "rainbow", "Fire", "GRAY", "RainBow", "iNFerno", "nosuch", "turbo"]


def sp(r, kv, ev):
    return Cmd("spectro", {"r": r, **kv}, {"r": r, **ev})


def mags_cmd(rng, n, wl, hop):
    am = amp(rng) if hop and wl else {}
    a = max(1, min(9, 40 // max(1, wl)))
    x = [0] * n
    left = {}
    # keep the absolute sum of every frame small
    for p in range(n):
        if wl <= 40 or rng.random() < 30.0 / wl:
            x[p] = rng.randint(-a, a)
    return sp("mags", {"x": x, "wl": wl, "hop": hop, **am}, {"x": x, "wl": wl, "hop": hop, "_tabs": [(wl, False)] if wl > 1 else [(1, False)]})


def lower(s):
    return "".join(ch.lower() if ch.isascii() else ch for ch in s)


def parse_cmd(name):
    lc = lower(name)
    return sp("parse", {"hex": name.encode().hex()}, {"lc": lc if lc.isascii() and lc.isprintable() else "#" + name.encode().hex()})


def C17(ctx):
    rng = ctx.rng
    B = ("def", "all", "nat")
    ctx.build(*B)
    for b in B:
        for wl in (list(range(1, 20)) + [24, 31, 32, 33, 64, 80]) if ctx.quick else list(range(1, 65)) + [80, 96, 100, 128]:
            cmds = []
            for hop in rng.sample([1, 2, max(1, wl // 2), wl, wl + 1, 2 * wl + 3, 0], 3):
                n = rng.choice([0, 1, wl, wl - 1, 2 * wl + 1, 3 * hop + 1, 40])
                if hop and -(-n // hop) > 24:
                    n = 24 * hop
                cmds.append(mags_cmd(rng, n, wl, hop))
            ctx.add(Session(SPEC, b, cmds, group=f"m{wl % 24}", cost=sum(len(c.kv["x"]) for c in cmds) * wl / 60.0, note=f"magnitudes wl={wl}"))
        # long recordings: many frames, or long windows over sparse samples
        for wl, hop, nf in [(rng.choice([4, 6, 8]), rng.choice([1, 2, 3]), rng.randint(200, 600)), (rng.choice([16, 17]), 8, rng.choice([63, 64, 65, 128, 129])),
                            (rng.choice([127, 128, 129, 200]), rng.choice([32, 64]), rng.randint(8, 16)), (rng.choice([256, 300, 511, 512]), 256, 4), (rng.choice([1000, 1024, 1025, 2048]), rng.choice([512, 700, 1024]), 2)] + \
                ([] if ctx.quick else [(1024, 512, 3), (1000, 300, 4), (8, 1, 3000), (2048, 1024, 2)]):
            n = nf * hop - rng.randrange(hop)
            am = amp(rng)
            x = [0] * n
            for q0 in range(0, n, wl):
                for p in rng.sample(range(q0, min(n, q0 + wl)), min(8, wl, n - q0)):
                    x[p] = rng.randint(-2, 2)
            c = sp("mags", {"x": x, "wl": wl, "hop": hop, **am}, {"x": x, "wl": wl, "hop": hop, "_tabs": [(wl, False)]})
            ctx.add(Session(SPEC, b, [c], group=f"ml{wl}", cost=nf * wl / 30.0, note=f"long recording wl={wl} hop={hop} frames={nf}"))
        cmds = [mags_cmd(rng, 0, 0, 1), mags_cmd(rng, 5, 0, 1), mags_cmd(rng, 0, 8, 0), mags_cmd(rng, 5, 8, 0), mags_cmd(rng, 8, 4, 4), sp("mags", {"x": [0] * 9, "wl": 4, "hop": 2}, {"x": [0] * 9, "wl": 4, "hop": 2, "_tabs": [(4, False)]})]
        ctx.add(Session(SPEC, b, cmds, note="magnitude edge cases"))
        for q in range(12 if ctx.quick else 80):
            cmds = []
            for _ in range(3):
                mx = rng.choice([1, 2, 7, 100, 1000, 65536, 999999, 10 ** 8, 10 ** 9])
                sh = {"sh": rng.choice([0, 0, 20, -40, 60, -70, -100])}
                x = [0, mx, 1] + [rng.choice([rng.randint(0, mx), rng.randint(0, max(1, mx // 100)), -rng.randint(0, 5), rng.randint(0, 5), mx - rng.randint(0, mx // 10), int(mx ** rng.random())]) for _ in range(14)]
                fl = rng.choice([-1, -20, -60, -80, -120, -160, -200])
                cmds.append(sp("db", {"x": x, "mx": mx, "floor": fl, **sh}, {"x": x, "mx": mx, "floor": fl}))
                x2 = [v if v >= 0 else -v for v in x] + [2 * mx if mx < 500000000 else mx + 7]
                dr = rng.choice([1, 10, 60, 80, 100, 120, 150, 180, 200])
                cmds.append(sp("scale", {"x": x2, "mx": mx, "dr": dr, **sh}, {"x": x2, "mx": mx, "dr": dr}))
                cm = rng.choice(CMN)
                fl = rng.choice([-20, -60, -80, -120, -180])
                cmds.append(sp("cmag", {"cm": cm, "x": x, "mx": mx, "floor": fl, **sh}, {"cm": cm, "lc": lower(cm), "x": x, "mx": mx, "floor": fl}))
            x0 = [0, 1, 5, -1]
            for mx in (0, -3):
                cmds.append(sp("db", {"x": x0, "mx": mx, "floor": -60}, {"x": x0, "mx": mx, "floor": -60}))
            ctx.add(Session(SPEC, b, cmds, cost=6, note="decibels"))
        for cm in CMN:
            cmds = [parse_cmd(cm)]
            for den in (20, 8, 100, 255, 256) if ctx.quick else (1, 2, 4, 7, 8, 10, 20, 50, 100, 255, 256, 400, 1000):
                ks = list(range(-3, den + 4)) if den <= 256 else [-1, den + 1] + sorted(rng.sample(range(den + 1), 200))
                if ctx.quick and len(ks) > 60:
                    ks = [-1, 0, den, den + 1] + sorted(rng.sample(ks, 50))
                ks += [-10 * den, 7 * den]
                cmds.append(sp("color", {"cm": cm, "x": ks, "xd": den}, {"cm": cm, "lc": lower(cm), "x": ks, "den": den}))
            ctx.add(Session(SPEC, b, cmds, group=cm + b, cost=4, note=f"colour map {cm}"))
        # palette names: exact up to ASCII case, everything else is the default map
        good = ["fire", "legacy", "gray", "viridis", "plasma", "inferno", "rainbow"]
        for q in range(3 if ctx.quick else 12):
            names = ["", " ", "green", "grey", "grayscale", "greyscale", "gra", "g", "magma", "jet", "rain", "rainbows", "turbo", "hot", "cool", "legacy2", "infern", "plasm", "virid", "viridis ", " viridis",
                     "pla\u017fma", "v\u0131rid\u0131s", "V\u0130RIDIS", "ra\u0131nbow", "inferno\x00", "gray\n", "\uff47ray", "lega\u0441y", "-gray", "gray-r", "viridis_r", "r", "i", "l", "p", "v", "f"]
            for w in good:
                names += ["".join(rng.choice([ch, ch.upper()]) for ch in w) for _ in range(4)]
                k = rng.randrange(len(w))
                names += [w, w.upper(), w.title(), w[:k] + w[k + 1:], w[:k] + rng.choice("abcdefgxyz_ -") + w[k + 1:], w[:k] + w[k] + w[k:], w[::-1], w + rng.choice(good), w[: rng.randrange(len(w))], w[rng.randrange(1, len(w)):]]
            rng.shuffle(names)
            ctx.add(Session(SPEC, b, [parse_cmd(w) for w in names], group="names", cost=2, note="palette names"))
        for mb in (list(range(0, 18)) + [31, 64, 100, 128, 255, 256, 511, 512] + rng.sample(range(129, 511), 2) + [rng.choice([1023, 1024, 1500, 2047, 2048])] if ctx.quick else
                   list(range(0, 130)) + [200, 255, 256, 400, 511, 512, 700, 1023, 1024, 1500, 2047, 2048, 4095]):
            x = [rng.randint(0, 99) for _ in range(mb + 1)]
            y = x[: rng.randint(0, mb + 1)]
            cmds = [sp("bin", {"mb": mb}, {"mb": mb}), sp("logbins", {"mb": mb, "x": x}, {"mb": mb, "x": x}), sp("logbins", {"mb": mb, "x": y}, {"mb": mb, "x": y})]
            ctx.add(Session(SPEC, b, cmds, group=f"b{mb % 24}{b}", cost=1 + mb * mb / 2000.0, note=f"log bins {mb}"))
    ctx.run()
    ctx.assume("magnitudes are integers over a power of two; bin positions within 2e-7 of an integer may round either way; perceptual maps checked at their ends, in range and for clamping")


# ------------------------------------------------------------------------ C18
def goertzel_cmd(rng, n, rate, freq, x=None, **kw):
    if x is None:
        x = [0] * n
        left = 40
        for p in rng.sample(range(n), min(n, 14)):
            v = rng.randint(-min(6, left), min(6, left))
            x[p] = v
            left -= abs(v)
    # the bin depends on the quotient only: fractional rates and frequencies come from a common scale
    q = rng.choice([1, 1, 1, 2, 8, 64])
    return Cmd("goertzel", {"x": x, "rate": rate / q, "freq": freq / q, **kw}, {"x": x, "rate": rate, "freq": freq, "_tabs": [(len(x), False)] if x else []})


def czt_unit(x, m, N, wj, aj, **kw):
    return Cmd("czt", {"x": x, "m": m, "w": f"t{wj}/{N}", "a": f"t{aj}/{N}", **kw}, {"x": x, "m": m, "unit": True, "N": N, "wj": wj, "aj": aj, "_tabs": [(N, False)]})


def czt_gauss(x, m, w, ai, **kw):
    d = ai[0] ** 2 + ai[1] ** 2
    return Cmd("czt", {"x": x, "m": m, "w": f"{w[0]},{w[1]}", "a": f"{ai[0]}/{d},{-ai[1]}/{d}", **kw},
               {"x": x, "m": m, "unit": False, "wr": w[0], "wi": w[1], "ir": ai[0], "ii": ai[1]})


def czt_spiral(rng, n, m):
    """ratio and starting point off the unit circle, in units of 10^-6, powers bounded by about e"""
    import cmath
    def near(steps):
        r = math.exp(rng.choice([-1, 1, 0.3, -0.3, 0.02, -0.02]) / max(1, steps))
        z = cmath.rect(r, rng.choice([0, math.pi, rng.uniform(0, 2 * math.pi), rng.uniform(-0.1, 0.1)])) * 1e6
        return round(z.real), round(z.imag)
    w, i = near(n * m), near(n)
    if rng.random() < 0.3:
        i = (1000000, 0)
    x = ints(rng, n, 5)
    d = i[0] ** 2 + i[1] ** 2
    return Cmd("czt", {"x": x, "m": m, "w": f"{w[0]}/1000000,{w[1]}/1000000", "a": f"{i[0] * 1000000}/{d},{-i[1] * 1000000}/{d}"},
               {"x": x, "m": m, "spiral": 1, "unit": False, "wr": w[0], "wi": w[1], "ir": i[0], "ii": i[1]})


def real_cmd(op, x, **kw):
    return Cmd(op, {"x": x, **kw}, {"x": x, "_tabs": [(len(x), False)] if x else []})


def C18(ctx):
    rng = ctx.rng
    ctx.build(*ALLB)
    lens = list(range(1, 34)) + [40, 64, 100] if ctx.quick else list(range(1, 101)) + [127, 128, 200, 256]
    rare = rng.choice(ALLB)
    for b in ALLB:
        for n in rng.sample(range(101, 600), 3) + [256, 1000, 1024, rng.choice([2048, 4097, 9000])]:
            # long signals
            cmds = [goertzel_cmd(rng, n, rate, rng.randint(0, rate)) for rate in (n, 8000, 44100)]
            N = rng.choice([7, 16, 100, 128, 300])
            x = [0] * n
            for p in [n - 1] + rng.sample(range(n), 5):
                x[p] = rng.randint(-3, 3)
            cmds.append(czt_unit(x, rng.choice([1, 3, 20]), N, rng.choice([-1, 1, rng.randrange(N)]), rng.choice([0, rng.randrange(-N, N + 1)])))
            s = tsig(rng, n, "sparse")
            s.x = s.x[:6]
            ctx.add(Session(SPEC, b, cmds + ([plain("dht", s)] if n < 600 or b == rare else []), cost=n / 40.0, note=f"long signals n={n}"))
        for n in lens:
            cmds = []
            for _ in range(4 if ctx.quick else 10):
                rate = rng.choice([n, 1, 2, 8, 100, 8000, 44100, 3 * n, 1000])
                f = rng.choice([0, rate // 2, rate, -1, rng.randint(-2 * rate, -1), rng.randint(0, 2 * rate), rng.randint(0, rate), (rng.randrange(n) * rate) // n, ((rng.randrange(n) * rate) + n - 1) // n])
                cmds.append(goertzel_cmd(rng, n, rate, f, **amp(rng)))
            k = rng.randrange(n)
            cmds.append(goertzel_cmd(rng, n, n, k, [1] * n if n <= 40 else None))
            cmds.append(goertzel_cmd(rng, n, n, k, [0] * n))
            ctx.add(Session(SPEC, b, cmds, group=f"g{n % 32}", cost=1 + n / 20.0, note=f"goertzel n={n}"))
            s = tsig(rng, n)
            s2 = tsig(rng, n)
            ctx.add(Session(SPEC, b, [plain("dht", s, **amp(rng)), plain("dht", s2)], group=f"t{n % 32}", cost=1 + tcost(s) + tcost(s2), note=f"dht n={n}"))
        for q in range(16 if ctx.quick else 150):
            cmds = []
            for _ in range(4):
                n, N = rng.randint(0, 12), rng.choice([1, 2, 3, 4, 5, 7, 8, 12, 16, 20, 30, 64])
                m = rng.choice([0, 1, n, N if N < 20 else 5, n + 3])
                cmds.append(czt_unit(ints(rng, n), m, N, rng.choice([-1, 1, rng.randrange(N), -rng.randrange(N)]), rng.choice([0, 0, rng.randrange(-N, N + 1)]), **amp(rng)))
                n, m = rng.randint(1, 4), rng.randint(1, 4)
                w = rng.choice([(1, 0), (-1, 0), (0, 1), (0, -1), (1, 1), (1, -1), (2, 0)] if n * m <= 9 else [(1, 0), (-1, 0), (0, 1), (0, -1)])
                ai = rng.choice([(1, 0), (-1, 0), (0, 1), (1, 1), (2, 0), (0, -2), (1, -1)])
                cmds.append(czt_gauss(ints(rng, n, 3), m, w, ai))
                cmds.append(czt_spiral(rng, rng.randint(1, 12), rng.randint(1, 12)))
            # starting point zero: its powers vanish
            cmds.append(Cmd("czt", {"x": [3, 1, 2], "m": 2, "w": "0,1", "a": "0,0"}, {"x": [3, 1, 2], "m": 2, "unit": False, "wr": 0, "wi": 1, "ir": 0, "ii": 0}))
            # many output points, few samples
            N, n = rng.choice([7, 16, 64, 100, 128, 300]), rng.randint(1, 4)
            cmds.append(czt_unit(ints(rng, n), rng.choice([33, 63, 64, 65, 100, 127, 129, 200, 257, 300]), N, rng.choice([-1, 1, rng.randrange(N)]),
                                 rng.choice([0, rng.randrange(-N, N + 1)]), **amp(rng)))
            ctx.add(Session(SPEC, b, cmds, cost=6, note="chirp z"))
        for n in [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 32, 33, 64, 100, 128, 256] + ([512, 1024, 2048, 4096] if not ctx.quick else [rng.choice([512, 1024, 2048])] if b == rare else []):
            cmds = []
            for _ in range(3 if n <= 100 else 1):
                x = ints(rng, n) if n <= 16 else [v if rng.random() < 12.0 / n else 0 for v in ints(rng, n, 30)]
                cmds.append(real_cmd("hilbert", x, **(amp(rng) if any(x) else {})))
            cmds.append(real_cmd("hilbert", [3] * n))
            cmds.append(real_cmd("hilbert", [2 * (-1) ** i for i in range(n)]))
            ctx.add(Session(SPEC, b, cmds, group=f"h{n}", cost=1 + n * n / 60.0, note=f"hilbert n={n}"))
        if b == rare or not ctx.quick:
            # long signals, looked at in sampled places
            n = rng.choice([8192, 16384, 16384, 32768])
            x = [0] * n
            for _ in range(2):
                x[rng.randrange(n)] = rng.choice([1, -2, 3, 5])
            at = [i for i in range(n) if x[i]]
            ks = sorted({0, n - 1, n // 2, at[0]} | {(q + d) % n for q in at for d in (1, -1, 2, -3, rng.randrange(5, 99))} | {rng.randrange(n) for _ in range(8)})
            c = real_cmd("hilbert", x)
            c.kv["ks"] = c.ev["ks"] = ks
            ctx.add(Session(SPEC, b, [c], group="hfar", cost=n / 100.0, note=f"hilbert n={n} at sampled places"))
        cmds = [goertzel_cmd(rng, 0, 8, 1), goertzel_cmd(rng, 0, 0, 1), goertzel_cmd(rng, 4, 0, 1), goertzel_cmd(rng, 4, -3, 1)]
        ctx.add(Session(SPEC, b, cmds, note="goertzel errors"))
    ctx.run()
    ctx.assume("integer signals; Goertzel judged on the squared modulus, relative to the recurrence's growth")


# ------------------------------------------------------------------------ C20
def nonneg(rng, n, a=9):
    return [rng.randint(0, a) for _ in range(n)]


def mel_cmd(x, rate, nf, **kw):
    return Cmd("mel", {"x": x, "rate": rate, "nf": nf, **kw}, {"x": x, "rate": rate, "nf": nf})


def logamp(rng):
    """input scaled by 2^lg, output (a logarithm) as it is"""
    a = rng.choice([0, 0, -8, -4, -2, 3, 10])
    return ({"amp": a, "oamp": 0}, {"lg": a}) if a else ({}, {})


def ceps_cmd(x, la):
    c = real_cmd("cepstrum", x, **la[0])
    c.ev.update(la[1])
    return c


def mfcc_cmd(x, rate, nf, nc, la=({}, {})):
    return Cmd("mfcc", {"x": x, "rate": rate, "nf": nf, "nc": nc, **la[0]}, {**la[1], "x": x, "rate": rate, "nf": nf, "nc": nc, "_tabs": [(4 * nf, False)] if nf else []})


def mfccb_cmd(xs, rate, nf, nc, la=({}, {})):
    return Cmd("mfcc", {"xs": rows(xs), "rate": rate, "nf": nf, "nc": nc, **la[0]}, {**la[1], "xs": xs, "rate": rate, "nf": nf, "nc": nc, "_tabs": [(4 * nf, False)] if nf else []})


def C20(ctx):
    rng = ctx.rng
    ctx.build(*ALLB)
    for b in ALLB:
        for n in [0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 16, rng.randint(9, 40), 32]:
            cmds = []
            for _ in range(5 if n <= 16 else 3):
                x = ints(rng, n, 30)
                cmds.append(ceps_cmd(x, logamp(rng)))
            if n:
                p = rng.randrange(n)
                cmds.append(ceps_cmd([5 if i == p else 0 for i in range(n)], logamp(rng)))
                cmds.append(ceps_cmd([9 if i == p else 1 if i == (p + 1) % n else 0 for i in range(n)], logamp(rng)))
                cmds.append(real_cmd("cepstrum", [2] * n))
                cmds.append(real_cmd("cepstrum", [0] * n))
            ctx.add(Session(SPEC, b, cmds, group=f"c{n}", cost=1 + n * n / 20.0, note=f"cepstrum n={n}"))
        for q in range(40 if ctx.quick else 300):
            cmds = []
            for _ in range(4):
                n = rng.choice([0, 1, 2, 5, 8, 16, 17, 33, 64, 100])
                rate = rng.choice([100, 1000, 8000, 16000, 44100, 48000, 7])
                nf = rng.choice([0, 1, 2, 3, 5, 8, 13, 20, 26, 38])
                x = nonneg(rng, n)
                cmds.append(mel_cmd(x, rate, nf, **amp(rng)))
                nc = rng.choice([0, 1, nf, nf + 1, nf // 2, nf + 5])
                cmds.append(mfcc_cmd(x, rate, nf, nc, logamp(rng)))
            n, rate, nf = rng.choice([8, 16, 33]), rng.choice([8000, 16000]), rng.choice([1, 3, 6, 10])
            xs = [nonneg(rng, rng.choice([n, n, n + 1, 0])) for _ in range(rng.choice([0, 1, 2, 3]))]
            cmds.append(mfccb_cmd(xs, rate, nf, rng.choice([0, 1, nf, nf + 1]), logamp(rng)))
            ctx.add(Session(SPEC, b, cmds, cost=8, note="mel / mfcc"))
        # spectra of real analyses: hundreds of bins, up to 128 filters
        for q in range(5 if ctx.quick else 40):
            n = rng.choice([129, 200, 257, 400, 513, 1025, rng.randint(101, 900)])
            rate = rng.choice([8000, 11025, 16000, 22050, 44100, 48000, 96000])
            nf = rng.choice([20, 26, 40, 64, 80, 128])
            x = nonneg(rng, n)
            cmds = [mel_cmd(x, rate, nf, **amp(rng)), mfcc_cmd(x, rate, min(nf, 40), rng.choice([1, 12, 13, 20]), logamp(rng)), mel_cmd([1 if i == q0 else 0 for q0 in [rng.randrange(n)] for i in range(n)], rate, nf)]
            ctx.add(Session(SPEC, b, cmds, cost=12, note=f"mel / mfcc of {n} bins"))
        # long cepstra: a few impulses, every modulus away from zero, sampled places
        for n in [rng.choice([128, 256, 512, 1024, 2048])] if ctx.quick else [128, 256, 512, 1024, 2048, 4096, 8192]:
            cmds = []
            for _ in range(2):
                x = [0] * n
                x[rng.randrange(n)] = rng.choice([-1, 1]) * rng.randint(12, 30)
                for p in rng.sample(range(n), 3):
                    x[p] = x[p] or rng.randint(-3, 3)
                c = ceps_cmd(x, logamp(rng))
                q0 = rng.randrange(n - 3)
                c.ev["ks"] = sorted({1, 2, 3, n // 2, n // 2 + 1, n - 1, n, q0, q0 + 1, q0 + 2} - {0} | {rng.randrange(n) + 1 for _ in range(10)})
                cmds.append(c)
            ctx.add(Session(SPEC, b, cmds, cost=n / 20.0, note=f"cepstrum n={n}"))
        n = rng.choice([1026, 2049, 4097, rng.randint(1026, 6000)])
        if b == ALLB[0] or not ctx.quick:
            x = [rng.choice([0, 0, 0, 1, 5]) if i % 7 == 0 else 0 for i in range(n)]
            cmds = [mel_cmd(x, rng.choice([8000, 44100, 192000]), rng.choice([20, 40, 128]), **amp(rng)), mfcc_cmd(x, rng.choice([16000, 48000]), 40, 13, logamp(rng))]
            ctx.add(Session(SPEC, b, cmds, cost=60, note=f"mel / mfcc of {n} bins"))
        for n in [64] if ctx.quick else [64, 128, 256]:
            cmds = [ceps_cmd(ints(rng, n, 30), logamp(rng)) for _ in range(2)] + [ceps_cmd([5 if i == 3 else 0 for i in range(n)], logamp(rng))]
            ctx.add(Session(SPEC, b, cmds, group=f"c{n}", cost=n * n / 60.0, note=f"cepstrum n={n}"))
    ctx.run()
    ctx.assume("log values are compared when every bin has modulus at least 0.02 (otherwise finiteness); mel corner bins within 4e-6 relative of an integer may round either way")


# ------------------------------------------------------------------------ C21
def C21(ctx):
    from .fft import mksig
    rng = ctx.rng
    ctx.build(*ALLB)
    NG = 16
    keep = ctx.keep = []
    pools = [{} for _ in range(NG)]

    def csig(g, n):
        if n not in pools[g]:
            pools[g][n] = [mksig(rng, n, "dense" if n <= 40 else "sparse") for _ in range(2)]
            if n <= 40:
                x = dense(rng, n)
                pools[g][n].append(Sig(n, [(p, *rng.choice([(a, 0), (a, 0), (0, a), (a, a)])) for p, a, b in x if a] if rng.random() < .3
                                       else [(p, a, 0) for p, a, b in x if a]))
        return rng.choice(pools[g][n])

    for q in range(120 if ctx.quick else 900):
        g = q % NG
        b = rng.choice(ALLB)
        p = rng.choice(["32", "32", "64", "w"])
        cmds = []
        for _ in range(4):
            m = rng.choice([0, 1, 2, 3, 4, 6])
            ok = [1, 2, 4, 8, 16, 32] if b in NS else [1, 2, 3, 4, 5, 7, 8, 12, 16, 17, 20, 32, 33, 45, 64]
            if rng.random() < 0.4:
                ok = [rng.choice(ok)]
            ss = [csig(g, rng.choice(ok)) for _ in range(m)]
            if m and rng.random() < 0.5:
                # one or two invalid members
                for _ in range(rng.choice([1, 1, 2])):
                    ss[rng.randrange(m)] = csig(g, rng.choice([0, 0, 3, 6, 12] if b in NS else [0]))
            r = rng.choice(["batch", "multi", "ibatch", "imulti"])
            kv = {"p": p, "o": rng.choice(["fresh", "k", "k"]), "r": r, "xr": [s.re() for s in ss] or "none", "xi": [s.im() for s in ss] or "none"}
            cmds.append(Cmd("batch", kv, {"p": p, "r": r, "xs": ss}))
        ctx.add(Session("TraceFft", b, cmds, group=f"f{g}", cost=6, note="fft batch"))
    for q in range(18 if ctx.quick else 132):
        # many members: of one length, of all lengths, with one invalid member anywhere
        g = q % NG
        b, p = rng.choice(ALLB), rng.choice(["32", "64", "w"])
        m = rng.choice([7, 8, 9, 15, 16, 17, 31, 32, 33, 40, 64, 65])
        ok = [1, 2, 4, 8, 16] if b in NS else [1, 2, 3, 4, 5, 7, 8, 12, 16, 17]
        if q % 18 >= 15:
            # (members of two points or more: a left-out member has to show)
            m, ok = rng.choice([128, 129, 256, 257, 300, 513, rng.randint(65, 300), rng.randint(257, 640)]), [2, 4, 8] if b in NS else [2, 3, 4, 5]
        if rng.random() < 0.5:
            ok = [rng.choice(ok)]
        ss = [csig(g, rng.choice(ok)) for _ in range(m)]
        if rng.random() < (0.4 if m < 100 else 0.15):
            ss[rng.randrange(m)] = csig(g, 0)
        cmds = []
        for r in ("batch", "multi", "ibatch", "imulti"):
            kv = {"p": p, "o": rng.choice(["fresh", "k"]), "r": r, "xr": [s.re() for s in ss], "xi": [s.im() for s in ss]}
            cmds.append(Cmd("batch", kv, {"p": p, "r": r, "xs": ss}))
        ctx.add(Session("TraceFft", b, cmds, group=f"f{g}", cost=10, note="large fft batch"))
    tp = [{} for _ in range(NG)]

    def rsig(g, n):
        if n not in tp[g]:
            tp[g][n] = [tsig(rng, n) for _ in range(2)]
        return rng.choice(tp[g][n])

    for q in range(100 if ctx.quick else 700):
        g = q % NG
        b = rng.choice(ALLB)
        cmds = []
        for r in rng.sample(KINDS, 4):
            form = rng.choice(["batch", "multi"])
            ns = [0, 1, 2, 3, 4, 5, 8, 9, 16, 20] if rng.random() < 0.6 else [rng.choice([1, 2, 4, 7, 8, 16])]
            cmds.append(many(form, r, [rsig(g, rng.choice(ns)) for _ in range(rng.choice([0, 1, 2, 3, 5]))], **amp(rng)))
        ctx.add(Session(SPEC, b, cmds, group=f"t{g}", cost=5, note="trig batch"))
    for q in range(12 if ctx.quick else 80):
        g = q % NG
        b = rng.choice(ALLB)
        cmds = []
        for r in rng.sample(KINDS, 3):
            ns = [0, 1, 2, 3, 4, 5, 8, 9] if q % 2 else [rng.choice([1, 2, 4, 7, 8])]
            ss = [rsig(g, rng.choice(ns)) for _ in range(rng.choice([8, 15, 16, 17, 32, 33, 64, 65] if q % 6 else [129, 256, 257, 300, rng.randint(257, 520)]))]
            ss[-1] = rsig(g, rng.choice([4, 5, 8, 9]))
            cmds += [many(form, r, ss, **amp(rng)) for form in ("batch", "multi")]
        n, rate, nf = rng.choice([8, 16]), 8000, rng.choice([3, 6])
        cmds.append(mfccb_cmd([nonneg(rng, rng.choice([n, n + 1])) for _ in range(rng.choice([8, 17, 33]) if q % 6 != 1 else rng.randint(100, 300))], rate, nf, nf - 1, logamp(rng)))
        for k in rng.sample(WK, 1):
            m, eq, n0 = rng.choice([8, 9, 16, 17, 33]) if q % 6 != 2 else rng.randint(100, 300), rng.random() < 0.4, rng.choice([2, 4, 5, 8])
            cmds += wavelet_batch(rng, k, [ints(rng, n0 if eq else rng.choice([0, 1, 2, 3, 4, 5, 8, 11])) for _ in range(m)], b, rng.randint(0, 3))
        ctx.add(Session(SPEC, b, cmds, group=f"t{g}", cost=12, note="large batch"))
    for q in range(60 if ctx.quick else 400):
        b = rng.choice(ALLB)
        cmds = []
        for k in rng.sample(WK, 2):
            eq = rng.random() < 0.4
            n0 = rng.choice([2, 4, 5, 8])
            xs = [ints(rng, n0 if eq else rng.choice([0, 1, 2, 3, 4, 5, 8, 11, 16])) for _ in range(rng.choice([0, 1, 2, 3, 5]))]
            cmds += wavelet_batch(rng, k, xs, b, rng.randint(0, 3))
        n, rate, nf = rng.choice([8, 16, 33]), rng.choice([8000, 16000]), rng.choice([1, 3, 6, 10])
        xs = [nonneg(rng, rng.choice([n, n, n + 1, 0])) for _ in range(rng.choice([0, 1, 2, 3, 5]))]
        cmds.append(mfccb_cmd(xs, rate, nf, rng.choice([0, 1, nf, nf, nf + 1]), logamp(rng)))
        ctx.add(Session(SPEC, b, cmds, cost=10, note="wavelet and mfcc batch"))
    ctx.run()
    ctx.assume("batches of up to 640 members (most up to 65); member values judged by the contract of the single transform")


# ---------------------------------------------------------- rejected calls (C04)
def error_sessions(ctx):
    rng = ctx.rng
    for b in ALLB:
        cmds = []
        for n in STACK[:-1]:
            for r in STACKR:
                s = tsig(rng, n)
                cmds.append(stack(r, s))
        ctx.add(Session(SPEC, b, cmds, group="es" + b, cost=20, note="stack sizes"))
        for q in range(6):
            cmds = []
            for pl in rng.sample([0, 1, 2, 3, 4, 5, 8, 16], 4):
                ss = [tsig(rng, n) for n in (pl, pl + 1, max(0, pl - 1), pl, 0)]
                cmds.append(planned(pl, ss, ols=[pl, pl + 1, max(0, pl - 1), pl + 1, rng.choice([0, pl])]))
                cmds.append(planned(pl, [tsig(rng, pl)]))
            ctx.add(Session(SPEC, b, cmds, cost=4, note="planned lengths"))
        cmds = [goertzel_cmd(rng, n, rate, f) for n in (0, 1, 5) for rate in (-8, -1, 0, 1, 8) for f in (0, 3)]
        for n in range(0, 18):
            cmds += [real_cmd("hilbert", ints(rng, n, 3)), real_cmd("cepstrum", ints(rng, n, 9))]
        for nf in (0, 1, 4):
            for nc in range(0, 7):
                x = nonneg(rng, 8)
                cmds += [mfcc_cmd(x, 8000, nf, nc), mfccb_cmd([x, nonneg(rng, 5)], 8000, nf, nc), mfccb_cmd([], 8000, nf, nc)]
        rng.shuffle(cmds)
        ctx.add(Session(SPEC, b, cmds, group="er" + b, cost=20, note="refused inputs"))
        if b not in NS:
            cmds = [mags_cmd(rng, n, wl, hop) for n in (0, 1, 5) for wl in (0, 1, 4) for hop in (0, 1, 3)]
            ctx.add(Session(SPEC, b, cmds, group="em" + b, cost=4, note="spectrogram arguments"))
