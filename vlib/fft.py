"""C01-C08, C15, C22: transforms, checked against spec/TraceFft.tla."""
from .core import FARN, Cmd, Session, ToolError, log
from .gen import *

SPEC = "TraceFft"
GEN_F = ["fft", "oop", "radix2", "radix4s", "splitradix", "auto", "split", "stockham", "vec", "par",
         "freesplit", "splitc", "radix4"]
F32_F = ["mixed", "tw2", "tw4", "twm"]
ALL_F = ["cv"]
GEN_I = ["ifft", "ioop", "isplit", "ivec", "ipar", "ifreesplit", "isplitc"]
PLAN_F, PLAN_I = ["fft", "oop", "split"], ["ifft", "ioop", "isplit"]
FAC_F = ["fft", "oop", "radix2", "radix4s", "splitradix", "auto", "split"]
FAC_I = ["ifft", "ioop", "isplit"]
PS = ["radix2", "radix4", "split", "auto"]
STACK_N = [1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048]
NOSTD_F = ["fft", "oop", "radix2", "radix4s", "splitradix", "auto", "split", "stockham", "freesplit", "splitc", "par"]
NOSTD_I = ["ifft", "ioop", "isplit", "ifreesplit", "isplitc", "ipar"]


AMPS = [-90, -60, -40, -20, 20, 40, 60, 90]


def amped(rng, c, q=0.25):
    """the same call on data scaled by a power of two (only for calls that succeed and return no filler)"""
    if rng.random() < q:
        c.kv["amp"] = rng.choice(AMPS)
    return c


def call(r, sig, p="32", kind="scal", o="fresh", amp=0, **kw):
    kv = {"p": p, "kind": kind, "o": o, "r": r, "xr": sig.re(), "xi": sig.im()}
    kv.update(kw)
    ev = {"p": p, "kind": kind, "o": o, "r": r, "sid": sig}
    if not sig.all:
        kv["ks"] = sig.ks
    if amp:
        kv["amp"] = amp
    if r in ("oop", "ioop"):
        ev["ol"] = kw.get("ol", sig.n)
    if "split" in r and r != "splitradix":
        ev["il"] = kw.get("il", sig.n)
    if kind == "plan":
        kv.setdefault("pn", sig.n)
        ev["pn"] = kv["pn"]
        kv.setdefault("ps", "auto")
    return Cmd("c", kv, ev)


def routes(n, build, p, inverse=False, forward=True):
    """(kind, route, extra) of every entry point applicable to length n."""
    out = []
    if build in NS:
        if forward:
            out += [("scal", r, {}) for r in NOSTD_F]
        if inverse:
            out += [("scal", r, {}) for r in NOSTD_I]
    else:
        if forward:
            out += [("scal", r, {}) for r in GEN_F]
            out += [("plan", r, {"ps": s}) for r in PLAN_F for s in PS]
        if inverse:
            out += [("scal", r, {}) for r in GEN_I]
            out += [("plan", r, {"ps": s}) for r in PLAN_I for s in PS]
        if p == "32":
            if forward:
                out += [("scal", r, {}) for r in F32_F] + [("fac", r, {}) for r in FAC_F]
            if inverse:
                out += [("fac", r, {}) for r in FAC_I]
            if build in ("all", "nat"):
                if forward:
                    out += [("scal", "cv", {}), ("scal", "cv", {"from": 1}), ("plan", "plan_cv", {"ps": "auto"})]
                if inverse:
                    out += [("scal", "icv", {}), ("plan", "plan_icv", {"ps": "auto"})]
    if p == "32" and n in STACK_N:
        if forward:
            out.append(("scal", "stack", {}))
        if inverse:
            out.append(("scal", "istack", {}))
    return out


def wcost(sig):
    return 1 + len(sig.ks) * max(1, len(sig.x)) / 200.0


def lengths(ctx, big=True):
    rng = ctx.rng
    small = list(range(1, 41)) if ctx.quick else list(range(1, 131))
    mids = [45, 48, 49, 60, 61, 63, 64, 65, 72, 81, 96, 97, 100, 101, 120, 121, 125, 127, 128, 129, 144, 169, 200, 211,
            225, 243, 251, 256, 257, 300, 343, 360, 384, 400, 500, 509, 512, 521, 600, 625, 640, 729, 768, 1000, 1009, 1023, 1024, 1025]
    large = [1200, 1331, 1500, 1536, 2000, 2003, 2047, 2048, 2049, 2187, 2500, 3000, 3072, 4000, 4095, 4096, 4097,
             5000, 6000, 6561, 7919, 8191, 8192, 10000, 12289, 16384, 20000, 30030, 32768]
    if ctx.quick:
        mids = [n for n in mids if ispow2(n)] + rng.sample([n for n in mids if not ispow2(n)], 14)
        large = [2048, 4096, 8192] + rng.sample([n for n in large if n < 13000 and not ispow2(n)], 4)
    else:
        mids = sorted(set(mids) | set(rng.sample(range(131, 1100), 60)))
    return small + mids + (large if big else [])


def big_ok(r, n):
    return True


def par_env(rng, b):
    """the switch to the parallel kernels must not matter: move it in half of the sessions"""
    if b in ("all", "nat") and rng.random() < 0.6:
        return {ENV[0]: rng.choice(["1", "1", "2", "8", "32"])}
    return None


def par_set(rng):
    """the same without the environment (a build without the standard library)"""
    return [Cmd("set", {"k": "threshold", "v": rng.choice([0, 1, 1, 2, 8, 32])})]


def route_sessions(ctx, forward, inverse):
    rng = ctx.rng
    for n in lengths(ctx):
        nsig = 1 if ctx.quick or n > 200 else 3
        for q in range(nsig):
            sig = mksig(rng, n, "impulse" if q == 2 else None)
            builds = ["def", "all", "nat"]
            for b in builds:
                for p in ("32", "64", "w"):
                    rs = routes(n, b, p, inverse, forward)
                    if p == "w" and b != "def" or p == "64" and b == "nat":
                        rs = rng.sample(rs, 3)
                    if n > 1100:
                        rs = rng.sample(rs, min(len(rs), 5 if ctx.quick else 16))
                    elif n > 64 and ctx.quick:
                        rs = rng.sample(rs, min(len(rs), 14))
                    cmds = [call(r, sig, p, k, **kw) for k, r, kw in rs]
                    if q == 0 and n <= 64:
                        # magnitude of the data must not matter
                        for k, r, kw in rng.sample(rs, 2):
                            cmds.append(call(r, sig, p, k, amp=rng.choice(AMPS), **kw))
                    if b == "all" and inverse and p != "w":
                        cmds.append(call("ifft", sig, p))
                    ctx.add(Session(SPEC, b, cmds, group=id(sig), cost=wcost(sig) / 3 + len(cmds) * len(sig.ks) / 800.0,
                                    env=par_env(rng, b), note=f"n={n}"))
            if n <= 4096:
                s2 = mksig(rng, n)
                for p in ("32", "64", "w"):
                    rs = routes(n, "nostd", p, inverse, forward)
                    if n > 40:
                        rs = rng.sample(rs, min(len(rs), 4))
                    ctx.add(Session(SPEC, "nostd", [call(r, s2, p, k, **kw) for k, r, kw in rs], group=id(s2),
                                    cost=wcost(s2) / 3 + len(rs) * len(s2.ks) / 800.0, note=f"nostd n={n}"))
                    if p != "w" and (ispow2(n) or n % 7 == 3):
                        rs = rng.sample(rs, min(len(rs), 4))
                        ctx.add(Session(SPEC, "np", par_set(rng) + [call(r, s2, p, k, **kw) for k, r, kw in rs], group=id(s2),
                                        cost=wcost(s2) / 3 + len(rs) * len(s2.ks) / 800.0, note=f"nostd parallel n={n}"))
        # keep references alive (groups are keyed by identity)
        ctx.keep = getattr(ctx, "keep", []) + [s for s in ctx.sessions[-12:]]
    # every single bin of long transforms: few samples, all bins (late passes), and many bins of a spread signal (middle passes)
    for n in rng.sample([210, 243, 255, 256, 300, 384, 500, 512, 729, 1000, 1009], 5) + [1024, 2048] + rng.sample([1536, 2187, 3000, 4096, 2500], 1 if ctx.quick else 5) \
            + ([] if ctx.quick else [6000, 8192, 16384]):
        s1 = Sig(n, [(rng.randrange(n), rng.choice([300, -500]), rng.choice([0, 400]))])
        s2 = Sig(n, sparse(rng, n, 9, 60), pick(rng, n, 220))
        ctx.keep += [s1, s2]
        for sig in (s1, s2):
            for b in ("def", "all", "nat", "np"):
                if b == "np" and not ispow2(n):
                    continue
                for p in ("32", "64"):
                    rs = routes(n, b, p, inverse, forward)
                    rs = rng.sample(rs, min(len(rs), 6 if ctx.quick else 14))
                    cmds = (par_set(rng) if b == "np" else []) + [call(r, sig, p, k, **kw) for k, r, kw in rs]
                    ctx.add(Session(SPEC, b, cmds, group=id(sig), cost=wcost(sig) / 3 + len(cmds) * len(sig.ks) / 800.0,
                                    env=par_env(rng, b), note=f"all bins n={n}"))


HUGE = [16384, 20000, 32768, 40000, 46341, 65535, 65536, 65537, 65538, 70000, 81920, 100003, 131072]


def huge_sessions(ctx, forward, inverse):
    """very long transforms: few samples or few bins (the products of position and bin stay below 2^31)"""
    rng = ctx.rng
    big = [n for n in HUGE if n > 65536 and not ispow2(n)]
    ns = [rng.choice(big), rng.choice([n for n in HUGE if ispow2(n)])] if ctx.quick else HUGE
    for n in ns:
        lim = min(n, (2 ** 31 - 1) // n)
        v = lambda: rng.randint(-30, 30) or 1
        s1 = Sig(n, [(p, v(), v()) for p in sorted({1, rng.randrange(2, 60), *(rng.randrange(lim) for _ in range(6))})],
                 sorted({0, 1, n // 2, n - 1, n - 2, *(rng.randrange(n) for _ in range(20)), *(k for k in (65535, 65536, 65537) if k < n)}))
        s2 = Sig(n, [(p, v(), v()) for p in sorted({1, n - 1, n - 2, *(rng.randrange(n) for _ in range(6)), *(k for k in (65536,) if k < n)})],
                 sorted({0, 1, 2, 3, *(rng.randrange(lim) for _ in range(24))}))
        ctx.keep += [s1, s2]
        for sig in (s1, s2):
            for b in rng.sample(["def", "all", "nat"], 1 if ctx.quick else 3):
                cmds = []
                for p in ("32", "64"):
                    rs = [x for x in routes(n, b, p, inverse, forward) if x[1] not in ("stack", "istack")]
                    cmds += [call(r, sig, p, k, **kw) for k, r, kw in rng.sample(rs, 2 if ctx.quick else 6)]
                ctx.add(Session(SPEC, b, cmds, group=id(sig), cost=n / 1000.0, env=par_env(rng, b), note=f"huge n={n}"))
    far_sessions(ctx, forward, inverse)


FAR = [140000, 196608, 200001, 262143, 262145, 300000, 393216, 400009, 500000, 524288, 786432, 1000003, 1048576]


def far_sessions(ctx, forward, inverse):
    """transforms beyond 2^17 points: a few samples, some bins, compact tables"""
    rng = ctx.rng
    ns = [262144, rng.choice(FAR[:6])] if ctx.quick else [262144] + FAR
    for n in ns:
        v = lambda: rng.choice([-1, 1]) * rng.randint(40, 90)
        marks = (1, n - 1, n // 2, n // 4 + 1, 65535, 65536, 65537, 131071, 131072, 131073)
        x = sorted({rng.choice(marks), *(rng.randrange(n) for _ in range(4))})
        sig = Sig(n, [(p, v(), v()) for p in x], sorted({0, 1, n // 2, n - 1, *(m for m in marks), *(rng.randrange(n) for _ in range(150))}))
        ctx.keep += [sig]
        for b in rng.sample(["def", "all", "nat"], 1 if ctx.quick else 3):
            cmds = []
            for p in ("32", "64"):
                rs = [x for x in routes(n, b, p, inverse, forward) if x[1] not in ("stack", "istack")]
                must = [x for x in rs if x[0] == "scal" and x[1] == "radix4"] if forward and p == "32" else []
                cmds += [call(r, sig, p, k, **kw) for k, r, kw in must + rng.sample(rs, 1 if ctx.quick else 4)]
            ctx.add(Session(SPEC, b, cmds, group=id(sig), cost=4, env=par_env(rng, b), note=f"far n={n}"))


def alg_designs(ctx, real=False):
    """The algorithms themselves, pass by pass over an exact field (FftAlg.tla)."""
    r = "real_" if real else ""
    bad = ("FftAlg_rfftbad", "FftAlg_hilbertbad") if real else ("FftAlg_radix4bad", "FftAlg_bluesteinbad")
    ctx.start_design("FftAlg", f"FftAlg_{r}{'quick' if ctx.quick else 'thorough'}", workers=2, timeout=800 if ctx.quick else 7000,
                     expect=900, refute=bad)
    for c in (("nine",) if real else ("five",)) if ctx.quick else (("nine",) if real else ("five", "seven", "nine")):
        ctx.start_design("FftAlg", f"FftAlg_{r}{c}", workers=2, timeout=800 if ctx.quick else 7000, expect=300)


def C01(ctx):
    alg_designs(ctx)
    ctx.build("def", "all", "nat", "nostd", "np")
    route_sessions(ctx, True, False)
    huge_sessions(ctx, True, False)
    ctx.run()
    ctx.assume("inputs are integer vectors (optionally scaled by powers of two) of 1-norm at most 1000; rounding is "
               "bounded by 2e-6*|x|_1 (f32) and 6e-11*|x|_1 (f64) plus a term linear in n")


def C02(ctx):
    ctx.build("def", "all", "nat", "nostd", "np")
    route_sessions(ctx, False, True)
    huge_sessions(ctx, False, True)
    rng = ctx.rng
    # every pair (forward entry point, inverse entry point), in both orders
    ns = [1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 17, 27, 32, 45, 64, 100, 128, 256, 360, 512] if ctx.quick else \
        list(range(1, 66)) + [100, 127, 128, 250, 256, 360, 509, 512, 1000, 1024, 2048, 2187, 4096, 5000, 8192]
    for n in ns:
        sig = mksig(rng, n)
        sig.f = sig.i = False
        for b in ("def", "all", "nat") + (("nostd", "np") if ispow2(n) else ()):
            for p in ("32", "64") + (("w",) if b == "def" else ()):
                cmds = par_set(rng) if b == "np" else []
                F, I = routes(n, b, p, False, True), routes(n, b, p, True, False)
                pairs = [(f, i) for f in F for i in I]
                k = (60 if ctx.quick else 400) if n <= 128 else (20 if ctx.quick else 100)
                for f, i in rng.sample(pairs, min(k, len(pairs))):
                    if rng.random() < 0.5:
                        f, i = i, f
                    kw = dict(f[2]); kw.update(i[2])
                    kw["r2"], kw["kind2"] = i[1], i[0]
                    if "plan" in (f[0], i[0]):
                        kw.update(pn=n, ps=kw.get("ps", "auto"))
                    c = call(f[1], sig, p, f[0], **kw)
                    c.ev.update(r2=i[1], kind2=i[0], pn=n)
                    cmds.append(c)
                ctx.add(Session(SPEC, b, cmds, group=id(sig), cost=1 + len(cmds) * len(sig.ks) / 800.0, env=par_env(rng, b), note=f"roundtrip n={n}"))
        ctx.keep.append(sig)
    ctx.run()
    ctx.assume("integer inputs of 1-norm at most 1000, scaled by powers of two in part of the calls; entry-point pairs are sampled per length")


# --------------------------------------------------------------------- C05
def strided_cmd(r, n, x, st, p="32", kind="scal", o="fresh", sl=None, ol=None, ost=None, pf=7):
    xr, xi = [0] * n, [0] * n
    for q, a, b in x:
        xr[q], xi[q] = a, b
    kv = {"p": p, "kind": kind, "o": o, "r": r, "xr": xr, "xi": xi, "st": st, "pf": pf}
    ev = {"p": p, "kind": kind, "o": o, "r": r, "n": n, "x": [list(t) for t in x], "st": st}
    pts = 0
    if r in ("strided", "istrided"):
        kv["sl"] = ev["sl"] = sl
        pts = sl
    elif r in ("stralloc", "istralloc"):
        pts = n // st if st else 0
    else:
        kv.update(ol=ol, ost=ost)
        ev.update(ol=ol, ost=ost, pf=pf)
        pts = n // st if st else 0
    if pts > 1:
        ev["_tabs"] = [(pts, p != "32")]
    return Cmd("c", kv, ev)


def C05(ctx):
    ctx.build("def", "all", "nat", "nostd")
    rng = ctx.rng
    maxpts = 20 if ctx.quick else 48
    for b in ("def", "all", "nat", "nostd"):
        for p in ("32", "64", "w"):
            if p == "w" and b not in ("def", "nostd"):
                continue
            for pts in list(range(1, maxpts + 1)) + [32, 64] + ([] if ctx.quick else [100, 128, 250]):
                if b in NS and not ispow2(pts):
                    continue
                cmds = []
                for st in (1, 2, 3, 5) if ctx.quick else (1, 2, 3, 4, 5, 7, 8):
                    for r in ("strided", "istrided", "stralloc", "istralloc", "oostr", "ioostr"):
                        if ctx.quick and rng.random() < (0.35 if pts <= 20 else 0.6):
                            continue
                        kind = "fac" if p == "32" and b not in NS and rng.random() < 0.3 else "scal"
                        o = rng.choice(["fresh", "a"])
                        if r in ("strided", "istrided"):
                            lo = (pts - 1) * st + 1
                            n = lo + rng.choice([0, 0, 1, st - 1, st, st + 1, 3 * st])
                            x = dense(rng, n, 4)
                            cmds.append(amped(rng, strided_cmd(r, n, x, st, p, kind, o, sl=pts, pf=rng.choice([7, "nan", 1000000]))))
                        elif r in ("stralloc", "istralloc"):
                            n = pts * st + rng.randint(0, st - 1)
                            cmds.append(amped(rng, strided_cmd(r, n, dense(rng, n, 4), st, p, kind, o)))
                        else:
                            ost = rng.choice([1, 2, 3, st])
                            n = pts * st
                            cmds.append(strided_cmd(r, n, dense(rng, n, 4), st, p, kind, o, ol=pts * ost, ost=ost,
                                                    pf=rng.choice([7, -3, 100])))
                        # the same call with buffers that address other numbers of points: refused, nothing written
                        if rng.random() < (0.3 if ctx.quick else 0.5):
                            x = dense(rng, n, 4)
                            if r in ("oostr", "ioostr"):
                                ol = (pts + rng.choice([-1, 1, 2, pts])) * ost + rng.choice([0, 0, ost - 1])
                                c = strided_cmd(r, n, x, st, p, kind, o, ol=ol, ost=ost, pf=rng.choice([7, -3]))
                            elif r in ("strided", "istrided"):
                                sl = (n - 1) // st + rng.choice([2, 3, n])
                                c = strided_cmd(r, n, x, st, p, kind, o, sl=sl)
                            else:
                                c = strided_cmd(r, n, x, 0, p, kind, o)
                            cmds.append(c)
                ctx.add(Session(SPEC, b, cmds, group=f"s{pts}", cost=len(cmds) * (1 + pts * pts / 60.0), env=par_env(rng, b),
                                note=f"strided {pts} points"))
    # many points
    for pts in [65, 100, 127, 128, 129, 200, 255, 256, 257, 512] + rng.sample(range(66, 500), 4) + ([] if ctx.quick else [600, 1000, 1023, 1024, 1025, 2048]):
        for b in ("def", "all", "nat", "nostd", "np"):
            if b in NS and not ispow2(pts):
                continue
            cmds = []
            for r in rng.sample(["strided", "istrided", "stralloc", "istralloc", "oostr", "ioostr"], 2):
                p, st, o = rng.choice(["32", "64"]), rng.choice([1, 2, 3, 4, 7, 16]), rng.choice(["fresh", "a"])
                n = pts * st if r[-3:] == "str" else (pts - 1) * st + 1 + rng.randint(0, st) if r.endswith("ided") else pts * st + rng.randint(0, st - 1)
                on = set(rng.sample(range(pts), 8))
                x = [(q, rng.randint(-9, 9), rng.randint(-9, 9) or 1) for q in range(n) if (q // st in on if q % st == 0 else rng.random() < 0.5)]
                kind = "fac" if p == "32" and b not in NS and rng.random() < 0.3 else "scal"
                if r.endswith("ided"):
                    cmds.append(strided_cmd(r, n, x, st, p, kind, o, sl=pts, pf=rng.choice([7, "nan"])))
                elif r.endswith("alloc"):
                    cmds.append(strided_cmd(r, n, x, st, p, kind, o))
                else:
                    ost = rng.choice([1, 2, 3, st])
                    cmds.append(strided_cmd(r, n, x, st, p, kind, o, ol=pts * ost, ost=ost, pf=-3))
            ctx.add(Session(SPEC, b, cmds, group=f"m{pts}", cost=pts / 10.0, env=par_env(rng, b), note=f"strided {pts} points"))
    # large strides and lengths, few points
    for _ in range(20 if ctx.quick else 120):
        b, p = rng.choice(["def", "all", "nat"]), rng.choice(["32", "64"])
        pts, st = rng.choice([2, 3, 4, 7, 8, 16]), rng.choice([50, 64, 100, 127, 255, 256, 257, 1000])
        n = (pts - 1) * st + 1 + rng.randint(0, 60)
        x = sparse(rng, n, 40, 9)
        r = rng.choice(["strided", "istrided"])
        ctx.add(Session(SPEC, b, [strided_cmd(r, n, x, st, p, sl=pts, pf="nan")], group="big", cost=3))
    # strides beyond 16 bits
    for b in ("def", "all", "nat", "nostd"):
        p, pts, st, r = rng.choice(["32", "64"]), rng.choice([2, 4]), rng.choice([65535, 65536, 65537, 70000]), rng.choice(["strided", "istrided"])
        n = (pts - 1) * st + 1 + rng.choice([0, 1, 60])
        x = sparse(rng, n, 30, 9) + [(q * st, rng.randint(1, 9), rng.randint(-9, 9)) for q in range(pts)]
        x = sorted({q[0]: q for q in x}.values())
        ctx.add(Session(SPEC, b, [strided_cmd(r, n, x, st, p, sl=pts, pf="nan")], group="vast", cost=10, note=f"{pts} points at stride {st}"))
    ctx.run()
    ctx.assume("transforms of up to 64 (quick) / 250 (thorough) points, strides up to 1000 and a few beyond 65535, integer data; up to 512 / 2048 points with sparse data")


# --------------------------------------------------------------------- C06
def layout(rng, n):
    x = dense(rng, n, 900)
    xr, xi = [0] * n, [0] * n
    for q, a, b in x:
        xr[q], xi[q] = a, b
    return x, xr, xi


def C06(ctx):
    ctx.build("def", "all", "nat", "nostd")
    rng = ctx.rng
    F = [("scal", r) for r in ("split", "freesplit", "splitc")] + [("plan", "split")]
    I = [("scal", r) for r in ("isplit", "ifreesplit", "isplitc")] + [("plan", "isplit")]
    one = rng.choice([6000, 8191, 8192, 10000, 16384])
    for n in [q for q in lengths(ctx) if not ctx.quick or q <= 5000] + [one]:
        sig = mksig(rng, n)
        for b in ("def", "all", "nat", "nostd") if n != one else [rng.choice(["def", "all", "nat"])]:
            if b in NS and n > 2048:
                continue
            for p in ("32", "64", "w"):
                cmds = []
                o = rng.choice(["fresh", "k"])
                base = [("scal", "fft"), ("scal", "ifft")]
                rs = base + F + I
                if p == "32" and b not in NS:
                    rs += [("fac", "split"), ("fac", "isplit")]
                if p == "32" and b in ("all", "nat"):
                    rs += [("scal", "cv"), ("scal", "icv"), ("plan", "plan_cv"), ("plan", "plan_icv")]
                for k, r in rs:
                    if k == "plan" and b in NS:
                        continue
                    kw = {"ps": rng.choice(PS)} if k == "plan" else {}
                    if r in ("cv", "icv"):
                        kw["from"] = rng.randint(0, 1)
                    cmds.append(amped(rng, call(r, sig, p, k, o if k == "scal" else "fresh", **kw), 0.25 if b not in NS or ispow2(n) else 0))
                rng.shuffle(cmds)
                ctx.add(Session(SPEC, b, cmds, group=id(sig), cost=wcost(sig) / 3 + len(cmds) * len(sig.ks) / 800.0,
                                env=par_env(rng, b), note=f"split n={n}"))
        ctx.keep = getattr(ctx, "keep", []) + [sig]
    for n in list(range(0, 40)) + [63, 64, 65, 100, 128, 257, 1000]:
        x, xr, xi = layout(rng, n)
        for b in ("def", "all", "nat", "nostd"):
            cmds = [Cmd("layout", {"r": r, "xr": xr, "xi": xi}, {"n": n, "x": [list(t) for t in x], "gm": 0, "wide": False})
                    for r in ["copy", "sc", "c32"] + (["cv", "from"] if b in ("all", "nat") else ["cv", "from"])]
            ctx.add(Session(SPEC, b, cmds, group=f"lay{n}", cost=1 + n * n / 3000.0, note="layout"))
    # dense long inputs, in single and double precision
    for n in [rng.randint(41, 2000), rng.choice([4096, 4097, 5000]), rng.randint(8191, 20011), rng.choice([33001, 65537, 70003])]:
        gm = rng.choice([997, 1009, 1777])
        ga, gb = rng.sample(range(2, gm), 2)
        xr, xi = [ga * p % gm - gm // 2 for p in range(n)], [gb * p % gm - gm // 2 for p in range(n)]
        for b in ("def", "all", "nat", "nostd"):
            for r in ["copy", "sc", "c32", "cv", "from"] if n < 8000 else rng.sample(["copy", "sc", "c32", "cv", "from"], 1 if n > 30000 else 2):
                wide = r in ("copy", "sc") and rng.random() < 0.5
                c = Cmd("layout", {"r": r, "xr": xr, "xi": xi, **({"wide": 1} if wide else {})}, {"n": n, "x": [], "gm": gm, "ga": ga, "gb": gb, "wide": wide})
                ctx.add(Session(SPEC, b, [c], cost=1 + n / 2000.0, note=f"layout {n}"))
    ctx.run()


# --------------------------------------------------------------------- C07
def hermitian(rng, n, m=None):
    """full Hermitian spectrum of a real signal of even length n"""
    h = n // 2
    pos = range(h + 1) if m is None else sorted(rng.sample(range(h + 1), min(m, h + 1)))
    x = []
    amp = 9 if h <= 40 else 4
    for k in pos:
        a, b = rng.randint(-amp, amp), rng.randint(-amp, amp)
        if k == 0 or k == h:
            if a:
                x.append((k, a, 0))
        elif a or b:
            x.append((k, a, b))
            x.append((n - k, a, -b))
    return x


def rfft_cmd(r, sig, p="32", kind="scal", po="fresh", o="fresh", ol=None, sl=None, pf=9):
    n = sig.n
    inv = r.startswith("i")
    ol = n // 2 + 1 if ol is None else ol
    sl = n // 2 if sl is None else sl
    kv = {"p": p, "kind": kind, "r": r, "po": po, "o": o, "sl": sl, "pf": pf}
    ev = {"p": p, "r": r, "n": n, "inv": inv, "stk": False, "sl": sl if r.endswith("s") or "packed" in r else n // 2, "ol": ol, "il": ol, "sid": sig}
    if inv:
        re, im = sig.re()[:n // 2 + 1], sig.im()[:n // 2 + 1]
        re, im = (re + [0] * ol)[:ol], (im + [0] * ol)[:ol]
        kv.update(xr=re, xi=im, n=n)
    else:
        kv.update(x=sig.re(), ol=ol)
    return Cmd("rfft", kv, ev)


RF = ["plan", "plans", "trait", "traits", "packed"]
RI = ["iplan", "iplans", "itrait", "itraits", "ipacked"]
STK = [2, 4, 8, 16, 32, 64, 128, 256, 512, 1024]


def rstack_cmd(sig, inv):
    n = sig.n
    ev = {"n": n, "inv": inv, "stk": True, "m": n // 2 + 1, "il": n // 2 + 1, "ol": 0, "sl": 0, "sid": sig, "p": "32"}
    if inv:
        return Cmd("rstack", {"r": "istack", "xr": sig.re()[:n // 2 + 1], "xi": sig.im()[:n // 2 + 1], "n": n}, ev)
    return Cmd("rstack", {"r": "stack", "x": sig.re(), "m": n // 2 + 1}, ev)


def C07(ctx):
    alg_designs(ctx, real=True)
    ctx.build("def", "all", "nat", "nostd")
    rng = ctx.rng
    ns = [n for n in lengths(ctx) if n % 2 == 0]
    ns += [n for n in (2 * k for k in range(21, 60)) if n not in ns]
    for n in ns:
        for rep in range(1 if ctx.quick or n > 300 else 3):
            fs = mksig(rng, n, None, real=True)
            fs.i = False
            hs = Sig(n, hermitian(rng, n, None if n <= 64 else 8), None if n <= 200 else pick(rng, n, 24), f=False)
            for b in ("def", "all", "nat", "nostd"):
                if b in NS and (not ispow2(n) or n > 2048):
                    continue
                for p in ("32", "64"):
                    cmds = []
                    po, o = rng.choice(["fresh", "q"]), rng.choice(["fresh", "f"])
                    pf = rng.choice([9, "nan", 50000])
                    for r in RF:
                        cmds.append(amped(rng, rfft_cmd(r, fs, p, "scal", po, o, sl=n // 2 + rng.choice([0, 0, 1, 5]), pf=pf)))
                    for r in RI:
                        cmds.append(amped(rng, rfft_cmd(r, hs, p, "scal", po, o, sl=n // 2 + rng.choice([0, 0, 1, 5]), pf=pf)))
                    if p == "32" and b not in NS:
                        cmds.append(rfft_cmd("plan", fs, p, "fac"))
                        cmds.append(rfft_cmd("iplan", hs, p, "fac"))
                    rng.shuffle(cmds)
                    ctx.add(Session(SPEC, b, cmds, group=id(fs), note=f"rfft n={n}",
                                    cost=(wcost(fs) + wcost(hs)) / 3 + len(cmds) * len(fs.ks) / 1000.0))
                if n in STK:
                    ctx.add(Session(SPEC, b, [rstack_cmd(fs, False), rstack_cmd(hs, True)], group=id(fs), note=f"rstack {n}"))
            ctx.keep = getattr(ctx, "keep", []) + [fs, hs]
    # long signals: some samples, some bins
    far = [16384, 20000, 32768, 50000, 65534, 65536, 65538, 100006, 131072, 131074, 150000, 200006, 262144, 300000]
    for n in rng.sample(far, 2) if ctx.quick else far + [524288]:
        h = n // 2
        lim = n if n > FARN else min(n, (2 ** 31 - 1) // n)
        v = lambda: rng.choice([-1, 1]) * rng.randint(40, 150)
        fs = Sig(n, [(p, v(), 0) for p in sorted({rng.randrange(lim) for _ in range(5)})],
                 sorted({0, 1, h - 1, h, h // 2, *(rng.randrange(h) for _ in range(60))}), i=False)
        x = []
        for k in sorted({rng.randrange(min(h, lim)) for _ in range(3)} | {rng.choice([0, 1])}):
            a, b = v(), v() if k else 0
            x += [(k, a, b)] + ([(n - k, a, -b)] if k else [])
        hs = Sig(n, x, sorted({0, 1, *(rng.randrange(lim) for _ in range(60))} if n <= FARN else {0, 1, n - 1, h, *(rng.randrange(n) for _ in range(60))}), f=False)
        ctx.keep += [fs, hs]
        for b in rng.sample(["def", "all", "nat"], 1 if ctx.quick else 3):
            p = rng.choice(["32", "64"])
            cmds = [rfft_cmd(rng.choice(RF), fs, p, sl=h + rng.choice([0, 3]), pf="nan"), rfft_cmd(rng.choice(RI), hs, p, sl=h + rng.choice([0, 3]), pf="nan")]
            ctx.add(Session(SPEC, b, cmds, group=id(fs), cost=10 + n / 5000.0, env=par_env(rng, b), note=f"long rfft n={n}"))
    # odd, empty, wrong buffer and scratch lengths
    for b in ("def", "all", "nostd"):
        for n in range(0, 12):
            s = Sig(n, [(q, q + 1, 0) for q in range(n)], f=False, i=False)
            cmds = []
            for r in RF + RI:
                for ol in range(0, 8):
                    for sl in ({n // 2, max(0, n // 2 - 1), 0, n // 2 + 2} if r[-1] == "s" or "packed" in r else {n // 2}):
                        valid = n > 0 and n % 2 == 0 and ol == n // 2 + 1 and sl >= n // 2
                        if not valid:
                            cmds.append(rfft_cmd(r, s, rng.choice(["32", "64"]), "scal", "q", "f", ol=ol, sl=sl))
            ctx.add(Session(SPEC, b, cmds, group=f"bad{n}", note="refused lengths"))
            ctx.keep.append(s)
    ctx.run()


# --------------------------------------------------------------------- C08
def lcm(*v):
    import math
    r = 1
    for a in v:
        r = r * a // math.gcd(r, a)
    return r


def nd_cmd(dims, x, n=None, p="32", o="fresh", scr=None, pf=9):
    huge = False
    tot = 1
    for d in dims:
        tot *= d
    huge = any(d > 100000 for d in dims)
    n = tot if n is None else n
    xr, xi = [0] * n, [0] * n
    for q, a, b in x:
        xr[q], xi[q] = a, b
    r = str(len(dims))
    names = ["rows", "cols"] if r == "2" else ["depth", "rows", "cols"]
    kv = {"p": p, "o": o, "r": r, "xr": xr, "xi": xi, "pf": pf}
    kv.update(zip(names, dims))
    ev = {"p": p, "r": r, "n": n, "x": [list(t) for t in x], "huge": huge}
    ev.update({k: (0 if huge else v) for k, v in zip(names, dims)})
    want = {"scol": dims[0]} if r == "2" else {"stube": dims[0], "srow": dims[1], "scol": dims[2]}
    if huge:
        want = {k: 1 for k in want}
    want.update(scr or {})
    kv.update(want)
    ev.update(want)
    L = 1 if huge or 0 in dims else lcm(*dims)
    ev["L"] = L
    if L > 1 and n == tot and not huge:
        ev["_tabs"] = [(L, p != "32")]
    return Cmd("nd", kv, ev)


def nested(rng, r, ragged=False):
    if r == "2":
        rows, cols = rng.randint(0, 4), rng.randint(0, 4)
        d = [[rng.randint(-50, 50) for _ in range(cols)] for _ in range(rows)]
        if ragged and rows:
            d[rng.randrange(rows)].append(3)
        return d
    dp, rows, cols = rng.randint(0, 3), rng.randint(0, 3), rng.randint(0, 3)
    d = [[[rng.randint(-50, 50) for _ in range(cols)] for _ in range(rows)] for _ in range(dp)]
    if ragged and dp:
        k = rng.randrange(dp)
        if rng.random() < 0.4:
            d[k].append([1] * cols)
        elif d[k]:
            d[k][rng.randrange(len(d[k]))].append(2)
    return d


def flat_cmd(r, d):
    def plane(p):
        return ";".join(",".join(map(str, q)) if q else "-" for q in p) if p else "none"
    x = plane(d) if r == "2" else "/".join(plane(p) for p in d) if d else "nil"
    return Cmd("flatten", {"r": r, "x": x}, {"r": r, "data": d})


def C08(ctx):
    ctx.build("def", "all", "nat", "nostd")
    rng = ctx.rng
    lim = 7 if ctx.quick else 12
    shapes = [(a, b) for a in range(1, lim) for b in range(1, lim)]
    shapes += [(1, 16), (16, 1), (8, 8), (16, 4), (4, 16), (16, 16), (32, 3), (3, 32), (9, 16), (17, 4), (5, 13), (64, 2), (2, 64), (1, 40), (40, 1), (3, 70), (70, 3), (2, 130), (130, 2)]
    s3 = [(a, b, c) for a in range(1, 5) for b in range(1, 5) for c in range(1, 5)]
    s3 += [(1, 1, 8), (8, 1, 1), (1, 8, 1), (4, 8, 2), (2, 4, 8), (8, 4, 2), (16, 2, 3), (3, 16, 2), (2, 3, 16), (5, 6, 7), (7, 5, 3), (32, 2, 2), (2, 32, 2), (2, 2, 32), (2, 2, 66), (2, 66, 2), (66, 2, 2)]
    if not ctx.quick:
        s3 += [(a, b, c) for a in (1, 5, 8) for b in (3, 5, 6) for c in (2, 7, 9)]
        shapes += [(rng.randint(1, 40), rng.randint(1, 20)) for _ in range(40)]
    for i, dims in enumerate(shapes + s3):
        tot = 1
        for d in dims:
            tot *= d
        for b in ("def", "all", "nat", "nostd"):
            if b in NS and not all(ispow2(d) for d in dims):
                continue
            x = dense(rng, tot, 9 if tot < 40 else 3) if tot <= 48 else sparse(rng, tot, 14, 9)
            cmds = [amped(rng, nd_cmd(dims, x, None, p, rng.choice(["fresh", "a"]), pf=rng.choice([9, "nan"]))) for p in ("32", "64", "w")]
            ctx.add(Session(SPEC, b, cmds, group=f"{i}", cost=1 + 9 * tot * len(x) / 400.0, env=par_env(rng, b), note=str(dims)))
    # larger shapes, sparse data
    big = [(256, 2), (2, 256), (64, 16), (16, 64), (100, 5), (5, 100), (129, 3), (33, 17), (2, 4, 64), (64, 2, 4), (4, 64, 2), (16, 8, 4), (7, 11, 13), (3, 100, 2), (128, 2, 2), (2, 2, 128), (2, 128, 2)]
    big += [(rng.randint(2, 60), rng.randint(2, 20)) for _ in range(6)] + [(rng.randint(2, 12), rng.randint(2, 12), rng.randint(2, 8)) for _ in range(6)]
    wide = [(300, 2), (2, 300), (257, 3), (3, 257), (2, 2, 257), (2, 257, 2), (257, 2, 2), (512, 2), (2, 512), (1, 1025), (1025, 1), (1, 3, 300), (300, 1, 3), (3, 300, 1), (65, 65), (66, 70)]
    big += rng.sample(wide, 3) if ctx.quick else wide
    if not ctx.quick:
        big += [(512, 4), (4, 512), (1024, 2), (2, 1024), (64, 64), (8, 16, 32), (16, 16, 16), (2, 512, 2), (512, 2, 2), (50, 40), (10, 20, 15)]
    for i, dims in enumerate(big):
        tot = 1
        for d in dims:
            tot *= d
        for b in ("def", "all", "nat", "nostd", "np"):
            if b in NS and not all(ispow2(d) for d in dims):
                continue
            cmds = [amped(rng, nd_cmd(dims, sparse(rng, tot, 7, 9), None, rng.choice(["32", "64"]), "a", pf="nan"))]
            ctx.add(Session(SPEC, b, cmds, group=f"b{i}", cost=tot / 6.0, env=par_env(rng, b), note=str(dims)))
    # axes of several thousand elements
    for i, dims in enumerate(rng.sample([(4097, 2), (2, 4097), (5000, 2), (2, 5000), (8192, 1), (1, 8192), (2, 2, 2049), (2, 2049, 2), (2049, 2, 2), (1, 3, 3000), (3000, 1, 3), (70, 71), (20, 21, 22)], 2 if ctx.quick else 13)):
        tot = 1
        for d in dims:
            tot *= d
        for b in rng.sample(["def", "all", "nat"], 1 if ctx.quick else 3):
            ctx.add(Session(SPEC, b, [amped(rng, nd_cmd(dims, sparse(rng, tot, 4, 9), None, rng.choice(["32", "64"]), "a", pf="nan"))], group=f"a{i}", cost=tot / 6.0, env=par_env(rng, b), note=str(dims)))
    # volumes of more than 65536 elements, looked at in sampled places
    for i in range(1 if ctx.quick else 6):
        dims = rng.choice([(64, 40, 32), (257, 16, 17), (16, 257, 17), (17, 16, 257), (300, 250), (1024, 65), (65, 1024), (128, 600), (41, 41, 41), (3, 160, 160)])
        tot = 1
        for d in dims:
            tot *= d
        b = rng.choice(["def", "all", "nat"])
        c = nd_cmd(dims, sparse(rng, tot, 4, 9), None, rng.choice(["32", "64"]), "a", pf="nan")
        c.kv["ks"] = c.ev["ks"] = sorted({0, 1, tot - 1, 65535, 65536} | {rng.randrange(tot) for _ in range(400)})
        ctx.add(Session(SPEC, b, [c], group=f"v{i}", cost=60, env=par_env(rng, b), note=f"{dims} at sampled places"))
    # one object for a series of shapes
    for q in range(12 if ctx.quick else 60):
        b = rng.choice(["def", "all", "nat"])
        cmds = []
        for dims in rng.sample(shapes[:30] + s3[:40], 5):
            tot = 1
            for d in dims:
                tot *= d
            x = sparse(rng, tot, 10, 9)
            cmds.append(nd_cmd(dims, x, None, rng.choice(["32", "64"]), "a"))
        ctx.add(Session(SPEC, b, cmds, group=f"h{q}", cost=10, note="shape history"))
    # mismatches leave the data alone
    H = 1 << 62
    for b in ("def", "nat", "nostd"):
        cmds = []
        for dims in [(2, 2), (0, 3), (3, 0), (1, 1), (2, 4), (0, 0)]:
            tot = dims[0] * dims[1]
            for n in sorted({0, 1, tot, tot + 1, max(0, tot - 1), 2 * tot}):
                for dcol in (0, 1, -1):
                    sc = max(0, dims[0] + dcol)
                    cmds.append(nd_cmd(dims, [(q, q + 1, -q) for q in range(n)], n, rng.choice(["32", "64", "w"]), "a", {"scol": sc}))
        for dims in [(2, 2, 2), (0, 1, 2), (1, 0, 2), (2, 1, 0), (1, 1, 1), (1, 2, 4)]:
            tot = dims[0] * dims[1] * dims[2]
            for n in sorted({0, 1, tot, tot + 1, max(0, tot - 1)}):
                for k, j in (("scol", 2), ("srow", 1), ("stube", 0), (None, 0)):
                    for dl in (1, -1):
                        sc = {} if k is None else {k: max(0, dims[j] + dl)}
                        cmds.append(nd_cmd(dims, [(q, q + 1, -q) for q in range(n)], n, rng.choice(["32", "64", "w"]), "a", sc))
        for dims in [(H, 4), (4, H), (H, 4, 1), (2, H, 2), (H, H, H)]:
            for n in (0, 4):
                cmds.append(nd_cmd(dims, [(q, q + 1, 0) for q in range(n)], n, "32", "a"))
        ctx.add(Session(SPEC, b, cmds, group=f"bad{b}", cost=20, note="mismatched shapes"))
    cmds = [flat_cmd("2", d) for d in ([], [[]], [[], []], [[1]], [[], [1]], [[1, 2], [3]], [[1, 2], [3, 4]])]
    cmds += [flat_cmd("3", d) for d in ([], [[]], [[[]]], [[], []], [[[]], [[]]], [[[1]], []], [[], [[1]]], [[[1], [2]], [[3]]], [[[1, 2]], [[3, 4]]])]
    for q in range(60):
        r = rng.choice("23")
        cmds.append(flat_cmd(r, nested(rng, r, rng.random() < 0.4)))
    for b in ("def", "nostd"):
        ctx.add(Session(SPEC, b, [Cmd(c.op, c.kv, c.ev) for c in cmds], group="flat" + b, note="flatten"))
    ctx.run()


# --------------------------------------------------------------------- C03
def hist_groups(out):
    """Histories printed by Engine.tla, grouped by the object state they lead to."""
    import json
    st = {}
    for l in out.splitlines():
        if not l.startswith('"HIST '):
            continue
        d = json.loads(json.loads(l)[5:])
        k = json.dumps(d["h"])
        g = st.setdefault(k, (d["h"], [], []))
        g[2 if d["ch"] else 1].append(d["op"])
    return list(st.values())


class Pool:
    """a few signals per length, shared by many histories"""

    def __init__(self, rng, real=False):
        self.rng, self.real, self.s, self.keep = rng, real, {}, []

    def get(self, n, kind="c"):
        k = (n, kind)
        if k not in self.s:
            if kind == "h":
                self.s[k] = [Sig(n, hermitian(self.rng, n, None if n <= 32 else 6), None if n <= 130 else pick(self.rng, n, 20), f=False) for _ in range(3)]
            else:
                self.s[k] = [mksig(self.rng, n, None if n > 64 else "dense", real=(kind == "r")) for _ in range(3)]
                if kind == "r":
                    for s in self.s[k]:
                        s.i = False
        return self.rng.choice(self.s[k])


def concrete(rng, pool, op, p, b, kind="scal", o="a", plan=None):
    """a public call of the class the model names"""
    cls, n = op
    kw = {}
    if kind == "plan":
        kw = {"pn": plan[0], "ps": plan[1]}
    if cls == "fft":
        if kind == "plan":
            r = rng.choice(["fft", "ifft", "oop", "ioop"])
        elif b in NS:
            r = rng.choice(["fft", "ifft", "oop", "ioop", "radix2", "stockham", "auto"])
        elif kind == "fac":
            r = rng.choice(FAC_F[:-1] + FAC_I[:-1])
        else:
            rs = ["fft", "ifft", "oop", "ioop", "radix2", "radix4s", "splitradix", "auto", "stockham", "vec", "ivec", "radix4"]
            if p == "32":
                rs += ["mixed", "tw2", "tw4", "twm"]
            r = rng.choice(rs)
        return call(r, pool.get(n), p, kind, o, **kw)
    if cls == "split":
        return call(rng.choice(["split", "isplit"]), pool.get(n), p, kind, o, **kw)
    if cls == "stride":
        st = rng.choice([1, 2, 3])
        r = rng.choice(["stralloc", "istralloc", "oostr", "ioostr"])
        x = sparse(rng, n * st, 10, 9)
        if r in ("oostr", "ioostr"):
            ost = rng.choice([1, 2])
            return strided_cmd(r, n * st, x, st, p, kind, o, ol=n * ost, ost=ost, pf=5)
        return strided_cmd(r, n * st + rng.randrange(st), x, st, p, kind, o)
    if cls == "err":
        k = rng.randrange(6)
        e = Sig(0, [])
        if kind == "plan":
            w = plan[0] + rng.choice([-1, 1, plan[0]])
            bad = Sig(w, [(q, 1, q) for q in range(min(w, 20))])
            c = call(rng.choice(["fft", "ifft", "split", "isplit", "oop", "ioop"]), bad, p, "plan", o, **kw)
            return c
        if k == 0:
            return call(rng.choice(["fft", "ifft", "oop", "split", "isplit"]), e, p, kind, o)
        s = pool.get(n)
        if k == 1:
            return call(rng.choice(["oop", "ioop"]), s, p, kind, o, ol=n + rng.choice([-1, 1]))
        if k == 2:
            return call(rng.choice(["split", "isplit"]), s, p, kind, o, il=n + rng.choice([-1, 1]))
        x = [(q, q + 1, 2) for q in range(min(n, 12))]
        if k == 3:
            return strided_cmd(rng.choice(["strided", "istrided"]), n, x, 0, p, kind, o, sl=2)
        if k == 4:
            return strided_cmd(rng.choice(["strided", "istrided"]), n, x, 3, p, kind, o, sl=n // 3 + 2)
        return strided_cmd(rng.choice(["oostr", "ioostr"]), n, x, 1, p, kind, o, ol=n + 1, ost=1, pf=5)
    raise ValueError(cls)


def C03(ctx):
    rng = ctx.rng
    ctx.build("def", "all", "nat", "nostd")
    t = "quick" if ctx.quick else "thorough"
    # the defective design must be refuted (the model can tell the difference)
    from .core import tlc
    rc, out = tlc("Engine", "Engine_defect")
    if "Invariant NoStale is violated" not in out:
        raise ToolError("Engine_defect: the stale-scratch design was not refuted")
    hf = hist_groups(ctx.design("Engine", f"Engine_fft_{t}", workers=1, expect=9000))
    hr = hist_groups(ctx.design("Engine", f"Engine_rfft_{t}", workers=1, expect=9000))
    pool = Pool(rng)
    ctx.keep = [pool]
    NG = 24

    def add(b, cmds, g, note):
        ctx.add(Session(SPEC, b, cmds, group=g, cost=sum(1 + len(c.kv.get("xr", c.kv.get("x", []))) / 60.0 for c in cmds), note=note))

    pools = [Pool(rng) for _ in range(NG)]
    ctx.keep += pools
    combos = [(b, p, k) for b in ("def", "all", "nat", "nostd") for p in ("32", "64", "w") for k in ("scal", "fac")
              if not (k == "fac" and (p != "32" or b in NS))]
    i = 0
    for h, loops, changing in hf:
        runs = [h + loops]
        runs += [h + [op] + rng.sample(loops, min(2, len(loops))) for op in changing]
        for q, run in enumerate(runs):
            reps = 2 if ctx.quick else 3
            for b, p, k in rng.sample(combos, len(combos) if q == 0 and not ctx.quick else reps):
                i += 1
                g = i % NG
                ops = [op for op in run if b not in NS or ispow2(op[1])]
                add(b, [concrete(rng, pools[g], op, p, b, k) for op in ops], g, f"history {run}")
    # long random histories beyond the model's lengths
    lens = list(range(1, 40)) + [48, 60, 64, 65, 96, 100, 127, 128, 129, 200, 256, 300]
    for q in range(60 if ctx.quick else 600):
        b, p, k = rng.choice(combos)
        ls = rng.sample([n for n in lens if b not in NS or ispow2(n)], 6 if b not in NS else 4)
        ops = [(rng.choice(["fft", "fft", "split", "stride", "err"]), rng.choice(ls)) for _ in range(14)]
        g = q % NG
        add(b, [concrete(rng, pools[g], op, p, b, k) for op in ops], g, "random history")
    # lengths that differ by a power of two (they collide in any table keyed by less than the whole length), and very many lengths
    for q in range(40 if ctx.quick else 300):
        b, p, k = rng.choice([c for c in combos if c[0] not in NS])
        base = rng.choice([3, 5, 7, 12, 24, 33, 44, 48, 65, 100])
        d = rng.choice([32, 64, 128, 256, 256, 512, 1024])
        ls = [base, base + d] + ([base + 2 * d] if base + 2 * d < 900 else [])
        rng.shuffle(ls)
        g = q % NG
        ops = [(rng.choice(["fft", "fft", "split", "stride"]), n) for n in ls + ls]
        add(b, [concrete(rng, pools[g], op, p, b, k) for op in ops], g, f"colliding lengths {ls}")
    # the same with very long ones between
    for q in range(2 if ctx.quick else 12):
        b, p, k = rng.choice([c for c in combos if c[0] not in NS and c[1] != "w"])
        base = rng.choice([6, 12, 33, 48, 64, 100])
        n = base + rng.choice([4096, 8192, 16384, 65536, 131072])
        lp, sig = Pool(rng), lambda n: Sig(n, [(x, rng.randint(1, 9), rng.randint(-9, 9)) for x in sorted(rng.sample(range(min(n, 16000)), 4))], sorted({0, 1, *(rng.randrange(min(n, 16000)) for _ in range(20))}))
        lp.s[(n, "c")] = [sig(n)]
        ctx.keep.append(lp)
        ops = [("fft", base), ("fft", n), ("fft", base), ("fft", base + 1), ("fft", n), ("fft", base)]
        add(b, [concrete(rng, lp, op, p, b, k) for op in ops], f"vl{q}", f"colliding lengths {base} {n}")
    manyp = Pool(rng)
    ctx.keep.append(manyp)
    for q in range(6 if ctx.quick else 30):
        b, p, k = rng.choice([c for c in combos if c[0] not in NS])
        ls = rng.sample(range(1, 200), 60 if ctx.quick else 120) + [200, 255, 256, 257, 300, 512]
        ops = [(rng.choice(["fft", "fft", "split"]), n) for n in ls + rng.sample(ls, 25)]
        add(b, [concrete(rng, manyp, op, p, b, k) for op in ops], "many", "very many lengths")
    for q in range(8 if ctx.quick else 60):
        b, p = rng.choice(["def", "all", "nat"]), rng.choice(["32", "64"])
        base, d = rng.choice([6, 10, 12, 16, 24, 50, 64]), rng.choice([32, 64, 128, 256, 512, 1024])
        ls = [base, base + d] if q % 2 else [2 * n for n in rng.sample(range(1, 70), 40)]
        cmds = []
        for n in ls + ls[:20]:
            r = rng.choice(RF + RI)
            cmds.append(rfft_cmd(r, manyp.get(n, "h" if r[0] == "i" else "r"), p, "scal", "q", "f"))
        add(b, cmds, "many", f"many real lengths {ls[:2]}")
    # two objects (and precisions) in alternation; planner handed over with tables already in it
    for q in range(20 if ctx.quick else 150):
        b = rng.choice(["def", "all", "nat"])
        g = q % NG
        cmds = []
        for _ in range(10):
            c = concrete(rng, pools[g], (rng.choice(["fft", "split", "stride"]), rng.choice([3, 8, 12, 32, 33, 64])), rng.choice(["32", "64"]), b, "scal", rng.choice("ab"))
            c.kv["pre"] = "64,12"
            cmds.append(c)
        add(b, cmds, g, "two objects")
    # plans
    for q in range(40 if ctx.quick else 300):
        b, p = rng.choice(["def", "all", "nat"]), rng.choice(["32", "64", "w"])
        pl = (rng.choice([2, 3, 4, 7, 8, 12, 16, 20, 32, 45, 64, 100, 128]), rng.choice(PS))
        g = q % NG
        cmds = [concrete(rng, pools[g], (rng.choice(["fft", "fft", "split", "err"]), pl[0]), p, b, "plan", "P", pl) for _ in range(8)]
        if p == "32" and b in ("all", "nat"):
            cmds += [call(r, pools[g].get(pl[0]), p, "plan", "P", pn=pl[0], ps=pl[1]) for r in ("plan_cv", "plan_icv")]
        add(b, cmds, g, "plan history")
    # real transforms: planner history x FFT object history
    sel = hr if not ctx.quick else rng.sample(hr, min(len(hr), 60))
    cnt = 0
    for h, loops, changing in sel:
        runs = [h + loops] + [h + [op] for op in rng.sample(changing, min(len(changing), 3 if not ctx.quick else 2))]
        if not ctx.quick and len(sel) > 800 and rng.random() > 800 / len(sel):
            continue
        for run in runs:
            cnt += 1
            g = cnt % NG
            b, p = rng.choice(["def", "all", "nat", "nostd"]), rng.choice(["32", "64"])
            cmds = []
            for cls, n in run:
                if b in NS and not ispow2(n):
                    continue
                if cls == "table":
                    cmds.append(rplanner_cmd(rng.choice(["tw", "pack"]), n // 2, p, "q"))
                elif cls == "rfft":
                    r = rng.choice(RF + RI)
                    cmds.append(rfft_cmd(r, pools[g].get(n, "h" if r[0] == "i" else "r"), p, "scal", "q", "f",
                                         pf=rng.choice([9, "nan"])))
                else:
                    r = rng.choice(RF + RI)
                    s = pools[g].get(n, "h" if r[0] == "i" else "r")
                    cmds.append(rfft_cmd(r, s, p, "scal", "q", "f", ol=n // 2 + rng.choice([0, 2])))
            if cmds:
                add(b, cmds, g, f"real history {run}")
    ctx.run()
    from . import dsp
    dsp.dct_histories(ctx)
    ctx.run()
    ctx.assume("histories: every transition of the abstract object state (buffer lengths and cached lengths) of Engine.tla for the listed "
               "lengths, plus random ones; single-threaded use of one object")


def rplanner_cmd(r, m, p, o):
    return Cmd("rplanner", {"r": r, "n": m, "p": p, "o": o}, {"n": m, "_tabs": [(2 * m, p != "32")]})


# --------------------------------------------------------------------- C22
def planner_cmd(r, n, p, o):
    tabs = []
    if r == "tw":
        tabs = [(n, p != "32")]
    if r == "blue":
        m = 1
        while m < 2 * n - 1:
            m *= 2
        tabs = [(2 * n, p != "32"), (m, False)]
    return Cmd("planner", {"r": r, "n": n, "p": p, "o": o}, {"r": r, "n": n, "_tabs": tabs})


def C22(ctx):
    rng = ctx.rng
    ctx.build("def", "all", "nat", "nostd")
    maxn = 80 if ctx.quick else 300
    extra = [100, 127, 128, 129, 200, 243, 256, 257, 300, 360, 401, 500, 512, 600, 1000, 1024, 2048, 4096] + ([] if ctx.quick else [3000, 8192, 16384])
    q = 0
    for b in ("def", "all", "nat", "nostd"):
        for p in ("32", "64", "w"):
            # every length, in a random order on one planner, each asked for twice
            ns = [n for n in list(range(1, maxn + 1)) + extra]
            rng.shuffle(ns)
            if b in ("nat",):
                ns = ns[: len(ns) // 2]
            for part in range(0, len(ns), 20):
                chunk = ns[part:part + 20]
                chunk = chunk + rng.sample(chunk, len(chunk) // 2)
                cmds = []
                for n in chunk:
                    cmds.append(planner_cmd("tw", n, p, "a"))
                    if b not in NS and (n <= 24 or n <= 600 and rng.random() < (0.12 if ctx.quick else 0.6)):
                        cmds.append(planner_cmd("blue", n, p, rng.choice("ab")))
                    cmds.append(planner_cmd("strategy", n, p, "a"))
                    if p != "w":
                        cmds.append(rplanner_cmd(rng.choice(["tw", "pack"]), n, p, "q"))
                    if b not in NS and p == "32":
                        cmds.append(Cmd("twbuf", {"n": n}, {"_tabs": [(n, False)]}))
                q += 1
                ctx.add(Session(SPEC, b, cmds, group=q, cost=len(cmds) * 4, note="planner tables"))
            for _ in range(6 if ctx.quick else 40):
                base, d = rng.randint(1, 120), rng.choice([32, 64, 128, 256, 256, 512, 1024])
                ls = [base, base + d] * 2
                if rng.random() < 0.5:
                    ls.reverse()
                cmds = []
                for n in ls:
                    cmds.append(planner_cmd("tw", n, p, "a"))
                    if b not in NS and n <= 600 and rng.random() < 0.3:
                        cmds.append(planner_cmd("blue", n, p, "a"))
                    if p != "w":
                        cmds += [rplanner_cmd(r, n, p, "q") for r in ("tw", "pack")]
                q += 1
                ctx.add(Session(SPEC, b, cmds, group=q, cost=len(cmds) * 8, note="colliding lengths"))
            # long tables
            for n in [rng.choice([6000, 8192, 10000, 16384]), rng.choice([20000, 32768, 40000, 50000, 65536])] if ctx.quick else [8192, 10000, 16384, 20000, 32768, 40000, 50000, 65536, 70000, 131072]:
                if ctx.quick and p != "32" and rng.random() < 0.6:
                    continue
                cmds = [planner_cmd("tw", n, p, "a")]
                if p != "w" and n <= 20000:
                    cmds.append(rplanner_cmd("tw", n, p, "q"))
                q += 1
                ctx.add(Session(SPEC, b, cmds, group=f"long{n}", cost=n / 100.0, note="long planner tables"))
            ctx.add(Session(SPEC, b, [planner_cmd("strategy", n, p, "z") for n in list(range(0, 140)) + [1 << k for k in range(8, 16)] + [(1 << k) + d for k in range(8, 16) for d in (-1, 1)]],
                            group="st", cost=20, note="strategy"))
    ctx.run()
    from . import dsp
    dsp.planner_tables(ctx)
    ctx.run()


# --------------------------------------------------------------------- C04
def C04(ctx):
    rng = ctx.rng
    ctx.build("def", "all", "nat", "nostd")
    mx = 6 if ctx.quick else 9
    for b in ("def", "all", "nostd") if ctx.quick else ("def", "all", "nat", "nostd"):
        for p in ("32", "64", "w") if b == "def" else ("32", "64"):
            kinds = ["scal"] + (["fac"] if p == "32" and b not in NS else [])
            for kind in kinds:
                for n in range(0, mx):
                    x = [(q, q + 1, 3 - q) for q in range(n)]
                    s = Sig(n, x)
                    cmds = []
                    I = b not in NS
                    for r in (["fft", "ifft"] + (["oop", "ioop"]) + ["radix2", "radix4s", "splitradix", "auto"]):
                        cmds.append(call(r, s, p, kind, "a"))
                    if kind == "scal":
                        rs = ["stockham", "par", "ipar"] + (["vec", "ivec", "radix4"] if I else [])
                        if p == "32":
                            rs += (["mixed", "tw2", "tw4", "twm"] if I else ["mixed"])
                            if n in (0, 1, 2, 3, 4, 5, 6, 7, 8):
                                rs += ["stack", "istack"]
                            if b in ("all", "nat"):
                                rs += ["cv", "icv"]
                        cmds += [call(r, s, p, kind, "a") for r in rs]
                        for il in range(0, n + 3):
                            cmds += [call(r, s, p, kind, "a", il=il) for r in ("freesplit", "ifreesplit")]
                        cmds += [call(r, s, p, kind, "a") for r in ("splitc", "isplitc")]
                    for ol in range(0, n + 3):
                        cmds += [call(r, s, p, kind, "a", ol=ol) for r in ("oop", "ioop")]
                        cmds += [call(r, s, p, kind, "a", il=ol) for r in ("split", "isplit")]
                    for st in list(range(0, n + 2)) + [1 << 63, (1 << 64) - 1]:
                        big = st > 1000
                        for r in ("strided", "istrided"):
                            for sl in range(0, n + 2):
                                c = strided_cmd(r, n, x, st, p, kind, "a", sl=sl)
                                if big:
                                    c.ev["st"] = 2000000000
                                cmds.append(c)
                        for r in ("stralloc", "istralloc"):
                            c = strided_cmd(r, n, x, st, p, kind, "a")
                            if big:
                                c.ev["st"] = 2000000000
                            cmds.append(c)
                        for r in ("oostr", "ioostr"):
                            for ol in ([0, 1, 2, 3, 4] if ctx.quick else range(0, n + 3)):
                                for ost in (0, 1, 2, 3):
                                    if ctx.quick and rng.random() < 0.5:
                                        continue
                                    c = strided_cmd(r, n, x, st, p, kind, "a", ol=ol, ost=ost, pf=5)
                                    if big:
                                        c.ev["st"] = 2000000000
                                    cmds.append(c)
                    # plans of every small length
                    if I and kind == "scal":
                        for pn in range(0, mx):
                            ps = rng.choice(PS)
                            for r in ("fft", "ifft", "oop", "ioop", "split", "isplit"):
                                cmds.append(call(r, s, p, "plan", f"P{pn}", pn=pn, ps=ps))
                            cmds.append(call("oop", s, p, "plan", f"P{pn}", pn=pn, ps=ps, ol=n + 1))
                            cmds.append(call("isplit", s, p, "plan", f"P{pn}", pn=pn, ps=ps, il=n + 1))
                    rng.shuffle(cmds)
                    # errors interleaved with valid calls on the same object
                    ctx.add(Session(SPEC, b, cmds, group=f"{n}", cost=len(cmds) * (1 + n * n / 40.0), note=f"arguments n={n}"))
                    ctx.keep = getattr(ctx, "keep", []) + [s]
    # unsupported stack lengths
    for b in ("def", "all", "nostd"):
        cmds = []
        for n in (0, 3, 5, 6, 7, 9, 12, 24, 100):
            s = Sig(n, [(q, 1 + q % 5, q % 3) for q in range(min(n, 100))])
            cmds += [call("stack", s), call("istack", s)]
        for n, m in ((0, 0), (0, 1), (2, 1), (4, 2), (4, 4), (8, 4), (6, 4), (10, 6), (12, 7), (3, 2), (5, 3)):
            for inv in (False, True):
                s = Sig(n, [(0, 1, 0)] if n else [], f=False, i=False)
                ev = {"n": n, "inv": inv, "stk": True, "m": m, "il": m, "ol": 0, "sl": 0, "sid": s}
                if inv:
                    cmds.append(Cmd("rstack", {"r": "istack", "xr": [1] * m, "xi": [0] * m, "n": n}, ev))
                else:
                    cmds.append(Cmd("rstack", {"r": "stack", "x": [1] + [0] * (n - 1) if n else [], "m": m}, ev))
        ctx.add(Session(SPEC, b, cmds, group="stack", note="stack sizes"))
    # real transforms
    for b in ("def", "nostd"):
        for n in range(0, 8):
            s = Sig(n, [(q, q + 1, 0) for q in range(n)], f=False, i=False)
            cmds = []
            for r in RF + RI:
                for ol in range(0, 6):
                    for sl in range(0, 4):
                        if n > 0 and n % 2 == 0 and ol == n // 2 + 1 and (sl >= n // 2 or not (r[-1] == "s" or "packed" in r)):
                            continue
                        cmds.append(rfft_cmd(r, s, rng.choice(["32", "64"]), "scal", "q", "f", ol=ol, sl=sl))
            ctx.add(Session(SPEC, b, cmds, group=f"r{n}", note="real arguments"))
            ctx.keep.append(s)
    ctx.run()
    from . import stft, dsp
    stft.error_sessions(ctx)
    dsp.error_sessions(ctx)
    ctx.run()


# --------------------------------------------------------------------- C15
PARSE = [("5", 5), ("64", 64), ("1", 1), ("2", 2), ("+7", 7), ("007", 7), ("100000", 100000)]
UNPARSED = ["", "abc", "-1", " 5", "5 ", "1e3", "0x10", "99999999999999999999999", "4.0"]
ENV = ["KOFFT_PAR_FFT_THRESHOLD", "KOFFT_PAR_FFT_CACHE_BYTES", "KOFFT_PAR_FFT_PER_CORE_WORK",
       "KOFFT_PAR_FFT_BLOCK_SIZE", "KOFFT_PAR_FFT_THREADS"]


def C15(ctx):
    rng = ctx.rng
    ctx.build("all", "nat", "it", "np")
    ctx.start_design("ParIfft", "ParIfft_quick" if ctx.quick else "ParIfft_thorough", workers=4)
    # which threshold a given environment selects
    for q in range(40 if ctx.quick else 200):
        env, f = {}, {}
        for k, d in zip(ENV, (0, 32768, 4096, 1024, 8)):
            t = rng.random()
            key = k[len("KOFFT_PAR_FFT_"):].lower()
            f[key] = {"set": False, "v": 0}
            if k == ENV[0] and q < len(PARSE):
                env[k] = PARSE[q][0]
                f[key] = {"set": True, "v": PARSE[q][1]}
            elif k == ENV[0] and q < len(PARSE) + len(UNPARSED):
                env[k] = UNPARSED[q - len(PARSE)]
            elif t < 0.4:
                s, v = rng.choice(PARSE)
                env[k] = s
                f[key] = {"set": True, "v": v}
            elif t < 0.7:
                env[k] = rng.choice(UNPARSED)
        cmds = [Cmd("threshold", {}, {"env": f})]
        for _ in range(4):
            k = rng.choice(["threshold", "l1", "percore", "threads", "block"])
            cmds.append(Cmd("set", {"k": k, "v": rng.choice([0, 1, 5, 1 << 20])}))
            cmds.append(Cmd("threshold", {}, {"env": f}))
        ctx.add(Session(SPEC, "it", cmds, group="thr", env=env, note=f"threshold {env}"))
    # results around the switching threshold, for environment and runtime settings
    pool = Pool(rng)
    ctx.keep = [pool]
    HUGE = str((1 << 64) - 1)
    envs = [{}] + [{ENV[0]: v} for v in ("1", "2", "3", "8", "31", "32", "33", "64", "100000", "abc", "0", HUGE)]
    envs += [{ENV[4]: "0"}, {ENV[4]: HUGE}, {ENV[1]: HUGE}, {ENV[2]: HUGE, ENV[4]: "8"}, {ENV[3]: HUGE, ENV[4]: "2"},
             {ENV[4]: "0", ENV[1]: "8"}, {ENV[4]: "-3"}, {ENV[1]: "0", ENV[2]: "0", ENV[3]: "0"}]
    for _ in range(10 if ctx.quick else 60):
        envs.append({k: rng.choice(["0", "1", "16", "1000", "x", HUGE]) for k in ENV if rng.random() < 0.6})
    for qi, env in enumerate(envs):
        b = "all" if qi % 3 else "nat"
        for rep in range(2 if ctx.quick else 4):
            cmds = []
            for n in rng.sample([1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 31, 32, 33, 63, 64, 65, 100, 128, 256], 9):
                if rng.random() < 0.5:
                    k = rng.choice(["threshold", "threshold", "threads", "block", "l1", "percore"])
                    v = {"threshold": rng.choice([0, 1, n, n + 1, max(1, n - 1), int(HUGE)]), "threads": rng.choice([0, 1, 2, 7, int(HUGE)]),
                         "block": rng.choice([0, 1, 5, int(HUGE)]), "l1": rng.choice([0, 1, 64, int(HUGE)]), "percore": rng.choice([0, 1, 99, int(HUGE)])}[k]
                    cmds.append(Cmd("set", {"k": k, "v": v}))
                s = pool.get(n)
                for r in rng.sample(["ifft", "fft", "ipar", "par", "stockham", "ioop", "ivec", "isplit", "radix2"], 5):
                    cmds.append(call(r, s, rng.choice(["32", "32", "64"]), "scal", rng.choice(["fresh", "a"])))
                cmds.append(call("ifft", s, "32", "scal"))
                cmds.append(call(rng.choice(["ifft", "ioop"]), s, "32", "fac"))
                cmds.append(call("ifft", s, "32", "plan"))
                st = rng.choice([1, 2])
                if n < 70:
                    cmds.append(strided_cmd("istralloc", n * st, sparse(rng, n * st, 10, 9), st))
            cmds += [Cmd("set", {"k": k, "v": 0}) for k in ("threshold", "threads", "block", "l1", "percore")]
            cmds.append(call("ifft", pool.get(64), "32"))
            # pools of other sizes than the machine's number of processors
            pool_size = {"RAYON_NUM_THREADS": rng.choice(["1", "2", "3", "5", "7", "16"])} if rng.random() < 0.4 else {}
            ctx.add(Session(SPEC, b, cmds, group=qi % 8, env={**env, **pool_size}, cost=len(cmds), note=f"env {env} {pool_size}"))
    # without the standard library: runtime settings are all there is
    for q in range(16 if ctx.quick else 80):
        cmds = []
        for _ in range(3):
            for k in rng.sample(["threshold", "threads", "block", "l1", "percore"], 3):
                cmds.append(Cmd("set", {"k": k, "v": rng.choice([0, 1, 2, 5, 64, int(HUGE)])}))
            for n in rng.sample([1, 2, 4, 8, 16, 32, 64, 128, 256], 4):
                s = pool.get(n)
                for r in rng.sample(["ifft", "fft", "ipar", "par", "stockham", "ioop", "isplit"], 4):
                    cmds.append(call(r, s, rng.choice(["32", "32", "64"]), "scal", rng.choice(["fresh", "a"])))
        cmds += [Cmd("set", {"k": k, "v": 0}) for k in ("threshold", "threads", "block", "l1", "percore")]
        cmds.append(call("ifft", pool.get(64), "32"))
        ctx.add(Session(SPEC, "np", cmds, group=q % 8, cost=len(cmds), note="runtime settings, no std"))
    # long transforms: many chunks per worker
    lpool = {n: mksig(rng, n) for n in (300, 1000, 1024, 1025, 2048, 4095, 4096, 5000, 8192, 20000) + (() if ctx.quick else (10007, 30030, 65536))}
    ctx.keep.append(lpool)
    for q in range(24 if ctx.quick else 150):
        env = dict(rng.choice([{}, {ENV[0]: "1"}, {ENV[0]: "1000"}, {ENV[0]: "4096"}, {ENV[0]: "1", ENV[3]: "100"}, {ENV[0]: "1", ENV[3]: "7", ENV[4]: "3"}]))
        if rng.random() < 0.4:
            env["RAYON_NUM_THREADS"] = rng.choice(["1", "2", "3", "5", "6", "16"])
        cmds = []
        for n in rng.sample(sorted(lpool), 4):
            if rng.random() < 0.6:
                k = rng.choice(["threshold", "threshold", "threads", "block"])
                v = {"threshold": rng.choice([1, n, n + 1, n - 1, 1024]), "threads": rng.choice([1, 3, 5]), "block": rng.choice([1, 7, 1000, n - 1])}[k]
                cmds.append(Cmd("set", {"k": k, "v": v}))
            for r in rng.sample(["ifft", "ifft", "fft", "ipar", "par", "stockham", "ioop", "ivec", "isplit"], 3):
                cmds.append(call(r, lpool[n], rng.choice(["32", "32", "64"]), "scal", rng.choice(["fresh", "a"])))
        cmds += [Cmd("set", {"k": k, "v": 0}) for k in ("threshold", "threads", "block", "l1", "percore")]
        ctx.add(Session(SPEC, rng.choice(["all", "nat"]), cmds, group=f"lng{q % 4}", env=env, cost=30, note="long transforms"))
    # concurrent callers while the settings change
    for q in range(30 if ctx.quick else 300):
        rs, xs = [], []
        for _ in range(rng.choice([2, 3, 4, 6, 8])):
            xs.append(pool.get(rng.choice([1, 3, 8, 12, 32, 33, 64, 100, 256])))
            rs.append(rng.choice(["ifft", "ifft", "ipar", "fft", "par", "stockham", "ifft64"]))
        xs = [s if s.all else pool.get(64) for s in xs]
        cmds = [Cmd("storm", {"rs": ",".join(rs), "xr": [s.re() for s in xs], "xi": [s.im() for s in xs],
                              "reps": 20 if ctx.quick else 100, "seed": rng.randrange(1 << 30)}, {"rs": rs, "xs": xs})]
        cmds += [Cmd("set", {"k": k, "v": 0}) for k in ("threshold", "threads", "block", "l1", "percore")]
        ctx.add(Session(SPEC, rng.choice(["all", "nat"]), cmds, group=q % 8, cost=10, note="storm",
                        env=rng.choice([{}, {ENV[0]: "1"}, {ENV[0]: "32"}, {ENV[0]: "1", "RAYON_NUM_THREADS": rng.choice(["2", "3", "12"])}])))
    # parallel analysis and synthesis
    from . import stft
    stft.parallel_sessions(ctx)
    ctx.run()
    ctx.assume("the pool of worker threads is the one rayon creates (8 cores); schedules are those the OS produces, plus all schedules of the model ParIfft")
