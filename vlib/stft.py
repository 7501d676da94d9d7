"""C09-C11: short-time analysis and synthesis, checked against spec/TraceStft.tla."""
import json
from .core import Cmd, Session, ToolError, tlc
from .gen import NS, ispow2

SPEC = "TraceStft"


class Job:
    """A signal/window/hop (kind an) or a window/hop/frames (kind sy); becomes an entry of D.sigs."""
    wide = False
    ks = ()
    far = None      # the hop the program gets, when it is beyond the numbers of the specification

    def __init__(self, kind, w, hop, x=(), nf=0, fr=(), fi=()):
        self.kind, self.w, self.hop, self.x, self.nf = kind, list(w), hop, list(x), nf
        self.fr, self.fi = [list(f) for f in fr], [list(f) for f in fi]

    @property
    def n(self):
        return len(self.w)

    @property
    def khop(self):
        return self.far or self.hop

    def rec(self):
        r = {"kind": self.kind, "w": self.w, "hop": self.hop}
        if self.kind == "an":
            r.update(x=self.x, nf=self.nf)
        else:
            r.update(fr=self.fr, fi=self.fi)
        return r

    def cost(self):
        L = len(self.w)
        return 1 + (self.nf + len(self.fr)) * L * L / 600.0


def cdiv(a, b):
    return -(-a // b)


def window(rng, L, zeros=True, amp=4):
    k = rng.random()
    if k < 0.15:
        return [1] * L
    if k < 0.3:
        return [min(i, L - 1 - i) + 1 if L < 8 else min(i, L - 1 - i, amp - 1) + 1 for i in range(L)]
    w = [rng.randint(-amp, amp) for _ in range(L)]
    if not zeros:
        w = [v or 1 for v in w]
    elif L > 1 and k < 0.6:
        w[0] = 0            # like a periodic window
    return w


def an_job(rng, n, L, hop, extra=3, amp=9):
    x = [rng.randint(-amp, amp) for _ in range(n)]
    req = cdiv(n, hop) if hop else 0
    return Job("an", window(rng, L, True, 4 if L < 40 else 2), hop, x, nf=req + extra)


def long_job(rng, n, L, hop, nnz, extra=1):
    """long signal with few non-zero samples: cheap to specify, every frame and bin compared"""
    x = [0] * n
    for p in rng.sample(range(n), min(n, nnz)) + [0, n - 1]:
        x[p] = rng.choice([-1, 1]) * rng.randint(1, 9)
    return Job("an", window(rng, L, True, 4), hop, x, nf=cdiv(n, hop) + extra)


def sparse_sy(rng, L, hop, nf, nnz=2):
    fr, fi = [], []
    for f in range(nf):
        a, b = [0] * L, [0] * L
        for v in (a, b):
            for p in rng.sample(range(L), min(L, nnz)):
                v[p] = rng.randint(-9, 9)
        fr.append(a)
        fi.append(b)
    return Job("sy", window(rng, L, True, 3), hop, fr=fr, fi=fi)


def sy_job(rng, L, hop, nf, bad=()):
    w = window(rng, L, True, 3)
    over = max(1, cdiv(L, hop)) if hop else 1
    cap = max(2, 900 // (over * max(1, max(map(abs, w), default=1))))
    fr, fi = [], []
    for f in range(nf):
        m = L + (bad[f] if f in bad else 0) if isinstance(bad, dict) else L
        a, b = [0] * m, [0] * m
        left = cap
        pos = list(range(m))
        rng.shuffle(pos)
        for p in pos[: rng.choice([1, 2, 4, m])]:
            for v in (a, b):
                q = rng.randint(-min(9, left), min(9, left)) if left > 0 else 0
                v[p] = q
                left -= abs(q)
        fr.append(a)
        fi.append(b)
    return Job("sy", w, hop, fr=fr, fi=fi)


def amps(rng, synth):
    """random power-of-two scaling of data and window"""
    a, w = rng.choice([(0, 0), (0, 0), (0, 0), (-20, 0), (15, 0), (0, -12), (0, -11), (0, -6), (0, 8)])
    if not (a or w):
        return {}
    return {"amp": a, "wamp": w, "oamp": a - w if synth else a + w}


def stft_cmd(r, j, nout, o="fresh", fls=None, rng=None, **kw):
    fls = fls if fls is not None else [rng.choice([0, 0, len(j.w), 1, len(j.w) + 3]) if rng else 0 for _ in range(nout)]
    return Cmd("stft", {"r": r, "o": o, "x": j.x, "w": j.w, "hop": j.khop, "fls": fls, **kw}, {"r": r, "sid": j, "nout": nout, "fls": fls})


def frame_cmd(j, start, fl=None, o="fresh", far=None, **kw):
    fl = len(j.w) if fl is None else fl
    return Cmd("stft", {"r": "frame", "o": o, "x": j.x, "w": j.w, "start": far or start, "fl": fl, **kw}, {"r": "frame", "sid": j, "start": start, "fl": fl})


def sst_new(j, o="s", **kw):
    return Cmd("sst_new", {"x": j.x, "w": j.w, "hop": j.khop, "o": o, **kw}, {"sid": j, "o": o})


def sst_next(j, o="s", fl=None, **kw):
    fl = len(j.w) if fl is None else fl
    return Cmd("sst_next", {"o": o, "fl": fl, **kw}, {"o": o, "fl": fl})


def istft_cmd(r, j, ol, o="fresh", sl=None, pf=0, **kw):
    sl = ol if sl is None else sl
    return Cmd("istft", {"r": r, "o": o, "fr": j.fr or "none", "fi": j.fi or "none", "w": j.w, "hop": j.khop, "ol": ol, "sl": sl, "pf": pf, **kw},
               {"r": r, "sid": j, "ol": ol, "sl": sl, "pf": pf})


def iframe_cmd(j, start, ol, o="fresh", pf=0, far=None, **kw):
    return Cmd("istft", {"r": "frame", "o": o, "fr": j.fr[:1], "fi": j.fi[:1], "w": j.w, "start": far or start, "ol": ol, "pf": pf, **kw},
               {"r": "frame", "sid": j, "start": start, "ol": ol, "pf": pf})


def ist_new(j, o="i", wl=None, **kw):
    wl = len(j.w) if wl is None else wl
    return Cmd("ist_new", {"wl": wl, "hop": j.hop, "w": j.w, "o": o, **kw}, {"sid": j, "o": o, "wl": wl})


def ist_push(j, f, o="i", **kw):
    return Cmd("ist_push", {"fr": j.fr[f], "fi": j.fi[f], "o": o, **kw}, {"o": o, "f": f + 1})


def ist_flush(o="i", **kw):
    return Cmd("ist_flush", {"o": o, **kw}, {"o": o})


def rt_cmd(r, j, o="fresh", extra=0, pf=0, **kw):
    return Cmd("rt", {"r": r, "o": o, "x": j.x, "w": j.w, "hop": j.khop, "extra": extra, "pf": pf, **kw}, {"r": r, "sid": j})


FAR = 50000      # stands for every hop and start beyond all signals and outputs


def far_jobs(ctx, synth):
    """hops for which frame index times hop exceeds the address range"""
    rng = ctx.rng
    for L in (1, 2, 4, 5, 8, 12):
        for far in rng.sample([1 << 62, (1 << 63) - 1, 1 << 63, (1 << 63) + 1, (1 << 64) - 2, (1 << 64) - 1, (1 << 64) // 3 + 1], 2 if ctx.quick else 7):
            j = sy_job(rng, L, FAR, rng.randint(2, 5)) if synth else an_job(rng, rng.randint(0, 2 * L + 2), L, FAR, 4)
            j.far = far
            ctx.keep.append(j)
            yield L, far, j


def shapes(ctx, big=True):
    """(signal length, window length, hop)"""
    rng = ctx.rng
    out = []
    for L in range(1, 9):
        for hop in sorted({1, 2, 3, L, L + 1, max(1, L - 1), 2 * L + 1}):
            for n in rng.sample(range(0, 4 * L + 6), 3 if ctx.quick else 8):
                out.append((n, L, hop))
    for L in (12, 16, 17, 20, 30, 32, 33, 64) if ctx.quick else list(range(9, 41)) + [48, 60, 64, 100, 127, 128]:
        for hop in rng.sample([1, 2, L // 4 or 1, L // 3 or 1, L // 2, L // 2 + 1, L - 1, L, L + 3, 3 * L], 4 if ctx.quick else 6):
            n = rng.choice([hop, L, L + hop, 2 * L + 5, min(5 * hop + 1, 200), L - 1])
            if cdiv(n, hop) > (30 if ctx.quick else 60):
                n = hop * (20 if ctx.quick else 40) + rng.randrange(hop)
            out.append((n, L, hop))
    return out


def builds(n):
    return ("def", "all", "nat", "nostd", "np") if ispow2(n) else ("def", "all", "nat")


def hists(out):
    return [json.loads(json.loads(l)[5:]) for l in out.splitlines() if l.startswith('"HIST ')]


# ------------------------------------------------------------------------ C09
def C09(ctx):
    rng = ctx.rng
    ctx.build("def", "all", "nat", "nostd", "np")
    t = "quick" if ctx.quick else "thorough"
    hs = hists(ctx.design("StftStream", f"StftStream_{t}", workers=1, expect=2000))
    keep = ctx.keep = []
    for n, L, hop in shapes(ctx):
        j = an_job(rng, n, L, hop)
        keep.append(j)
        req = cdiv(n, hop)
        for b in builds(L):
            o = rng.choice(["fresh", "k"])
            am = amps(rng, False)
            cmds = [stft_cmd("stft", j, req + rng.choice([0, 0, 1, 3]), o, rng=rng, **am), stft_cmd("stft", j, req, o, rng=rng)]
            if b in ("all", "nat", "np"):
                cmds += [stft_cmd("par", j, req + rng.choice([0, 1, 3]), o, rng=rng), stft_cmd("par", j, req, o, rng=rng, **am)]
            for start in {0, (req - 1) * hop if req else 0, rng.randint(0, n + 2), n, max(0, n - 1)}:
                cmds.append(frame_cmd(j, start, o=o, **(am if rng.random() < .5 else {})))
            cmds.append(sst_new(j, "s", **am))
            for _ in range(req + 2):
                if rng.random() < 0.2:
                    cmds.append(sst_next(j, "s", rng.choice([L + 1, L - 1, 0]) if L != 0 else 1))
                cmds.append(sst_next(j, "s", **am))
            if req:
                cmds.append(stft_cmd("stft", j, req - 1, o, rng=rng))
                if b in ("all", "nat", "np"):
                    cmds.append(stft_cmd("par", j, req - 1, o, rng=rng))
            ctx.add(Session(SPEC, b, cmds, group=id(j), cost=j.cost() + len(cmds) * req * L / 3000.0, note=f"analysis n={n} L={L} hop={hop}"))
    # many frames of a short window; long windows
    for n, L, hop, nnz in [(rng.choice([300, 520, 700]), rng.choice([2, 3, 4]), 1, 400), (rng.choice([600, 1100]), rng.choice([3, 4, 8]), 2, 300),
                           (1300, 5, rng.choice([3, 4, 7]), 500)] * (1 if ctx.quick else 4) + \
            [(rng.choice([L, 2 * L + 3]), L, rng.choice([L // 2, L // 2 + 1, L, L + 5]), 6) for L in (96, 128, 130, 256, 512) + ((rng.choice([600, 1000, 1024, 1536, 2048]),) if ctx.quick else (200, 1000, 1024, 1536, 2048, 4096))] + \
            [(rng.choice([65536, 66000, 70001, 131073]), rng.choice([3, 4, 8, 12]), rng.choice([997, 2048, 3000, 5000]), 90)] * (1 if ctx.quick else 4):
        j = long_job(rng, n, L, hop, nnz)
        keep.append(j)
        req = cdiv(n, hop)
        for b in builds(L):
            cmds = [stft_cmd("stft", j, req + 1, "k", rng=rng)]
            if b in ("all", "nat", "np"):
                cmds += [stft_cmd("par", j, req, "k", rng=rng)]
            cmds += [frame_cmd(j, s, o="k") for s in ((req - 1) * hop, rng.randrange(req) * hop, rng.randrange(n))]
            if b in ("def", "np") or not ctx.quick:
                cmds.append(sst_new(j, "s"))
                cmds += [sst_next(j, "s") for _ in range(req + 2)]
            ctx.add(Session(SPEC, b, cmds, group=id(j), cost=1 + req * L / 60.0, note=f"long analysis n={n} L={L} hop={hop}"))
    # thousands of frames
    for n, L, hop in [(rng.randint(4097, 5200), rng.choice([1, 2, 3]), 1), (2 * rng.randint(1025, 2600), 2, 2)] + ([] if ctx.quick else [(17000, 2, 2), (9000, 3, 1), (70000, 1, 1)]):
        j = long_job(rng, n, L, hop, 60)
        keep.append(j)
        req = cdiv(n, hop)
        b = rng.choice([b for b in builds(L) if b in ("all", "nat", "np")])
        ctx.add(Session(SPEC, b, [stft_cmd(r, j, req + rng.choice([0, 1]), "k", rng=rng) for r in ("par", "stft")], group=id(j), cost=1 + req * L / 60.0, note=f"thousands of frames n={n} L={L} hop={hop}"))
        if b != "np" or not ctx.quick:
            ctx.add(Session(SPEC, b, [sst_new(j, "s")] + [sst_next(j, "s") for _ in range(req + 2)], group=id(j), cost=1 + req * L / 60.0, note=f"thousands of frames, stream n={n}"))
    for L, far, j in far_jobs(ctx, False):
        req = cdiv(j.n and len(j.x), FAR)
        for b in builds(L):
            cmds = []
            for r in ["stft"] + (["par"] if b in ("all", "nat", "np") else []):
                cmds += [stft_cmd(r, j, n, "k", rng=rng) for n in sorted({req, req + 1, req + rng.randint(2, 4)})]
            cmds += [frame_cmd(j, FAR, o="k", far=far), frame_cmd(j, 0, o="k"), sst_new(j, "s")] + [sst_next(j, "s") for _ in range(req + 2)]
            ctx.add(Session(SPEC, b, cmds, group=id(j), cost=3, note=f"far hop {far} L={L}"))
    # histories of the cursor machine, two streams interleaved on one object
    pick = hs if not ctx.quick else rng.sample(hs, min(len(hs), 250))
    for q, h in enumerate(pick):
        L = rng.choice([1, 2, 3, 4, 5, 8, 12])
        j = an_job(rng, h["n"], L, h["hop"], 1)
        j2 = an_job(rng, rng.randint(0, 9), L, rng.randint(1, 4), 1)
        keep += [j, j2]
        cmds = [sst_new(j, "s")]
        second = rng.random() < 0.4
        if second:
            cmds.append(sst_new(j2, "t"))
        for op in h["h"]:
            cmds.append(sst_next(j, "s", None if op == "next" else L + rng.choice([1, -1])))
            if second and rng.random() < 0.5:
                cmds.append(sst_next(j2, "t"))
        ctx.add(Session(SPEC, rng.choice(builds(L)), cmds, group=q % 24, cost=len(cmds) / 4, note=f"cursor {h}"))
    # one object for windows of many lengths
    for q in range(20 if ctx.quick else 150):
        b = rng.choice(["def", "all", "nat"])
        cmds = []
        for _ in range(5):
            L, hop = rng.choice([3, 7, 8, 16, 20, 32, 33, 64]), rng.choice([5, 8, 11, 30])
            j = an_job(rng, rng.randint(1, 60), L, hop, 0)
            keep.append(j)
            cmds.append(stft_cmd(rng.choice(["stft", "par"]) if b != "def" else "stft", j, j.nf, "k", rng=rng))
            cmds.append(frame_cmd(j, rng.randint(0, 50), o="k"))
        ctx.add(Session(SPEC, b, cmds, group=f"w{q % 8}", cost=20, note="window lengths on one object"))
    ctx.run()
    ctx.assume("integer signals and windows (scaled by powers of two), window lengths up to 64 (quick) / 128 (thorough)")


# ------------------------------------------------------------------------ C10
def C10(ctx):
    rng = ctx.rng
    ctx.build("def", "all", "nat", "nostd", "np")
    keep = ctx.keep = []
    for n, L, hop in shapes(ctx):
        nf = min(rng.choice([0, 1, 2, 3, 5, 8, 12]), 40)
        j = sy_job(rng, L, hop, nf)
        cover = (nf - 1) * hop + L if nf else 0
        jr = an_job(rng, n, L, hop, 0, amp=9 if L * cdiv(L, hop) < 60 else 3)
        keep += [j, jr]
        for b in builds(L):
            cmds = []
            o = rng.choice(["fresh", "k"])
            for ol in {cover, max(0, cover - rng.randint(1, L)), cover + rng.randint(1, 2 * hop + 1), rng.randint(0, cover + 2)}:
                am = amps(rng, True)
                # the prefill of the output must not matter; it is scaled like the output, so keep it logable
                pf = rng.choice([0, 7, -100]) if not am else 0
                cmds.append(istft_cmd("istft", j, ol, o, None, pf if rng.random() < .7 or am else 100, **am))
                if b in ("all", "nat", "np"):
                    cmds.append(istft_cmd("par", j, ol, o, None, pf, **am))
            if nf:
                for _ in range(3):
                    s = rng.randint(0, 2 * L)
                    cmds.append(iframe_cmd(j, s, rng.choice([0, s, s + L, s + L // 2, s + L + 3]), o, rng.choice([0, 7, -100])))
            for r in ["serial", "stream"] + (["par"] if b in ("all", "nat", "np") else []):
                am = amps(rng, False)
                if am:
                    am["oamp"] = am["amp"]
                cmds.append(rt_cmd(r, jr, o, rng.choice([0, 0, 2]) if r != "stream" else 0, rng.choice([0, 50]) if not am else 0, **am))
            cmds.append(istft_cmd("istft", j, cover, o, cover + rng.choice([1, 3]), 7))
            rng.shuffle(cmds)
            ctx.add(Session(SPEC, b, cmds, group=id(j), cost=j.cost() + jr.cost() + len(cmds) * (cover + n) / 800.0, note=f"synthesis L={L} hop={hop} nf={nf}"))
    # very many frames, long windows
    for L, hop, nf in [(2, 1, 300), (4, 1, 270), (3, 2, 400), (4, 5, 260), (8, 3, 140), (128, 40, 6), (256, 100, 4), (130, 130, 3), (rng.choice([3, 4, 8]), rng.choice([4000, 5000, 7001]), 18)] + \
            ([(rng.choice([512, 600, 1000, 1024]), rng.choice([100, 512, 700]), 3)] if ctx.quick else [(512, 128, 6), (1024, 700, 4), (5, 2, 1100), (16, 4, 600), (12, 1500, 90), (2048, 1000, 3)]):
        j = sparse_sy(rng, L, hop, nf)
        jr = long_job(rng, (nf - 1) * hop + rng.randint(1, hop), L, hop, 200 if L < 20 else 8, 0)
        keep += [j, jr]
        cover = (nf - 1) * hop + L
        for b in rng.sample(builds(L), 3):
            cmds = []
            for r in ["istft"] + (["par"] if b in ("all", "nat", "np") else []):
                cmds += [istft_cmd(r, j, ol, "k", None, 7) for ol in (cover, cover + hop, cover - rng.randint(1, L))]
            cmds += [rt_cmd(r, jr, "k") for r in ["serial", "stream"] + (["par"] if b in ("all", "nat", "np") else [])]
            ctx.add(Session(SPEC, b, cmds, group=id(j), cost=1 + nf * L / 30.0, note=f"long synthesis L={L} hop={hop} nf={nf}"))
    # thousands of frames
    for L, hop, nf in [(rng.choice([1, 2, 2, 3]), rng.choice([1, 1, 2]), rng.choice([2049, rng.randint(4097, 5100), rng.randint(4097, 5100)]))] + ([] if ctx.quick else [(1, 1, 9000), (2, 1, 5000), (2, 3, 6000)]):
        j = sparse_sy(rng, L, hop, nf)
        jr = long_job(rng, (nf - 1) * hop + rng.randint(1, hop), L, hop, 200, 0)
        keep += [j, jr]
        cover = (nf - 1) * hop + L
        b = rng.choice([b for b in builds(L) if b in ("all", "nat", "np")])
        for r in ("istft", "par"):
            ctx.add(Session(SPEC, b, [istft_cmd(r, j, cover + rng.randint(-1, 2), "k", None, 7)], group=id(j), cost=1 + nf * L / 30.0, note=f"thousands of frames L={L} hop={hop} nf={nf}"))
        ctx.add(Session(SPEC, b, [rt_cmd(rng.choice(["serial", "par", "stream"]), jr, "k")], group=id(jr), cost=1 + nf * L / 30.0, note=f"thousands of frames L={L} hop={hop} nf={nf}"))
    for L, far, j in far_jobs(ctx, True):
        for b in builds(L):
            cmds = []
            for r in ["istft"] + (["par"] if b in ("all", "nat", "np") else []):
                cmds += [istft_cmd(r, j, ol, "k", None, 7) for ol in (0, L - 1, L, L + 3)]
            cmds += [iframe_cmd(j, FAR, rng.choice([0, L, L + 3]), "k", 7, far=far), iframe_cmd(j, 0, L, "k")]
            ctx.add(Session(SPEC, b, cmds, group=id(j), cost=3, note=f"far hop {far} L={L}"))
    # long reconstructions
    for q in range(4 if ctx.quick else 30):
        L, hop = rng.choice([(8, 2), (16, 4), (16, 5), (12, 3), (32, 16), (10, 7)])
        jr = an_job(rng, rng.randint(150, 400), L, hop, 0, amp=5)
        keep.append(jr)
        b = rng.choice(["all", "nat"])
        ctx.add(Session(SPEC, b, [rt_cmd(r, jr, "k") for r in ("serial", "par", "stream")], group=f"l{q}", cost=jr.cost() + 10, note="long round trip"))
    ctx.run()
    ctx.assume("integer frames and windows (scaled by powers of two); window energies below 1e-8 are not driven, the code treats them as uncovered")


# ------------------------------------------------------------------------ C11
def C11(ctx):
    rng = ctx.rng
    ctx.build("def", "all", "nat", "nostd", "np")
    rc, out = tlc("IstftStream", "IstftStream_defect")
    if "is violated" not in out:
        raise ToolError("IstftStream_defect: the short-buffer design was not refuted")
    t = "quick" if ctx.quick else "thorough"
    ctx.start_design("IstftStream", f"IstftStream_{t}", workers=2, expect=1000)
    hs = hists(ctx.design("IstftStream", "IstftStream_hist", workers=1, expect=5000))
    # histories that are no prefix of another one
    by = {}
    for h in hs:
        by.setdefault((h["wl"], h["hop"]), set()).add(tuple(h["h"]))
    keep = ctx.keep = []
    q = 0
    for (wl, hop), s in sorted(by.items()):
        pre = {h[:-1] for h in s}
        maximal = sorted(h for h in s if h not in pre)
        # stretch the window as well: the same history with real window sizes
        for h in maximal if not ctx.quick else rng.sample(maximal, min(len(maximal), 25)):
            for k in (1, rng.choice([2, 3, 5, 8])):
                nf = h.count("push")
                j = sy_job(rng, wl * k, hop * k, nf + 1, {nf: rng.choice([1, -1])})
                keep.append(j)
                cmds, f = [ist_new(j)], 0
                for op in h:
                    if op == "push":
                        cmds.append(ist_push(j, f)); f += 1
                    elif op == "bad":
                        cmds.append(ist_push(j, nf))
                    else:
                        cmds.append(ist_flush())
                q += 1
                ctx.add(Session(SPEC, rng.choice(builds(wl * k)), cmds, group=q % 32, cost=j.cost() + len(cmds) / 3, note=f"wl={wl * k} hop={hop * k} {h}"))
    # long streams, all window/hop ratios, repeated and reordered frames
    for L in list(range(1, 13)) + [16, 20, 32, 33] + ([] if ctx.quick else list(range(14, 32)) + [48, 64, 100]):
        for hop in sorted({1, 2, 3, L // 4 or 1, L // 2 or 1, max(1, L - 1), L, L + 1, 2 * L, 2 * L + 3, 3 * L + 1}):
            if ctx.quick and rng.random() < 0.3:
                continue
            m = 6
            j = sy_job(rng, L, hop, m + 1, {m: rng.choice([1, -1, 3])})
            keep.append(j)
            nf = rng.choice([1, 2, 5, 9, 17, 30] if L * hop < 400 else [1, 2, 5, 9])
            am = amps(rng, True)
            cmds = [ist_new(j, **am)]
            for f in range(nf):
                if rng.random() < 0.15:
                    cmds.append(ist_push(j, m, **am))
                cmds.append(ist_push(j, f if nf <= m else rng.randrange(m), **am))
            cmds += [ist_flush(**am), ist_flush(**am)]
            b = rng.choice(builds(L))
            ctx.add(Session(SPEC, b, cmds, group=f"L{L}", cost=j.cost() + nf * hop * cdiv(L, hop) / 60.0, note=f"long stream L={L} hop={hop} nf={nf}"))
    # very long streams
    for L, hop, nf in [(2, 1, 300), (4, 1, 270), (4, 4, 260), (3, 7, 270), (8, 3, 140), (128, 40, 6), (130, 61, 5), (rng.choice([3, 4, 8]), rng.choice([4000, 5000, 7001]), 18),
                       (rng.choice([1, 2, 3]), rng.choice([1, 1, 2]), rng.choice([1100, 2100, 4200]))] + \
            ([(rng.choice([512, 600, 1000, 1024]), rng.choice([100, 512, 700]), 4)] if ctx.quick else [(2048, 1000, 3), (12, 1500, 90), (256, 64, 12), (512, 700, 5), (5, 2, 1100), (16, 4, 600)]):
        j = sparse_sy(rng, L, hop, nf)
        keep.append(j)
        cmds = [ist_new(j)] + [ist_push(j, f) for f in range(nf)] + [ist_flush(), ist_flush()]
        ctx.add(Session(SPEC, rng.choice(builds(L)), cmds, group=id(j), cost=1 + nf * L / 60.0, note=f"very long stream L={L} hop={hop}"))
    # two streams in alternation over the same implementation object type
    for q in range(10 if ctx.quick else 80):
        js = [sy_job(rng, rng.choice([2, 3, 4, 8]), rng.choice([1, 2, 3, 5]), 5) for _ in range(2)]
        keep += js
        cmds = [ist_new(js[0], "a"), ist_new(js[1], "b")]
        cnt = [0, 0]
        while min(cnt) < 5:
            k = rng.randrange(2)
            if cnt[k] < 5:
                cmds.append(ist_push(js[k], cnt[k], "ab"[k]))
                cnt[k] += 1
        cmds += [ist_flush("a"), ist_flush("b"), ist_flush("a")]
        ctx.add(Session(SPEC, rng.choice(["def", "nat"]), cmds, group="two", cost=4, note="two streams"))
    ctx.run()
    ctx.assume("integer frames and windows (scaled by powers of two); pushing after a flush is not driven (undocumented)")


# ------------------------------------------------------------------ for C04, C15
def error_sessions(ctx):
    rng = ctx.rng
    keep = ctx.keep = getattr(ctx, "keep", [])
    for b in ("def", "all", "nostd"):
        rs = ["stft"] + (["par"] if b == "all" else [])
        irs = ["istft"] + (["par"] if b == "all" else [])
        for L in (0, 1, 2, 3, 4, 5):
            cmds = []
            for hop in (0, 1, 2, 7):
                for n in (0, 1, 4):
                    j = Job("an", [1] * L, hop, [rng.randint(-9, 9) for _ in range(n)], nf=(cdiv(n, hop) if hop else 0) + 1)
                    keep.append(j)
                    req = cdiv(n, hop) if hop else 1
                    for nout in {0, max(0, req - 1), req, req + 1}:
                        cmds += [stft_cmd(r, j, nout, "k", rng=rng) for r in rs]
                    cmds.append(sst_new(j))
                    if hop:
                        for fl in (L, L + 1, max(0, L - 1), L):
                            if fl != L or L == 0 or (b not in NS or ispow2(L)):
                                cmds.append(sst_next(j, "s", fl))
                        for fl in {0, L, L + 1}:
                            cmds.append(frame_cmd(j, rng.randint(0, 5), fl, "k"))
                for nf in (0, 1, 3):
                    for bad in ({}, {0: 1}, {nf - 1: -1}):
                        if (bad and nf == 0) or (L == 0 and -1 in bad.values()):
                            continue
                        j = sy_job(rng, L, hop, nf, bad) if L else Job("sy", [], hop, fr=[[0] * bad.get(f, 0) for f in range(nf)], fi=[[0] * bad.get(f, 0) for f in range(nf)])
                        keep.append(j)
                        for ol in (0, 5):
                            for sl in (ol, ol + 1):
                                cmds += [istft_cmd(r, j, ol, "k", sl, 7) for r in irs]
                        if nf and (L == 0 or len(j.fr[0]) != L or b not in NS or ispow2(L)):
                            cmds.append(iframe_cmd(j, 1, 4, "k", 7))
                        for wl in {L, L + 1}:
                            cmds.append(ist_new(j, "i", wl))
                            if wl == L and hop and L and (b not in NS or ispow2(L)):
                                cmds += [ist_push(j, f) for f in range(nf)] + [ist_flush(), ist_flush()]
                            elif wl == L and hop:
                                cmds += [ist_push(j, f) for f in range(nf)]
            ctx.add(Session(SPEC, b, cmds, group=f"e{L}", cost=len(cmds), note=f"analysis/synthesis arguments L={L}"))


def parallel_sessions(ctx):
    rng = ctx.rng
    keep = ctx.keep
    HUGE = (1 << 64) - 1
    for q in range(40 if ctx.quick else 300):
        env = rng.choice([{}, {"KOFFT_PAR_FFT_THRESHOLD": "1"}, {"KOFFT_PAR_FFT_THRESHOLD": "8"}, {"KOFFT_PAR_FFT_THREADS": "0"}])
        cmds = []
        for _ in range(4):
            L = rng.choice([1, 2, 3, 4, 7, 8, 12, 16, 32])
            hop = rng.choice([1, 2, L, L // 2 or 1, L + 2])
            n = rng.randint(0, 15 * hop)
            j, js = an_job(rng, n, L, hop, 2, 4), sy_job(rng, L, hop, rng.randint(0, 14))
            keep += [j, js]
            cmds.append(Cmd("set", {"k": rng.choice(["threshold", "threads", "block"]), "v": rng.choice([0, 1, L, HUGE])}))
            req = cdiv(n, hop)
            cmds += [stft_cmd(r, j, req + rng.randint(0, 2), "k", rng=rng) for r in ("par", "stft")]
            ol = rng.randint(0, len(js.fr) * hop + L)
            cmds += [istft_cmd(r, js, ol, "k", None, 7) for r in ("par", "istft")]
            cmds += [rt_cmd("par", j, "k")]
        cmds += [Cmd("set", {"k": k, "v": 0}) for k in ("threshold", "threads", "block")]
        if rng.random() < 0.4:
            env = {**env, "RAYON_NUM_THREADS": rng.choice(["1", "2", "3", "5", "7", "16"])}
        ctx.add(Session(SPEC, rng.choice(["all", "nat"]), cmds, group=f"p{q % 8}", env=env, cost=40, note="parallel analysis and synthesis"))
