"""C23: recordings to pictures (sanity-check library and programs)."""
import json, os, re, shutil, struct, subprocess, tempfile, zlib
from concurrent.futures import ThreadPoolExecutor
from .core import Cmd, Session, RUN, ToolError, binary

SPEC = "TraceAudio"
MAPS = ["fire", "legacy", "gray", "viridis", "plasma", "inferno", "rainbow"]


def pack(v, bits, end):
    if bits == 16:
        return struct.pack(f"{end}{len(v)}h", *v)
    if bits == 8:
        return struct.pack(f"{len(v)}b", *v) if end == ">" else bytes(x + 128 for x in v)
    if bits == 24:
        return b"".join((x & 0xFFFFFF).to_bytes(3, "big" if end == ">" else "little") for x in v)
    if bits == 32:
        return struct.pack(f"{end}{len(v)}i", *v)
    n = bits * len(v)       # any other width: FLAC only, most significant bit first
    w = 0
    for x in v:
        w = (w << bits) | (x & ((1 << bits) - 1))
    return w, n


def wav(v, ch, rate, bits=16):
    data = pack(v, bits, "<")
    z = bits // 8
    fmt = struct.pack("<HHIIHH", 1, ch, rate, rate * ch * z, ch * z, bits)
    if len(data) % 2:
        data += b"\0"
        return (b"RIFF" + struct.pack("<I", 36 + len(data)) + b"WAVE" + b"fmt " + struct.pack("<I", 16) + fmt
                + b"data" + struct.pack("<I", len(data) - 1) + data)
    return (b"RIFF" + struct.pack("<I", 36 + len(data)) + b"WAVE" + b"fmt " + struct.pack("<I", 16) + fmt
            + b"data" + struct.pack("<I", len(data)) + data)


def _crc(data, width, poly):
    c, top, mask = 0, 1 << (width - 1), (1 << width) - 1
    for b in data:
        c ^= b << (width - 8)
        for _ in range(8):
            c = ((c << 1) ^ poly) & mask if c & top else (c << 1) & mask
    return c


def flac(v, ch, rate, block, declared=None, bits=16):
    """An uncompressed FLAC stream with blocks of `block` frames (16 or more)."""
    code = {8: 1, 12: 2, 16: 4, 20: 5, 24: 6}[bits]
    n = len(v) // ch
    total = n if declared is None else declared
    info = struct.pack(">HH", block, block) + b"\0" * 6
    info += ((rate << 44) | ((ch - 1) << 41) | ((bits - 1) << 36) | total).to_bytes(8, "big") + b"\0" * 16
    out = b"fLaC" + bytes([0x80, 0, 0, len(info)]) + info
    for q, s in enumerate(range(0, n, block)):
        k = min(block, n - s)
        h = bytes([0xFF, 0xF8, 0x70, ((ch - 1) << 4) | code << 1])
        h += bytes([q]) if q < 128 else bytes([0xC0 | q >> 6, 0x80 | q & 63])
        h += struct.pack(">H", k - 1)
        h += bytes([_crc(h, 8, 0x07)])
        acc, nb = 0, 0
        for c in range(ch):
            part = v[s * ch + c:(s + k) * ch:ch]
            if bits in (8, 16, 24):
                h += b"\x02" + pack(part, bits, ">")
            else:
                w, n0 = pack(part, bits, ">")
                acc, nb = (((acc << 8) | 2) << n0) | w, nb + 8 + n0
        if nb:
            pad = -nb % 8
            h += (acc << pad).to_bytes((nb + pad) // 8, "big")
        out += h + struct.pack(">H", _crc(h, 16, 0x8005))
    return out


def png(path):
    """Reads a PNG without the repository's code: width, height, depth, rows of pixels."""
    b = open(path, "rb").read()
    assert b[:8] == b"\x89PNG\r\n\x1a\n", "signature"
    i, idat = 8, b""
    while i < len(b):
        n, t = struct.unpack(">I4s", b[i:i + 8])
        d = b[i + 8:i + 8 + n]
        if t == b"IHDR":
            w, h, depth, ctype, _, _, inter = struct.unpack(">IIBBBBB", d)
        elif t == b"IDAT":
            idat += d
        i += 12 + n
    assert ctype == 2 and inter == 0, "colour type"
    raw = zlib.decompress(idat)
    bpp = 3 * depth // 8
    prev, rows, p = bytes(w * bpp), [], 0
    for _ in range(h):
        f, line = raw[p], bytearray(raw[p + 1:p + 1 + w * bpp])
        p += 1 + w * bpp
        for x in range(len(line)):
            a = line[x - bpp] if x >= bpp else 0
            u = prev[x]
            c = prev[x - bpp] if x >= bpp else 0
            if f == 1:
                line[x] = (line[x] + a) & 255
            elif f == 2:
                line[x] = (line[x] + u) & 255
            elif f == 3:
                line[x] = (line[x] + (a + u) // 2) & 255
            elif f == 4:
                e = a + u - c
                pa, pb, pc = abs(e - a), abs(e - u), abs(e - c)
                line[x] = (line[x] + (a if pa <= pb and pa <= pc else u if pb <= pc else c)) & 255
        prev = bytes(line)
        if depth == 8:
            rows.append([list(line[3 * k:3 * k + 3]) for k in range(w)])
        else:
            z = struct.unpack(">%dH" % (3 * w), prev)
            rows.append([list(z[3 * k:3 * k + 3]) for k in range(w)])
    return w, h, depth, rows


def read_png(path):
    try:
        w, h, d, rows = png(path)
        return dict(w=w, h=h, gotdepth=d, px=rows)
    except Exception:  # noqa
        return dict(w=-1, h=-1, gotdepth=0, px=[])


def read_svg(path):
    try:
        t = open(path).read()
        box = [int(float(z)) for z in re.search(r'viewBox="([^"]*)"', t).group(1).split()]
        rects = []
        for r in re.findall(r"<rect\b([^>]*)/?>", t):
            a = dict(re.findall(r'([\w-]+)="([^"]*)"', r))
            rects.append({"at": [int(a[k]) for k in ("x", "y", "width", "height")], "fill": a["fill"].lower()})
        return dict(box=box, rects=sorted(rects, key=lambda r: (r["at"][1], r["at"][0])))
    except Exception:  # noqa
        return dict(box=[], rects=[])


def nums(v):
    return ",".join(map(str, v)) if v else "-"


def lib(lines):
    """Answers of the library driver to a list of command lines; a crash costs its own line."""
    out, todo = [], list(lines)
    while todo:
        p = subprocess.run([binary("sch")], input="\n".join(todo) + "\n", stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=300)
        got = [json.loads(x) for x in p.stdout.splitlines()]
        if p.returncode == 3:
            raise ToolError("sc-harness: bad command")
        out += got
        todo = todo[len(got):]
        if todo:
            out.append({"ret": "crash"})
            todo = todo[1:]
    return out


def signal(rng, n):
    k = rng.randrange(5)
    if k == 0:
        return [rng.choice([-32768, 32767, 0, 1, -1, 16384]) for _ in range(n)]
    if k == 1:
        return [rng.randint(-32768, 32767) for _ in range(n)]
    if k == 2:
        return [0] * n
    if k == 3:
        a, p = rng.randint(1, 32767), rng.randint(2, 40)
        return [a if (i // p) % 2 else -a for i in range(n)]
    return [rng.randint(-30, 30) for _ in range(n)]


def recording(rng, path, frames, formats=("wav", "WAV", "flac", "wave"), deep=False, undeclared=None):
    """Writes a recording; returns (path, interleaved values, channels, full scale, rate, declared length, bits)."""
    f = rng.choice(formats)
    ch = 1 if formats == ("wav",) or frames > 65536 else rng.choice([1, 1, 2, 3, 4, 5, 6, 7, 8] if f in ("flac", "wav", "WAV") else [1, 2])
    rate = rng.choice([8000, 11025, 16000, 22050, 32000, 44100, 48000, 96000, 192000, 1000, 12345])
    bits = 16
    if deep and rng.random() < 0.5:
        bits = rng.choice({"flac": [8, 12, 20, 24], "wave": [8, 24]}.get(f, [16]))
    v = signal(rng, frames * ch)
    if bits < 16:
        v = [x >> (16 - bits) for x in v]
    elif bits > 16:
        v = [(x << (bits - 16)) | rng.getrandbits(bits - 16) for x in v]
    decl = 0
    if f == "flac":
        block = rng.choice([16, 17, 64, 100, 192, 4096])
        declared = None
        if rng.random() < 0.4:
            declared = rng.choice([0, max(1, frames - 1), max(1, frames // 2), frames, frames + 1, frames + 1000])
        if undeclared is not None:
            declared = 0 if undeclared else None
        b = flac(v, ch, rate, max(block, 64) if frames > 20000 else block, declared, bits)
        decl = frames if declared is None else declared
    else:
        b = wav(v, ch, rate, bits)
    # the extension decides the reader of 16-bit WAV files, in any case
    name = rng.choice(["WAV", "Wav", "wAv", "waV", "WAv"]) if f == "WAV" else f
    p = f"{path}.{name}"
    open(p, "wb").write(b)
    return p, v, ch, 32767 if f in ("wav", "WAV") else 32768, rate, decl, bits


def mono(v, ch, decl):
    m = [sum(v[i:i + ch]) for i in range(0, len(v) - ch + 1, ch)]
    return m[:decl] if 0 < decl < len(m) else m


def run_tool(job):
    kind, cmd, out, env = job
    try:
        r = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=120, env=env)
        rc, pan = r.returncode, "panicked" in r.stderr or r.returncode < 0
    except subprocess.TimeoutExpired:
        rc, pan = 999, True
    o = read_png(out)
    o.update(status=rc, panicked=pan)
    return o


def C23(ctx):
    rng = ctx.rng
    ctx.start_design("AudioDecode", "AudioDecode_quick" if ctx.quick else "AudioDecode_thorough", workers=2)
    ctx.build("sch", "sc", "ex")
    d = tempfile.mkdtemp(prefix="audio-", dir=RUN)
    env = {k: v for k, v in os.environ.items() if not k.startswith("KOFFT_")}
    try:
        sess = []
        # files read
        reads = []
        for q in range(700 if ctx.quick else 4000):
            frames = rng.choice([0, 1, 2, 15, 16, 17, 33, 100, 192, 300, 1200, 2500]) if rng.random() < 0.5 else rng.randint(1, 400)
            if q % 60 == 0:
                frames = rng.choice([20000, 32768, 65535, 65536, 65537, 70001]) // (2 if ctx.quick else 1)
            if q % 230 == 0:
                # long recordings, with and without a declared length
                frames = rng.choice([65537, 70001, rng.randint(65537, 140000)])
                p, v, ch, fs, rate, decl, bits = recording(rng, f"{d}/r{q}", frames, ("flac",) if q % 460 else ("wav", "wave"), deep=True, undeclared=q % 920 == 230)
            else:
                p, v, ch, fs, rate, decl, bits = recording(rng, f"{d}/r{q}", frames, deep=True)
            if p.endswith("flac") and frames == 0 or p.endswith("wave") and frames == 0:
                continue
            ev = dict(v=v, bits=bits, ch=ch, declared=decl, wantrate=rate, fault="none", lenient=False)
            if frames > 2 and rng.random() < 0.2:
                b = open(p, "rb").read()
                cut = rng.randint(46, len(b) - 1)
                open(p, "wb").write(b[:cut])
                ev.update(fault="cut", lenient=not p.lower().endswith(".wav"))
            reads.append((f"read {p} {fs}", "read", ev, None))
        for q, (name, b) in enumerate([("e.wav", b""), ("e.flac", b""), ("x.flac", b"not audio at all" * 20), ("x.wav", b"RIFF" + b"\0" * 60),
                                       ("w.flac", b"fLaC" + b"\0" * 10), ("none", b"")]):
            p = f"{d}/bad{q}-{name}"
            if name != "none":
                open(p, "wb").write(b)
            reads.append((f"read {p} 32767", "read", dict(v=[], bits=16, ch=1, declared=0, wantrate=0, fault="bad", lenient=False), None))
        # pictures saved
        for q in range(400 if ctx.quick else 2500):
            w, h = rng.choice([1, 1, 2, 3, 5, 8, 17]), rng.choice([1, 1, 2, 3, 5, 8, 17])
            ext = [0, 255, 256, 257, 65535, 65280, 32768, 127, 128]
            img = [[[rng.choice(ext) if rng.random() < 0.4 else rng.randint(0, 65535) for _ in range(3)] for _ in range(w)] for _ in range(h)]
            flat = nums([c for r in img for px in r for c in px])
            k = rng.choice([8, 16, "svg"])
            out = f"{d}/s{q}"
            if k == "svg":
                reads.append((f"svg {out} {w} {h} {flat}", "svg", dict(img=img, wantw=w), lambda o=out: read_svg(o)))
            else:
                reads.append((f"save {out} {k} {w} {h} {flat}", "save", dict(img=img, wantw=w, depth=k), lambda o=out: read_png(o)))
        # pictures drawn by the programs
        jobs, cols, evs = [], [], []
        for q in range(600 if ctx.quick else 3000):
            ex = q % 9 == 0
            frames = rng.choice([1, 2, 500, 512, 513, 1100]) if ex else rng.choice([500, 1000, 2000]) if q % 40 == 1 else rng.choice([1, 2, 3, 7, 16, 40, 90])
            p, v, ch, fs, rate, decl, _ = recording(rng, f"{d}/p{q}", frames, ("wav",) if ex else ("wav", "flac", "wave"))
            m = mono(v, ch, decl)
            out = f"{d}/p{q}.png"
            cm = rng.choice(MAPS)
            dr = rng.choice(["120", "60", "30.5", "20"])
            if ex:
                win, mode, depth = 1024, "linear", 8
                cmd = [binary("ex"), p, out, "--palette", rng.choice([cm, cm.upper()]), "--floor", "-" + dr]
                if rng.random() < 0.3:
                    cmd, dr, cm = [binary("ex"), p, out], "120", "fire"
            else:
                win = rng.choice([2, 3, 4, 5, 6, 8, 12, 16, 32, 50] + ([0, 1] if rng.random() < 0.3 else []))
                mode, depth = rng.choice(["linear", "log"]), rng.choice([8, 16])
                cmd = [binary("sc"), p, out, "--win-len", str(win), "--scale-mode", mode, "--png-depth", "eight" if depth == 8 else "sixteen"]
                if rng.random() < 0.1:
                    cm = "inferno"
                else:
                    cmd += ["--colormap", cm]
                if dr != "120" or rng.random() < 0.5:
                    cmd += ["--dynamic-range", dr]
            want = "ok"
            if not ex and q % 40 == 1:
                # longer recordings and windows
                win = rng.choice([64, 128, 200, 256, 512, 1024])
                cmd[cmd.index("--win-len") + 1] = str(win)
            elif not ex and q % 40 == 2:
                # nothing given but the files: window 1024, linear, inferno, 120 dB, eight bits; or some of it
                for name, default in (("--win-len", 1024), ("--scale-mode", "linear"), ("--png-depth", 8), ("--colormap", "inferno"), ("--dynamic-range", "120")):
                    if name not in cmd or rng.random() < 0.6:
                        if name in cmd:
                            k = cmd.index(name)
                            del cmd[k:k + 2]
                        if name == "--win-len":
                            win = default
                        elif name == "--scale-mode":
                            mode = default
                        elif name == "--png-depth":
                            depth = default
                        elif name == "--colormap":
                            cm = default
                        else:
                            dr = default
            if win < 2:
                want = "err"
            elif rng.random() < 0.06:
                os.unlink(p)
                want = "err"
            jobs.append(("ex" if ex else "sc", cmd, out, env))
            cols.append(f"cols {max(win, 2)} {mode} {cm} {dr} {fs * ch} {nums(m)}")
            evs.append(dict(win=win, depth=depth, mono=m, want=want))
        with ThreadPoolExecutor(8) as x:
            outs = x.map(run_tool, jobs)
            libc = lib(cols)
            libr = lib([r[0] for r in reads])
            outs = list(outs)
        for (line, op, ev, after), o in zip(reads, libr):
            c = Cmd(op, {"line": line[:3000]}, ev)
            c.out = dict(o, y=o.get("y", []), rate=o.get("rate", 0)) if op == "read" else o
            if after:
                c.out.update(after())
            ctx.add(Session(SPEC, "sch", [c], cost=1 + len(ev.get("v", [])) / 100 + len(ev.get("img", [])), note=op))
        for job, ev, o, l in zip(jobs, evs, outs, libc):
            if ev["want"] == "ok" and l["ret"] != "ok":
                raise ToolError(f"library refused a picture the program is asked for: {l}")
            c = Cmd("run", {"cmd": " ".join(job[1][1:])}, dict(ev, cols=l.get("cols", []) if ev["want"] == "ok" else []))
            c.out = o
            ctx.add(Session(SPEC, job[0], [c], cost=3 + len(ev["mono"]) / 10, note=f"{job[0]} program"))
        ctx.run()
    finally:
        shutil.rmtree(d, ignore_errors=True)
    ctx.assume("recordings are 16-bit WAV (up to six channels through the WAV reader, two through the generic one) and FLAC (up to six channels, "
               "verbatim blocks) files written by the check; MP3 is not generated",
               "the colours a picture must show are those the library gives for the recorded samples (C17 decides those)")
