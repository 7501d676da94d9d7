"""C19: build helper."""
import itertools, os, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from .core import Cmd, Session, RUN, ToolError, binary

SPEC = "TraceXtask"
ARCHS = ["x86_64", "aarch64", "arm64", "arm64e", "armv7l", "i686", "amd64", "X86_64", "riscv64", "", "x86_64-v3", "linux-aarch64", "aarch64_be", "x86", "ppc64le", "x86_64h"]
FLAGS = ["avx512f", "avx2", "sse4_1", "avx", "fma", "sse4_2", "avx512bw", "sse2"]
EXTRAS = ["", " ", "simd", "simd soa", " a  b ", "parallel", "parallel parallel", "x\ty\nz", "avx2", "\t", "precomputed-twiddles kofft/simd ",
          "x86_64 aarch64", "b a", "a a", "Parallel", "parallel2", "noparallel"]
NPS = [0, 1, 2, 3, 8, 64]
TASKS = {"build": "build", "test": "test", "clippy": "clippy", "fmt": "fmt", "analyze": "analyze", "benchmark": "benchmark",
         "bench-libs": "bench_libs", "update-bench-readme": "update_bench_readme", "web-spectrogram": "web", "sanity": "sanity"}


def pct(s):
    return "".join(c if c.isalnum() or c in "-./" else f"%{ord(c):02x}" for c in s) or "%"


def compute(a, f, n, x):
    return Cmd("xtask", dict(r="compute", arch=pct(a), flags=pct(f), np=n, extra=pct(x)),
               dict(r="compute", arch=a, flags=f, np=min(n, 2 ** 31 - 1), extra=x))


def flagtext(rng, fs):
    fs = list(fs)
    rng.shuffle(fs)
    return rng.choice(["", "flags: ", "Flags:           fpu vme ", "flags\t\t: fpu "]) + " ".join(fs)


def script(path, body):
    with open(path, "w") as f:
        f.write("#!/bin/sh\n" + body)
    os.chmod(path, 0o755)


def quote(s):
    return "'" + s.replace("'", "'\\''") + "'"


def machine(rng, d):
    """Stand-ins for the programs that describe the machine, in directory d; returns the description."""
    arch = rng.choice(["", "  ", None, None] + ARCHS)
    uname = rng.choice(ARCHS + ["x86_64"] * 6 + ["aarch64"] * 2)
    script(d + "/uname", 'if [ "$1" = -m ]; then printf "%s\\n" ' + quote(uname) + "; fi\n")
    fs = [f for f in FLAGS if rng.random() < 0.4]
    lines = []
    if rng.random() < 0.75:
        pre = ["Architecture: x86_64", "Model name: avx2 avx512f sse4_1", "CPU(s): 8"]
        rng.shuffle(pre)
        lines += [{"isf": False, "text": t} for t in pre[: rng.choice([0, 2, 3])]]
        if rng.random() < 0.85:
            lines.append({"isf": True, "text": rng.choice(["Flags:   fpu ", "flags: ", "CPU FLAGS ", "  Flags : "]) + " ".join(fs)})
        lines += [{"isf": False, "text": t} for t in ["Vulnerability: avx512f avx2", "L1d: sse4_1"][: rng.choice([0, 2])]]
        script(d + "/lscpu", "".join("printf '%s\\n' " + quote(l["text"]) + "\n" for l in lines))
        has = True
    else:
        has = False
    sysctl = ""
    if rng.random() < 0.5:
        sysctl = " ".join([f for f in FLAGS if rng.random() < 0.4])
        script(d + "/sysctl", 'if [ "$1" = -n ] && [ "$2" = machdep.cpu.features ]; then printf "%s\\n" ' + quote(sysctl) + "; fi\n")
    extra = rng.choice(EXTRAS + [None])
    env = {"PATH": d}
    if arch is not None:
        env["ARCH"] = arch
    if extra is not None:
        env["KOFFT_FEATURES"] = extra
    return env, dict(arch=arch or "", uname=uname, haslscpu=has, lscpu=lines, sysctl=sysctl, extra=extra or "")


STUB = """printf 'BEGIN\\0%s\\0%s\\0' "${0##*/}" "${RUSTFLAGS--}" >> "$KLOG"
for a in "$@"; do printf 'A%s\\0' "$a" >> "$KLOG"; done
read -r c < "$KRC"
{ read -r c; rest=; while read -r l; do rest="$rest$l
"; done; } < "$KRC"
read -r c < "$KRC"
printf '%s' "$rest" > "$KRC"
if [ "$c" = 256 ]; then kill -9 $$; fi
exit "$c"
"""


def run_main(args):
    """One run of the real helper with stand-ins for cargo and sh; returns the trace event fields."""
    d, env, m, task, st, inp, out, np, missing = args
    work = d + "/work"
    e = dict(env)
    e.update(KLOG=d + "/log", KRC=d + "/rc")
    with open(d + "/rc", "w") as f:
        f.write("".join(f"{s}\n" for s in st))
    open(d + "/log", "w").close()
    cpus = sorted(os.sched_getaffinity(0))[:np]
    cmd = [binary("xtb"), task] + ([inp, out] if task == "sanity" else [])
    try:
        r = subprocess.run(cmd, cwd=work, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60,
                           preexec_fn=lambda: os.sched_setaffinity(0, cpus))
        rc = r.returncode
    except subprocess.TimeoutExpired:
        rc = 999
    runs = []
    for chunk in open(d + "/log").read().split("BEGIN\0")[1:]:
        parts = chunk.split("\0")[:-1]
        runs.append({"prog": parts[0], "rf": parts[1], "args": [p[1:] for p in parts[2:]]})
    return dict(runs=runs, ret=rc)


def C19(ctx):
    rng = ctx.rng
    ctx.start_design("MC_Xtask", workers=4, expect=17000)
    ctx.build("xt", "xtb")
    combos = []
    for a in ARCHS:
        for k in range(1 << 3):
            fs = [f for i, f in enumerate(FLAGS[:3]) if k >> i & 1]
            for n in (1, 2):
                combos.append((a, flagtext(rng, fs + [f for f in FLAGS[3:] if rng.random() < 0.3]), n, rng.choice(EXTRAS)))
    full = list(itertools.product(ARCHS, range(1 << len(FLAGS)), NPS, EXTRAS))
    for a, k, n, x in (rng.sample(full, 2500) if ctx.quick else rng.sample(full, 60000)):
        combos.append((a, flagtext(rng, [f for i, f in enumerate(FLAGS) if k >> i & 1]), n, x))
    for n in (2 ** 31, 2 ** 63, 2 ** 64 - 1):
        combos.append(("x86_64", "avx2", n, "simd"))
    for i in range(0, len(combos), 100):
        ctx.add(Session(SPEC, "xt", [compute(*c) for c in combos[i:i + 100]], cost=100, note="decision table"))
    tmp = tempfile.mkdtemp(prefix="xtask-", dir=RUN)
    try:
        # what number of processors the helper can see when restricted to n of them
        npseen = {}
        for n in (1, 2):
            cpus = sorted(os.sched_getaffinity(0))[:n]
            npseen[n] = int(subprocess.run(["nproc"], capture_output=True, text=True, preexec_fn=lambda: os.sched_setaffinity(0, cpus)).stdout or n)
        for i in range(60 if ctx.quick else 600):
            d = f"{tmp}/d{i}"
            os.mkdir(d)
            env, m = machine(rng, d)
            np = rng.choice([1, 2, 2, 4])
            ctx.add(Session(SPEC, "xt", [Cmd("xtask", dict(r="detect", np=np), dict(r="detect", **m))], env=env, note="detection"))
        jobs = []
        for i in range(120 if ctx.quick else 1500):
            d = f"{tmp}/m{i}"
            os.mkdir(d)
            env, m = machine(rng, d)
            task = list(TASKS)[i % len(TASKS)] if rng.random() < 0.8 else "analyze"
            np = rng.choice([1, 2])
            missing = rng.random() < 0.03
            os.mkdir(d + "/work")
            # written before any thread starts programs: a script still open for writing in a forked child cannot be run
            for p in ("cargo", "sh"):
                if not missing:
                    script(f"{d}/{p}", STUB)
            st = [512, 512] if missing else [rng.choice([0, 0, 0, 1, 2, 101, 255, 256]) for _ in range(2)]
            inp, out = rng.choice(["in.wav", "a b.wav", "x.flac"]), rng.choice(["out.png", "o ut.png"])
            jobs.append((d, env, m, task, st, inp, out, np, missing))
        with ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(run_main, jobs))
        for (d, env, m, task, st, inp, out, np, missing), o in zip(jobs, outs):
            if missing:
                # nothing can be started: the helper must fail
                c = Cmd("main", dict(task=task, st=st), dict(op2="missing"))
            else:
                c = Cmd("main", dict(task=task, st=st, **{k: str(v) for k, v in env.items() if k != "PATH"}),
                        dict(op2="run", np=npseen[np], task=TASKS[task], st=st, **{"in": inp}, out=out, **m))
            c.out = o
            ctx.add(Session(SPEC, "xtb", [c], note=f"xtask {task} with recorded programs"))
        ctx.run()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ctx.assume("the helper's child programs are stand-ins that record their arguments and RUSTFLAGS and return a chosen status",
               "option order on a generated command line is not fixed by the property; subcommand, option set, values and trailing arguments are",
               "the number of processors is what the scheduler affinity shows (1 or 2 here); other counts are passed to the pure decision function")
