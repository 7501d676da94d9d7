#!/usr/bin/env python3
"""Survey of source mutants: small edits of /repo's code, each tried in a private copy with the checks of the
properties the file is anchored in.  Prints what no check notices; most of that is equivalent code and is looked at by
hand.  usage: srcmut.py LANES COUNT SEED [file...]"""
import json, os, random, re, shutil, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
FILES = {
    "src/fft.rs": ["C01", "C02", "C04", "C05", "C03", "C22", "C15", "C06", "C21"],
    "src/fft_kernels.rs": ["C01", "C02", "C05"],
    "src/lib.rs": ["C01", "C16", "C22"],
    "src/num.rs": ["C06", "C01", "C02"],
    "src/rfft.rs": ["C07", "C04", "C22", "C03"],
    "src/ndfft.rs": ["C08", "C04"],
    "src/stft.rs": ["C09", "C10", "C11", "C17", "C04"],
    "src/dct.rs": ["C12", "C21", "C03"],
    "src/dst.rs": ["C12", "C21"],
    "src/wavelet.rs": ["C13", "C21"],
    "src/window.rs": ["C16"], "src/window_more.rs": ["C16"],
    "src/cepstrum.rs": ["C20", "C21"],
    "src/czt.rs": ["C18"], "src/goertzel.rs": ["C18"], "src/hartley.rs": ["C18", "C21"], "src/hilbert.rs": ["C18"],
    "src/visual/spectrogram.rs": ["C17", "C23"], "src/media/index.rs": ["C14"],
    "xtask/src/lib.rs": ["C19"], "xtask/src/main.rs": ["C19"],
    "sanity-check/src/lib.rs": ["C23"], "sanity-check/src/main.rs": ["C23"],
    "web-spectrogram/src/lib.rs": ["C25"], "web-spectrogram/src/main.rs": ["C25"],
}


def code_lines(path):
    """line numbers that are code built here: no tests, comments, attributes, foreign targets"""
    L = open(path).read().split("\n")
    skip = set()
    i = 0
    while i < len(L):
        if re.match(r"\s*#!?\[cfg\(", L[i]) and re.search(r"\btest\b|aarch64|wasm32|neon|simd128|macos|sse", L[i]) and "not(" not in L[i]:
            d, j, seen = 0, i + 1, False
            while j < len(L):
                t = re.sub(r'"[^"]*"|//.*', "", L[j])
                d += t.count("{") - t.count("}")
                seen |= "{" in t or ";" in t
                skip.add(j)
                if seen and d <= 0:
                    break
                j += 1
            i = j
        i += 1
    return L, [k for k, t in enumerate(L) if k not in skip and t.strip() and not re.match(r"\s*(//|#|use |pub use|mod |pub mod|\*|assert|debug_assert|println|eprintln)", t)]


OPS = [(r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]),
       (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / ", " + "]), (r" / ", [" * "]), (r" % ", [" / "]),
       (r" \+= ", [" -= ", " = "]), (r" -= ", [" += "]), (r" \*= ", [" /= "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
       (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\.\.=", [".."]), (r"\b0\.\.", ["1.."]), (r"\.re\b", [".im"]), (r"\.im\b", [".re"]),
       (r"\.min\(", [".max("]), (r"\.max\(", [".min("]), (r"is_some", ["is_none"]), (r"is_none", ["is_some"]), (r"is_ok\b", ["is_err"]),
       (r"\bsin\(", ["cos("]), (r"\bcos\(", ["sin("]), (r" >> ", [" << "]), (r" << ", [" >> "]), (r"(?<= )-(?=[a-z(])", [""]),
       (r"\bi \* ", ["(i + 1) * "]), (r"_mul_ps", ["_add_ps"]), (r"_add_ps", ["_sub_ps"]), (r"_sub_ps", ["_add_ps"]),
       (r"chunks_exact", ["chunks"]), (r"\.rev\(\)", [""]), (r"sqrt\(\)", ["abs()"]), (r"floor\(\)", ["ceil()"]), (r"ceil\(\)", ["floor()"]), (r"round\(\)", ["floor()"])]


def mutants(f):
    L, ks = code_lines(os.path.join(REPO, f))
    out = []
    for k in ks:
        t = L[k]
        body = t.split("//")[0]
        for pat, reps in OPS:
            for m in re.finditer(pat, body):
                if body[:m.start()].count('"') % 2:
                    continue
                if ("fn " in body or "impl" in body or "where" in body or "->" in body) and pat.strip() in (r"\+", r" \+ ", r" < ", r" > "):
                    continue
                for r in reps:
                    out.append((f, k, t, body[:m.start()] + r + body[m.end():]))
        for m in re.finditer(r"(?<![\w.\"#])(\d+)(?![\w\"])(?!\.\d)(?!\.\.)", body):
            if body[:m.start()].count('"') % 2 or "[" in body and "]; " in body:
                continue
            out.append((f, k, t, body[:m.start()] + str(int(m.group(1)) + 1) + body[m.end():]))
        for m in re.finditer(r"(?<![\w])(\d+\.\d+)", body):
            if body[:m.start()].count('"') % 2 == 0:
                out.append((f, k, t, body[:m.start()] + str(float(m.group(1)) * 1.02 + (0.01 if float(m.group(1)) == 0 else 0)) + body[m.end():]))
        if body.rstrip().endswith(";") and not re.match(r"\s*(let|return|const|static|type|pub|break|continue|\}|\)|\.)", body) and body.count("(") == body.count(")") and body.count("{") == body.count("}"):
            out.append((f, k, t, ""))
        m = re.match(r"(\s*)if (.*) \{$", body)
        if m and " let " not in " " + m.group(2):
            out.append((f, k, t, f"{m.group(1)}if false && ({m.group(2)}) {{"))
    return out


def one(prop):
    """a check that leaves at the first rejected trace and skips the design models"""
    sys.path.insert(0, V)
    import check
    from vlib import core
    real = core.tlc

    def tlc(module, *a, **k):
        rc, out = real(module, *a, **k)
        if module.startswith("Trace") and rc and '"REJECTED"' in out:
            os._exit(1)
        return rc, out
    core.tlc = tlc
    core.JOBS = int(os.environ.get("SURVEY_JOBS", "3"))
    core.Ctx.start_design = lambda self, *a, **k: {}
    core.Ctx.refute = lambda self, *a, **k: None
    sys.argv = ["check.py", prop]
    sys.exit(check.main())


def inside(jobf, outf):
    for f, k, old, new, checks in json.load(open(jobf)):
        p = os.path.join(REPO, f)
        src = open(p).read()
        L = src.split("\n")
        assert L[k] == old, (f, k)
        L[k] = new
        open(p, "w").write("\n".join(L))
        verdict = {}
        try:
            for rounds in ("1", None):
                for c in checks:
                    env = dict(os.environ, VERIF_SEED=str(random.randrange(1, 1000)))
                    if rounds:
                        env["VERIF_ROUNDS"] = rounds
                    pr = subprocess.Popen(["python3", "tools/srcmut.py", "--one", c], cwd="/verif", stdout=subprocess.DEVNULL,
                                          stderr=subprocess.DEVNULL, env=env, start_new_session=True)
                    try:
                        r = pr.wait(600)
                    except subprocess.TimeoutExpired:
                        r = "T"
                    try:
                        os.killpg(pr.pid, 9)
                    except ProcessLookupError:
                        pass
                    shutil.rmtree("/verif/run", ignore_errors=True)
                    verdict[c + (rounds or "")] = r
                    if r not in (0,):
                        break
                if any(v != 0 for v in verdict.values()):
                    break
        finally:
            open(p, "w").write(src)
        with open(outf, "a") as o:
            o.write(json.dumps([f, k + 1, old.strip(), new.strip(), verdict]) + "\n")


def main(lanes, count, seed, files):
    rnd = random.Random(seed)
    files = files or list(FILES)
    per = {f: mutants(f) for f in files}
    tot = sum(len(v) for v in per.values())
    jobs = []
    for f, v in per.items():
        rnd.shuffle(v)
        n = max(1, round(count * len(v) / tot)) if count < tot else len(v)
        jobs += [list(m) + [FILES[f]] for m in v[:n]]
    rnd.shuffle(jobs)
    print(tot, "mutants,", len(jobs), "tried", {f: len(v) for f, v in per.items()}, flush=True)
    base = "/tmp/srcmut"
    procs = []
    for i in range(lanes):
        w = f"{base}/w{i}"
        os.makedirs(w + "/tmp", exist_ok=True)
        os.makedirs(w + "/work", exist_ok=True)
        subprocess.run(f"mkdir -p {w}/repo {w}/verif && cp -a /repo/. {w}/repo/ && cp -a {V}/. {w}/verif/", shell=True, check=True)
        json.dump(jobs[i::lanes], open(f"{w}/tmp/jobs.json", "w"))
        procs.append(subprocess.Popen(["unshare", "-Urm", "bash", "-c",
            f"mount --bind {w}/repo /repo && mount --bind {w}/verif /verif && mount --bind {w}/work /opt/vp/work && mount --bind {w}/tmp /tmp && cd /verif && exec python3 tools/srcmut.py --inside /tmp/jobs.json /tmp/out-{seed}.jsonl"]))
    for p in procs:
        p.wait()


if __name__ == "__main__":
    if sys.argv[1] == "--one":
        one(sys.argv[2])
    elif sys.argv[1] == "--inside":
        inside(*sys.argv[2:4])
    else:
        main(int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:])
