#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/seeds/*.py and tests the planted changes.

  mkseeds.py write [ID...]   (re)write patch.diff, demo.sh, demo.rs, meta.json
  mkseeds.py test  [ID...]   for each: demo on the clean tree, apply, build, stable
                             tests, demo, the property's quick check, undo; results
                             go to run/seed_results.json
"""
import difflib, glob, json, os, runpy, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"

PRELUDE = r'''
#![allow(dead_code, unused_imports, unused_mut)]
use std::f64::consts::PI as PI64;
pub struct Lcg(pub u64);
impl Lcg {
    pub fn next(&mut self) -> f64 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        ((self.0 >> 40) as f64) / ((1u64 << 24) as f64) * 2.0 - 1.0
    }
}
pub fn dft(x: &[(f64, f64)], inv: bool) -> Vec<(f64, f64)> {
    let n = x.len();
    let s = if inv { 1.0 } else { -1.0 };
    let sc = if inv { 1.0 / n as f64 } else { 1.0 };
    (0..n)
        .map(|k| {
            let mut r = (0.0, 0.0);
            for (j, v) in x.iter().enumerate() {
                let a = s * 2.0 * PI64 * (((j * k) % n) as f64) / n as f64;
                r.0 += v.0 * a.cos() - v.1 * a.sin();
                r.1 += v.0 * a.sin() + v.1 * a.cos();
            }
            (r.0 * sc, r.1 * sc)
        })
        .collect()
}
pub fn signal(n: usize, seed: u64) -> Vec<(f64, f64)> {
    let mut g = Lcg(seed);
    (0..n).map(|_| ((g.next() * 64.0).round(), (g.next() * 64.0).round())).collect()
}
pub fn c32(x: &[(f64, f64)]) -> Vec<kofft::Complex32> {
    x.iter().map(|v| kofft::Complex32::new(v.0 as f32, v.1 as f32)).collect()
}
pub fn c64(x: &[(f64, f64)]) -> Vec<kofft::fft::Complex64> {
    x.iter().map(|v| kofft::fft::Complex64::new(v.0, v.1)).collect()
}
pub fn same(what: &str, a: &[(f64, f64)], b: &[(f64, f64)], tol: f64) {
    assert_eq!(a.len(), b.len(), "{what}: length");
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        let e = (x.0 - y.0).abs().max((x.1 - y.1).abs());
        assert!(e <= tol, "{what}: element {i} is {x:?}, expected {y:?}");
    }
}
pub fn p32(x: &[kofft::Complex32]) -> Vec<(f64, f64)> {
    x.iter().map(|v| (v.re as f64, v.im as f64)).collect()
}
pub fn p64(x: &[kofft::fft::Complex64]) -> Vec<(f64, f64)> {
    x.iter().map(|v| (v.re, v.im)).collect()
}
pub fn close(what: &str, a: &[f32], b: &[f64], tol: f64) {
    assert_eq!(a.len(), b.len(), "{what}: length");
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        assert!((*x as f64 - y).abs() <= tol, "{what}: element {i} is {x}, expected {y}");
    }
}
'''

DEMO = r'''#!/bin/bash
# Demonstration: exit 0 when the property holds, 1 when it is broken.
# Run with the repository as the working directory.
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
W=$(mktemp -d) || exit 2
trap 'rm -r "$W"' EXIT
mkdir -p "$W/src"
cp "$HERE/demo.rs" "$W/src/main.rs"
cp "$REPO/Cargo.lock" "$W/Cargo.lock"
cat > "$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
@DEPS@
[profile.dev]
opt-level = 1
debug = 0
T
export CARGO_TARGET_DIR="$W/target" CARGO_NET_OFFLINE=true
cd "$W" || exit 2
RUSTFLAGS="@RUSTFLAGS@" cargo build --offline -q 2> "$W/log" || { cat "$W/log"; exit 2; }
@ENV@timeout 120 "$W/target/debug/demo" "$W" "$REPO"
rc=$?
[ $rc -eq 0 ] && exit 0
echo "demonstration failed (status $rc)"
exit 1
'''


def load(ids):
    seeds = []
    for f in sorted(glob.glob(os.path.join(V, "tools/seeds/*.py"))):
        seeds += runpy.run_path(f)["SEEDS"]
    names = [s["id"] for s in seeds]
    assert len(set(names)) == len(names), "duplicate seed id"
    return [s for s in seeds if not ids or s["id"] in ids or s["property"] in ids]


def write(s):
    d = os.path.join(V, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    patch = ""
    byfile = {}
    for e in s["edits"]:
        byfile.setdefault(e[0], []).append(e)
    for f, es in byfile.items():
        src = open(os.path.join(REPO, f)).read()
        new = src
        for e in es:
            old, rep = e[1], e[2]
            nth = e[3] if len(e) > 3 else None
            cnt = new.count(old)
            if nth is None:
                assert cnt == 1, f"{s['id']}: {cnt} matches in {f} for {old!r}"
                new = new.replace(old, rep)
            else:
                assert cnt > nth, f"{s['id']}: {cnt} matches in {f} for {old!r}"
                pos = -1
                for _ in range(nth + 1):
                    pos = new.index(old, pos + 1)
                new = new[:pos] + rep + new[pos + len(old):]
        patch += "".join(difflib.unified_diff(src.splitlines(True), new.splitlines(True), "a/" + f, "b/" + f))
    open(os.path.join(d, "patch.diff"), "w").write(patch)
    feats = s.get("features", "")
    if "sh" in s:
        open(os.path.join(d, "demo.sh"), "w").write(s["sh"])
    else:
        deps = 'kofft = { path = "$REPO", default-features = false, features = [%s] }' % ", ".join(
            '"%s"' % x for x in feats.split())
        deps += "\n" + s["deps"] if "deps" in s else ""
        demo = DEMO.replace("@DEPS@", deps).replace("@RUSTFLAGS@", s.get("rustflags", ""))
        demo = demo.replace("@ENV@", s["env"] + " " if "env" in s else "")
        open(os.path.join(d, "demo.sh"), "w").write(demo)
        open(os.path.join(d, "demo.rs"), "w").write(("" if s.get("bare") else PRELUDE) + s["main"].lstrip("\n"))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    return d


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def test(s, nochecks=False):
    d = write(s)
    r = {"property": s["property"]}
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "/repo not clean"
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    p = sh(f"bash {d}/demo.sh", cwd=REPO)
    r["demo_clean"] = p.returncode
    if p.returncode:
        print(p.stdout[-1500:])
        return r
    try:
        p = sh(f"git -C /repo apply {d}/patch.diff")
        assert p.returncode == 0, p.stdout
        p = sh("bash /opt/vp/build.sh")
        r["build"] = p.returncode
        if p.returncode:
            print(p.stdout[-1500:])
            return r
        sh(f"bash /opt/vp/test.sh {V}/run/seed_out.json")
        out = json.load(open(f"{V}/run/seed_out.json"))
        lost = sorted(stable - set(out["passed"]))
        r["lost"] = lost
        p = sh(f"bash {d}/demo.sh", cwd=REPO)
        r["demo_patched"] = p.returncode
        r["demo_out"] = p.stdout.strip()[-300:]
        if lost or p.returncode == 0 or nochecks:
            return r
        m = json.load(open(os.path.join(V, "MANIFEST.json")))
        for c in m["checks"]:
            if c['property'] == s["property"]:
                t = time.time()
                env = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick")
                q = sh(c["quick_cmd"], cwd=V, env=env)
                r["check"] = q.returncode
                r["secs"] = round(time.time() - t)
                r["out"] = [l for l in q.stdout.splitlines() if "VIOLATION" in l][:2] or q.stdout[-600:]
    finally:
        sh("git -C /repo checkout -- .")
    return r


def par(n, ids):
    """test in n private copies of /repo and /verif (own mount namespaces)"""
    base = "/tmp/mks"
    work = [s["id"] for s in load(ids)]
    resf = os.path.join(V, "run/seed_results.json")
    procs = []
    for i in range(n):
        w = f"{base}/w{i}"
        mine = work[i::n]
        if not mine:
            continue
        os.makedirs(w, exist_ok=True)
        sh(f"rsync -a --delete /repo/ {w}/repo/ || (mkdir -p {w}/repo && cp -a /repo/. {w}/repo/)")
        sh(f"rsync -a --delete {V}/ {w}/verif/ || (mkdir -p {w}/verif && cp -a {V}/. {w}/verif/)")
        sh(f"rm -f {w}/verif/run/seed_results.json")
        cmd = (f"mkdir -p {w}/tmp {w}/work && mount --bind {w}/repo /repo && mount --bind {w}/verif /verif && "
               f"mount --bind {w}/work /opt/vp/work && mount --bind {w}/tmp /tmp && cd /verif && "
               f"exec python3 tools/mkseeds.py test {' '.join(mine)}")
        procs.append((w, subprocess.Popen(["unshare", "-Urm", "bash", "-c", cmd])))
    for w, p in procs:
        p.wait()
        f = f"{w}/verif/run/seed_results.json"
        if os.path.exists(f):
            res = json.load(open(resf)) if os.path.exists(resf) else {}
            res.update(json.load(open(f)))
            json.dump(res, open(resf, "w"), indent=1)


if __name__ == "__main__":
    mode, ids = sys.argv[1], sys.argv[2:]
    if mode == "par":
        par(int(ids[0]), ids[1:])
        sys.exit(0)
    seeds = load(ids)
    resf = os.path.join(V, "run/seed_results.json")
    for s in seeds:
        if mode == "write":
            print(write(s))
        else:
            r = test(s, mode == "demo")
            res = json.load(open(resf)) if os.path.exists(resf) else {}
            res[s["id"]] = r
            json.dump(res, open(resf, "w"), indent=1)
            verdict = "CAUGHT" if r.get("check") == 1 else "MISSED" if "check" in r else "INVALID"
            print(s["id"], s["property"], verdict, json.dumps(r)[:700], flush=True)
