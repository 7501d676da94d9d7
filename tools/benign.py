#!/usr/bin/env python3
"""Behaviour-preserving edits (tools/benign/*.py) against the checks.

  benign.py NAME [CHECK...]   private copies of /repo and /verif with the edits of NAME
                              applied: build, stable tests, then the named (or all)
                              quick checks, each of which must exit 0
"""
import glob, json, os, runpy, shutil, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def load():
    b = {}
    for f in sorted(glob.glob(os.path.join(V, "tools/benign/*.py"))):
        b.update(runpy.run_path(f)["B"])
    return b


def inside(name, checks):
    for f, old, new in load()[name]:
        p = os.path.join("/repo", f)
        s = open(p).read()
        assert old in s, f"{name}: no match in {f}: {old[:200]}"
        open(p, "w").write(s.replace(old, new, 1))
    p = sh("bash /opt/vp/build.sh")
    if p.returncode:
        print(p.stdout[-3000:])
        return 2
    sh("bash /opt/vp/test.sh /tmp/out.json")
    lost = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(json.load(open("/tmp/out.json"))["passed"])
    print(name, "lost tests:", sorted(lost), flush=True)
    bad = 0
    for c in checks:
        p = sh(f"python3 check.py {c}", cwd="/verif", env=dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1")))
        tail = p.stdout.strip().splitlines()[-1:]
        print(name, c, "rc", p.returncode, *tail, flush=True)
        if p.returncode:
            bad += 1
            print(p.stdout[-2500:], flush=True)
    print(name, "alarms:", bad, flush=True)
    return bad


if __name__ == "__main__":
    if sys.argv[1] == "--inside":
        sys.exit(inside(sys.argv[2], sys.argv[3:]))
    name = sys.argv[1]
    checks = sys.argv[2:] or [f"C{i:02d}" for i in range(1, 26)]
    w = f"/tmp/benign/{name}"
    os.makedirs(w, exist_ok=True)
    sh(f"mkdir -p {w}/repo {w}/verif {w}/tmp {w}/work && cp -a /repo/. {w}/repo/ && cp -a {V}/. {w}/verif/")
    r = subprocess.run(["unshare", "-Urm", "bash", "-c",
                        f"mount --bind {w}/repo /repo && mount --bind {w}/verif /verif && mount --bind {w}/work /opt/vp/work && "
                        f"mount --bind {w}/tmp /tmp && cd /verif && exec python3 tools/benign.py --inside {name} {' '.join(checks)}"])
    shutil.rmtree(w, ignore_errors=True)
    sys.exit(r.returncode)
