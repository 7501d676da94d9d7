"""Does the trace specification look at what the harness reports?

VMUT=1 python3 check.py C01 runs a check as usual, and in addition corrupts one output field at a time of
a sample of the recorded events (a value displaced, two elements swapped, one dropped, another return value)
and evaluates the trace specification on each corrupted event at its place in the trace.  Accepted ones
("survivors") are tallied per operation and field in run/mutants-ID.json."""
import json, os, random, re, sys


def leaves(e, out):
    for k in out:
        if k in e and k != "msg":
            yield k


def corrupt(rng, v):
    """(kind, corrupted value) pairs"""
    res = []
    if isinstance(v, bool):
        return [("flip", not v)]
    if isinstance(v, str):
        return [("other", "InvalidValue" if v != "InvalidValue" else "InvalidHopSize")]
    if isinstance(v, int):
        return [("plus", v + max(1, abs(v) // 8))]
    if isinstance(v, list):
        if not v:
            return []
        if all(isinstance(q, int) for q in v):
            m = max(abs(q) for q in v)
            i = rng.randrange(len(v))
            d = max(1, m // 8) if m else 1000
            res.append(("value", v[:i] + [v[i] + (d if v[i] <= 0 else -d)] + v[i + 1:]))
            j = rng.randrange(len(v))
            if abs(v[i] - v[j]) > d:
                w = list(v)
                w[i], w[j] = w[j], w[i]
                res.append(("swap", w))
            res.append(("long", v + v[-1:]))
            return res
        i = rng.randrange(len(v))
        res.append(("long", v + v[-1:]))
        for kind, w in corrupt(rng, v[i]):
            res.append(("in-" + kind, v[:i] + [w] + v[i + 1:]))
        return res
    if isinstance(v, dict):
        for k in v:
            for kind, w in corrupt(rng, v[k]):
                res.append((k + "-" + kind, {**v, k: w}))
        return res
    return []


def make(ev, where, per=int(os.environ.get("VMUT_PER", "4")), seed=5):
    """mutants per event; at most `per` per (op, r, field, kind)"""
    rng = random.Random(seed)
    seen, muts, tags = {}, [[] for _ in ev], {}
    order = list(range(len(ev)))
    rng.shuffle(order)
    for i in order:
        s, c = where[i]
        if c is None or not c.out:
            continue
        e = ev[i]
        for k in leaves(e, c.out):
            for kind, w in corrupt(rng, e[k]):
                key = (e["op"], str(e.get("r", "")), "err" if e.get("ret", "ok") != "ok" else "ok", k, kind)
                if seen.get(key, 0) >= per:
                    continue
                seen[key] = seen.get(key, 0) + 1
                muts[i].append({**e, k: w})
                tags[(i + 1, len(muts[i]))] = key
    return muts, tags


def module(spec):
    test = ("ENABLED Step(D.mut[l][j])" if spec == "TraceWeb" else "Ok(D.mut[l][j]) = TRUE")
    return (f"---- MODULE Mut{spec} ----\nEXTENDS {spec}\n"
            f"MNext == /\\ \\A j \\in DOMAIN D.mut[l] : IF {test} THEN PrintT(<<\"SURVIVED\", l, j>>) ELSE TRUE\n"
            "         /\\ Next\nMSpec == Init /\\ [][l <= Len(Ev) /\\ MNext]_l\n====\n")


def brief(v):
    return f"{len(v)} of at most {max(map(abs, v))}" if isinstance(v, list) and all(isinstance(q, int) for q in v) else str(v)[:120]


def survey(prop, jobs, tags):
    """evaluate the corrupted events; an evaluation error counts as a rejection of that event's mutants"""
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from vlib import core
    from concurrent.futures import ThreadPoolExecutor
    for spec in {j[0] for j in jobs}:
        with open(os.path.join(core.SPEC, f"Mut{spec}.tla"), "w") as f:
            f.write(module(spec))
        with open(os.path.join(core.SPEC, f"Mut{spec}.cfg"), "w") as f:
            f.write("SPECIFICATION MSpec\nCHECK_DEADLOCK FALSE\n")
    total, alive, samples, errors = {}, {}, {}, []

    def one(i):
        spec, path, ev, where = jobs[i]
        got, errs = set(), []
        for _ in range(40):
            rc, out = core.tlc("Mut" + spec, env={"TRACE": path}, timeout=600, mem="3500m")
            got |= set(survivors(out, tags[i]))
            if rc == 0:
                break
            m = re.findall(r"\bl = (\d+)", out)
            if not m:
                errs.append(out[-600:])
                break
            k = int(m[-1])       # drop the mutants of that event and go on
            errs.append(f"l={k} " + " ".join(out[out.find("Error:"):][:300].split()))
            doc = json.load(open(path))
            if not doc["mut"][k - 1]:
                break
            doc["mut"][k - 1] = []
            json.dump(doc, open(path, "w"))
        return i, got, errs

    with ThreadPoolExecutor(int(os.environ.get("VMUT_JOBS", "4"))) as ex:
        for i, got, errs in ex.map(one, range(len(jobs))):
            errors += [f"shard {i}: {x}" for x in errs]
            for t, key in tags[i].items():
                total[key] = total.get(key, 0) + 1
                if t in got:
                    alive[key] = alive.get(key, 0) + 1
                    samples.setdefault(key, {k: v if len(str(v)) < 160 else brief(v) for k, v in jobs[i][2][t[0] - 1].items()})
    rows = [{"case": list(k), "survived": alive.get(k, 0), "of": total[k], "sample": samples.get(k)} for k in sorted(total)]
    with open(os.path.join(core.RUN, f"mutants-{prop}.json"), "a") as f:
        for r in rows:
            f.write(json.dumps(r) + "\n")
        for e in errors:
            f.write(json.dumps({"error": e}) + "\n")
    print(f"{prop}: {sum(total.values())} corrupted events, {sum(alive.values())} accepted, {len(errors)} evaluation errors", flush=True)


def survivors(out, tags):
    return [(int(a), int(b)) for a, b in set(re.findall(r'"SURVIVED", (\d+), (\d+)', out)) if (int(a), int(b)) in tags]
