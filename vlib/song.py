"""C14: song index."""
import json, os, re, shutil, tempfile
from collections import defaultdict, deque
from .core import Cmd, Session, RUN

SPEC = "TraceSong"
BUILD = ["def", "all"]


def name_of(p):
    n = p.split("/")[-1]
    return "" if "%ff" in n or n in ("..", "") else n


def edges(out):
    g = defaultdict(dict)
    for m in re.finditer(r'^"EDGE (.*)"$', out, re.M):
        e = json.loads(m.group(1).replace('\\"', '"'))
        f, t = json.dumps(e["f"], sort_keys=True), json.dumps(e["t"], sort_keys=True)
        g[f][tuple(e["o"])] = t
    return g


def tour(g, start, rng, limit):
    """Walks from the initial state that together take every edge; each at most `limit` steps long."""
    todo = {s: set(es) for s, es in g.items()}
    left = sum(len(v) for v in todo.values())
    walks = []
    while left:
        s, w = start, []
        while left and len(w) < limit:
            if todo[s]:
                o = rng.choice(sorted(todo[s]))
                todo[s].discard(o)
                left -= 1
                w.append(o)
                s = g[s][o]
                continue
            prev, q, goal = {s: None}, deque([s]), None
            while q:
                u = q.popleft()
                if todo[u]:
                    goal = u
                    break
                es = sorted(g[u].items())
                rng.shuffle(es)
                for o, v in es:
                    if v not in prev:
                        prev[v] = (u, o)
                        q.append(v)
            if goal is None:
                break
            path = []
            while prev[goal]:
                goal, o = prev[goal]
                path.append(o)
            for o in reversed(path):
                w.append(o)
                s = g[s][o]
        walks.append(w)
        if not w:
            break
    return walks


class Files:
    """Chooses concrete contents for abstract ones; different abstract contents differ in one byte or in length."""

    def __init__(self, rng, big=False):
        self.rng = rng
        n = rng.choice([1, 2, 40, 1023, 1024, 1025, 8191, 8192, 8193, 9000, 16383, 16384, 16385, 24577] if big else [1, 2, 40, 1024])
        pos = rng.choice([0, n - 1, n - 1, n // 2, rng.randrange(n), min(8192, n - 1), min(8191, n - 1)])
        self.c = {}
        self.fill = rng.choice([120, 120, 0, 255, 32])
        kinds = [(n, pos, "a"), (n, pos, "b"), (n, (pos + 1) % n if n > 1 else 0, "a" if n > 1 else "c"), (n + 1, pos, "a"), (0, 0, "-"),
                 (n + 8192, pos, "a"), (n, pos, "c")]
        a, b = rng.choice([(0, 1), (0, 2), (0, 3), (0, 4), (0, 5), (4, 6), (1, 6)])
        order = [a, b] + [i for i in range(len(kinds)) if i not in (a, b)]
        for i, k in enumerate(order):
            self.c[str(i + 1)] = kinds[k]

    def write(self, root, p, c):
        n, pos, b = self.c[c]
        return Cmd("song_write", dict(root=root, path=p, len=n, pos=pos, b=b, fill=self.fill, via=self.rng.choice(["file"] * 6 + ["link", "hard", "rel"])), dict(path=p, key=f"{n}/{pos}/{b}"))

    def remove(self, root, p):
        return Cmd("song_remove", dict(root=root, path=p, how=self.rng.choice(["gone", "gone", "gone", "dir", "dangling"])), dict(path=p))


def call(op, root, p, o="a"):
    return Cmd("song_" + op, dict(root=root, path=p, o=o), dict(path=p, o=o, nm=name_of(p)))


def setup(root, paths):
    return Cmd("song_setup", dict(root=root, paths=",".join(paths)), dict())


def C14(ctx):
    rng = ctx.rng
    t = "quick" if ctx.quick else "thorough"
    ctx.start_design(f"MC_Song_{t}", f"MC_Song_{t}_inv", workers=4, expect=8000)
    g = edges(ctx.design(f"MC_Song_{t}", workers=1, expect=1000))
    start = json.dumps({"d": ["!"] * (3 if ctx.quick else 4), "n": [], "h": []}, sort_keys=True)
    assert start in g
    tmp = tempfile.mkdtemp(prefix="song-", dir=RUN)
    try:
        k = 0

        def newroot():
            nonlocal k
            k += 1
            r = os.path.join(tmp, f"r{k}")
            os.mkdir(r)
            return r

        paths = ["a/s", "b/s", "a/t"] + ([] if ctx.quick else ["b/%ff"])
        ntour = 0
        for w in tour(g, start, rng, 400 if ctx.quick else 2000):
            root, fs = newroot(), Files(rng, big=rng.random() < 0.3)
            cmds = [setup(root, paths)]
            for op, p, c in w:
                if op == "write":
                    cmds.append(fs.remove(root, p) if c == "!" else fs.write(root, p, c))
                else:
                    cmds.append(call(op, root, p))
            ntour += len(w)
            ctx.add(Session(SPEC, rng.choice(BUILD), cmds, cost=len(cmds), note="tour of SongIndex.tla"))
        ctx.cov["design_edges_replayed"] = sum(len(v) for v in g.values())
        ctx.cov["tour_steps"] = ntour
        # larger universes: more names, more contents, two indexes over the same files, renames, odd names
        uni = ["a/s.wav", "b/s.wav", "c/s.wav", "a/S.wav", "a/s", "s.wav", "a/t.flac", "b/t.flac", "a/u.mp3", "b/s.wav.bak", "a/.s", "c/%ffx",
               "a/%ff", "b/%ff", "c/é.wav", "a/e.wav"]
        for q in range(150 if ctx.quick else 1500):
            root, fs = newroot(), Files(rng, big=True)
            us = rng.sample(uni, rng.choice([3, 4, 6, 8]))
            cs = list(fs.c)[: rng.choice([2, 3, 5, 7])]
            cmds = [setup(root, us)]
            live = set()
            for _ in range(rng.choice([20, 60])):
                p = rng.choice(us)
                r = rng.random()
                if r < 0.25:
                    cmds.append(fs.write(root, p, rng.choice(cs)))
                    live.add(p)
                elif r < 0.33:
                    cmds.append(fs.remove(root, p))
                    live.discard(p)
                elif r < 0.40 and live:
                    p = rng.choice(sorted(live))
                    to = rng.choice([u for u in us if u != p])
                    cmds.append(Cmd("song_move", dict(root=root, path=p, to=to), dict(path=p, to=to)))
                    live.discard(p)
                    live.add(to)
                else:
                    cmds.append(call(rng.choice(["index", "identify", "identify"]), root, p, rng.choice("aab")))
            ctx.add(Session(SPEC, rng.choice(BUILD), cmds, cost=len(cmds), note="random song history"))
        # large libraries: hundreds of songs in one index, many with equal names, sizes or contents
        for q in range(4 if ctx.quick else 30):
            root, n = newroot(), rng.choice([100, 200, 400])
            names = [f"{rng.choice('abcd')}/{rng.choice(['s', 'track', 'x' * 200])}{i % rng.choice([n, n // 2, 20])}" for i in range(n)]
            us = sorted(set(names))
            cmds = [setup(root, us)]
            ln = rng.choice([1, 40, 1024, 8192])
            nc = rng.choice([5, 60, 500])
            live = set()

            def wr(p):
                c = rng.randrange(nc)
                n0, ps, b = ln + c // 26 % 2, (c // 52) % ln, "abcdefghijklmnopqrstuvwxyz"[c % 26]
                return Cmd("song_write", dict(root=root, path=p, len=n0, pos=ps, b=b, fill=0), dict(path=p, key=f"{n0}/{ps}/{b}"))

            for p in us:
                cmds += [wr(p), call(rng.choice(["index", "identify"]), root, p)]
            for _ in range(600):
                p, r = rng.choice(us), rng.random()
                if r < 0.15:
                    cmds.append(wr(p))
                elif r < 0.18:
                    cmds.append(Files(rng).remove(root, p))
                elif r < 0.25:
                    cmds.append(call("index", root, p))
                else:
                    cmds.append(call("identify", root, p))
            ctx.add(Session(SPEC, rng.choice(BUILD), cmds, cost=len(cmds), note=f"library of {len(us)} files"))
        # contents of every length around the read chunk: equal ones are the same song, a one-byte change is another
        lens = [0, 1, 2, 63, 64, 65, 1023, 1024, 1025, 2048, 4095, 4096, 8191, 8192, 8193, 8255, 12288, 16383, 16384, 16385, 24576, 24577, 65535, 65536, 65537, 100000]
        if not ctx.quick:
            lens += rng.sample(range(1, 200000), 60) + [1 << 20, (1 << 20) + 1]
        else:
            lens += rng.sample([1 << 20, (1 << 20) + 1, 3 << 19, (2 << 20) - 1, (2 << 20) + 4096, (3 << 20) + 17], 2)
        for n, fill in [(n, f) for n in lens for f in ([0, rng.choice([120, 255, 10])] if 4000 < n < 200000 else [rng.choice([120, 0, 255, 10])])]:
            root = newroot()
            pos = sorted({p for p in [0, 1, n // 2, n - 1, n - 2, 8191, 8192, 16383, 16384, 1024, 1023, 64, rng.randrange(max(1, n))] if 0 <= p < n}) or [0]
            if n > 200000:
                pos = sorted({n // 2, n - 1, rng.randrange(n)})
            names = [f"a/f{i}" for i in range(len(pos) + 2)]
            copies = [f"b/g{i}" for i in range(len(pos) + 2)]
            cmds = [setup(root, names + copies)]

            def wr(p, ln, ps, b, fill=fill):
                return Cmd("song_write", dict(root=root, path=p, len=ln, pos=ps, b=b, fill=fill), dict(path=p, key=f"{ln}/{ps if ln else 0}/{b if ln else '-'}"))

            kinds = [(n, p, "a") for p in pos] + [(n, pos[0], "b"), (n + 1, pos[0], "a")]
            if n == 0:
                kinds = [(0, 0, "-"), (1, 0, "a"), (1, 0, "b")]
            order = list(range(len(kinds)))
            rng.shuffle(order)
            for i in order:
                cmds += [wr(names[i], *kinds[i]), call(rng.choice(["index", "identify"]), root, names[i])]
            rng.shuffle(order)
            for i in order:
                cmds += [wr(copies[i], *kinds[i]), call("identify", root, copies[i]), call("identify", root, names[i])]
            ctx.add(Session(SPEC, rng.choice(BUILD), cmds, cost=len(cmds), note=f"contents around {n} bytes"))
        ctx.run()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ctx.assume("every transition of SongIndex.tla (all file and index states of its universe) is replayed on the real index; file contents are "
               "concrete byte strings that differ in one byte or in length", "file operations happen between calls, not during one",
               "unreadable files are realised as missing files, directories and dangling links (checks run as root)")
