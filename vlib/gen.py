"""Input generation helpers and signal registry."""
import random
from .core import Cmd, Session, table

# builds without the standard library
NS = ("nostd", "np")
POW2 = [1 << k for k in range(0, 17)]


def ispow2(n):
    return n > 0 and n & (n - 1) == 0


class Sigs:
    """Signals of one sharding group; becomes D.sigs of the shard that holds the group."""

    def __init__(self):
        self.list = []

    def add(self, s):
        self.list.append(s)
        return s


class Sig:
    """Signal: length n, sparse contents, examined positions ks."""

    def __init__(self, n, x, ks=None, f=True, i=True):
        self.n, self.x = n, [list(t) for t in sorted(x)]
        self.ks = list(range(n)) if ks is None else sorted(ks)
        self.all = ks is None
        self.f, self.i = f, i
        self.wide = False

    def re(self):
        v = [0] * self.n
        for p, a, _ in self.x:
            v[p] = a
        return v

    def im(self):
        v = [0] * self.n
        for p, _, b in self.x:
            v[p] = b
        return v

    def rec(self):
        return {"n": self.n, "x": self.x, "ks": self.ks, "f": self.f, "i": self.i}


def shape(rng, n, x, real):
    """now and then: structured data (real-only, imaginary-only, symmetric, equal components, periodic, zero)"""
    r = rng.random()
    if n < 2 or r > 0.24:
        return x
    d = {p: (a, b) for p, a, b in x}
    if not real:
        if r < 0.08:
            d = {p: (a, 0) for p, (a, b) in d.items()}
        elif r < 0.12:
            d = {p: (0, b or a) for p, (a, b) in d.items()}
        elif r < 0.14:
            d = {p: (a, a) for p, (a, b) in d.items()}
        elif r < 0.16:
            # conjugate-symmetric: a real spectrum
            d = {**{(n - p) % n: (a, -b) for p, (a, b) in d.items()}, **{p: (a, b) for p, (a, b) in d.items() if 2 * p < n}}
            d = {p: (a, 0 if 2 * p % n == 0 else b) for p, (a, b) in d.items()}
            d = {p: d[p] if 2 * p < n else (d[n - p][0], -d[n - p][1]) if n - p in d else d[p] for p in d}
        elif r < 0.17:
            d = {}
        elif r < 0.19 and len(x) == n:
            v = (rng.choice([1, -2, 3]), rng.choice([0, 1, -1]))
            d = {p: v for p in range(n)}
        elif r < 0.21:
            # one half only
            d = {p: v for p, v in d.items() if (p < n // 2) == (r < 0.2)}
        elif r < 0.24:
            d = {p: (abs(a), abs(b)) for p, (a, b) in d.items()}
    else:
        if r < 0.02:
            d = {}
        elif r < 0.05:
            d = {p: v for p, v in d.items() if p % 2 == 0}
        elif r < 0.08:
            d = {p: (abs(a), 0) for p, (a, b) in d.items()}
        elif r < 0.10:
            d = {p: (-abs(a), 0) for p, (a, b) in d.items()}
        elif r < 0.12 and len(x) == n:
            d = {p: (x[0][1], 0) for p in range(n)}
        elif r < 0.15:
            d = {**{n - 1 - p: v for p, v in d.items()}, **d}
            d = {p: d[min(p, n - 1 - p)] if min(p, n - 1 - p) in d else d[p] for p in d}
        elif r < 0.18:
            d = {p: v for p, v in d.items() if (p < n // 2) == (r < 0.165)}
    return [(p, a, b) for p, (a, b) in sorted(d.items()) if a or b]


def dense(rng, n, amp=9, real=False):
    x = [(p, a, b) for p in range(n)
         for a, b in [(rng.randint(-amp, amp), 0 if real else rng.randint(-amp, amp))] if a or b]
    return shape(rng, n, x, real)


def sparse(rng, n, m=12, amp=30, real=False):
    pos = sorted(rng.sample(range(n), min(m, n)))
    return shape(rng, n, [(p, rng.randint(-amp, amp) or 1, 0 if real else rng.randint(-amp, amp)) for p in pos], real)


def pick(rng, n, m):
    """examined positions: first, last, middle, and a random selection"""
    s = {0, 1, n - 1, n // 2, n // 4, (3 * n) // 4, 2, n - 2}
    s |= {rng.randrange(n) for _ in range(m)}
    return sorted(p for p in s if 0 <= p < n)


def mksig(rng, n, mode=None, real=False):
    """a signal whose transform is affordable to evaluate in TLC"""
    if n <= 2:
        return Sig(n, dense(rng, n, 9, real))
    if mode is None:
        mode = rng.choice(["dense", "dense", "sparse"]) if n <= 64 else rng.choice(["sparse", "densek"]) if n <= 200 else \
            "sparsek" if n > 600 else rng.choice(["sparse", "sparsek"])
        if rng.random() < 0.07:
            mode = rng.choice(["impulse", "zero", "const"] if n <= 300 else ["impulse", "zero"])
    if mode == "dense":
        return Sig(n, dense(rng, n, 9 if n <= 50 else 6, real))
    if mode == "densek":
        return Sig(n, dense(rng, n, 3, real), pick(rng, n, 12))
    if mode == "sparse":
        return Sig(n, sparse(rng, n, 12, 30, real))
    if mode == "sparsek":
        return Sig(n, sparse(rng, n, 14, 30, real), pick(rng, n, 24))
    if mode == "impulse":
        p = rng.randrange(n)
        return Sig(n, [(p, 1, 0 if real else rng.choice([0, -2]))], None if n <= 256 else pick(rng, n, 40))
    if mode == "const":
        return Sig(n, [(p, 1, 0 if real else -1) for p in range(n)], None if n <= 40 else pick(rng, n, 6))
    if mode == "zero":
        return Sig(n, [], None if n <= 256 else pick(rng, n, 20))
    raise ValueError(mode)
