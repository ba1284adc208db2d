"""Values of formulas at one sample of their variables, to choose among the ways through a function (never to compare results)."""

import hashlib
import math

from . import formula as fo


def noise(*k):
    h = hashlib.sha256(repr(k).encode()).digest()
    return 0.15 + 0.7 * int.from_bytes(h[:6], "big") / 2 ** 48


def rodrigues(a):
    t = math.sqrt(sum(x * x for x in a))
    if t < 1e-12:
        return [[1.0 if i == j else 0.0 for j in range(3)] for i in range(3)]
    k = [x / t for x in a]
    s, c = math.sin(t), math.cos(t)
    w = [[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]]
    return [[(c if i == j else 0) + s * w[i][j] + (1 - c) * k[i] * k[j] for j in range(3)] for i in range(3)]


class Sample:
    """Decisions of an Eval: every comparison is decided by the values of the variables."""

    def __init__(self, given=None, seed=0):
        self.given = given or {}
        self.seed = seed
        self.memo = {}

    def __contains__(self, key):
        return isinstance(key, tuple) and len(key) == 2 and key[0] in ("<", "==", "!=0")

    def __getitem__(self, key):
        v = self.value(fo.POLYS[key[1]])
        return v < 0 if key[0] == "<" else v == 0 if key[0] == "==" else v != 0

    def value(self, p):
        return sum(c * math.prod(self.atom(n) ** e for n, e in m) for m, c in p.items())

    def atom(self, n):
        if n not in self.memo:
            self.memo[n] = self.compute(fo.ATOMS[n])
        return self.memo[n]

    def compute(self, d):
        if d[0] == "v":
            return self.given[d[1]] if d[1] in self.given else noise(self.seed, d[1])
        if d[0] == "f":
            a = [self.value(fo.POLYS[k]) for k in d[2:]]
            f = d[1]
            if f == "abs":
                return abs(a[0])
            if f in ("max", "min"):
                return (max if f == "max" else min)(a)
            if f in ("asin", "acos", "exp", "log"):
                try:
                    return getattr(math, f)(a[0])
                except (ValueError, OverflowError):
                    return 0.3
            if f[0] == "R" and len(a) == 3:
                return rodrigues(a)[int(f[1])][int(f[2])]
            return noise(self.seed, f, [round(x, 9) for x in a])
        a = [self.value(fo.POLYS[k]) for k in d[1:]]
        if d[0] == "s":
            return math.sin(a[0])
        if d[0] == "c":
            return math.cos(a[0])
        if d[0] == "t":
            return math.atan2(*a)
        if d[0] == "q":
            return math.sqrt(abs(a[0]))
        if d[0] == "r":
            return 1 / a[0] if a[0] else 1e300
        raise LookupError("atom " + str(d[0]))
