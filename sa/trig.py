"""Matrices of trigonometric polynomials read off value terms.

Mat(fl, angles={term: name}) evaluates a term to a polynomial, a vector or a matrix whose entries are polynomials in the sines and
cosines of the named angles and in atoms for everything else; sin^2 is rewritten to 1 - cos^2, so equal matrices have equal forms.
"""

from fractions import Fraction

from . import terms as tm
from .terms import cval, is_const

SIN = {"numpy.sin", "math.sin"}
COS = {"numpy.cos", "math.cos"}
ARR = {"numpy.array", "numpy.asarray", "list", "tuple", "numpy.ascontiguousarray", "float", "numpy.float64", "numpy.matrix"}


def const(c):
    return {(): Fraction(c)} if c else {}


def add(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            d = dict(m1)
            for n, e in m2:
                d[n] = d.get(n, 0) + e
            for m, c in reduce_(d):
                v = r.get(m, 0) + c * c1 * c2
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
    return r


def reduce_(d):
    """sin^2 -> 1 - cos^2."""
    for n, e in d.items():
        if n[0] == "s" and isinstance(n, tuple) and e >= 2:
            rest = {k: v for k, v in d.items()}
            rest[n] = e - 2
            a = dict(rest)
            b = dict(rest)
            c = ("c", n[1])
            b[c] = b.get(c, 0) + 2
            return reduce_(a) + [(m, -v) for m, v in reduce_(b)]
    return [(tuple(sorted(((k, v) for k, v in d.items() if v), key=str)), Fraction(1))]


def var(n):
    return {((n, 1),): Fraction(1)}


def S(a):
    return var(("s", a))


def C(a):
    return var(("c", a))


def rot(axis, a):
    """Rotation by a named angle around an axis."""
    o, z, c, s = const(1), {}, C(a), S(a)
    n = add({}, s, -1)
    return {"x": [[o, z, z], [z, c, n], [z, s, c]], "y": [[c, z, s], [z, o, z], [n, z, c]], "z": [[c, n, z], [s, c, z], [z, z, o]]}[axis]


def mm(a, b):
    return [[sum_([mul(a[i][k], b[k][j]) for k in range(len(b))]) for j in range(len(b[0]))] for i in range(len(a))]


def sum_(ps):
    r = {}
    for p in ps:
        r = add(r, p)
    return r


def transpose(a):
    return [list(x) for x in zip(*a)]


class Unknown(LookupError):
    pass


class Mat:
    def __init__(self, fl, angles=None, opaque=()):
        self.fl = fl
        self.angles = angles or {}
        self.opaque = set(opaque)

    def angle(self, t):
        """(name, sign) of an angle term, or None."""
        if t in self.angles:
            return self.angles[t], 1
        if t.op == "un" and t.args[0] == "-":
            a = self.angle(t.args[1])
            return (a[0], -a[1]) if a else None
        return None

    def seq(self, t):
        if t.op == "tup":
            return list(t.args)
        h = self.fl.h(t) if t.op == "obj" else None
        if h is None:
            return None
        if h.kind == "ext" and h.cls is not None and h.cls.args and h.cls.args[0] in ARR and len(h.args) >= 1 and not self.fl.live(h):
            return self.seq(h.args[0])
        if h.kind in ("list", "tuple"):
            el = self.fl.elements(t)
            return None if el is None else [v for v, _, _ in el]
        return None

    def __call__(self, t):
        if t in self.opaque:
            return var(t)
        if is_const(t):
            v = cval(t)
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                return const(Fraction(v).limit_denominator(10 ** 9))
            return var(t)
        o = t.op
        s = self.seq(t) if o in ("tup", "obj") else None
        if s is not None:
            return [self(x) for x in s]
        if o == "call":
            n = tm.callee_name(t)
            a = tm.call_parts(t)[1]
            if n in SIN or n in COS:
                g = self.angle(a[0])
                if g is None:
                    return var(t)
                return C(g[0]) if n in COS else add({}, S(g[0]), g[1])
            if n in ARR and len(a) >= 1:
                return self(a[0])
            if n in ("numpy.dot", "numpy.matmul") and len(a) == 2:
                return self.dot(self(a[0]), self(a[1]))
            if n == "numpy.transpose":
                return transpose(self(a[0]))
            return var(t)
        if o == "mcall":
            (recv, name), a, kw = tm.call_parts(t)
            if name == "dot" and len(a) == 1:
                return self.dot(self(recv), self(a[0]))
            if name == "transpose" and not a:
                return self.trans(self(recv))
            if name == "copy":
                return self(recv)
            return var(t)
        if o == "attr" and t.args[1] == "T":
            return self.trans(self(t.args[0]))
        if o == "item":
            b = self(t.args[0]) if t.args[0] not in self.angles else None
            if isinstance(b, list):
                k = t.args[1]
                if is_const(k) and isinstance(cval(k), int):
                    return b[cval(k)]
                if k.op == "tup" and all(is_const(x) and isinstance(cval(x), int) for x in k.args):
                    for x in k.args:
                        b = b[cval(x)]
                    return b
            return var(t)
        if o == "un" and t.args[0] in "+-":
            v = self(t.args[1])
            return self.each(v, lambda p: add({}, p, 1 if t.args[0] == "+" else -1))
        if o == "bin":
            vs = [self(x) for x in t.args[1:]]
            k = t.args[0]
            if k == "@":
                r = vs[0]
                for v in vs[1:]:
                    r = self.dot(r, v)
                return r
            if all(isinstance(v, dict) for v in vs):
                if k in "+-":
                    r = vs[0]
                    for v in vs[1:]:
                        r = add(r, v, 1 if k == "+" else -1)
                    return r
                if k == "*":
                    r = vs[0]
                    for v in vs[1:]:
                        r = mul(r, v)
                    return r
                if k == "/" and len(vs) == 2 and set(vs[1]) == {()}:
                    return mul(vs[0], const(1 / vs[1][()]))
            if k == "*" and len(vs) == 2:
                a, b = vs
                if isinstance(a, dict):
                    return self.each(b, lambda p: mul(a, p))
                if isinstance(b, dict):
                    return self.each(a, lambda p: mul(b, p))
            return var(t)
        return var(t)

    def each(self, v, f):
        return [self.each(x, f) for x in v] if isinstance(v, list) else f(v)

    def trans(self, v):
        if isinstance(v, list) and v and isinstance(v[0], list):
            return transpose(v)
        if isinstance(v, list):
            return v
        raise Unknown("transpose of something that is not a matrix")

    def dot(self, a, b):
        if not isinstance(a, list) or not isinstance(b, list):
            raise Unknown("product of something that is not a matrix")
        ma, mb = isinstance(a[0], list), isinstance(b[0], list)
        if ma and mb:
            return mm(a, b)
        if ma:
            return [sum_([mul(x, y) for x, y in zip(r, b)]) for r in a]
        if mb:
            return [sum_([mul(x, y) for x, y in zip(a, c)]) for c in transpose(b)]
        return sum_([mul(x, y) for x, y in zip(a, b)])
