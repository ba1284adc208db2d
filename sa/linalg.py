"""Normal forms of matrix and vector expressions: sums of products of atoms, with transposes, inverses and scalar factors.

Used to decide equations such as R' A = R between value terms however they are spelled (dot, @, numpy.dot, matmul, .T, transpose, inv).
Orthogonal atoms satisfy A A^T = I.  Anything not understood is an atom of its own, so that equal forms mean equal values
and different forms mean "not shown to be equal".
"""

from fractions import Fraction

from . import terms as tm
from .terms import cval, is_const

CASTS = {"numpy.array", "numpy.asarray", "numpy.ascontiguousarray", "list", "tuple", "numpy.float64", "float", "numpy.matrix", "numpy.asanyarray", "numpy.squeeze", "numpy.ravel"}
DOTS = {"numpy.dot", "numpy.matmul", "numpy.linalg.multi_dot", "numpy.inner"}
TRANS = {"numpy.transpose"}
INV = {"numpy.linalg.inv", "numpy.linalg.pinv"}
EYE = {"numpy.eye", "numpy.identity"}
ZERO = {"numpy.zeros", "numpy.zeros_like"}


class Lin:
    def __init__(self, fl, scalars=(), orth=(), vectors=(), sub=None, everything=False, keep=()):
        self.fl = fl
        self.scalars, self.orth, self.vectors = set(scalars), set(orth), set(vectors)
        self.sub = sub or {}
        self.everything = everything  # all atoms are numbers
        self.keep = set(keep)  # casts that are not transparent

    # polynomials: {(scalars, factors): coefficient}
    def atom(self, t):
        if t in self.scalars or self.everything:
            return {(((t, 1),), ()): Fraction(1)}
        return {((), ((t, ""),)): Fraction(1)}

    def const(self, c):
        return {((), ()): Fraction(c)} if c else {}

    def add(self, a, b, k=1):
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + k * c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def mul(self, a, b):
        r = {}
        for (s1, f1), c1 in a.items():
            for (s2, f2), c2 in b.items():
                m = (self.scal(s1, s2), self.reduce(f1 + f2))
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        return r

    def scal(self, s1, s2):
        d = {}
        for t, e in s1 + s2:
            d[t] = d.get(t, 0) + e
        return tuple(sorted(((t, e) for t, e in d.items() if e), key=lambda x: (tm.show(x[0]), x[1])))

    def reduce(self, f):
        out = []
        for t, m in f:
            if out and out[-1][0] is t and self.opposite(out[-1][1], m, t):
                out.pop()
            else:
                out.append((t, m))
        return tuple(out)

    def opposite(self, a, b, t):
        if {a, b} == {"", "I"} or {a, b} == {"T", "IT"}:
            return True
        return t in self.orth and {a, b} == {"", "T"}

    def trans(self, p):
        r = {}
        flip = {"": "T", "T": "", "I": "IT", "IT": "I"}
        for (s, f), c in p.items():
            if len(f) == 1 and f[0][0] in self.vectors:
                g = f
            else:
                g = tuple((t, m if t in self.vectors else flip[m]) for t, m in reversed(f))
            r[(s, g)] = c
        return r

    def inv(self, p, t):
        if len(p) != 1:
            return self.atom(t)
        ((s, f), c), = p.items()
        g = []
        for x, m in reversed(f):
            if x in self.orth:
                g.append((x, {"": "T", "T": ""}[m]))
            else:
                g.append((x, {"": "I", "I": "", "T": "IT", "IT": "T"}[m]))
        return {(tuple((x, -e) for x, e in s), self.reduce(tuple(g))): 1 / c}

    def scalar(self, p):
        return all(not f for _, f in p)

    def norm(self, t):
        if t in self.sub:
            return self.norm(self.sub[t])
        if t in self.scalars or t in self.orth or t in self.vectors:
            return self.atom(t)
        if is_const(t):
            v = cval(t)
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                return self.const(Fraction(v).limit_denominator(10 ** 12))
            return self.atom(t)
        o = t.op
        if o == "bin":
            k = t.args[0]
            ps = [self.norm(x) for x in t.args[1:]]
            if k == "+" or k == "-":
                r = ps[0]
                for p in ps[1:]:
                    r = self.add(r, p, 1 if k == "+" else -1)
                return r
            if k == "@":
                r = ps[0]
                for p in ps[1:]:
                    r = self.mul(r, p)
                return r
            if k == "*":
                if sum(not self.scalar(p) for p in ps) <= 1:
                    r = ps[0]
                    for p in ps[1:]:
                        # scalars commute: keep the matrix factors where they are
                        r = self.mul(r, p)
                    return r
                return self.atom(t)
            if k == "/" and len(ps) == 2:
                if len(ps[1]) == 1 and self.scalar(ps[1]):
                    return self.mul(ps[0], self.inv(ps[1], t))
                return self.atom(t)
            if k == "**" and is_const(t.args[2]) and isinstance(cval(t.args[2]), int) and self.scalar(ps[0]) and len(ps[0]) == 1:
                r = self.const(1)
                for _ in range(abs(cval(t.args[2]))):
                    r = self.mul(r, ps[0])
                return r if cval(t.args[2]) >= 0 else self.inv(r, t)
            return self.atom(t)
        if o == "un":
            p = self.norm(t.args[1])
            if t.args[0] == "-":
                return self.add({}, p, -1)
            if t.args[0] == "+":
                return p
            return self.atom(t)
        if o == "attr" and t.args[1] == "T":
            return self.trans(self.norm(t.args[0]))
        if o == "mcall":
            (recv, name), a, kw = tm.call_parts(t)
            if name == "dot" and len(a) == 1:
                return self.mul(self.norm(recv), self.norm(a[0]))
            if name == "transpose" and not a:
                return self.trans(self.norm(recv))
            if name in ("copy", "astype", "ravel", "flatten", "squeeze", "tolist"):
                return self.norm(recv)
            return self.atom(t)
        if o == "call":
            n = tm.callee_name(t) or ""
            a = tm.call_parts(t)[1]
            if n in DOTS:
                if n.endswith("multi_dot"):
                    el = self.fl.elements(a[0]) if a[0].op == "obj" else [(x, (), ()) for x in a[0].args]
                    a = [v for v, _, _ in el or []]
                if a:
                    r = self.norm(a[0])
                    for x in a[1:]:
                        r = self.mul(r, self.norm(x))
                    return r
            if n in TRANS and len(a) == 1:
                return self.trans(self.norm(a[0]))
            if n in INV and len(a) == 1:
                return self.inv(self.norm(a[0]), t)
            if n in EYE:
                return self.const(1)
            if n in ZERO:
                return {}
            if n in ("numpy.multiply", "numpy.add", "numpy.subtract", "numpy.negative", "numpy.divide"):
                if n == "numpy.negative":
                    return self.add({}, self.norm(a[0]), -1)
                op = {"multiply": "*", "add": "+", "subtract": "-", "divide": "/"}[n.split(".")[-1]]
                return self.norm(tm.mk("bin", op, *a))
            if n in CASTS and a and n not in self.keep:
                return self.norm(a[0])
            return self.atom(t)
        if o in ("tup", "obj"):
            el = self.fl.elements(t) if o == "obj" else [(x, (), ()) for x in t.args]
            if el and all(is_const(v) and cval(v) == 0 for v, _, _ in el):
                return {}
            h = self.fl.h(t) if o == "obj" else None
            if h is not None and h.kind == "ext" and not h.log and h.cls is not None:
                return self.norm(tm.call(h.cls, list(h.args), list(h.kwargs)))
            return self.atom(t)
        return self.atom(t)

    def equal(self, a, b):
        return self.norm(a) == self.norm(b)

    def show(self, p):
        if not p:
            return "0"
        out = []
        for (s, f), c in p.items():
            w = [] if c == 1 and (s or f) else [str(c)]
            w += [tm.show(t)[:40] + ("" if e == 1 else "^%d" % e) for t, e in s]
            w += [tm.show(t)[:40] + {"": "", "T": "'", "I": "^-1", "IT": "^-T"}[m] for t, m in f]
            out.append(" ".join(w))
        return " + ".join(out)
