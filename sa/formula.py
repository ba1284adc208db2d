"""Closed formulas in a normal form: Laurent polynomials with numeric coefficients over variables, sines, cosines, square roots,
arc tangents and reciprocals, each of them keyed by the normal form of its own argument.

Two formulas that are equal by the ring laws, sin^2 + cos^2 = 1, sqrt(p)^2 = p, the parity and period of sine and cosine,
the scaling of atan2 and of square roots get the same form. Read(fl)(term) turns a value term into one.
"""

import math

from . import terms as tm
from .terms import cval, is_const

EPS = 1e-12
TOL = 1e-9
EXPAND = [False]  # rewrite the sine and cosine of an arc tangent


ATOMS = []  # number -> descriptor
NUM = {}
POLYS = []  # number -> polynomial
KEYS = {}


def atom_no(d):
    n = NUM.get(d)
    if n is None:
        n = NUM[d] = len(ATOMS)
        ATOMS.append(d)
    return n


def one(d, e=1):
    return {((atom_no(d), e),): 1.0}


def const(c):
    return {(): float(c)} if c else {}


def var(n):
    return one(("v", n))


def into(r, p, k=1.0):
    for m, c in p.items():
        c *= k
        o = r.get(m)
        if o is None:
            r[m] = c
        elif abs(o + c) <= EPS * (abs(o) + abs(c)):
            del r[m]
        else:
            r[m] = o + c
    return r


def add(*ps):
    r = dict(ps[0]) if ps else {}
    for p in ps[1:]:
        into(r, p)
    return r


def neg(p):
    return {m: -c for m, c in p.items()}


def sub(a, b):
    return into(dict(a), b, -1.0)


def scale(p, k):
    return {m: c * k for m, c in p.items()} if k else {}


def sig(c):
    return float("%.9e" % c)


def key(p):
    """A number standing for the polynomial (equal ones, up to rounding, share it)."""
    k = frozenset((m, sig(c)) for m, c in p.items())
    n = KEYS.get(k)
    if n is None:
        n = KEYS[k] = len(POLYS)
        POLYS.append(p)
    return n


def poly(k):
    return POLYS[k]


def reduce_(d):
    """Normal form of a product of atoms: a polynomial."""
    for n, e in d.items():
        if -2 < e < 2 and e != -1:
            continue
        t = ATOMS[n]
        k = t[0]
        if k == "s" and e >= 2:
            a, b = dict(d), dict(d)
            a[n] = b[n] = e - 2
            c = atom_no(("c", t[1]))
            b[c] = b.get(c, 0) + 2
            return sub(reduce_(a), reduce_(b))
        if k == "q" and (e >= 2 or e <= -2):
            a = dict(d)
            a[n] = e - 2 if e > 0 else e + 2
            return mul(poly(t[1]) if e > 0 else inv(poly(t[1])), reduce_(a))
        if k == "r" and e < 0:
            a = dict(d)
            a[n] = 0
            return mul(power(poly(t[1]), -e), reduce_(a))
    return {tuple(sorted((k, v) for k, v in d.items() if v)): 1.0}


def plain(d):
    """The product needs no rewriting."""
    for n, e in d.items():
        if e >= 2 or e < 0:
            k = ATOMS[n][0]
            if (k == "s" and e >= 2) or (k == "q" and (e >= 2 or e <= -2)) or (k == "r" and e < 0):
                return False
    return True


def mul(*ps):
    if len(ps) != 2:
        r = const(1)
        for p in ps:
            r = mul(r, p)
        return r
    a, b = ps
    if len(a) > len(b):
        a, b = b, a
    out = {}
    for m1, c1 in a.items():
        if not m1:
            into(out, b, c1)
            continue
        for m2, c2 in b.items():
            if not m2:
                into(out, {m1: c1 * c2})
                continue
            d = dict(m1)
            for n, e in m2:
                d[n] = d.get(n, 0) + e
            if plain(d):
                into(out, {tuple(sorted((k, v) for k, v in d.items() if v)): c1 * c2})
            else:
                into(out, reduce_(d), c1 * c2)
    return out


def lead(p):
    """The coefficient used to normalise a polynomial: that of its first monomial."""
    return p[min(p)]


def inv(p):
    if not p:
        raise ZeroDivisionError
    if len(p) == 1:
        (m, c), = p.items()
        return scale(reduce_({n: -e for n, e in m}), 1 / c)
    k = lead(p)
    return scale(one(("r", key(scale(p, 1 / k)))), 1 / k)


def div(a, b):
    return mul(a, inv(b))


def power(p, n):
    if n == int(n):
        r = const(1)
        for _ in range(abs(int(n))):
            r = mul(r, p)
        return r if n >= 0 else inv(r)
    if 2 * n == int(2 * n):
        return power(sqrt(p), 2 * n)
    return fun("pow", p, const(n))


def sqrt(p):
    if not p:
        return {}
    if set(p) == {()} and p[()] >= 0:
        return const(math.sqrt(p[()]))
    k = abs(lead(p))
    return scale(one(("q", key(scale(p, 1 / k)))), math.sqrt(k))


def split(p):
    """(sign, angle) with the constant part taken out modulo half turns."""
    p = dict(p)
    s = 1
    c = p.pop((), 0.0)
    n = round(c / math.pi)
    if n and abs(c - n * math.pi) < TOL:
        s = -1 if n % 2 else 1
        c = 0.0
    if abs(c) > TOL:
        p[()] = c
    return s, p


def single(p, kind):
    if not EXPAND[0]:
        return None
    if len(p) == 1:
        (m, c), = p.items()
        if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]][0] == kind and abs(c - 1) < TOL:
            return ATOMS[m[0][0]]
    return None


def sin(p):
    s, p = split(p)
    if not p:
        return {}
    if set(p) == {()}:
        return const(s * math.sin(p[()]))
    t = single(p, "t")
    if t is not None:
        y, x = poly(t[1]), poly(t[2])
        return scale(div(y, sqrt(add(mul(x, x), mul(y, y)))), s)
    if lead(p) < 0:
        s, p = -s, neg(p)
    return scale(one(("s", key(p))), s)


def cos(p):
    s, p = split(p)
    if not p:
        return const(s)
    if set(p) == {()}:
        return const(s * math.cos(p[()]))
    t = single(p, "t")
    if t is not None:
        y, x = poly(t[1]), poly(t[2])
        return scale(div(x, sqrt(add(mul(x, x), mul(y, y)))), s)
    if lead(p) < 0:
        p = neg(p)
    return scale(one(("c", key(p))), s)


def atan2(y, x):
    if not y and not x:
        return {}
    k = abs(lead(x or y))
    return one(("t", key(scale(y, 1 / k)), key(scale(x, 1 / k))))


def mod(p, m):
    if set(m) == {()} and () in p:
        p = dict(p)
        c = p.pop(()) % m[()]
        if c:
            p[()] = c
    return fun("mod", p, m)


def fun(name, *ps):
    return one(("f", name) + tuple(key(p) for p in ps))


def same(a, b):
    if not isinstance(a, dict) or not isinstance(b, dict):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if set(a) != set(b):
        return False
    return all(abs(a[m] - b[m]) <= TOL * (abs(a[m]) + abs(b[m])) for m in a)


def diff(p, v, memo=None):
    """Partial derivative with respect to the variable named v."""
    memo = {} if memo is None else memo
    out = {}
    for m, c in p.items():
        for i, (n, e) in enumerate(m):
            d = datom(n, v, memo)
            if d:
                rest = dict(m)
                rest[n] = e - 1
                out = add(out, mul(scale(reduce_(rest), c * e), d))
    return out


def datom(n, v, memo):
    r = memo.get(n)
    if r is not None:
        return r
    t = ATOMS[n]
    k = t[0]
    if k == "v":
        r = const(1) if t[1] == v else {}
    elif k in "scqr":
        d = diff(poly(t[1]), v, memo)
        if not d:
            r = {}
        elif k == "s":
            r = mul(one(("c", t[1])), d)
        elif k == "c":
            r = neg(mul(one(("s", t[1])), d))
        elif k == "q":
            r = scale(mul({((n, -1),): 1.0}, d), 0.5)
        else:
            r = neg(mul({((n, 2),): 1.0}, d))
    elif k == "t":
        y, x = poly(t[1]), poly(t[2])
        a = sub(mul(x, diff(y, v, memo)), mul(y, diff(x, v, memo)))
        r = mul(a, inv(add(mul(x, x), mul(y, y)))) if a else {}
    else:
        if any(diff(poly(q), v, memo) for q in t[2:]):
            raise LookupError("derivative of " + str(t[1]))
        r = {}
    memo[n] = r
    return r


def clear(p):
    """A multiple of p without reciprocals: zero exactly when p is."""
    for _ in range(60):
        low = {}
        top = {}
        for m in p:
            for n, e in m:
                if ATOMS[n][0] == "r":
                    top[n] = max(top.get(n, 0), e)
                elif e < 0:
                    low[n] = min(low.get(n, 0), e)
        if low:
            f = {tuple(sorted((n, -e) for n, e in low.items())): 1.0}
            p = mul(p, f)
            continue
        if not top:
            return p
        n = max(top)  # the one made last: its argument may contain the others
        e = top[n]
        q = poly(ATOMS[n][1])
        pw = {}
        out = {}
        for m, c in p.items():
            d = dict(m)
            k = e - d.pop(n, 0)
            if k not in pw:
                pw[k] = power(q, k)
            into(out, mul({tuple(sorted(d.items())): c}, pw[k]))
        p = out
    return p


def zero(p):
    """p is zero: by its normal form, or once the denominators are cleared."""
    return not p or not clear(p)


def equal(a, b):
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    return same(a, b) or zero(sub(a, b))


def variables(p, out=None, seen=None):
    """Names of the variables of a formula, nested ones included."""
    out = set() if out is None else out
    seen = set() if seen is None else seen
    if isinstance(p, list):
        for x in p:
            variables(x, out, seen)
        return out
    for m in p:
        for n, e in m:
            if n in seen:
                continue
            seen.add(n)
            t = ATOMS[n]
            if t[0] == "v":
                out.add(t[1])
            else:
                for k in t[1:]:
                    if isinstance(k, int):
                        variables(poly(k), out, seen)
    return out


def rigid_inverse(t):
    """Inverse of a 4x4 rigid transform, after checking that it is one."""
    if not (isinstance(t, list) and len(t) == 4 and all(isinstance(r, list) and len(r) == 4 for r in t)):
        return None
    if not same(t[3], [{}, {}, {}, const(1)]):
        return None
    r = [x[:3] for x in t[:3]]
    for i in range(3):
        for j in range(3):
            if not same(add(*[mul(r[k][i], r[k][j]) for k in range(3)]), const(1 if i == j else 0)):
                return None
    out = []
    for i in range(3):
        out.append([r[k][i] for k in range(3)] + [neg(add(*[mul(r[k][i], t[k][3]) for k in range(3)]))])
    return out + [[{}, {}, {}, const(1)]]


def show(p):
    if isinstance(p, list):
        return "[%s]" % ", ".join(show(x) for x in p)
    if not p:
        return "0"
    out = []
    for m, c in sorted(p.items()):
        f = "*".join(atom(n) + ("^%d" % e if e != 1 else "") for n, e in m)
        out.append(("%g" % c + ("*" + f if f else "")) if abs(c - 1) > TOL or not f else f)
    return " + ".join(out)


def atom(n):
    t = ATOMS[n]
    if t[0] == "v":
        return tm.show(t[1]) if hasattr(t[1], "op") else str(t[1])
    name = {"s": "sin", "c": "cos", "q": "sqrt", "r": "1/", "t": "atan2"}.get(t[0], t[1])
    return "%s(%s)" % (name, ", ".join(show(poly(k)) for k in t[1:] if isinstance(k, int)))


ARR = {"numpy.array", "numpy.asarray", "list", "tuple", "numpy.ascontiguousarray", "numpy.matrix", "numpy.stack"}
CAST = {"float", "numpy.float64", "numpy.float32", "int"}


class Read:
    """Value term -> formula, or a (nested) list of formulas."""

    def __init__(self, fl, atoms=None):
        self.fl = fl
        self.memo = {}
        self.atoms = dict(atoms or {})  # term -> formula

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.atoms[t] if t in self.atoms else self.read(t)
        return r

    def seq(self, t):
        if t.op == "tup":
            return list(t.args)
        h = self.fl.h(t) if t.op == "obj" else None
        if h is None:
            return None
        if h.kind == "ext" and h.cls is not None and h.cls.args and h.cls.args[0] in ARR and len(h.args) >= 1 and not self.fl.live(h):
            return self.seq(h.args[0])
        if h.kind in ("list", "tuple"):
            el = self.fl.elements(t)
            return None if el is None else [v for v, _, _ in el]
        return None

    def other(self, t):
        return var(t)

    def read(self, t):
        if is_const(t):
            v = cval(t)
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                return const(v)
            return self.other(t)
        o = t.op
        if o in ("tup", "obj"):
            s = self.seq(t)
            if s is not None:
                return [self(x) for x in s]
            return self.other(t)
        if o == "ext":
            c = {"math.pi": math.pi, "numpy.pi": math.pi, "math.e": math.e}.get(t.args[0])
            return const(c) if c is not None else self.other(t)
        if o == "call":
            return self.call(t)
        if o == "mcall":
            (recv, name), a, kw = tm.call_parts(t)
            if name == "dot" and len(a) == 1:
                return self.dot(self(recv), self(a[0]))
            if name in ("copy", "tolist") and not a:
                return self(recv)
            return self.other(t)
        if o == "attr" and t.args[1] == "T":
            v = self(t.args[0])
            return [list(x) for x in zip(*v)] if isinstance(v, list) and v and isinstance(v[0], list) else v
        if o in ("item", "elem") and len(t.args) >= 2:
            b = self(t.args[0])
            k = t.args[1]
            if isinstance(b, list):
                if is_const(k) and isinstance(cval(k), int) and -len(b) <= cval(k) < len(b):
                    return b[cval(k)]
                if k.op == "tup" and all(is_const(x) and isinstance(cval(x), int) for x in k.args):
                    for x in k.args:
                        if not isinstance(b, list) or not -len(b) <= cval(x) < len(b):
                            return self.other(t)
                        b = b[cval(x)]
                    return b
            return self.other(t)
        if o == "un" and t.args[0] in ("+", "-"):
            v = self(t.args[1])
            return v if t.args[0] == "+" else self.each(v, neg)
        if o == "bin":
            return self.binary(t)
        return self.other(t)

    def call(self, t):
        n = tm.callee_name(t)
        a = tm.call_parts(t)[1]
        if n is None:
            return self.other(t)
        if n in ARR and a:
            return self(a[0])
        if n in CAST and len(a) == 1:
            return self(a[0])
        if n == "numpy.linalg.inv" and len(a) == 1:
            r = rigid_inverse(self(a[0]))
            return r if r is not None else self.other(t)
        if n in ("numpy.dot", "numpy.matmul") and len(a) == 2:
            return self.dot(self(a[0]), self(a[1]))
        if n in ("numpy.linalg.norm",) and len(a) == 1:
            v = self(a[0])
            if isinstance(v, list) and all(isinstance(x, dict) for x in v):
                return sqrt(add(*[mul(x, x) for x in v]))
            return self.other(t)
        base = n.split(".")[-1]
        mod_ = n.split(".")[0]
        if mod_ not in ("numpy", "math") and n not in ("pow", "abs", "round"):
            return self.other(t)
        one = {"sin": sin, "cos": cos, "sqrt": sqrt, "radians": lambda p: scale(p, math.pi / 180), "deg2rad": lambda p: scale(p, math.pi / 180),
               "degrees": lambda p: scale(p, 180 / math.pi), "rad2deg": lambda p: scale(p, 180 / math.pi), "square": lambda p: mul(p, p),
               "tan": lambda p: div(sin(p), cos(p)), "abs": lambda p: fun("abs", p), "fabs": lambda p: fun("abs", p),
               "negative": neg, "reciprocal": inv}
        two = {"arctan2": atan2, "atan2": atan2, "hypot": lambda x, y: sqrt(add(mul(x, x), mul(y, y))), "add": add, "subtract": sub,
               "multiply": mul, "divide": div, "fmod": mod, "mod": mod}
        if base in one and len(a) == 1:
            return self.each(self(a[0]), one[base])
        if base in two and len(a) == 2:
            return self.pairwise(self(a[0]), self(a[1]), two[base])
        if base in ("pow", "power") and len(a) >= 2:
            e = self(a[1])
            if isinstance(e, dict) and set(e) <= {()}:
                return self.each(self(a[0]), lambda p: power(p, e.get((), 0)))
        return self.other(t)

    def binary(self, t):
        k = t.args[0]
        vs = [self(x) for x in t.args[1:]]
        f = {"+": add, "-": sub, "*": mul, "/": div, "%": mod}.get(k)
        r = vs[0]
        for v in vs[1:]:
            if k == "@":
                r = self.dot(r, v)
            elif k == "**" and isinstance(v, dict) and set(v) <= {()}:
                e = v.get((), 0)
                r = self.each(r, lambda p: power(p, e))
            elif f is not None:
                r = self.pairwise(r, v, f)
            else:
                return self.other(t)
        return r

    def each(self, v, f):
        return [self.each(x, f) for x in v] if isinstance(v, list) else f(v)

    def pairwise(self, a, b, f):
        if isinstance(a, list) and isinstance(b, list):
            if len(a) != len(b):
                raise LookupError("shapes of an elementwise operation")
            return [self.pairwise(x, y, f) for x, y in zip(a, b)]
        if isinstance(a, list):
            return [self.pairwise(x, b, f) for x in a]
        if isinstance(b, list):
            return [self.pairwise(a, x, f) for x in b]
        return f(a, b)

    def dot(self, a, b):
        if isinstance(a, dict) or isinstance(b, dict):
            return self.pairwise(a, b, mul)
        if isinstance(a[0], list):
            return [self.dot(r, b) for r in a]
        if isinstance(b[0], list):
            return [add(*[mul(a[k], b[k][j]) for k in range(len(a))]) for j in range(len(b[0]))]
        return add(*[mul(x, y) for x, y in zip(a, b)])
