"""Arrays with one row per element (N x k), evaluated column by column to polynomials.

Grid(fl, rows={term: k or None}) reads a term as a number, a vector, a small matrix or a row array; writes into arrays
(p[:, 0] = ..., p[:, :2] = ..., p[:, 1] *= ...) are replayed in the order the function makes them.
"""

from fractions import Fraction

from . import terms as tm
from .linalg import Lin
from .terms import cval, is_const, item, mk

ARR = {"numpy.array", "numpy.asarray", "list", "tuple", "numpy.ascontiguousarray", "numpy.atleast_2d"}
CAST = {"float", "int", "numpy.float64"}
NEW = {"numpy.empty", "numpy.zeros", "numpy.ones", "numpy.empty_like", "numpy.zeros_like"}


class Rows:
    """k columns; columns not written are atoms of the base."""

    def __init__(self, get, n=None):
        self.get, self.n = get, n

    def col(self, i):
        if i < 0 and self.n is not None:
            i += self.n
        return self.get(i)

    def put(self, d):
        g = self.get
        return Rows(lambda i: d[i] if i in d else g(i), self.n)


class Unread(LookupError):
    pass


class Grid:
    def __init__(self, fl, rows=(), lin=None, scalars=()):
        self.fl = fl
        self.rows = dict(rows)
        self.lin = lin or Lin(fl, everything=True)
        self.store = {}
        self.consts = dict(scalars)  # numbers already known
        self.done = 0

    # replay of the writes
    def replay(self, upto=None):
        for e in self.fl.effects:
            if e.kind != "setitem" or e.recv is None:
                continue
            k, v = e.args[0], e.args[1]
            if k.op != "tup" or len(k.args) != 2 or not full(k.args[0]):
                continue
            on = self.always(e)
            if on is False:
                continue
            base = self.target(e.recv)
            js = self.cols(k.args[1], base)
            if js is None or on is None:
                raise Unread("a conditional or unreadable write into %s" % tm.show(e.recv)[:60])
            val = self(v)
            d = {}
            for n, j in enumerate(js):
                if isinstance(val, Rows):
                    d[j] = val.col(n)
                elif isinstance(val, list):
                    d[j] = val[n]
                else:
                    d[j] = val
            self.store[self.key(e.recv)] = base.put(d)
        return self

    def always(self, e):
        return True if not e.guards else None

    def key(self, t):
        return t

    def target(self, t):
        v = self(t)
        if not isinstance(v, Rows):
            raise Unread("a write into %s" % tm.show(t)[:60])
        return v

    def cols(self, k, base):
        if is_const(k) and isinstance(cval(k), int):
            return [cval(k)]
        if k.op == "slice":
            a, b, s = (cval(x) if isinstance(x, tm.T) and is_const(x) else (None if not isinstance(x, tm.T) else "?") for x in k.args[:3])
            if "?" in (a, b, s):
                return None
            if b is None:
                b = base.n
            if b is None or s not in (None, 1):
                return None
            return list(range(a or 0, b))
        return None

    def seq(self, t):
        if t.op == "tup":
            return list(t.args)
        if t.op == "obj":
            h = self.fl.h(t)
            if h is not None and h.kind in ("list", "tuple"):
                el = self.fl.elements(t)
                return None if el is None else [v for v, _, _ in el]
            if h is not None and h.kind == "ext" and h.cls is not None and h.cls.args and h.cls.args[0] in ARR and h.args:
                return self.seq(h.args[0])
        return None

    def ext(self, t):
        if t.op == "obj":
            h = self.fl.h(t)
            if h is not None and h.kind == "ext" and h.cls is not None and h.cls.args:
                return h.cls.args[0], list(h.args), dict(h.kwargs)
        if t.op == "call":
            f, a, k = tm.call_parts(t)
            return tm.callee_name(t), list(a), dict(k)
        return None, [], {}

    def __call__(self, t):
        if t in self.store:
            return self.store[t]
        if t in self.consts:
            return self.consts[t]
        if t in self.rows:
            return Rows(lambda i, t=t: self.lin.atom(item(t, mk("tup", FULL, tm.const(i)))), self.rows[t])
        s = self.seq(t)
        if s is not None:
            return [self(x) for x in s]
        n, a, kw = self.ext(t)
        if n is not None:
            if n in ARR and a:
                return self(a[0])
            if n in CAST and len(a) == 1:
                return self(a[0])
            if n in NEW:
                z = {} if "zeros" in n else self.lin.const(1) if n.endswith("ones") else None
                return Rows(lambda i, z=z, t=t: z if z is not None else self.lin.atom(item(t, mk("tup", FULL, tm.const(i)))), width(self, a))
            if n in ("numpy.dot", "numpy.matmul") and len(a) == 2:
                return self.dot(self(a[0]), self(a[1]))
            if n == "numpy.transpose" and len(a) == 1:
                return trans(self(a[0]))
            if n in ("numpy.column_stack", "numpy.c_") and len(a) == 1:
                return stack(self(a[0]))
            if n in ("numpy.stack",) and a and "axis" in kw and is_const(kw["axis"]) and cval(kw["axis"]) in (1, -1):
                return stack(self(a[0]))
            if n in ("numpy.multiply", "numpy.add", "numpy.subtract", "numpy.divide") and len(a) == 2:
                return self.bin({"multiply": "*", "add": "+", "subtract": "-", "divide": "/"}[n.split(".")[1]], self(a[0]), self(a[1]), t)
        o = t.op
        if o == "mcall":
            (recv, name), a, kw = tm.call_parts(t)
            if name == "dot" and len(a) == 1:
                return self.dot(self(recv), self(a[0]))
            if name in ("reshape", "ravel", "flatten", "copy", "astype", "squeeze"):
                v = self(recv)
                if isinstance(v, list) and len(v) == 1 and isinstance(v[0], list):
                    return v[0]
                return v
            if name == "transpose" and not a:
                return trans(self(recv))
        if o == "attr" and t.args[1] == "T":
            return trans(self(t.args[0]))
        if o in ("item", "slice_of"):
            v = self.sub(t)
            if v is not None:
                return v
        if o == "un" and t.args[0] == "-":
            return self.bin("*", self.lin.const(-1), self(t.args[1]), t)
        if o == "bin":
            vs = [self(x) for x in t.args[1:]]
            r = vs[0]
            for v in vs[1:]:
                r = self.dot(r, v) if t.args[0] == "@" else self.bin(t.args[0], r, v, t)
            return r
        return self.lin.norm(t)

    def sub(self, t):
        base = t.args[0]
        k = t.args[1] if t.op == "item" else mk("slice", *t.args[1:]) if len(t.args) == 4 else mk("slice", t.args[1], t.args[2], tm.NONE)
        v = self(base)
        ks = list(k.args) if k.op == "tup" else [k]
        if isinstance(v, Rows):
            if len(ks) == 2 and full(ks[0]):
                if is_const(ks[1]) and isinstance(cval(ks[1]), int):
                    return v.col(cval(ks[1]))
                js = self.cols(ks[1], v)
                if js is not None:
                    return Rows(lambda i, js=js, v=v: v.col(js[i]), len(js))
            return None
        if isinstance(v, list):
            return pick(v, ks)
        return None

    def dot(self, a, b):
        if isinstance(a, Rows):
            if not isinstance(b, list):
                return self.bin("*", a, b, None)
            if b and isinstance(b[0], list):
                return Rows(lambda j: self.total([self.lin.mul(a.col(i), b[i][j]) for i in range(len(b))]), len(b[0]))
            return self.total([self.lin.mul(a.col(i), b[i]) for i in range(len(b))])
        if isinstance(b, Rows):
            raise Unread("a product with a row array on the right")
        if isinstance(a, dict) or isinstance(b, dict):
            return self.bin("*", a, b, None)
        am, bm = isinstance(a[0], list), isinstance(b[0], list)
        if am and bm:
            return [[self.total([self.lin.mul(r[k], b[k][j]) for k in range(len(b))]) for j in range(len(b[0]))] for r in a]
        if am:
            return [self.total([self.lin.mul(r[k], b[k]) for k in range(len(b))]) for r in a]
        if bm:
            return [self.total([self.lin.mul(a[k], b[k][j]) for k in range(len(b))]) for j in range(len(b[0]))]
        return self.total([self.lin.mul(x, y) for x, y in zip(a, b)])

    def total(self, ps):
        r = {}
        for p in ps:
            if not isinstance(p, dict):
                raise Unread("not a number")
            r = self.lin.add(r, p)
        return r

    def bin(self, op, a, b, t):
        if isinstance(a, Rows) or isinstance(b, Rows):
            n = next((x.n for x in (a, b) if isinstance(x, Rows) and x.n is not None), None)
            n = n if n is not None else next((len(x) for x in (a, b) if isinstance(x, list)), None)
            c = lambda x, i: x.col(i) if isinstance(x, Rows) else x[i] if isinstance(x, list) else x
            return Rows(lambda i: self.bin(op, c(a, i), c(b, i), t), n)
        if isinstance(a, list) and isinstance(b, list):
            return [self.bin(op, x, y, t) for x, y in zip(a, b)]
        if isinstance(a, list):
            return [self.bin(op, x, b, t) for x in a]
        if isinstance(b, list):
            return [self.bin(op, a, x, t) for x in b]
        if op == "+":
            return self.lin.add(a, b)
        if op == "-":
            return self.lin.add(a, b, -1)
        if op == "*":
            return self.lin.mul(a, b)
        if op == "/":
            return self.lin.mul(a, self.lin.inv(b, t if t is not None else tm.NONE))
        raise Unread("operator %s" % op)


FULL = mk("slice", tm.NONE, tm.NONE, tm.NONE)


def full(k):
    return k.op == "slice" and all(not isinstance(x, tm.T) or x is tm.NONE or (is_const(x) and cval(x) in (None, 0)) for x in k.args[:2]) and k.args[1] in (None, tm.NONE)


def width(g, a):
    if a:
        s = g.seq(a[0])
        if s is not None and len(s) == 2 and is_const(s[1]):
            return cval(s[1])
    return None


def trans(v):
    if isinstance(v, list) and v and isinstance(v[0], list):
        return [list(x) for x in zip(*v)]
    if isinstance(v, list):
        return v
    raise Unread("transpose")


def stack(v):
    if isinstance(v, list):
        return Rows(lambda i: v[i], len(v))
    raise Unread("stack")


def pick(v, ks):
    """v[k1, k2, ...] of a nested list."""
    if not ks:
        return v
    k = ks[0]
    if not isinstance(v, list):
        return None
    if is_const(k) and isinstance(cval(k), int):
        return pick(v[cval(k)], ks[1:])
    if k.op == "slice":
        b = [cval(x) if isinstance(x, tm.T) and is_const(x) else "?" if isinstance(x, tm.T) else None for x in k.args[:3]]
        if "?" in b:
            return None
        return [pick(x, ks[1:]) for x in v[slice(*b)]]
    return None
