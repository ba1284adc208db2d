"""Resolution of the choices in a term under stated facts (which tags are present, which option is set, ...).

fold(t, facts) replaces every choice whose condition is decided and evaluates comparisons of constants; what is left undecided stays.
facts: {term: replacement term or bool}; decide: optional function term -> True/False/None.
"""

from . import terms as tm
from .terms import FALSE, TRUE, T, cval, is_const, ite, mk, tand, tnot


class Fold:
    def __init__(self, facts=None, decide=None, fl=None):
        self.facts = dict(facts or {})
        self.decide = decide
        self.fl = fl
        self.memo = {}

    def __call__(self, t):
        if not isinstance(t, T):
            return t
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = t
        r = self.memo[t] = self.step(t)
        return r

    def given(self, t):
        if t in self.facts:
            v = self.facts[t]
            return (TRUE if v else FALSE) if isinstance(v, bool) else v
        return None

    def step(self, t):
        g = self.given(t)
        if g is not None:
            return g
        if t.op == "obj" or t.op == "const":
            return t
        if t.op == "ite":
            c = self.truth(t.args[0])
            if c is TRUE:
                return self(t.args[1])
            if c is FALSE:
                return self(t.args[2])
            return ite(c, self(t.args[1]), self(t.args[2]))
        if t.op in ("not", "and", "or", "cmp"):
            return self.truth(t)
        new = [self(a) if isinstance(a, T) else a for a in t.args]
        r = mk(t.op, *new)
        g = self.given(r)
        if g is not None:
            return g
        if r.op == "item" and r.args[0].op == "tup" and is_const(r.args[1]) and isinstance(cval(r.args[1]), int) and -len(r.args[0].args) <= cval(r.args[1]) < len(r.args[0].args):
            return r.args[0].args[cval(r.args[1])]
        return r

    def truth(self, c):
        g = self.given(c)
        if g is not None:
            return g
        if c is TRUE or c is FALSE:
            return c
        if is_const(c):
            return TRUE if cval(c) else FALSE
        if c.op == "not":
            return tnot(self.truth(c.args[0]))
        if c.op == "and":
            return tand(*[self.truth(x) for x in c.args])
        if c.op == "or":
            return tm.tor(*[self.truth(x) for x in c.args])
        if c.op == "ite":
            k = self.truth(c.args[0])
            if k is TRUE:
                return self.truth(c.args[1])
            if k is FALSE:
                return self.truth(c.args[2])
            return tm.tor(tand(k, self.truth(c.args[1])), tand(tnot(k), self.truth(c.args[2])))
        if self.decide is not None:
            v = self.decide(c)
            if v is not None:
                return TRUE if v else FALSE
        if c.op == "cmp":
            a, b = self(c.args[1]), self(c.args[2])
            r = mk("cmp", c.args[0], a, b)
            g = self.given(r)
            if g is not None:
                return g
            if self.decide is not None:
                v = self.decide(r)
                if v is not None:
                    return TRUE if v else FALSE
            return compare(c.args[0], a, b, r)
        n = mk(c.op, *[self(a) if isinstance(a, T) else a for a in c.args])
        g = self.given(n)
        if g is not None:
            return g
        if self.decide is not None:
            v = self.decide(n)
            if v is not None:
                return TRUE if v else FALSE
        if is_const(n):
            return TRUE if cval(n) else FALSE
        return n


def compare(op, a, b, r):
    if is_const(a) and is_const(b):
        x, y = cval(a), cval(b)
        try:
            v = {"==": lambda: x == y, "<": lambda: x < y, "is": lambda: x is y or x == y and type(x) is type(y), "in": lambda: x in y}[op]()
        except (TypeError, KeyError):
            return r
        return TRUE if v else FALSE
    if op == "is" and (a is tm.NONE or b is tm.NONE):
        o = b if a is tm.NONE else a
        # the result of arithmetic is not None
        if o.op in ("bin", "un", "tup", "obj", "strcat", "fmt") or (o.op == "call" and tm.callee_name(o) in ("float", "int", "str", "len", "abs")):
            return FALSE
    if op == "in" and is_const(a) and b.op == "tup" and all(is_const(x) for x in b.args):
        return TRUE if a in b.args else FALSE
    return r


def worlds(keys, limit=8):
    """All assignments of the keys (at most limit of them) to present/absent."""
    keys = list(keys)[:limit]
    for n in range(1 << len(keys)):
        yield {k: bool(n >> i & 1) for i, k in enumerate(keys)}
