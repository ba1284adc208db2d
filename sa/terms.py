"""Interned value terms used by the value-flow analysis (global value numbering).

A term names *where a value comes from*; two program points carry the same term
when the analysis shows they carry the same value.  Terms are never evaluated on
concrete inputs and never handed to a solver.
"""

_TABLE = {}


class T:
    __slots__ = ("op", "args", "_id", "_h")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._h

    # identity equality because of interning
    def __lt__(self, other):
        return self._id < other._id


def mk(op, *args):
    key = (op,) + tuple(
        (a._id, "T") if isinstance(a, T) else (type(a).__name__, a) for a in args
    )
    t = _TABLE.get(key)
    if t is None:
        t = T.__new__(T)
        t.op = op
        t.args = args
        t._id = len(_TABLE)
        t._h = hash(("T", t._id))
        _TABLE[key] = t
    return t


def const(v):
    return mk("const", type(v).__name__, v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
UNDEF = mk("undef")


def is_const(t):
    return t.op == "const"


def cval(t):
    return t.args[1]


def sym(name, cls=""):
    return mk("sym", name, cls)


def attr(t, n):
    return mk("attr", t, n)


def item(t, k):
    return mk("item", t, k)


def tup(*xs):
    return mk("tup", *xs)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    # collapse nested decisions on the same atom
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk("ite", c, a, b)


def tnot(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    return mk("not", a)


def tand(*xs):
    out = []
    for x in xs:
        if x is TRUE:
            continue
        if x is FALSE:
            return FALSE
        if x.op == "and":
            for y in x.args:
                if y not in out:
                    out.append(y)
        elif x not in out:
            out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    for x in out:
        if tnot(x) in out:
            return FALSE
    return mk("and", *sorted(out))


def tor(*xs):
    return tnot(tand(*[tnot(x) for x in xs]))


def atoms_of(cond):
    """Conjunctive atoms of a condition as [(atom, polarity)]."""
    if cond is TRUE:
        return []
    if cond.op == "and":
        r = []
        for x in cond.args:
            r += atoms_of(x)
        return r
    if cond.op == "not":
        return [(cond.args[0], False)]
    return [(cond, True)]


def cond_of(atoms):
    return tand(*[a if p else tnot(a) for a, p in atoms])


def walk(t, seen=None):
    """All distinct sub-terms (pre-order)."""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        yield x
        for a in reversed(x.args):
            if isinstance(a, T):
                stack.append(a)


def contains(t, pred):
    for x in walk(t):
        if pred(x):
            return True
    return False


def subst(t, mapping, memo=None):
    """Structural replacement of sub-terms."""
    if memo is None:
        memo = {}
    if t in mapping:
        return mapping[t]
    if t in memo:
        return memo[t]
    if not any(isinstance(a, T) for a in t.args):
        memo[t] = t
        return t
    new = [subst(a, mapping, memo) if isinstance(a, T) else a for a in t.args]
    if t.op == "ite":
        r = ite(*new)
    elif t.op == "not":
        r = tnot(*new)
    elif t.op == "and":
        r = tand(*new)
    else:
        r = mk(t.op, *new)
    memo[t] = r
    return r


def show(t, depth=9):
    if not isinstance(t, T):
        return repr(t)
    if depth <= 0:
        return "…"
    s = lambda x: show(x, depth - 1)
    o, a = t.op, t.args
    if o == "const":
        return repr(a[1])
    if o == "sym":
        return a[0]
    if o == "attr":
        return s(a[0]) + "." + a[1]
    if o == "item":
        return f"{s(a[0])}[{s(a[1])}]"
    if o == "tup":
        return "(" + ", ".join(map(s, a)) + ")"
    if o == "ite":
        return f"({s(a[1])} if {s(a[0])} else {s(a[2])})"
    if o == "not":
        return "not(" + s(a[0]) + ")"
    if o in ("and",):
        return "(" + " and ".join(map(s, a)) + ")"
    if o in ("bin", "cmp"):
        return f"({s(a[1])} {a[0]} {s(a[2])})"
    if o == "un":
        return f"({a[0]}{s(a[1])})"
    if o in ("ext", "mod", "cls", "glob"):
        return a[0].split("opensfm.")[-1]
    if o == "call":
        n = a[1]
        pos = ", ".join(s(x) for x in a[2 : 2 + n])
        kws = ", ".join(f"{a[i]}={s(a[i+1])}" for i in range(2 + n, len(a), 2))
        return f"{s(a[0])}(" + ", ".join(x for x in (pos, kws) if x) + ")"
    if o == "mcall":
        n = a[2]
        pos = ", ".join(s(x) for x in a[3 : 3 + n])
        kws = ", ".join(f"{a[i]}={s(a[i+1])}" for i in range(3 + n, len(a), 2))
        return f"{s(a[0])}.{a[1]}(" + ", ".join(x for x in (pos, kws) if x) + ")"
    if o == "elem":
        return f"each({s(a[0])}{'' if a[1]==0 else '#%d'%a[1]})"
    if o == "idx":
        return f"pos({s(a[0])})"
    if o == "strcat":
        return "+".join(map(s, a))
    if o == "join":
        return "/".join(map(s, a))
    return o + "(" + ", ".join(s(x) if isinstance(x, T) else repr(x) for x in a) + ")"


def call(f, args, kwargs=()):
    flat = []
    for k, v in sorted(kwargs, key=lambda kv: str(kv[0])):
        flat += [k, v]
    return mk("call", f, len(args), *args, *flat)


def mcall(recv, name, args, kwargs=()):
    flat = []
    for k, v in sorted(kwargs, key=lambda kv: str(kv[0])):
        flat += [k, v]
    return mk("mcall", recv, name, len(args), *args, *flat)


def call_parts(t):
    """(callee-term, [args], {kw}) for a call term; for mcall callee is (recv, name)."""
    a = t.args
    if t.op == "call":
        n = a[1]
        return a[0], list(a[2 : 2 + n]), {a[i]: a[i + 1] for i in range(2 + n, len(a), 2)}
    if t.op == "mcall":
        n = a[2]
        return (a[0], a[1]), list(a[3 : 3 + n]), {
            a[i]: a[i + 1] for i in range(3 + n, len(a), 2)
        }
    raise ValueError(t.op)


def callee_name(t):
    """Dotted external/opaque name of a call term's callee or None."""
    if t.op == "call" and t.args[0].op in ("ext", "glob", "func", "cls"):
        return t.args[0].args[0]
    return None
