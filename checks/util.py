"""Helpers shared by the checks."""

from sa import terms as tm
from sa.flow import Flow
from sa.match import core
from sa.program import AnalysisBroken
from sa.terms import cval, is_const, sym

CASTS = {"int", "float", "str", "bool", "numpy.float64", "numpy.array", "numpy.asarray", "list", "tuple"}


def lookup(prog, q):
    try:
        return prog.func(q)[1]
    except AnalysisBroken:
        pass
    for m, q2, n, c in prog.all_functions():
        if q2 == q:
            return n
    return None


def params(node):
    return [a.arg for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs]


def run(prog, q, only=(), opaque=(), self_cls=None, given=None, types=None):
    """Flow over q with every parameter symbolic; (flow, result, {parameter: symbol})."""
    f = lookup(prog, q)
    if f is None:
        raise AnalysisBroken("function %s not found" % q)
    ps = params(f)
    S = None
    ty = dict(types or {})
    if self_cls:
        S = sym("self")
        ty[S] = self_cls
        ps = ps[1:]
    args = {p: sym("p:" + p) for p in ps}
    args.update(given or {})
    fl = Flow(prog, only=set(only) or None, opaque=set(opaque), types=ty)
    fl.record_returns = True
    r = fl.run(q, args, self_t=S)
    return fl, r, args


def strip(t):
    """Without representation casts."""
    while isinstance(t, tm.T):
        if t.op == "call" and tm.callee_name(t) in CASTS:
            a = tm.call_parts(t)[1]
            if len(a) >= 1:
                t = a[0]
                continue
        if t.op == "mcall" and t.args[1] in ("copy", "astype", "tolist", "item"):
            t = t.args[0]
            continue
        return t
    return t


def items(t):
    """t = base[k1][k2]... as (base, [k1, k2, ...]); x[a, b] counts as two."""
    ks = []
    while t.op == "item":
        k = t.args[1]
        ks = (list(k.args) if k.op == "tup" else [k]) + ks
        t = t.args[0]
    return t, ks


def argmap(names, e):
    """The arguments of a call effect by parameter name."""
    out = dict(e.kwargs)
    for n, v in zip(names, e.args):
        out.setdefault(n, v)
    return out


def call_args(t, names):
    _, a, k = tm.call_parts(t)
    out = dict(k)
    for n, v in zip(names, a):
        out.setdefault(n, v)
    return out


def cond_leaves(t, gs=()):
    if t.op == "ite":
        return cond_leaves(t.args[1], tuple(gs) + ((t.args[0], True),)) + cond_leaves(t.args[2], tuple(gs) + ((t.args[0], False),))
    return [(t, tuple(gs))]


def atoms(gs):
    """Conjuncts of a guard list: [(atom, polarity)]."""
    out = []
    for g, p in gs:
        if g.op == "not":
            out += atoms([(g.args[0], not p)])
        elif (g.op == "and" and p) or (g.op == "or" and not p):
            for x in g.args:
                out += atoms([(x, p)])
        else:
            out.append((g, p))
    return out


def implied(gs, c):
    """Do the guards force c?"""
    from sa.match import tautology
    from sa.terms import cond_of, tnot, tor
    known = set(atoms(gs))
    if known and all(a in known for a in atoms([(c, True)])):
        return True
    return tautology(tor(tnot(cond_of(list(gs))), c), lambda a: None, 12)[0]


def mentions(fl, t, pred):
    return tm.contains(fl.deep(t), pred)


def config_keys(fl, t):
    """Configuration keys a value depends on."""
    out = set()
    for x in tm.walk(fl.deep(t)):
        if x.op == "item" and is_const(x.args[1]) and x.args[0].op == "attr" and x.args[0].args[1] == "config":
            out.add(cval(x.args[1]))
    return out


def outcomes(t, gs=(), _seen=None):
    """Values a term can end up with and the conditions of each; what loops carry over is what they set."""
    _seen = set() if _seen is None else _seen
    if t.op == "ite":
        c = t.args[0]
        return outcomes(t.args[1], tuple(gs) + ((c, True),), _seen) + outcomes(t.args[2], tuple(gs) + ((c, False),), _seen)
    if t.op == "loopout":
        return outcomes(t.args[1], gs, _seen) + outcomes(t.args[2], gs, _seen)
    if t.op == "loopphi" or t is tm.UNDEF:
        return []
    return [(t, tuple(gs))]


def effects(fl, kinds, name):
    """Effects of the kinds whose (last) name matches."""
    names = {name} if isinstance(name, str) else set(name)
    return [e for e in fl.effects if e.kind in kinds and e.name and (e.name in names or e.name.split(".")[-1] in names)]


def class_methods(prog, q):
    c = prog.cls(q)
    return dict(c.methods) if c is not None else {}
