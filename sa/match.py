"""Comparing value terms up to representation-only conversions."""

from . import terms as tm
from .terms import FALSE, T, TRUE, UNDEF, cond_of, cval, is_const, mk, tand, tnot, tor

SEQ_CONV = {"list", "tuple", "numpy.array", "numpy.asarray", "numpy.copy", "numpy.ascontiguousarray", "copy.copy", "copy.deepcopy"}
FLT_CONV = {"float", "numpy.float64"}
INT_CONV = {"int"}
STR_CONV = {"str"}
METH_CONV = {"tolist", "copy", "__copy__"}


def leaves(t):
    """Possible values of a gated term, undefined branches dropped."""
    out, stack, seen = [], [t], set()
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            stack += [x.args[2], x.args[1]]
        elif x is UNDEF or x.op == "noreturn":
            continue
        elif x not in out:
            out.append(x)
    return out


def core(fl, t, conv=("seq", "flt")):
    """Strip conversions that keep the value; list comprehensions that copy; gates with one live value."""
    allowed = set()
    if "seq" in conv:
        allowed |= SEQ_CONV
    if "flt" in conv:
        allowed |= FLT_CONV
    if "int" in conv:
        allowed |= INT_CONV
    if "str" in conv:
        allowed |= STR_CONV
    for _ in range(60):
        if t.op == "ite":
            ls = leaves(t)
            cs = []
            for x in ls:
                c = core(fl, x, conv)
                if c not in cs:
                    cs.append(c)
            if len(cs) == 1:
                return cs[0]
            return t
        if t.op == "call":
            n = tm.callee_name(t)
            if n in allowed and t.args[1] >= 1:
                t = t.args[2]
                continue
        if t.op == "mcall":
            (recv, name), args, kw = tm.call_parts(t)
            if name in METH_CONV and not args:
                t = recv
                continue
            if name == "astype" and args and args[0].op == "ext" and args[0].args[0] in ("float", "numpy.float64", "numpy.double"):
                t = recv
                continue
        if t.op == "obj":
            h = fl.heap[t.args[0]]
            if h.kind == "ext" and h.cls.op == "copyof":
                t = h.cls.args[0]
                continue
            if h.kind in ("list", "iter"):
                ents = [e for e in h.log]
                if len(ents) == 1 and ents[0].kind == "spread":
                    t = ents[0].val
                    continue
                if len(ents) == 1 and ents[0].kind == "add" and ents[0].loops:
                    e = ents[0]
                    L = e.loops[-1]
                    own_guards = [g for g in e.guards if g not in h.guards]
                    if tuple(e.loops[:-1]) == tuple(h.loops) and not own_guards:
                        v = core(fl, e.val, conv)
                        if v.op == "elem" and v.args[0] is L:
                            t = L
                            continue
        if t.op == "elem":
            b = core(fl, t.args[0], conv)
            if b is not t.args[0]:
                t = mk("elem", b, t.args[1])
                continue
        if t.op == "item" and isinstance(t.args[0], T):
            b = core(fl, t.args[0], conv)
            if b is not t.args[0]:
                t = mk("item", b, t.args[1])
                continue
        return t
    return t


def seq_items(fl, t, conv=("seq", "flt")):
    """Elements of a fully known sequence after stripping conversions, else None."""
    t = core(fl, t, conv)
    if t.op == "tup":
        return list(t.args)
    if t.op == "obj":
        el = fl.elements(t)
        if el is not None and all(not L for _, _, L in el):
            h = fl.heap[t.args[0]]
            if all(set(e.guards) <= set(h.guards) | set(fl.path) for e in h.log):
                return [v for v, _, _ in el]
    return None


def same(fl, got, want, conv=("seq", "flt"), dim=None):
    """got carries exactly the value want (a term, or a list of terms for a vector)."""
    if isinstance(want, list):
        it = seq_items(fl, got, conv)
        if it is None:
            return False
        return len(it) == len(want) and all(same(fl, a, b, conv) for a, b in zip(it, want))
    g, w = core(fl, got, conv), core(fl, want, conv)
    if g is w:
        return True
    if dim:
        it = seq_items(fl, got, conv)
        if it is not None and len(it) == dim:
            return all(core(fl, x, conv) is mk("item", w, tm.const(i)) for i, x in enumerate(it))
    return False


def atoms_in(c):
    out = []
    stack = [c]
    while stack:
        x = stack.pop()
        if x.op in ("and", "not"):
            stack += list(x.args)
        elif x.op == "ite" and False:
            pass
        elif x not in out and x is not TRUE and x is not FALSE:
            out.append(x)
    return out


def evalc(c, env):
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    if c.op == "and":
        return all(evalc(x, env) for x in c.args)
    if c.op == "not":
        return not evalc(c.args[0], env)
    return env[c]


def tautology(cond, assume, limit=14):
    """Is cond true whenever the atoms decided by `assume` have those values?
    Returns (ok, undecided atoms that matter)."""
    ats = atoms_in(cond)
    env, free = {}, []
    for a in ats:
        v = assume(a)
        if v is None:
            free.append(a)
        else:
            env[a] = v
    if len(free) > limit:
        return False, free
    bad = []
    import itertools
    for vals in itertools.product((True, False), repeat=len(free)):
        env.update(zip(free, vals))
        if not evalc(cond, env):
            bad.append(dict(zip(free, vals)))
    if not bad:
        return True, []
    # atoms that appear with a single polarity in all failures explain it
    why = [a for a in free if len({b[a] for b in bad}) == 1]
    return False, why or free


def cover(guard_lists, assume, limit=14):
    """Do the alternatives together always apply?"""
    return tautology(tor(*[cond_of(g) for g in guard_lists]), assume, limit)


def unfold(fl, t, depth=10):
    """Readable text of a term with containers expanded."""
    return tm.show(fl.deep(t, depth))


def may_values(fl, t, depth=6):
    """Leaves of t, with look-ups in known containers under a symbolic key expanded to the stored values."""
    out = []
    for x in leaves(t):
        if x.op == "item" and depth:
            for b in may_values(fl, x.args[0], depth - 1):
                if b.op == "obj" and fl.heap[b.args[0]].kind == "dict":
                    for e in fl.heap[b.args[0]].log:
                        if e.kind == "set" and not fl.distinct(e.key, x.args[1]):
                            out += may_values(fl, e.val, depth - 1)
                elif b.op == "tup" and is_const(x.args[1]):
                    try:
                        out.append(b.args[cval(x.args[1])])
                    except Exception:
                        pass
                else:
                    out.append(mk("item", b, x.args[1]))
        else:
            out.append(x)
    r = []
    for x in out:
        if x not in r:
            r.append(x)
    return r


def covered_by(before, guards):
    """Whenever `guards` hold, one of the alternatives `before` (guard lists) holds too."""
    if any(set(b) <= set(guards) for b in before):
        return True
    if not before:
        return False
    ok, _ = tautology(tor(tnot(cond_of(guards)), *[cond_of(b) for b in before]), lambda a: None)
    return ok
