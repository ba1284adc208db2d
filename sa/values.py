"""Values of expressions of the source whose leaves are given, computed with numpy here.

env maps terms to values; env["hook"], if given, is asked first: hook(fl, term, env) returns a value or NotImplemented.
"""

import math

import numpy as np

from . import terms as tm
from .fold import Fold
from .match import unfold
from .terms import FALSE, cond_of, cval, is_const, mk

NP = {"abs", "arccos", "sqrt", "dot", "clip", "sum", "min", "max", "minimum", "maximum", "percentile", "mean", "array", "asarray", "eye", "vstack", "stack", "ones", "ones_like", "zeros", "where", "matmul", "hypot",
      "logical_and", "less", "greater", "multiply", "sort", "quantile", "median", "cross", "arctan2", "cos", "degrees", "radians", "rad2deg", "deg2rad", "column_stack", "hstack", "arange", "linspace", "meshgrid", "concatenate", "square", "vdot", "inner", "deg2rad", "float32", "float64", "acos"}


def value(fl, t, env):
    """Value of an expression whose leaves are given: the arithmetic of the source, carried out here."""
    if t in env:
        return env[t]
    if "hook" in env:
        r = env["hook"](fl, t, env)
        if r is not NotImplemented:
            return r
    if t.op == "obj":
        h = fl.h(t)
        d = fl.deep(t)
        if d in env:
            return env[d]
        if h is not None and h.kind in ("list", "tuple") and all(not e.loops for e in h.log):
            return [value(fl, e.val, env) for e in h.log if Fold(decide=decided(fl, env), fl=fl).truth(cond_of(list(e.guards))) is not FALSE]
        if h is not None and h.kind not in ("dict", "set") and len(h.log) == 1 and len([L for L in h.log[0].loops if mk("elem", L, 0) not in env]) == 1:
            e = h.log[0]
            out = []
            for k, x in enumerate(value(fl, e.loops[-1], env)):
                e2 = {**env, mk("elem", e.loops[-1], 0): x, mk("idx", e.loops[-1]): k}
                if Fold(decide=decided(fl, e2), fl=fl).truth(cond_of(list(e.guards))) is not FALSE:
                    out.append(value(fl, e.val, e2))
            return out
    if is_const(t):
        return cval(t)
    o = t.op
    if o == "ext":
        n = t.args[0]
        if n in ("numpy.pi", "math.pi"):
            return math.pi
        if n in ("numpy.newaxis",):
            return None
        if n in ("numpy.mgrid", "numpy.r_", "numpy.c_", "numpy.s_"):
            return getattr(np, n.split(".")[-1])
        if n in ("numpy.uint8", "numpy.float32", "numpy.float64", "numpy.int32", "numpy.int64", "numpy.int8", "numpy.int16", "numpy.uint16", "numpy.uint32", "numpy.float16", "float", "int", "bool", "str"):
            return {"float": float, "int": int, "bool": bool, "str": str}.get(n) or getattr(np, n.split(".")[-1])
    if o == "item":
        b = value(fl, t.args[0], env)
        return b[value(fl, t.args[1], env)]
    if o == "slice":
        return slice(*[value(fl, x, env) if isinstance(x, tm.T) else x for x in t.args])
    if o == "slice_of":
        a = [value(fl, x, env) if isinstance(x, tm.T) else x for x in t.args]
        return a[0][slice(*a[1:])]
    if o == "tup":
        return tuple(value(fl, x, env) for x in t.args)
    if o == "attr":
        b = value(fl, t.args[0], env)
        if t.args[1] in ("T", "shape", "size", "ndim", "real"):
            return getattr(b, t.args[1])
        if t.args[1] in ("pi",):
            return math.pi
    if o == "bin":
        a, b = value(fl, t.args[1], env), value(fl, t.args[2], env)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and t.args[0] == "+":
            return list(a) + list(b)
        a, b = arr(a), arr(b)
        F = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b, "//": lambda: a // b, "%": lambda: a % b, "**": lambda: a ** b, "@": lambda: a @ b, "&": lambda: a & b, "|": lambda: a | b}
        if t.args[0] in F:
            return F[t.args[0]]()
    if o in ("add", "mul", "sum", "prod"):
        vs = [arr(value(fl, x, env)) for x in t.args]
        r = vs[0]
        for v in vs[1:]:
            r = r + v if o in ("add", "sum") else r * v
        return r
    if o == "un":
        v = arr(value(fl, t.args[1], env))
        return -v if t.args[0] == "-" else ~v if t.args[0] == "~" else v
    if o == "cmp":
        a, b = (value(fl, x, env) for x in t.args[1:3])
        if t.args[0] in ("is", "is not"):
            return (a is b) == (t.args[0] == "is")
        a, b = arr(a), arr(b)
        F = {"<": lambda: a < b, ">": lambda: a > b, "<=": lambda: a <= b, ">=": lambda: a >= b, "==": lambda: a == b, "!=": lambda: a != b}
        if t.args[0] in F:
            return F[t.args[0]]()
    if o == "not":
        return np.logical_not(value(fl, t.args[0], env))
    if o in ("and", "or"):
        r = value(fl, t.args[0], env)
        for x in t.args[1:]:
            if not np.all(r) if o == "and" else np.any(r):
                return r
            r = value(fl, x, env)
        return r
    if o == "nonempty":
        return bool(len(value(fl, t.args[0], env)))
    if o == "truthy":
        return bool(value(fl, t.args[0], env))
    if o == "ite":
        return value(fl, t.args[1] if np.all(value(fl, t.args[0], env)) else t.args[2], env)
    if o == "fmt":
        return value(fl, t.args[0], env)
    if o == "call":
        n = tm.callee_name(t) or ""
        c, a, k = tm.call_parts(t)
        last = n.split(".")[-1]
        if n == "numpy.linalg.norm" or n == "numpy.linalg.inv" or n == "numpy.linalg.solve":
            return getattr(np.linalg, last)(*[arr(value(fl, x, env)) for x in a], **{x: value(fl, y, env) for x, y in dict(k).items()})
        if n in ("min", "max", "int", "round", "float", "len", "abs", "bool", "sum", "list", "tuple", "sorted", "str", "range"):
            return __builtins__[n](*[value(fl, x, env) for x in a]) if isinstance(__builtins__, dict) else getattr(__builtins__, n)(*[value(fl, x, env) for x in a])
        if n == "map" and len(a) == 2:
            f = tm.callee_name(tm.call(a[0], []))
            if f in ("int", "float", "str"):
                return [{"int": int, "float": float, "str": str}[f](x) for x in value(fl, a[1], env)]
        if n in ("zip", "enumerate"):
            return list(zip(*[value(fl, x, env) for x in a])) if n == "zip" else list(enumerate(value(fl, a[0], env)))
        if n.startswith("math.") and hasattr(math, last):
            return getattr(math, last)(*[value(fl, x, env) for x in a])
        if n.startswith("numpy.") and last in NP:
            return getattr(np, last)(*[value(fl, x, env) for x in a], **{x: value(fl, y, env) for x, y in dict(k).items()})
    if o == "mcall":
        b = value(fl, t.args[0], env)
        a = [value(fl, x, env) for x in t.args[3:] if isinstance(x, tm.T)]
        if t.args[1] in ("ravel", "reshape", "dot", "flatten", "transpose", "astype", "copy", "sum", "min", "max", "clip", "mean", "tolist", "item"):
            return getattr(arr(b), t.args[1])(*a)
    raise LookupError(unfold(fl, t)[:100])


def arr(x):
    return np.asarray(x) if isinstance(x, (list, tuple)) else x


def decided(fl, env, more=None):
    def d(c):
        if more is not None:
            r = more(c)
            if r is not None:
                return r
        try:
            return bool(np.all(value(fl, c, env)))
        except (LookupError, TypeError, ValueError, IndexError, AttributeError):
            return None

    return d
