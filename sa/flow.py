"""Interprocedural value-flow analysis over the Python sources.

Gated value numbering: every expression gets a term saying where its value comes
from; branches are joined with gates (`ite`), loops are analysed once per abstract
element, calls into the repository are inlined (call-site sensitive), everything
else is an opaque call recorded as an *effect* with the conditions and loops it
runs under.  Mutable containers and objects are write-logs.  No repository code is
executed and no path constraint is solved: conditions are only compared
structurally.
"""

import ast

from . import terms as tm
from .program import AnalysisBroken, import_targets
from .terms import (FALSE, NONE, T, TRUE, UNDEF, atoms_of, attr, call, cond_of, const,
                    cval, is_const, item, ite, mcall, mk, tand, tnot, tor, tup)

BUILTIN_CONSTS = {"None": NONE, "True": TRUE, "False": FALSE}
FRESH_EXT = {
    "numpy.zeros", "numpy.empty", "numpy.ones", "numpy.full", "numpy.zeros_like",
    "numpy.ones_like", "numpy.empty_like", "numpy.eye", "open",
}
UNROLL = 64


NORETURN = {"sys.exit", "exit", "quit", "os._exit", "os.abort", "flask.abort", "werkzeug.exceptions.abort"}


class Entry:
    __slots__ = ("kind", "key", "val", "guards", "loops")

    def __init__(self, kind, key, val, guards, loops):
        self.kind, self.key, self.val, self.guards, self.loops = kind, key, val, guards, loops


class HObj:
    __slots__ = ("id", "kind", "cls", "log", "attrs", "factory", "args", "kwargs", "guards", "loops", "site", "carried")

    def __init__(self, id, kind, guards, loops):
        self.id, self.kind = id, kind
        self.cls = None
        self.log, self.attrs = [], []
        self.factory = None
        self.args, self.kwargs = (), ()
        self.guards, self.loops = guards, loops
        self.site = None
        self.carried = 0


class FuncVal:
    __slots__ = ("node", "mod", "qual", "closure", "self_t", "cls", "partial")

    def __init__(self, node, mod, qual, closure=None, self_t=None, cls=None):
        self.node, self.mod, self.qual = node, mod, qual
        self.closure, self.self_t, self.cls = closure, self_t, cls
        self.partial = None


class Eff:
    __slots__ = ("kind", "name", "recv", "args", "kwargs", "guards", "loops", "file", "line", "fn", "seq", "result", "caught", "lids")

    def arg(self, i, name=None):
        if name is not None and name in self.kwargs:
            return self.kwargs[name]
        if i is not None and i < len(self.args):
            return self.args[i]
        return None

    @property
    def where(self):
        return "%s:%s (%s)" % (self.file, self.line, self.fn[-1] if self.fn else "?")

    def __repr__(self):
        return "<%s %s.%s(%s %s) guards=%s loops=%s @%s>" % (
            self.kind, self.recv, self.name, list(self.args), self.kwargs,
            [(a, p) for a, p in self.guards], list(self.loops), self.where)


class Frame:
    __slots__ = ("env", "mod", "qual", "cls", "returns", "closure", "loopstack", "yields", "globals_", "raises", "caught0")

    def __init__(self, mod, qual, closure=None, cls=None):
        self.env, self.mod, self.qual = {}, mod, qual
        self.returns = []
        self.closure, self.cls = closure, cls
        self.loopstack = []
        self.yields = None
        self.globals_ = set()
        self.raises = []
        self.caught0 = 0


class Dead(Exception):
    pass


def stored_names(nodes):
    out = []

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.append(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    out.append(x.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.append(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.append(n.name)
        for c in ast.iter_child_nodes(n):
            visit(c)

    for n in nodes:
        visit(n)
    return out


class Flow:
    def __init__(self, prog, opaque=(), max_depth=14, budget=400000, opaque_methods=(), types=None, only=None, ext_models=None, opaque_prefix=()):
        self.record_returns = False
        self.opaque_prefix = tuple(opaque_prefix)
        self.prog = prog
        self.opaque = set(opaque)
        self.opaque_methods = set(opaque_methods)
        self.max_depth, self.budget = max_depth, budget
        self.only = only
        self.effects = []
        self.heap = {}
        self.theap = {}
        self.funcs = {}
        self.fkeys = {}
        self.path = ()
        self.loops = ()
        self.stack = []
        self.caught = 0
        self.gcache = {}
        self.types = dict(types or {})  # term -> class qualname
        self.steps = 0
        self.inlined = set()
        self.seq = 0
        self.ext_models = ext_models or {}
        self.fresh = 0
        self.pending = []
        self.phi_next = {}
        self.zips = set()
        self.lids = ()  # which statement a loop belongs to
        self.nloops = 0

    # ------------------------------------------------------------- helpers
    def new(self, kind, entries=()):
        h = HObj(len(self.heap), kind, self.path, self.loops)
        self.heap[h.id] = h
        for e in entries:
            h.log.append(e)
        return mk("obj", h.id), h

    def h(self, t):
        return self.heap[t.args[0]] if t.op == "obj" else None

    def th(self, t):
        if t.op == "obj":
            return self.heap[t.args[0]]
        if t not in self.theap:
            self.theap[t] = HObj(-1, "term", (), ())
        return self.theap[t]

    def entry(self, kind, key, val):
        return Entry(kind, key, val, self.path, self.loops)

    def emit(self, kind, name, recv=None, args=(), kwargs=None, node=None, result=None):
        e = Eff()
        e.kind, e.name, e.recv, e.args, e.kwargs = kind, name, recv, tuple(args), dict(kwargs or {})
        e.guards, e.loops, e.lids = self.path, self.loops, self.lids
        fr = self.frame
        e.file = fr.mod.rel if fr else "?"
        e.line = getattr(node, "lineno", 0)
        e.fn = tuple(f.qual for f in self.stack)
        e.seq = self.seq
        e.caught = self.caught
        self.seq += 1
        e.result = result
        self.effects.append(e)
        return e

    @property
    def frame(self):
        return self.stack[-1] if self.stack else None

    def func_term(self, fv):
        key = (id(fv.node), id(fv.closure) if fv.closure is not None else 0, fv.self_t, id(fv.partial) if fv.partial else 0)
        if key in self.fkeys:
            return self.fkeys[key]
        fid = len(self.funcs)
        t = mk("func", fv.qual, fid)
        self.funcs[fid] = fv
        self.fkeys[key] = t
        return t

    def relguards(self, guards):
        """Guards not already implied by the current path; None if contradicted."""
        out = []
        cur = self.path
        for g in guards:
            if g in cur:
                continue
            if (g[0], not g[1]) in cur:
                return None
            v = self.decide(g[0])
            if v is not None:
                if v != g[1]:
                    return None
                continue
            out.append(g)
        return out

    def decide(self, atom, depth=0):
        """Truth of an atom under the current path, if structurally known."""
        if atom is TRUE:
            return True
        if atom is FALSE:
            return False
        if (atom, True) in self.path:
            return True
        if (atom, False) in self.path:
            return False
        if depth > 6:
            return None
        if atom.op == "not":
            v = self.decide(atom.args[0], depth + 1)
            return None if v is None else not v
        if atom.op == "and":
            vs = [self.decide(a, depth + 1) for a in atom.args]
            if any(v is False for v in vs):
                return False
            if all(v is True for v in vs):
                return True
        return None

    def extra_loops(self, loops):
        cur = self.loops
        i = 0
        while i < len(cur) and i < len(loops) and cur[i] is loops[i]:
            i += 1
        return tuple(loops[i:])

    def entry_cond(self, e):
        g = self.relguards(e.guards)
        if g is None:
            return FALSE
        c = cond_of(g)
        for L in self.extra_loops(e.loops):
            c = tand(c, mk("loopran", L))
        return c

    def simplify(self, t):
        n = 0
        while t.op == "ite" and n < 50:
            v = self.decide(t.args[0])
            if v is None:
                break
            t = t.args[1] if v else t.args[2]
            n += 1
        return t

    # ---------------------------------------------------------- containers
    def log_get(self, log, key, default, fallback=None):
        parts = []
        end = default
        maybe = False
        for e in reversed(log):
            if e.kind == "set" or e.kind == "del":
                if e.key is key:
                    c = self.entry_cond(e)
                    if c is FALSE:
                        continue
                    v = e.val if e.kind == "set" else default
                    parts.append((c, v))
                    if c is TRUE:
                        end = None
                        break
                elif e.key is not None and not self.distinct(e.key, key):
                    maybe = True
            elif e.kind == "spread":
                c = self.entry_cond(e)
                if c is FALSE:
                    continue
                parts.append((c, item(e.val, key)))
                if c is TRUE:
                    end = None
                    break
            elif e.kind == "clear":
                c = self.entry_cond(e)
                if c is FALSE:
                    continue
                parts.append((c, default))
                if c is TRUE:
                    end = None
                    break
        found = bool(parts)
        if not parts:
            return (fallback if (maybe and fallback is not None) else default), False
        if end is None:
            v = parts[-1][1]
            parts = parts[:-1]
        else:
            v = end
        for c, x in reversed(parts):
            v = ite(c, x, v)
        return self.simplify(v), found

    def distinct(self, a, b):
        if a is b:
            return False
        if is_const(a) and is_const(b):
            return True
        if a.op == "tup" and b.op == "tup":
            if len(a.args) != len(b.args):
                return True
            return any(self.distinct(x, y) for x, y in zip(a.args, b.args))
        if (a.op == "tup") != (b.op == "tup") and (is_const(a) or is_const(b)):
            return True
        return False

    def has_key(self, h, key):
        c = FALSE
        unknown = False
        for e in reversed(h.log):
            ec = self.entry_cond(e)
            if ec is FALSE:
                continue
            if e.kind == "set":
                if e.key is key:
                    c = tor(c, ec)
                    if ec is TRUE:
                        return TRUE
                elif e.key is None or not self.distinct(e.key, key):
                    unknown = True
            elif e.kind == "add":
                if e.val is key:
                    c = tor(c, ec)
                elif not self.distinct(e.val, key):
                    unknown = True
            elif e.kind in ("spread",):
                c = tor(c, tand(ec, mk("cmp", "in", key, e.val)))
            else:
                unknown = True
        if unknown:
            return None
        return c

    def live(self, h):
        """Entries that may hold under the current path, resolved as (entry, cond, loops)."""
        out = []
        log = h.log
        for i, e in enumerate(log):
            if e.kind == "clear":
                if self.entry_cond(e) is TRUE:
                    out = []
                continue
            if e.kind == "del":
                if self.entry_cond(e) is TRUE:
                    out = [o for o in out if o.key is not e.key]
                continue
            if e.kind == "set" and h.kind in ("dict", "inst"):
                # later unconditional overwrite of the same key hides this one
                dead = False
                for f in log[i + 1:]:
                    if f.kind == "set" and f.key is e.key and set(f.guards) <= set(e.guards) and tuple(f.loops) == tuple(e.loops):
                        dead = True
                        break
                if dead:
                    continue
            if e.kind == "mutate":
                continue
            if self.entry_cond(e) is FALSE:
                continue
            out.append(e)
        return out

    def elements(self, t):
        """[(value, guards, loops)] of a known container; None when unknown."""
        if t.op == "tup":
            return [(x, (), ()) for x in t.args]
        if t.op == "const" and isinstance(cval(t), str) and len(cval(t)) <= UNROLL:
            return [(const(c), (), ()) for c in cval(t)]
        h = self.h(t)
        if h is None or h.kind not in ("list", "set", "dict", "iter"):
            return None
        out = []
        for e in self.live(h):
            g = self.relguards(e.guards)
            if g is None:
                continue
            L = self.extra_loops(e.loops)
            if e.kind == "spread":
                el = self.elements(e.val) if h.kind != "dict" else None
                if el is None:
                    lt = e.val
                    out.append((self.elem_term(lt), tuple(g), L + (lt,)))
                else:
                    for v, gg, ll in el:
                        out.append((v, tuple(g) + tuple(gg), L + tuple(ll)))
            elif e.kind == "set" and h.kind == "dict":
                out.append((e.key, tuple(g), L))
            else:
                out.append((e.val, tuple(g), L))
        return out

    def elem_term(self, it, loops=None):
        loops = self.loops if loops is None else loops
        n = sum(1 for L in loops if L is it)
        return mk("elem", it, n)

    def iter_items(self, t):
        """Abstract iteration: list of (elementvalue, guards, loops)."""
        t = self.simplify(t)
        el = self.elements(t)
        if el is not None and len(el) <= 400:
            h = self.h(t)
            if h is not None and h.carried:
                return list(el) + [(self.elem_term(t), (), (t,))]
            return el
        if t.op == "ite" and ite_paths(t) > 16:
            out = []
            for v in ite_leaves(t):
                for x, g, L in self.iter_items(v):
                    out.append((x, ((mk("cmp", "is", t, v), True),) + tuple(g), L))
            return out
        if t.op == "ite":
            out = []
            for v, c in ((t.args[1], t.args[0]), (t.args[2], tnot(t.args[0]))):
                for x, g, L in self.iter_items(v):
                    out.append((x, tuple(atoms_of(c)) + tuple(g), L))
            return out
        return self.sym_iter(t)

    def sym_iter(self, t):
        if t.op == "mcall" and t.args[2] == 0:
            recv, name = t.args[0], t.args[1]
            if name == "keys":
                return self.sym_iter(recv)
            if name == "values":
                k = self.elem_term(recv)
                return [(self.get_item(recv, k), (), (recv,))]
            if name == "items":
                k = self.elem_term(recv)
                return [(tup(k, self.get_item(recv, k)), (), (recv,))]
        if t.op == "call":
            n = tm.callee_name(t)
            _, args, kw = tm.call_parts(t)
            if n == "enumerate" and args:
                sub = self.iter_items(args[0])
                if len(sub) == 1 and sub[0][2]:
                    base = sub[0][2][-1]
                    part = args[0].op == "obj" and (sub[0][1] or len(sub[0][2]) > 1)  # a position among those kept
                    ix = mk("idx", args[0] if part else base)
                    if len(args) > 1 or "start" in kw:
                        ix = self.binop("+", ix, args[1] if len(args) > 1 else kw["start"])
                    return [(tup(ix, sub[0][0]), sub[0][1], sub[0][2])]
            if n == "zip" and args and not kw:
                parts = [self.iter_items(a) for a in args]
                if all(len(p) == 1 for p in parts):
                    g, L = (), ()
                    for p in parts:
                        g += tuple(p[0][1])
                        L += tuple(x for x in p[0][2] if x not in L)
                    self.zips.add(L)
                    return [(tup(*[p[0][0] for p in parts]), g, L)]
            if n == "range" and len(args) == 1 and args[0].op == "call" and tm.callee_name(args[0]) == "len":
                x = tm.call_parts(args[0])[1][0]
                return [(mk("idx", x), (), (x,))]
            if n in ("list", "tuple", "iter") and len(args) == 1:
                return self.iter_items(args[0])
        return [(self.elem_term(t), (), (t,))]

    # ---------------------------------------------------------------- deep
    def deep(self, t, depth=12, memo=None):
        """Structural snapshot of a term: heap references expanded."""
        if memo is None:
            memo = {}
        if depth <= 0:
            return mk("deepcut")
        if t in memo:
            return memo[t]
        if t.op == "obj":
            memo[t] = mk("cycle", t.args[0])
            h = self.heap[t.args[0]]
            r = self._deep_obj(h, depth - 1, memo)
            memo[t] = r
            return r
        if t.op == "func":
            return t
        if not any(isinstance(a, T) for a in t.args):
            return t
        new = [self.deep(a, depth, memo) if isinstance(a, T) else a for a in t.args]
        r = mk(t.op, *new) if t.op != "ite" else ite(*new)
        memo[t] = r
        return r

    def _deep_obj(self, h, depth, memo):
        if h.kind == "ext":
            a = [self.deep(x, depth, memo) for x in h.args]
            k = [(n, self.deep(v, depth, memo)) for n, v in h.kwargs]
            base = call(h.cls, a, k)
            return base
        ents = []
        for e in self.live(h):
            g = self.relguards(e.guards) or []
            L = self.extra_loops(e.loops)
            ents.append(mk("entry", e.kind,
                           self.deep(e.key, depth, memo) if isinstance(e.key, T) else NONE,
                           self.deep(e.val, depth, memo) if isinstance(e.val, T) else NONE,
                           self.deep(cond_of(g), depth, memo),
                           tup(*[self.deep(x, depth, memo) for x in L])))
        if h.kind == "inst":
            ats = []
            for e in h.attrs:
                ats.append(mk("entry", "attr", e.key, self.deep(e.val, depth, memo), cond_of(e.guards), tup()))
            return mk("inst", h.cls, *ats)
        return mk(h.kind, *ents)

    # ------------------------------------------------------------ name/attr
    def module_attr(self, modname, name):
        m = self.prog.modules[modname]
        if name in m.funcs:
            return self.func_term(FuncVal(m.funcs[name], m, m.name + "." + name))
        if name in m.classes:
            return mk("cls", m.classes[name].qual)
        if name in m.imports:
            return self.dotted(m.imports[name])
        if name in m.assigns:
            return self.module_global(m, name)
        sub = modname + "." + name
        if sub in self.prog.modules:
            return mk("mod", sub)
        return mk("ext", modname + "." + name)

    def dotted(self, d):
        r = self.prog.resolve(d)
        if r[0] == "mod":
            return mk("mod", r[1])
        if r[0] == "func":
            m, node = r[1], r[2]
            q = d
            for n2, f in m.funcs.items():
                if f is node:
                    q = m.name + "." + n2
            return self.func_term(FuncVal(node, m, q))
        if r[0] == "class":
            return mk("cls", r[1].qual)
        if r[0] == "var":
            return self.module_global(r[1], r[2])
        return mk("ext", r[1])

    def module_global(self, m, name):
        key = (m.name, name)
        if key in self.gcache:
            return self.gcache[key]
        node = m.assigns.get(name)
        if node is None or name in m.multi or self.steps > self.budget:
            t = mk("glob", m.name + "." + name)
            self.gcache[key] = t
            return t
        self.gcache[key] = mk("glob", m.name + "." + name)
        sp, sl = self.path, self.loops
        self.path, self.loops = (), ()
        self.stack.append(Frame(m, m.name))
        try:
            v = self.ev(node)
        finally:
            self.stack.pop()
            self.path, self.loops = sp, sl
        if v.op == "call" or v.op == "mcall":
            v = mk("glob", m.name + "." + name)
        self.gcache[key] = v
        return v

    def lookup(self, name):
        fr = self.frame
        if name not in fr.globals_:
            if name in fr.env:
                v = self.simplify(fr.env[name])
                return v
            c = fr.closure
            while c is not None:
                if name in c.env:
                    return self.simplify(c.env[name])
                c = c.closure
        m = fr.mod
        if name in m.funcs or name in m.classes or name in m.imports or name in m.assigns:
            return self.module_attr(m.name, name)
        if name in BUILTIN_CONSTS:
            return BUILTIN_CONSTS[name]
        return mk("ext", name)

    def typeof(self, t):
        if t in self.types:
            return self.types[t]
        if t.op == "sym" and t.args[1]:
            return t.args[1]
        h = self.h(t)
        if h is not None and h.kind == "inst":
            return h.cls
        return None

    def getattr(self, t, name, node=None):
        t = self.simplify(t)
        if t.op == "mod":
            return self.module_attr(t.args[0], name)
        if t.op == "ext":
            return mk("ext", t.args[0] + "." + name)
        if t.op == "ite":
            a = self.under(t.args[0], lambda: self.getattr(t.args[1], name, node))
            b = self.under(tnot(t.args[0]), lambda: self.getattr(t.args[2], name, node))
            return ite(t.args[0], a, b)
        if t.op == "cls":
            ci = self.prog.cls(t.args[0])
            c, fn = self.prog.find_method(ci, name)
            if fn is not None:
                decs = [ast.unparse(d) for d in fn.decorator_list]
                return self.func_term(FuncVal(fn, c.mod, c.qual + "." + name, None, t if "classmethod" in decs else None, c))
            for c in self.prog.mro(ci):
                if name in c.assigns:
                    return self.class_assign(c, name)
            return attr(t, name)
        h = self.heap.get(t.args[0]) if t.op == "obj" else self.theap.get(t)
        if h is not None and h.attrs:
            k = const(name)
            log = h.attrs
            fb = attr(t, name)
            v, found = self.log_get(log, k, fb)
            if found and v.op != "ite":
                return v
            if found:
                return v
        cls = self.typeof(t)
        if cls:
            try:
                ci = self.prog.cls(cls)
            except AnalysisBroken:
                ci = None
            if ci is not None:
                for c in self.prog.mro(ci):
                    if name in c.props and any((c.qual + ".").startswith(x) for x in self.opaque_prefix):
                        return attr(t, name)
                    if name in c.props:
                        fv = FuncVal(c.props[name], c.mod, c.qual + "." + name, None, t, c)
                        return self.invoke(self.func_term(fv), [], {}, node)
                c, fn = self.prog.find_method(ci, name)
                if fn is not None:
                    decs = [ast.unparse(d) for d in fn.decorator_list]
                    return self.func_term(FuncVal(fn, c.mod, c.qual + "." + name, None, None if "staticmethod" in decs else t, c))
                for c in self.prog.mro(ci):
                    if name in c.assigns and not (t.op == "obj" and ci.qual in self.opaque):
                        return self.class_assign(c, name)
        return attr(t, name)

    def class_assign(self, c, name):
        key = (c.qual, name)
        if key not in self.gcache:
            self.stack.append(Frame(c.mod, c.qual))
            sp, sl = self.path, self.loops
            self.path, self.loops = (), ()
            try:
                self.gcache[key] = self.ev(c.assigns[name])
            finally:
                self.stack.pop()
                self.path, self.loops = sp, sl
        return self.gcache[key]

    def at(self, eff, f, *conds):
        """f() evaluated where (and under the conditions in which) an effect happens."""
        sp, sl = self.path, self.loops
        self.path, self.loops = tuple(eff.guards), tuple(eff.loops)
        for c in conds:
            self.path += tuple(a for a in atoms_of(c) if a not in self.path)
        try:
            return f()
        finally:
            self.path, self.loops = sp, sl

    def under(self, cond, f):
        if cond is FALSE:
            return UNDEF
        sp = self.path
        self.path = sp + tuple(a for a in atoms_of(cond) if a not in sp)
        try:
            return f()
        finally:
            self.path = sp

    def setattr(self, t, name, v, node=None):
        t = self.simplify(t)
        if t.op == "ite":
            self.under(t.args[0], lambda: self.setattr(t.args[1], name, v, node))
            self.under(tnot(t.args[0]), lambda: self.setattr(t.args[2], name, v, node))
            return
        self.emit("setattr", name, t, (v,), node=node)
        h = self.th(t)
        h.attrs.append(self.entry("set", const(name), v))

    # ----------------------------------------------------------------- item
    def get_item(self, t, k):
        t = self.simplify(t)
        k = self.simplify(k)
        if k.op == "ite" and k.args[1].op == "const" and k.args[2].op == "const":
            return ite(k.args[0], self.get_item(t, k.args[1]), self.get_item(t, k.args[2]))
        if t.op == "tup" and is_const(k) and isinstance(cval(k), int) and -len(t.args) <= cval(k) < len(t.args):
            return t.args[cval(k)]
        if t.op == "const" and is_const(k) and isinstance(cval(t), (str, tuple)) and isinstance(cval(k), int):
            try:
                return const(cval(t)[cval(k)])
            except Exception:
                return item(t, k)
        if t.op == "ite":
            a = self.under(t.args[0], lambda: self.get_item(t.args[1], k))
            b = self.under(tnot(t.args[0]), lambda: self.get_item(t.args[2], k))
            return ite(t.args[0], a, b)
        if t is NONE or t is UNDEF:
            return UNDEF
        if k.op == "idx" and k.args[0] is t:
            return self.elem_term(t, self.loops[:-1] if t in self.loops else self.loops) if t.op != "obj" else item(t, k)
        if t.op == "slice_of" and is_const(k) and isinstance(cval(k), int) and cval(k) >= 0:
            base, lo, hi, st = t.args
            if st is NONE and (lo is NONE or (is_const(lo) and isinstance(cval(lo), int) and cval(lo) >= 0)):
                off = 0 if lo is NONE else cval(lo)
                return self.get_item(base, const(off + cval(k)))
        if t.op == "call" and tm.callee_name(t) in ("list", "tuple", "numpy.array", "numpy.asarray") and is_const(k) and t.args[1] == 1:
            inner = t.args[2]
            if inner.op == "tup" or (inner.op == "obj" and self.h(inner).kind == "list"):
                return self.get_item(inner, k)
        h = self.h(t)
        if h is None and t in self.theap:
            v, f = self.log_get(self.theap[t].log, k, item(t, k))
            return v
        if h is None:
            return item(t, k)
        if h.kind in ("dict", "ext", "inst", "term"):
            v, f = self.log_get(h.log, k, UNDEF if (h.kind == "dict" and h.factory is None and not h.carried) else item(t, k), item(t, k))
            if h.factory is not None and v is item(t, k):
                nv = self.make_default(h.factory)
                if nv is not None and (h.carried or any(e.kind == "set" and e.key is not None and not self.distinct(e.key, k) for e in h.log)):
                    p0 = self.path
                    self.path = p0 + ((mk("cmp", "in", k, t), False),)
                    h.log.append(self.entry("set", k, nv))
                    self.path = p0
                    return item(t, k)
                if nv is not None:
                    h.log.append(self.entry("set", k, nv))
                    return nv
            if h.kind == "dict" and v is UNDEF and not is_const(k):
                return item(t, k)
            return v
        if h.kind in ("list", "iter") and is_const(k) and isinstance(cval(k), int):
            ents = self.live(h)
            if len(ents) == 1 and ents[0].kind == "add" and self.relguards(ents[0].guards) == []:
                L = self.extra_loops(ents[0].loops)
                if len(L) == 1 and not tm.contains(ents[0].val, lambda x: x.op in ("obj", "idx")):
                    el = mk("elem", L[0], sum(1 for x in h.loops if x is L[0]))
                    return tm.subst(ents[0].val, {el: self.get_item(L[0], k)})
        if h.kind == "list" and is_const(k) and isinstance(cval(k), int):
            v, f = self.log_get([e for e in h.log if e.kind == "set"], k, UNDEF)
            if f and v is not UNDEF:
                return v
            ents = [e for e in self.live(h) if e.kind != "set"]
            i = cval(k)
            seq = ents if i >= 0 else list(reversed(ents))
            j = i if i >= 0 else -i - 1
            if j < len(seq) and all(self.entry_cond(e) is TRUE and not self.extra_loops(e.loops) and e.kind == "add" for e in seq[: j + 1]):
                return seq[j].val
        return item(t, k)

    def make_default(self, factory):
        if factory.op == "ext" and factory.args[0] in ("list", "set", "dict"):
            t, _ = self.new(factory.args[0])
            return t
        if factory.op == "ext" and factory.args[0] == "int":
            return const(0)
        if factory.op == "ext" and factory.args[0] == "float":
            return const(0.0)
        if factory.op == "func":
            return self.invoke(factory, [], {}, None)
        return None

    def set_item(self, t, k, v, node=None):
        t = self.simplify(t)
        if t.op == "ite":
            self.under(t.args[0], lambda: self.set_item(t.args[1], k, v, node))
            self.under(tnot(t.args[0]), lambda: self.set_item(t.args[2], k, v, node))
            return
        h = self.h(t)
        self.emit("setitem", None, t, (k, v), node=node)
        if h is not None:
            h.log.append(self.entry("set", k, v))
        else:
            self.th(t).log.append(self.entry("set", k, v))

    # ---------------------------------------------------------------- calls
    def bind(self, fv, args, kwargs):
        a = fv.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        vals = {}
        pos = list(args)
        star = None
        if len(pos) > len(params):
            star = pos[len(params):]
            pos = pos[: len(params)]
        for p, v in zip(params, pos):
            vals[p] = v
        extra = {}
        names = set(params) | {p.arg for p in a.kwonlyargs}
        for k, v in kwargs.items():
            if k in names:
                vals[k] = v
            else:
                extra[k] = v
        return params, vals, star, extra

    def invoke(self, f, args, kwargs, node):
        """Call term f with argument terms."""
        f = self.simplify(f)
        if f.op == "ite":
            a = self.under(f.args[0], lambda: self.invoke(f.args[1], args, kwargs, node))
            b = self.under(tnot(f.args[0]), lambda: self.invoke(f.args[2], args, kwargs, node))
            return ite(f.args[0], a, b)
        if f.op == "func":
            return self.call_func(self.funcs[f.args[1]], f, args, kwargs, node)
        if f.op == "cls":
            return self.instantiate(f.args[0], args, kwargs, node)
        if f.op == "ext":
            return self.call_ext(f.args[0], args, kwargs, node)
        if f.op == "attr":
            return self.call_method(f.args[0], f.args[1], args, kwargs, node)
        if f.op == "partial":
            pa = list(f.args[2: 2 + f.args[1]])
            rest = f.args[2 + f.args[1]:]
            kw = dict(zip(rest[0::2], rest[1::2]))
            kw.update(kwargs)
            return self.invoke(f.args[0], pa + list(args), kw, node)
        if f.op == "obj":
            h = self.h(f)
            if h.kind == "inst":
                g = self.getattr(f, "__call__")
                if g.op == "func":
                    return self.invoke(g, args, kwargs, node)
        r = call(f, args, kwargs.items())
        self.emit("call", None, f, args, kwargs, node, r)
        return r

    def call_func(self, fv, fterm, args, kwargs, node):
        qual = fv.qual
        all_args = list(args)
        if fv.self_t is not None:
            all_args = [fv.self_t] + all_args
        short = qual.rsplit(".", 1)[-1]
        stop = (
            qual in self.opaque
            or any(qual.startswith(x) for x in self.opaque_prefix)
            or short in self.opaque_methods
            or (self.only is not None and fv.mod.name not in self.only)
            or len(self.stack) > self.max_depth
            or self.steps > self.budget
            or any(f.qual == qual and f.closure is fv.closure for f in self.stack)
            and sum(1 for f in self.stack if f.qual == qual) >= 1
        )
        if stop:
            if fv.self_t is not None:
                params, vals, star, extra = self.bind(fv, all_args, kwargs)
                vals.pop(params[0], None)
                vals.update(extra)
                kw = dict(vals)
                r = mcall(fv.self_t, short, star or [], kw.items())
                self.emit("call", qual, fv.self_t, star or [], kw, node, r)
                return r
            params, vals, star, extra = self.bind(fv, all_args, kwargs)
            vals.update(extra)
            r = call(mk("glob", qual), star or [], vals.items())
            self.emit("call", qual, None, star or [], vals, node, r)
            return r
        self.inlined.add(qual)
        fr = Frame(fv.mod, qual, fv.closure, fv.cls)
        a = fv.node.args
        params, vals, star, extra = self.bind(fv, all_args, kwargs)
        env = fr.env
        # defaults evaluated in the defining module
        posall = a.posonlyargs + a.args
        nd = len(a.defaults)
        dflt = {}
        for p, d in zip(posall[len(posall) - nd:], a.defaults):
            dflt[p.arg] = d
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                dflt[p.arg] = d
        for p in posall + a.kwonlyargs:
            n = p.arg
            if n in vals:
                env[n] = vals[n]
            elif n in dflt:
                self.stack.append(Frame(fv.mod, qual, fv.closure))
                env[n] = self.ev(dflt[n])
                self.stack.pop()
            else:
                env[n] = mk("sym", qual + ":" + n, "")
        if a.vararg:
            env[a.vararg.arg] = tup(*star) if star or self.stack else tm.sym(a.vararg.arg)
        if a.kwarg:
            t, h = self.new("dict")
            for k, v in extra.items():
                h.log.append(self.entry("set", const(k), v))
            env[a.kwarg.arg] = t
        return self.run_frame(fr, fv.node)

    def run_frame(self, fr, fnode):
        sp, sl = self.path, self.loops
        fr.caught0 = self.caught
        post = []
        self.stack.append(fr)
        try:
            if isinstance(fnode, ast.Lambda):
                return self.ev(fnode.body)
            if has_yield(fnode):
                yt, yh = self.new("iter")
                fr.yields = yh
            alive = self.block(fnode.body)
            n = len(sp)
            rets = fr.returns
            if fr.yields is not None:
                return yt
            if not rets:
                return NONE if alive else mk("noreturn")
            v = NONE if alive else rets[-1][2]
            if not alive:
                rets = rets[:-1]
            self.path, self.loops = sp, sl
            for g, L, x in reversed(rets):
                rg = self.relguards(g)
                if rg is None:
                    continue
                c = cond_of(rg)
                for l in self.extra_loops(L):
                    c = tand(c, mk("loopran", l))
                v = ite(c, x, v)
            return v
        finally:
            self.stack.pop()
            self.path, self.loops = sp, sl
            for g in fr.raises:
                rg = self.relguards(g)
                if rg is None:
                    continue
                if not rg:
                    continue
                post += [a for a in atoms_of(tnot(cond_of(rg))) if a not in sp and a not in post]
                parent = self.frame
                if parent is not None and self.caught == parent.caught0:
                    parent.raises.append(g)
            self.path = sp + tuple(post)

    def instantiate(self, qual, args, kwargs, node):
        ci = self.prog.cls(qual)
        t, h = self.new("inst")
        h.cls = qual
        h.args, h.kwargs = tuple(args), tuple(sorted(kwargs.items()))
        c, fn = self.prog.find_method(ci, "__init__")
        self.emit("new", qual, None, args, kwargs, node, t)
        if fn is not None and qual not in self.opaque and not any((qual + ".").startswith(x) for x in self.opaque_prefix) and (self.only is None or ci.mod.name in self.only):
            fv = FuncVal(fn, c.mod, c.qual + ".__init__", None, t, c)
            self.call_func(fv, None, args, kwargs, node)
        else:
            fields = list(ci.ann)
            for n, v in zip(fields, args):
                h.attrs.append(self.entry("set", const(n), v))
            for n, v in kwargs.items():
                h.attrs.append(self.entry("set", const(n), v))
        return t

    def as_list(self, x, kind="list"):
        t, h = self.new(kind)
        sp = self.path
        for v, g, L in self.iter_items(x):
            h.log.append(Entry("add", None, v, self.path + tuple(g), self.loops + tuple(L)))
        return t

    def call_ext(self, name, args, kwargs, node):
        m = self.ext_models.get(name)
        if m is not None:
            r = m(self, args, kwargs, node)
            if r is not None:
                return r
        if name in NORETURN:
            self.emit("raise", name, None, tuple(args), kwargs, node=node)
            if self.caught == self.frame.caught0 and not self.frame.loopstack:
                self.frame.raises.append(self.path)
            return mk("noreturn")
        if name in ("list", "tuple", "set", "frozenset", "iter", "sorted", "reversed"):
            if not args:
                return self.new("set" if name in ("set", "frozenset") else "list")[0] if name != "tuple" else tup()
            x = self.simplify(args[0])
            el = self.elements(x)
            if el is not None and name in ("list", "tuple", "iter", "set", "frozenset"):
                if name == "tuple" and all(not g and not L for _, g, L in el):
                    return tup(*[v for v, _, _ in el])
                return self.as_list(x, "set" if name in ("set", "frozenset") else "list")
            if el is not None and name in ("sorted", "reversed") and el and all(not g and not L for _, g, L in el) and all(is_const(v) for v, _, _ in el):
                vals = [cval(v) for v, _, _ in el]
                try:
                    vals = list(reversed(vals)) if name == "reversed" else sorted(vals)
                    t, h = self.new("list")
                    for v in vals:
                        h.log.append(self.entry("add", None, const(v)))
                    return t
                except TypeError:
                    pass
            if x.op == "ite" and name in ("list", "tuple"):
                return ite(x.args[0], self.under(x.args[0], lambda: self.call_ext(name, [x.args[1]], kwargs, node)),
                           self.under(tnot(x.args[0]), lambda: self.call_ext(name, [x.args[2]], kwargs, node)))
            r = call(mk("ext", name), args, kwargs.items())
            return r
        if name == "dict" or name in ("collections.OrderedDict",):
            t, h = self.new("dict")
            for a in args:
                self.dict_update(t, a)
            for k, v in kwargs.items():
                h.log.append(self.entry("set", const(k), v))
            return t
        if name in ("collections.defaultdict", "collections.Counter"):
            t, h = self.new("dict")
            h.factory = args[0] if args and name.endswith("defaultdict") else (mk("ext", "int") if name.endswith("Counter") and not args else mk("ext", "none"))
            return t
        if name == "len" and len(args) == 1:
            x = self.simplify(args[0])
            el = self.elements(x)
            if x.op == "const" and isinstance(cval(x), str):
                return const(len(cval(x)))
            if el is not None and all(not g and not L for _, g, L in el) and not (self.h(x) and (self.h(x).kind == "set" or self.h(x).carried)):
                return const(len(el))
            return call(mk("ext", "len"), [x])
        if name == "getattr" and len(args) >= 2 and is_const(args[1]):
            if len(args) == 2:
                return self.getattr(args[0], cval(args[1]), node)
        if name == "setattr" and len(args) == 3 and is_const(args[1]):
            self.setattr(args[0], cval(args[1]), args[2], node)
            return NONE
        if name == "hasattr" and len(args) == 2:
            return call(mk("ext", "hasattr"), args)
        if name == "isinstance":
            return call(mk("ext", "isinstance"), args)
        if name == "bool" and len(args) == 1:
            return self.truth(args[0])
        if name in ("map", "filter") and len(args) >= 2:
            t, h = self.new("iter")
            if len(args) == 2:
                srcs = self.iter_items(args[1])
            else:
                z = call(mk("ext", "zip"), args[1:])
                srcs = self.iter_items(z)
            for v, g, L in srcs:
                sp, sl = self.path, self.loops
                self.path, self.loops = sp + tuple(x for x in g if x not in sp), sl + tuple(L)
                if name == "map":
                    r = self.invoke(args[0], list(v.args) if len(args) > 2 and v.op == "tup" else [v], {}, node)
                    h.log.append(self.entry("add", None, r))
                else:
                    c = self.truth(v if args[0] is NONE else self.invoke(args[0], [v], {}, node))
                    self.path = self.path + tuple(a for a in atoms_of(c) if a not in self.path)
                    if c is not FALSE:
                        h.log.append(self.entry("add", None, v))
                self.path, self.loops = sp, sl
            return t
        if name in ("zip",) and args:
            els = [self.elements(self.simplify(a)) for a in args]
            if all(e is not None and all(not g and not L for _, g, L in e) for e in els):
                t, h = self.new("iter")
                for vs in zip(*els):
                    h.log.append(self.entry("add", None, tup(*[v[0] for v in vs])))
                return t
            return call(mk("ext", "zip"), args, kwargs.items())
        if name == "enumerate" and args:
            el = self.elements(self.simplify(args[0]))
            if el is not None and all(not g and not L for _, g, L in el):
                st = args[1] if len(args) > 1 else kwargs.get("start", const(0))
                if is_const(st):
                    t, h = self.new("iter")
                    for i, (v, _, _) in enumerate(el):
                        h.log.append(self.entry("add", None, tup(const(i + cval(st)), v)))
                    return t
            return call(mk("ext", "enumerate"), args, kwargs.items())
        if name == "range" and all(is_const(a) and isinstance(cval(a), int) for a in args):
            r = range(*[cval(a) for a in args])
            if len(r) <= UNROLL:
                t, h = self.new("iter")
                for i in r:
                    h.log.append(self.entry("add", None, const(i)))
                return t
        if name in ("range", "hash", "id", "type", "repr", "abs", "min", "max", "sum", "any", "all", "round", "ord", "chr"):
            if name == "min" or name == "max" or name == "sum":
                pass
            r = call(mk("ext", name), args, kwargs.items())
            self.emit("call", name, None, args, kwargs, node, r)
            return r
        if name in ("str", "int", "float") and len(args) == 1 and is_const(args[0]):
            try:
                return const({"str": str, "int": int, "float": float}[name](cval(args[0])))
            except Exception:
                pass
        if name == "str" and len(args) == 1 and args[0].op in ("strcat",):
            return args[0]
        if name in ("os.path.join", "posixpath.join"):
            parts = []
            for a in args:
                if a.op == "join":
                    parts += list(a.args)
                else:
                    parts.append(a)
            r = mk("join", *parts)
            return r
        if name == "functools.partial" and args:
            flat = []
            for k, v in sorted(kwargs.items()):
                flat += [k, v]
            return mk("partial", args[0], len(args) - 1, *args[1:], *flat)
        if name == "super":
            fr = self.frame
            if fr.cls is not None and not args:
                first = None
                for a in fr.env:
                    first = fr.env[a]
                    break
                return mk("super", fr.cls.qual, first if first is not None else NONE)
        if name in ("copy.copy", "copy.deepcopy") and args:
            h = self.h(args[0])
            if h is not None and h.kind in ("list", "dict", "set"):
                t, g = self.new(h.kind)
                g.factory = h.factory
                g.log = list(h.log)
                return t
        if name in ("operator.itemgetter", "operator.attrgetter"):
            return mk("getter", name, *args)
        last = name.rsplit(".", 1)[-1]
        if name in FRESH_EXT or (last[:1].isupper() and not last.isupper() and not name.endswith("Error")):
            t, h = self.new("ext")
            h.cls = mk("ext", name)
            h.args, h.kwargs = tuple(args), tuple(sorted(kwargs.items()))
            self.emit("call", name, None, args, kwargs, node, t)
            return t
        r = call(mk("ext", name), args, kwargs.items())
        self.emit("call", name, None, args, kwargs, node, r)
        return r

    def dict_update(self, t, src):
        h = self.h(t)
        src = self.simplify(src)
        if src.op == "ite":
            self.under(src.args[0], lambda: self.dict_update(t, src.args[1]))
            self.under(tnot(src.args[0]), lambda: self.dict_update(t, src.args[2]))
            return
        s = self.h(src)
        if s is not None and s.kind == "dict":
            for e in self.live(s):
                g = self.relguards(e.guards)
                if g is None:
                    continue
                h.log.append(Entry(e.kind, e.key, e.val, self.path + tuple(g), self.loops + self.extra_loops(e.loops)))
        elif s is not None and s.kind in ("list", "iter"):
            for v, g, L in self.iter_items(src):
                k, x = self.get_item(v, const(0)), self.get_item(v, const(1))
                h.log.append(Entry("set", k, x, self.path + tuple(g), self.loops + tuple(L)))
        else:
            h.log.append(self.entry("spread", None, src))

    def alias_mutation(self, recv, name, args):
        """A container reached through another one may be any of its elements: each of them may have got the new content."""
        b = recv
        while b.op in ("item", "elem"):
            b = b.args[0]
        h = self.h(b)
        if h is None:
            return
        x = self.entry(None, None, args[0] if args else None)
        self.pending.append((h, recv, name, x, set()))
        self.alias_apply(self.pending[-1])

    def alias_apply(self, p):
        h, recv, name, x, done = p
        for e in list(h.log):
            v = e.val
            o = self.h(v) if isinstance(v, T) and v.op == "obj" else None
            if o is None or o.kind not in ("list", "set", "dict", "iter") or o.id in done:
                continue
            done.add(o.id)
            kind = {"append": "add", "add": "add", "appendleft": "add", "extend": "spread"}.get(name)
            if kind is None or x.val is None or o.kind == "dict":
                o.carried += 1
                continue
            # possibly in other iterations than the one that made the element
            o.log.append(Entry(kind, None, x.val, ((mk("alias", recv, v), True),), tuple(x.loops) + (recv,)))

    def call_method(self, recv, name, args, kwargs, node):
        recv = self.simplify(recv)
        if recv.op == "ite":
            a = self.under(recv.args[0], lambda: self.call_method(recv.args[1], name, args, kwargs, node))
            b = self.under(tnot(recv.args[0]), lambda: self.call_method(recv.args[2], name, args, kwargs, node))
            return ite(recv.args[0], a, b)
        if recv.op == "super":
            ci = self.prog.cls(recv.args[0])
            for c in self.prog.mro(ci)[1:]:
                if name in c.methods:
                    fv = FuncVal(c.methods[name], c.mod, c.qual + "." + name, None, recv.args[1], c)
                    return self.call_func(fv, None, args, kwargs, node)
            return NONE
        if recv.op in ("mod", "ext", "cls"):
            f = self.getattr(recv, name, node)
            if f.op == "attr":
                r = mcall(recv, name, args, kwargs.items())
                self.emit("mcall", name, recv, args, kwargs, node, r)
                return r
            return self.invoke(f, args, kwargs, node)
        h = self.h(recv)
        if h is not None and h.kind in ("list", "set", "dict", "iter"):
            r = self.container_method(recv, h, name, args, kwargs, node)
            if r is not None:
                return r
        if h is None and name in self.MUTATORS and recv.op in ("item", "elem"):
            self.alias_mutation(recv, name, args)
        if recv.op == "const" and isinstance(cval(recv), str):
            if all(is_const(a) for a in args) and not kwargs and name in ("upper", "lower", "strip", "split", "startswith", "endswith", "replace", "format", "join", "lstrip", "rstrip"):
                try:
                    v = getattr(cval(recv), name)(*[cval(a) for a in args])
                    if isinstance(v, list):
                        t, hh = self.new("list")
                        for x in v:
                            hh.log.append(self.entry("add", None, const(x)))
                        return t
                    return const(v)
                except Exception:
                    pass
            if name == "format":
                return self.str_format(cval(recv), args, kwargs)
            if name == "join" and len(args) == 1:
                el = self.elements(self.simplify(args[0]))
                if el is not None and all(not g and not L for _, g, L in el):
                    parts = []
                    for i, (v, _, _) in enumerate(el):
                        if i:
                            parts.append(recv)
                        parts.append(v)
                    return strcat(parts)
        f = self.getattr(recv, name, node)
        if f.op == "func" or f.op in ("partial", "cls"):
            return self.invoke(f, args, kwargs, node)
        if f.op == "ext" or (f.op != "attr" and f.op not in ("ite",)):
            return self.invoke(f, args, kwargs, node)
        if f.op == "ite":
            return self.invoke(f, args, kwargs, node)
        if name in ("get",) and recv in self.theap and args:
            pass
        r = mcall(recv, name, args, kwargs.items())
        if name == "copy" and not args and h is not None and h.kind == "ext":
            t, hh = self.new("ext")
            hh.cls = mk("copyof", recv)
            r = t
        self.emit("mcall", name, recv, args, kwargs, node, r)
        return r

    def str_format(self, fmt, args, kwargs):
        import string
        parts = []
        auto = 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(fmt):
                if lit:
                    parts.append(const(lit))
                if field is None:
                    continue
                if field == "":
                    v = args[auto]
                    auto += 1
                elif field.isdigit():
                    v = args[int(field)]
                elif field in kwargs:
                    v = kwargs[field]
                else:
                    v = mk("fmtfield", field)
                if spec:
                    v = self.fmt(v, spec)
                parts.append(v)
        except Exception:
            return call(mk("ext", "str.format"), [const(fmt)] + list(args), kwargs.items())
        return strcat(parts)

    def container_method(self, t, h, name, args, kwargs, node):
        k = h.kind
        if name == "get" and k == "dict" and args:
            d = args[1] if len(args) > 1 else kwargs.get("default", NONE)
            v, f = self.log_get(h.log, args[0], d, mcall(t, "get", args, kwargs.items()))
            if h.carried and not f:
                return ite(mk("cmp", "in", args[0], t), item(t, args[0]), d)
            return self.fix_spread_default(h, args[0], v, d)
        if name == "setdefault" and k == "dict" and args:
            d = args[1] if len(args) > 1 else NONE
            hk = self.has_key(h, args[0])
            if hk is TRUE:
                return self.get_item(t, args[0])
            if h.carried:
                # made in this iteration or found from an earlier one
                p0 = self.path
                self.path = p0 + ((mk("cmp", "in", args[0], t), False),)
                h.log.append(self.entry("set", args[0], d))
                self.path = p0
                return item(t, args[0])
            v, f = self.log_get(h.log, args[0], d)
            h.log.append(self.entry("set", args[0], v))
            return v
        if name == "pop" and k == "dict" and args:
            d = args[1] if len(args) > 1 else item(t, args[0])
            v, f = self.log_get(h.log, args[0], d)
            h.log.append(self.entry("del", args[0], None))
            return v
        if name == "update":
            for a in args:
                if k == "dict":
                    self.dict_update(t, a)
                else:
                    self.extend(t, a)
            for n, v in kwargs.items():
                h.log.append(self.entry("set", const(n), v))
            if not kwargs:
                self.emit("grow", name, t, args, kwargs, node, NONE)
            return NONE
        if name in ("append", "add", "appendleft") and args:
            h.log.append(self.entry("add", None, args[0]))
            self.emit("mcall", name, t, args, kwargs, node, NONE)
            return NONE
        if name == "extend" and args:
            self.extend(t, args[0])
            self.emit("mcall", name, t, args, kwargs, node, NONE)
            return NONE
        if name == "insert" and len(args) == 2:
            e = self.entry("add", None, args[1])
            self.emit("grow", name, t, args, kwargs, node, NONE)
            if args[0] is const(0) and all(self.entry_cond(x) is TRUE for x in h.log[:1]):
                h.log.insert(0, e)
            else:
                h.log.append(e)
            return NONE
        if name == "clear":
            h.log.append(self.entry("clear", None, None))
            self.emit("grow", name, t, args, kwargs, node, NONE)
            return NONE
        if name in ("keys", "values", "items") and k == "dict":
            out, oh = self.new("iter")
            for e in self.live(h):
                g = self.relguards(e.guards) or []
                L = self.extra_loops(e.loops)
                if e.kind == "spread":
                    kk = self.elem_term(e.val)
                    vv = item(e.val, kk)
                    L = L + (e.val,)
                elif e.kind == "set":
                    kk, vv = e.key, e.val
                else:
                    continue
                x = kk if name == "keys" else vv if name == "values" else tup(kk, vv)
                oh.log.append(Entry("add", None, x, self.path + tuple(g), self.loops + tuple(L)))
            return out
        if name == "copy":
            o, oh = self.new(k)
            oh.factory = h.factory
            for e in self.live(h):
                oh.log.append(e)
            return o
        if name in ("sort", "reverse"):
            h.log.append(self.entry("mutate", None, const(name)))
            self.emit("mcall", name, t, args, kwargs, node, NONE)
            return NONE
        if name in ("remove", "discard", "difference_update") and args:
            h.log.append(self.entry("mutate", None, mk("rm", args[0])))
            self.emit("mcall", name, t, args, kwargs, node, NONE)
            return NONE
        if name == "pop" and not args and k == "list":
            ents = [e for e in h.log if e.kind == "add"]
            self.emit("mcall", name, t, args, kwargs, node, NONE)
            if ents and self.entry_cond(ents[-1]) is TRUE:
                h.log.remove(ents[-1])
                return ents[-1].val
        return None

    def fix_spread_default(self, h, key, v, d):
        # .get on a dict with an unknown spread falls back to the default when absent
        if v.op == "item" and any(e.kind == "spread" and e.val is v.args[0] for e in h.log) and v.args[1] is key:
            return mcall(v.args[0], "get", [key, d] if d is not NONE else [key])
        return v

    def extend(self, t, src):
        h = self.h(t)
        for v, g, L in self.iter_items(src):
            h.log.append(Entry("add", None, v, self.path + tuple(g), self.loops + tuple(L)))

    # ---------------------------------------------------------- expressions
    def truth(self, t):
        t = self.simplify(t)
        if t.op == "const":
            return TRUE if cval(t) else FALSE
        if t.op == "tup":
            return TRUE if t.args else FALSE
        if t.op == "not":
            return tnot(self.truth(t.args[0]))
        if t.op == "and":
            return tand(*[self.truth(a) for a in t.args])
        if t.op == "ite":
            a, b = self.truth(t.args[1]), self.truth(t.args[2])
            c = t.args[0]
            if a is b:
                return a
            if b is c:
                return tand(c, a)
            if a is c:
                return tor(c, b)
            return tor(tand(c, a), tand(tnot(c), b))
        h = self.h(t)
        if h is not None:
            if h.kind in ("list", "dict", "set"):
                ls = self.live(h)
                if not ls:
                    return mk("nonempty", t) if h.carried else FALSE
                if any(e.kind in ("add", "set") and self.entry_cond(e) is TRUE for e in ls) and not any(e.kind == "mutate" for e in h.log):
                    return TRUE
                return mk("nonempty", t)
            if h.kind in ("inst", "ext"):
                if h.kind == "inst":
                    return TRUE
        if t.op in ("func", "cls", "mod"):
            return TRUE
        if t.op == "call" and tm.callee_name(t) == "len" and t.args[1] == 1:
            return self.truth_len(t.args[2])
        v = self.decide(t)
        if v is not None:
            return TRUE if v else FALSE
        return t

    def truth_len(self, x):
        return mk("nonempty", x)

    def compare(self, op, a, b):
        a, b = self.simplify(a), self.simplify(b)
        if op == "!=":
            return tnot(self.compare("==", a, b))
        if op == "is not":
            return tnot(self.compare("is", a, b))
        if op == "not in":
            return tnot(self.compare("in", a, b))
        if op == ">":
            return self.compare("<", b, a)
        if op in ("<=", ">="):
            x, y = (a, b) if op == "<=" else (b, a)
            h = self.h(x)
            el = self.elements(x) if h is not None and h.kind == "set" and not h.carried else None
            if el is not None and len(el) <= 8 and not any(gs or L for _, gs, L in el):
                r = const(True)
                for v, _, _ in el:
                    r = tand(r, self.compare("in", v, y))
                return r
        if op == ">=":
            return tnot(self.compare("<", a, b))
        if op == "<=":
            return tnot(self.compare("<", b, a))
        if op in ("==", "is") and a.op == "ite" and (is_const(b) or b.op == "ite"):
            return tor(tand(a.args[0], self.compare(op, a.args[1], b)), tand(tnot(a.args[0]), self.compare(op, a.args[2], b)))
        if op in ("==", "is") and b.op == "ite" and is_const(a):
            return self.compare(op, b, a)
        if op == "in" and b.op == "ite":
            c = b.args[0]
            x = self.under(c, lambda: self.compare("in", a, b.args[1]))
            y = self.under(tnot(c), lambda: self.compare("in", a, b.args[2]))
            return tor(tand(c, FALSE if x is UNDEF else x), tand(tnot(c), FALSE if y is UNDEF else y))
        if op == "in" and (b is NONE or b is UNDEF):
            return FALSE
        if op == "in":
            h = self.h(b)
            if h is not None and h.kind in ("dict", "set", "list", "iter"):
                if h.kind == "dict":
                    c = self.has_key(h, a)
                    if h.carried:
                        return TRUE if c is TRUE else tor(c if c is not None else FALSE, mk("cmp", "in", a, b))
                    if c is not None:
                        return c
                else:
                    el = self.elements(b)
                    if h is not None and h.carried:
                        el = None
                    if el is not None and all(not L for _, _, L in el):
                        if is_const(a) and all(is_const(v) for v, _, _ in el):
                            c = FALSE
                            for v, g, _ in el:
                                if v is a:
                                    c = tor(c, cond_of(g))
                            return c
                        if len(el) <= 12 and all(is_const(v) for v, _, _ in el):
                            c = FALSE
                            for v, g, _ in el:
                                c = tor(c, tand(cond_of(g), self.compare("==", a, v)))
                            return c
            if b.op == "tup" and all(is_const(v) for v in b.args):
                c = FALSE
                for v in b.args:
                    c = tor(c, self.compare("==", a, v))
                return c
            if b.op == "mcall" and b.args[1] == "keys" and b.args[2] == 0:
                b = b.args[0]
            return mk("cmp", "in", a, b)
        if is_const(a) and is_const(b):
            x, y = cval(a), cval(b)
            try:
                if op == "==":
                    return const(x == y)
                if op == "is":
                    return const(x is y or (x == y and type(x) is type(y)))
                if op == "<":
                    return const(x < y)
            except Exception:
                pass
        if op == "is" or op == "==":
            if a is b and a.op not in ("call", "mcall"):
                return TRUE
            if a is NONE or b is NONE:
                o = b if a is NONE else a
                if o.op in ("obj", "tup", "func", "cls", "mod", "strcat", "join", "const") and o is not NONE:
                    return FALSE
                op = "is"
            if not (a < b):
                a, b = b, a
        if op == "<":
            # len(x) > 0  ->  nonempty(x)
            if a is const(0) and b.op == "call" and tm.callee_name(b) == "len":
                return mk("nonempty", b.args[2])
            if b is const(1) and a.op == "call" and tm.callee_name(a) == "len":
                return tnot(mk("nonempty", a.args[2]))
        if op == "==":
            for x, y in ((a, b), (b, a)):
                if x is const(0) and y.op == "call" and tm.callee_name(y) == "len":
                    return tnot(mk("nonempty", y.args[2]))
        r = mk("cmp", op, a, b)
        v = self.decide(r)
        if v is not None:
            return TRUE if v else FALSE
        # x == 'a' known on the path makes x == 'b' false
        if op == "==" and (is_const(a) or is_const(b)):
            c, x = (a, b) if is_const(a) else (b, a)
            for g, p in self.path:
                if p and g.op == "cmp" and g.args[0] == "==" and x in g.args[1:]:
                    o = g.args[2] if g.args[1] is x else g.args[1]
                    if is_const(o):
                        return TRUE if o is c else FALSE
        return r

    def binop(self, op, a, b):
        a, b = self.simplify(a), self.simplify(b)
        if is_const(a) and is_const(b):
            x, y = cval(a), cval(b)
            try:
                if op == "+":
                    return const(x + y)
                if op == "-":
                    return const(x - y)
                if op == "*" and not isinstance(x, str) and not isinstance(y, str):
                    return const(x * y)
                if op == "/":
                    return const(x / y)
                if op == "//":
                    return const(x // y)
                if op == "**" and abs(y) < 64:
                    return const(x ** y)
                if op == "%" and not isinstance(x, str):
                    return const(x % y)
            except Exception:
                pass
        if op == "+":
            if is_str(a) or is_str(b):
                return strcat([a, b])
            ha, hb = self.h(a), self.h(b)
            if ha is not None and ha.kind == "list":
                t, h = self.new("list")
                h.log = list(self.live(ha))
                self.extend(t, b)
                return t
            if a.op == "tup" and b.op == "tup":
                return tup(*(a.args + b.args))
        if op == "%" and is_const(a) and isinstance(cval(a), str):
            return self.pct(cval(a), b)
        if op == "/" and a.op == "bin" and a.args[0] == "*":
            if a.args[1] is b:
                return a.args[2]
            if a.args[2] is b:
                return a.args[1]
        if op == "*" and a.op == "bin" and a.args[0] == "/" and a.args[2] is b:
            return a.args[1]
        if op == "*" and b.op == "bin" and b.args[0] == "/" and b.args[2] is a:
            return b.args[1]
        if op in ("*", "+", "&", "|", "^") and b < a and not (is_str(a) or is_str(b)):
            a, b = b, a
        return mk("bin", op, a, b)

    def fmt(self, v, spec):
        v = self.simplify(v)
        if is_const(v) and isinstance(spec, str) and isinstance(cval(v), (int, float, str)) and not isinstance(cval(v), bool):
            try:
                return const(("%" + spec) % cval(v)) if spec[-1:] in ("d", "i", "s", "x") else const(format(cval(v), spec))
            except Exception:
                pass
        return mk("fmt", v, spec)

    def pct(self, fmt, b):
        import re
        parts, i, n = [], 0, 0
        vals = list(b.args) if b.op == "tup" else [b]
        for m in re.finditer(r"%(?:\((\w+)\))?([-+ #0]*\d*(?:\.\d+)?)([sdifgexr%])", fmt):
            if m.start() > i:
                parts.append(const(fmt[i:m.start()]))
            i = m.end()
            if m.group(3) == "%":
                parts.append(const("%"))
                continue
            if m.group(1):
                v = self.get_item(b, const(m.group(1)))
            elif n < len(vals):
                v = vals[n]
                n += 1
            else:
                v = UNDEF
            if m.group(2) or m.group(3) not in "s":
                v = self.fmt(v, m.group(2) + m.group(3))
            parts.append(v)
        if i < len(fmt):
            parts.append(const(fmt[i:]))
        return strcat(parts)

    def ev(self, n):
        self.steps += 1
        m = getattr(self, "ev_" + type(n).__name__, None)
        if m is None:
            return mk("unk", type(n).__name__)
        return m(n)

    def ev_Constant(self, n):
        try:
            return const(n.value)
        except TypeError:
            return mk("unk", "const")

    def ev_Name(self, n):
        return self.lookup(n.id)

    def ev_Attribute(self, n):
        return self.getattr(self.ev(n.value), n.attr, n)

    def ev_Subscript(self, n):
        b = self.ev(n.value)
        if isinstance(n.slice, ast.Slice):
            return self.slice(b, n.slice)
        k = self.ev(n.slice)
        return self.get_item(b, k)

    def slice(self, b, s):
        lo = self.ev(s.lower) if s.lower else NONE
        hi = self.ev(s.upper) if s.upper else NONE
        st = self.ev(s.step) if s.step else NONE
        b = self.simplify(b)
        if b.op == "const" and isinstance(cval(b), str) and all(is_const(x) for x in (lo, hi, st)):
            return const(cval(b)[cval(lo):cval(hi):cval(st)])
        el = self.elements(b) if (b.op == "tup" or (self.h(b) and self.h(b).kind == "list")) else None
        if el is not None and all(not g and not L for _, g, L in el) and all(is_const(x) for x in (lo, hi, st)):
            v = [x for x, _, _ in el][cval(lo):cval(hi):cval(st)]
            if b.op == "tup":
                return tup(*v)
            t, h = self.new("list")
            for x in v:
                h.log.append(self.entry("add", None, x))
            return t
        return mk("slice_of", b, lo, hi, st)

    def ev_Slice(self, n):
        lo = self.ev(n.lower) if n.lower else NONE
        hi = self.ev(n.upper) if n.upper else NONE
        st = self.ev(n.step) if n.step else NONE
        return mk("slice", lo, hi, st)

    def ev_Tuple(self, n):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value)
                el = self.elements(self.simplify(v))
                if el is not None and all(not g and not L for _, g, L in el):
                    out += [x for x, _, _ in el]
                else:
                    out.append(mk("star", v))
            else:
                out.append(self.ev(e))
        return tup(*out)

    def _seq(self, n, kind):
        t, h = self.new(kind)
        for e in n.elts:
            if isinstance(e, ast.Starred):
                self.extend(t, self.ev(e.value))
            else:
                h.log.append(self.entry("add", None, self.ev(e)))
        return t

    def ev_List(self, n):
        return self._seq(n, "list")

    def ev_Set(self, n):
        return self._seq(n, "set")

    def ev_Dict(self, n):
        t, h = self.new("dict")
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.dict_update(t, self.ev(v))
            else:
                kk = self.ev(k)
                h.log.append(self.entry("set", kk, self.ev(v)))
        return t

    def ev_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.ev(v.value)
                if v.format_spec is not None:
                    sp = v.format_spec
                    lit = "".join(c.value for c in sp.values if isinstance(c, ast.Constant))
                    x = self.fmt(x, lit)
                parts.append(x)
        return strcat(parts)

    def ev_BinOp(self, n):
        ops = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%",
               ast.Pow: "**", ast.MatMult: "@", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^",
               ast.LShift: "<<", ast.RShift: ">>"}
        return self.binop(ops[type(n.op)], self.ev(n.left), self.ev(n.right))

    def ev_UnaryOp(self, n):
        v = self.ev(n.operand)
        if isinstance(n.op, ast.Not):
            return tnot(self.truth(v))
        if is_const(v) and isinstance(n.op, ast.USub):
            try:
                return const(-cval(v))
            except TypeError:
                pass
        return mk("un", {"USub": "-", "UAdd": "+", "Invert": "~"}[type(n.op).__name__], v)

    def ev_BoolOp(self, n):
        isand = isinstance(n.op, ast.And)
        v = self.ev(n.values[0])
        sp = self.path
        for x in n.values[1:]:
            # v stands for all operands so far: what they imply holds for x only, not for v itself
            c = self.truth(v)
            g = c if isand else tnot(c)
            if g is FALSE:
                break
            self.path = sp + tuple(a for a in atoms_of(g) if a not in sp)
            w = self.ev(x)
            self.path = sp
            # value semantics: and -> w if v else v
            if self.is_bool(v) and self.is_bool(w):
                wc = self.truth(w)
                v = tand(c, wc) if isand else tor(c, wc)
            else:
                v = ite(c, w, v) if isand else ite(c, v, w)
        self.path = sp
        return v

    def is_bool(self, t):
        if t.op in ("cmp", "not", "and", "nonempty", "loopran", "exc"):
            return True
        if t.op == "const":
            return isinstance(cval(t), bool)
        return False

    def ev_Compare(self, n):
        l = self.ev(n.left)
        out = TRUE
        ops = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=",
               ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
        for o, c in zip(n.ops, n.comparators):
            r = self.ev(c)
            out = tand(out, self.compare(ops[type(o)], l, r))
            l = r
        return out

    def ev_IfExp(self, n):
        c = self.truth(self.ev(n.test))
        if c is TRUE:
            return self.ev(n.body)
        if c is FALSE:
            return self.ev(n.orelse)
        a = self.under(c, lambda: self.ev(n.body))
        b = self.under(tnot(c), lambda: self.ev(n.orelse))
        return ite(c, a, b)

    def ev_Lambda(self, n):
        fr = self.frame
        return self.func_term(FuncVal(n, fr.mod, fr.qual + ".<lambda>", fr))

    def ev_NamedExpr(self, n):
        v = self.ev(n.value)
        self.frame.env[n.target.id] = v
        return v

    def ev_Await(self, n):
        return self.ev(n.value)

    def ev_Starred(self, n):
        return mk("star", self.ev(n.value))

    def ev_Yield(self, n):
        v = self.ev(n.value) if n.value is not None else NONE
        if self.frame.yields is not None:
            self.frame.yields.log.append(self.entry("add", None, v))
        self.emit("yield", None, None, (v,), node=n)
        return mk("sent")

    def ev_YieldFrom(self, n):
        v = self.ev(n.value)
        if self.frame.yields is not None:
            for x, g, L in self.iter_items(v):
                self.frame.yields.log.append(Entry("add", None, x, self.path + tuple(g), self.loops + tuple(L)))
        return NONE

    def comp(self, n, kind):
        t, h = self.new(kind)
        fr = self.frame
        saved = dict(fr.env)

        def rec(i):
            if i == len(n.generators):
                if kind == "dict":
                    k = self.ev(n.key)
                    v = self.ev(n.value)
                    h.log.append(self.entry("set", k, v))
                else:
                    h.log.append(self.entry("add", None, self.ev(n.elt)))
                return
            g = n.generators[i]
            it = self.ev(g.iter)
            for v, gs, L in self.iter_items(it):
                sp, sl = self.path, self.loops
                self.path = sp + tuple(x for x in gs if x not in sp)
                self.loops = sl + tuple(L)
                self.assign(g.target, v, quiet=True)
                ok = True
                for c in g.ifs:
                    ct = self.truth(self.ev(c))
                    if ct is FALSE:
                        ok = False
                        break
                    self.path = self.path + tuple(a for a in atoms_of(ct) if a not in self.path)
                if ok:
                    rec(i + 1)
                self.path, self.loops = sp, sl

        rec(0)
        walrus = [x.target.id for x in ast.walk(n) if isinstance(x, ast.NamedExpr)]
        new = fr.env
        fr.env = saved
        for w in walrus:
            if w in new:
                saved[w] = new[w]
        return t

    def ev_ListComp(self, n):
        return self.comp(n, "list")

    def ev_SetComp(self, n):
        return self.comp(n, "set")

    def ev_GeneratorExp(self, n):
        return self.comp(n, "iter")

    def ev_DictComp(self, n):
        return self.comp(n, "dict")

    def ev_Call(self, n):
        # evaluate callee
        if isinstance(n.func, ast.Attribute):
            recv = self.ev(n.func.value)
            args, kwargs = self.call_args(n)
            return self.call_method(recv, n.func.attr, args, kwargs, n)
        f = self.ev(n.func)
        args, kwargs = self.call_args(n)
        return self.invoke(f, args, kwargs, n)

    def call_args(self, n):
        args, kwargs = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.simplify(self.ev(a.value))
                el = self.elements(v)
                if el is not None and all(not g and not L for _, g, L in el):
                    args += [x for x, _, _ in el]
                else:
                    args.append(mk("star", v))
            else:
                args.append(self.ev(a))
        for k in n.keywords:
            if k.arg is None:
                v = self.simplify(self.ev(k.value))
                h = self.h(v)
                if h is not None and h.kind == "dict" and all(e.kind == "set" and is_const(e.key) for e in self.live(h)):
                    for e in self.live(h):
                        kwargs[cval(e.key)] = e.val
                else:
                    kwargs["**"] = v
            else:
                kwargs[k.arg] = self.ev(k.value)
        return args, kwargs

    # ----------------------------------------------------------- statements
    def block(self, stmts):
        """Run statements; False when control never reaches the end."""
        for s in stmts:
            self.steps += 1
            m = getattr(self, "st_" + type(s).__name__, None)
            if m is None:
                continue
            if m(s) is False:
                return False
        return True

    def st_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return True
        v = self.ev(s.value)
        if v.op == "noreturn":
            return False
        return True

    def st_Pass(self, s):
        return True

    def st_Assign(self, s):
        v = self.ev(s.value)
        if v.op == "noreturn":
            return False
        for t in s.targets:
            self.assign(t, v)
        return True

    def st_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))
        return True

    def st_AugAssign(self, s):
        import copy
        t = s.target
        ops = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%",
               ast.Pow: "**", ast.MatMult: "@", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^",
               ast.LShift: "<<", ast.RShift: ">>"}
        load = copy.copy(t)
        load.ctx = ast.Load()
        cur = self.ev(load)
        v = self.ev(s.value)
        op = ops[type(s.op)]
        h = self.h(cur)
        if h is not None and h.kind in ("list", "set") and op in ("+", "|"):
            self.emit("aug", op, cur, (v,), node=s)
            self.extend(cur, v)
            return True
        if h is not None and h.kind == "dict" and op == "|":
            self.dict_update(cur, v)
            return True
        self.emit("aug", op, cur, (v,), node=s)
        self.assign(t, self.binop(op, cur, v))
        return True

    def assign(self, t, v, quiet=False):
        if isinstance(t, ast.Name):
            fr = self.frame
            fr.env[t.id] = v
            if t.id in fr.globals_:
                self.emit("setglobal", t.id, None, (v,), node=t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            v = self.simplify(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                for j in range(i):
                    self.assign(t.elts[j], self.get_item(v, const(j)))
                self.assign(t.elts[i].value, mk("slice_of", v, const(i), NONE if i == n - 1 else const(-(n - 1 - i)), NONE))
                for j in range(i + 1, n):
                    self.assign(t.elts[j], self.get_item(v, const(j - n)))
                return
            el = None
            if v.op == "obj" and self.h(v).kind in ("iter", "list"):
                el = self.elements(v)
                if el is not None and (len(el) != n or any(g or L for _, g, L in el)):
                    el = None
            for j, e in enumerate(t.elts):
                self.assign(e, el[j][0] if el is not None else self.get_item(v, const(j)))
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value)
            k = self.ev(t.slice)
            self.set_item(b, k, v, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)

    def st_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                b = self.simplify(self.ev(t.value))
                k = self.ev(t.slice)
                self.emit("delitem", None, b, (k,), node=t)
                self.th(b).log.append(self.entry("del", k, None))
            elif isinstance(t, ast.Name):
                self.frame.env.pop(t.id, None)
        return True

    def st_Return(self, s):
        v = self.ev(s.value) if s.value is not None else NONE
        if v.op == "noreturn":
            return False
        if self.record_returns:
            self.emit("return", None, None, (v,), node=s)
        self.frame.returns.append((self.path, self.loops, v))
        return False

    def st_Raise(self, s):
        v = self.ev(s.exc) if s.exc is not None else mk("reraise")
        self.emit("raise", None, None, (v,), node=s)
        if self.caught == self.frame.caught0 and not self.frame.loopstack:
            self.frame.raises.append(self.path)
        return False

    def st_Assert(self, s):
        c = self.truth(self.ev(s.test))
        self.emit("assert", None, None, (c,), node=s)
        if c is not FALSE:
            self.path = self.path + tuple(a for a in atoms_of(c) if a not in self.path)
        return True

    def st_Global(self, s):
        self.frame.globals_ |= set(s.names)
        return True

    def st_Nonlocal(self, s):
        return True

    def st_Import(self, s):
        for local, target in import_targets(self.frame.mod, s):
            self.frame.env[local] = self.dotted(target)
        return True

    st_ImportFrom = st_Import

    def st_FunctionDef(self, s):
        fr = self.frame
        fr.env[s.name] = self.func_term(FuncVal(s, fr.mod, fr.qual + "." + s.name, fr))
        return True

    st_AsyncFunctionDef = st_FunctionDef

    def st_ClassDef(self, s):
        self.frame.env[s.name] = mk("unk", "localclass")
        return True

    def join_env(self, c, e1, e2):
        out = {}
        for k in list(e1) + [k for k in e2 if k not in e1]:
            a, b = e1.get(k, UNDEF), e2.get(k, UNDEF)
            out[k] = a if a is b else ite(c, a, b)
        return out

    def st_If(self, s):
        c = self.truth(self.ev(s.test))
        if c is TRUE:
            return self.block(s.body)
        if c is FALSE:
            return self.block(s.orelse)
        return self.branch(c, lambda: self.block(s.body), lambda: self.block(s.orelse))

    def branch(self, c, f1, f2):
        fr = self.frame
        p0 = self.path
        env0 = dict(fr.env)
        self.path = p0 + tuple(a for a in atoms_of(c) if a not in p0)
        base1 = self.path
        a1 = f1()
        env1, p1 = fr.env, self.path
        fr.env = env0
        nc = tnot(c)
        self.path = p0 + tuple(a for a in atoms_of(nc) if a not in p0)
        base2 = self.path
        a2 = f2()
        env2, p2 = fr.env, self.path
        if a1 is False and a2 is False:
            self.path = p0
            return False
        if a1 is False:
            fr.env, self.path = env2, p2
            return True
        if a2 is False:
            fr.env, self.path = env1, p1
            return True
        fr.env = self.join_env(c, env1, env2)
        x1 = cond_of([g for g in p1 if g not in base1])
        x2 = cond_of([g for g in p2 if g not in base2])
        extra = tand(tor(nc, x1), tor(c, x2))
        self.path = p0 + tuple(a for a in atoms_of(extra) if a not in p0)
        return True

    MUTATORS = {"append", "add", "update", "extend", "setdefault", "insert", "pop", "remove", "discard", "clear", "appendleft", "popleft"}

    def carried_objects(self, body):
        """Containers made before the loop which the loop body changes: their content varies between iterations."""
        out = []

        def chain(n):
            while isinstance(n, ast.Attribute):
                n = n.value
            return isinstance(n, ast.Name) and n.id in self.frame.env

        def note(n):
            while isinstance(n, ast.Subscript):
                n = n.value
            if not chain(n):
                return
            k = len(self.effects)
            t = self.simplify(self.ev(n))
            del self.effects[k:]
            h = self.h(t)
            if h is not None and h.kind in ("list", "dict", "set") and h not in out:
                out.append(h)

        for s in body:
            for n in ast.walk(s):
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    note(n.value)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in self.MUTATORS:
                    note(n.func.value)
                elif isinstance(n, ast.AugAssign):
                    note(n.target)
        return out

    def loop_body(self, names, vkey, bind, body, fr):
        """One abstract iteration with loop-carried variables widened."""
        pre = dict(fr.env)
        phis = {}
        marked = self.carried_objects(body)
        for h in marked:
            h.carried += 1
        for n in names:
            if n in pre:
                phis[n] = mk("loopphi", n, vkey, pre[n])
                fr.env[n] = phis[n]
        bind()
        p0 = self.path
        fr.loopstack.append({"breaks": [], "conts": []})
        alive = self.block(body)
        info = fr.loopstack.pop()
        for h in marked:
            h.carried -= 1
        for p in self.pending:
            self.alias_apply(p)
        env = fr.env
        if alive is False:
            env = None
        for g, e in info["conts"]:
            rg = cond_of([x for x in g if x not in p0])
            env = e if env is None else self.join_env(rg, e, env)
        for g, e in info["breaks"]:
            rg = cond_of([x for x in g if x not in p0])
            env = e if env is None else self.join_env(rg, e, env)
        self.path = p0
        if env is None:
            env = dict(pre)
        out = {}
        for k, v in env.items():
            if k in phis:
                self.phi_next[phis[k]] = v
                if v is phis[k]:
                    out[k] = pre[k]
                elif not tm.contains(v, lambda x: x is phis[k]):
                    out[k] = ite(mk("loopran", vkey), v, pre[k])
                else:
                    out[k] = mk("loopout", vkey, pre[k], v)
            elif k in pre:
                out[k] = v
            else:
                out[k] = v
        fr.env = out
        return info

    def st_For(self, s):
        fr = self.frame
        it = self.ev(s.iter)
        items = self.iter_items(it)
        if len(items) > 5 and any(isinstance(n, ast.Break) for b in s.body for n in ast.walk(b)):
            items = self.sym_iter(self.simplify(it))
        names = stored_names(s.body)
        sp, sl, si = self.path, self.loops, self.lids
        broke = []
        for v, g, L in items:
            rg = tuple(x for x in g if x not in sp)
            stop = tuple((cond_of(b), False) for b in broke)
            self.path = sp + rg + stop
            self.loops = sl + tuple(L)
            self.nloops += 1
            self.lids = (si + (None,) * len(sl))[:len(sl)] + (self.nloops,) * len(L)
            if L:
                info = self.loop_body(names, L[-1], lambda: self.assign(s.target, v), s.body, fr)
                self.path, self.loops, self.lids = sp, sl, si
            else:
                def one():
                    self.assign(s.target, v)
                    p0 = self.path
                    fr.loopstack.append({"breaks": [], "conts": []})
                    alive = self.block(s.body)
                    info = fr.loopstack.pop()
                    env = fr.env if alive is not False else None
                    px = [x for x in self.path if x not in p0] if alive is not False else []
                    for gg, e in info["conts"]:
                        rel = cond_of([x for x in gg if x not in p0])
                        env = e if env is None else self.join_env(rel, e, env)
                        px = []
                    for gg, e in info["breaks"]:
                        rel = [x for x in gg if x not in sp]
                        r2 = cond_of([x for x in gg if x not in p0])
                        env = e if env is None else self.join_env(r2, e, env)
                        broke.append(rel)
                        px = []
                    self.path = p0 + tuple(px)
                    if env is None:
                        return False
                    fr.env = env
                    return True
                c = cond_of(list(rg) + list(stop))
                if c is TRUE:
                    self.path = sp
                    if one() is False:
                        if not broke:
                            self.path, self.loops = sp, sl
                            return False
                    if any(not b for b in broke):
                        break
                    sp = self.path
                else:
                    self.path = sp
                    self.branch(c, one, lambda: True)
                    sp = self.path
        self.path, self.loops, self.lids = sp, sl, si
        if s.orelse:
            return self.block(s.orelse)
        return True

    st_AsyncFor = st_For

    def st_While(self, s):
        fr = self.frame
        names = stored_names(s.body) + stored_names([s.test])
        c0 = self.truth(self.ev(s.test))
        if c0 is FALSE:
            return True
        sp, sl = self.path, self.loops
        vkey = mk("while", self.stable_key(s.test))
        self.loops = sl + (vkey,)

        def bind():
            c = self.truth(self.ev(s.test))
            self.path = self.path + tuple(a for a in atoms_of(c) if a not in self.path) if c is not FALSE else self.path

        pre = self.path
        info = self.loop_body(names, vkey, bind, s.body, fr)
        self.path, self.loops = sp, sl
        if c0 is TRUE and isinstance(s.test, ast.Constant) and not info["breaks"]:
            return False
        return True

    def stable_key(self, n):
        return mk("whilecond", ast.dump(n))

    def st_Break(self, s):
        fr = self.frame
        if fr.loopstack:
            if self.record_returns:
                self.emit("break", None, node=s)
            fr.loopstack[-1]["breaks"].append((self.path, dict(fr.env)))
        return False

    def st_Continue(self, s):
        fr = self.frame
        if fr.loopstack:
            fr.loopstack[-1]["conts"].append((self.path, dict(fr.env)))
        return False

    def st_With(self, s):
        ctxs = []
        for it in s.items:
            c = self.ev(it.context_expr)
            self.emit("enter", None, c, (), node=s)
            ctxs.append(c)
            h = self.h(c)
            v = c
            if h is not None and h.kind == "iter":
                el = self.elements(c)
                v = el[0][0] if el else NONE
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
        r = self.block(s.body)
        for c in reversed(ctxs):
            self.emit("exit", None, c, (), node=s)
        return r

    st_AsyncWith = st_With

    def st_Try(self, s):
        fr = self.frame
        env0 = dict(fr.env)
        p0 = self.path
        if s.handlers:
            self.caught += 1
        a1 = self.block(s.body)
        if s.handlers:
            self.caught -= 1
        if a1 is not False and s.orelse:
            a1 = self.block(s.orelse)
        env1, p1 = fr.env, self.path
        outs = []
        for hd in s.handlers:
            tname = ast.unparse(hd.type) if hd.type is not None else "*"
            atom = mk("exc", tname, hd_key(s))
            fr.env = dict(env0)
            self.path = p0 + ((atom, True),)
            if hd.name:
                fr.env[hd.name] = mk("excval", tname)
            self.emit("handler", tname, None, (), node=hd)
            a = self.block(hd.body)
            if a is not False:
                outs.append((atom, fr.env, self.path))
        if a1 is False and not outs:
            fr.env, self.path = env1, p0
            if s.finalbody:
                self.block(s.finalbody)
            return False
        if a1 is False:
            env, path = None, None
        else:
            env, path = env1, p1
        for atom, e, p in outs:
            env = e if env is None else self.join_env(atom, e, env)
        fr.env = env
        if a1 is not False and not outs:
            self.path = p1
        elif a1 is False and len(outs) == 1:
            self.path = outs[0][2]
        else:
            self.path = p0
        if s.finalbody:
            if self.block(s.finalbody) is False:
                return False
        return True

    st_TryStar = st_Try

    def st_Match(self, s):
        subj = self.ev(s.subject)

        def rec(i):
            if i == len(s.cases):
                return True
            cs = s.cases[i]
            c = self.pattern(cs.pattern, subj)
            if cs.guard is not None:
                c = tand(c, self.truth(self.ev(cs.guard)))
            if c is TRUE:
                return self.block(cs.body)
            if c is FALSE:
                return rec(i + 1)
            return self.branch(c, lambda: self.block(cs.body), lambda: rec(i + 1))

        return rec(0)

    def pattern(self, p, subj):
        if isinstance(p, ast.MatchValue):
            return self.compare("==", subj, self.ev(p.value))
        if isinstance(p, ast.MatchSingleton):
            return self.compare("is", subj, const(p.value))
        if isinstance(p, ast.MatchOr):
            return tor(*[self.pattern(x, subj) for x in p.patterns])
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    self.frame.env[p.name] = subj
                return TRUE
            c = self.pattern(p.pattern, subj)
            if p.name:
                self.frame.env[p.name] = subj
            return c
        return mk("match", ast.dump(p))

    # ------------------------------------------------------------ entry API
    def run(self, dotted, args=None, self_t=None):
        """Analyse a function with given parameter terms (missing ones symbolic)."""
        args = dict(args or {})
        mod, node = self.prog.func(dotted)
        cls = None
        if self_t is not None or "." in dotted:
            r = self.prog.resolve(dotted.rsplit(".", 1)[0])
            if r[0] == "class":
                cls, fn = self.prog.find_method(r[1], node.name)
        qual = dotted
        for n2, f in mod.funcs.items():
            if f is node:
                qual = mod.name + "." + n2
        if cls is not None:
            qual = cls.qual + "." + node.name
        a = node.args
        params = [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs]
        defaults = set()
        pos = a.posonlyargs + a.args
        for p in pos[len(pos) - len(a.defaults):] if a.defaults else []:
            defaults.add(p.arg)
        kw = {}
        for p in params:
            if p in args:
                kw[p] = args[p]
        missing = [p for p in args if p not in params]
        if missing:
            # a renamed parameter: bind by position
            free = [p for p in params if p not in kw]
            for m, p in zip(missing, free):
                kw[p] = args[m]
        if cls is not None and params and params[0] in ("self", "cls"):
            st = self_t if self_t is not None else tm.sym("self", r[1].qual)
            kw[params[0]] = st
        for p in params:
            if p not in kw and p not in defaults:
                kw[p] = tm.sym(p, self.ann_class(mod, node, p))
            elif p not in kw:
                kw[p] = tm.sym(p, self.ann_class(mod, node, p))
        saved = self.opaque
        self.opaque = saved - {qual}
        fv = FuncVal(node, mod, qual, None, None, cls)
        try:
            return self.call_func(fv, None, [], kw, node)
        finally:
            self.opaque = saved

    def ann_class(self, mod, node, p):
        for x in node.args.posonlyargs + node.args.args + node.args.kwonlyargs:
            if x.arg == p and x.annotation is not None:
                try:
                    d = ast.unparse(x.annotation).strip("'\"")
                except Exception:
                    return ""
                if d.startswith("Optional["):
                    d = d[9:-1]
                return self.class_of_ann(mod, d)
        return ""

    ANN = {"opensfm.dataset_base.DataSetBase": "opensfm.dataset.DataSet"}

    def class_of_ann(self, mod, d):
        head, _, rest = d.partition(".")
        tgt = mod.imports.get(head)
        full = None
        if tgt:
            full = tgt + ("." + rest if rest else "")
        elif head in mod.classes:
            full = mod.name + "." + d
        if full:
            r = self.prog.resolve(full)
            if r[0] == "class":
                q = r[1].qual
                return self.ANN.get(q, q)
        return ""


def ite_paths(t, memo=None):
    """Number of ways through a nested gate."""
    if t.op != "ite":
        return 1
    memo = {} if memo is None else memo
    if t not in memo:
        memo[t] = ite_paths(t.args[1], memo) + ite_paths(t.args[2], memo)
    return memo[t]


def ite_leaves(t):
    """The distinct values a nested gate can take."""
    out, seen, todo = [], set(), [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            todo += [x.args[2], x.args[1]]
        else:
            out.append(x)
    return out


def hd_key(s):
    return ast.dump(s.handlers[0].type) if s.handlers and s.handlers[0].type is not None else "*"


def has_yield(fn):
    def rec(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(c, (ast.Yield, ast.YieldFrom)):
                return True
            if rec(c):
                return True
        return False
    return rec(fn)


def is_str(t):
    return (t.op == "const" and isinstance(cval(t), str)) or t.op in ("strcat",) or (t.op == "call" and tm.callee_name(t) == "str")


def strcat(parts):
    out = []
    for p in parts:
        if p.op == "strcat":
            sub = list(p.args)
        else:
            sub = [p]
        for x in sub:
            if x.op == "call" and tm.callee_name(x) == "str" and x.args[1] == 1:
                x = x.args[2]
            if x.op == "const" and not isinstance(cval(x), str):
                x = const(str(cval(x)))
            if out and out[-1].op == "const" and x.op == "const":
                out[-1] = const(cval(out[-1]) + cval(x))
            elif x.op == "const" and cval(x) == "":
                continue
            else:
                out.append(x)
    if not out:
        return const("")
    if len(out) == 1 and out[0].op == "const":
        return out[0]
    return mk("strcat", *out)
