"""Reading of C++ that keeps its data in standard containers and hands it to a library.

Std is an Eval that also follows std::map/vector/optional/pair/shared_ptr, virtual methods, range loops and structured bindings. Objects of
library types (by default ceres) are Foreign: they remember their type, constructor arguments, the calls made on them and their fields.
"""

import re

from . import cpp
from . import formula as fo
from .cpp import Arr, Assoc, Iter, LV, Obj, PastEnd, Ptr, Unread, cell, concrete, copy, flat, inner, isnum, num, typ, val, val_or


class Foreign:
    def __init__(self, type_, args):
        self.type, self.args, self.calls, self.fields = type_, args, [], {}


class Closure:
    """A lambda: captured variables are those of the function it is written in."""

    def __init__(self, fn, env, this):
        self.fn, self.env, self.this = fn, env, this

    def __call__(self, ev, args, n=None):
        env = dict(self.env)
        ev.bind(self.fn, args, env, self.this)
        try:
            ev.stmt(cpp.body(self.fn), env, self.this)
        except cpp.Ret as r:
            return r.v
        return None


class Insert:
    """An output iterator that adds to a container."""

    def __init__(self, c):
        self.c = c

    def put(self, v):
        if isinstance(self.c, Assoc):
            self.c.set = True
            self.c.d.setdefault(self.c.key(v), cell(None))
        else:
            self.c.cells.append(cell(copy(v)))


class Wise:
    """The rows or columns of a matrix, one by one."""

    def __init__(self, m, rows):
        self.m, self.rows = m, rows


class Opt:
    """std::optional"""

    def __init__(self, v=None):
        self.v = v


class Tuple:
    def __init__(self, items):
        self.items = items


def pair(a, b):
    return Obj(None, {"first": a if isinstance(a, LV) else cell(a), "second": b if isinstance(b, LV) else cell(b)})


def split(t):
    """The template arguments of the outermost template of a type."""
    t = re.sub(r"\bconst\b", "", t).strip().rstrip("&*").strip()
    i = t.find("<")
    if i < 0 or not t.endswith(">"):
        return []
    out, depth, cur = [], 0, ""
    for c in t[i + 1:-1]:
        depth += (c in "<(") - (c in ">)")
        if c == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    return out + [cur.strip()]


def bare(t):
    return re.sub(r"\b(const|struct|class|enum|typename) ", "", t).strip().rstrip("&").strip()


def pointer(t):
    return re.sub(r"\bconst$", "", t.rstrip()).rstrip().endswith("*")


class Std(cpp.Eval):
    LIMIT = 2000000
    FOREIGN = ("ceres::",)

    def __init__(self, unit, decide=None, opaque=None, types=None, positive=()):
        super().__init__(unit, decide, opaque)
        self.types = types or {}  # type name -> python function(eval, args) constructing a value
        self.mapped = {}
        self.loose = {}

    # types
    def record(self, t):
        t = bare(t)
        if t not in self.loose:
            best = None
            if not re.match(r"std::|Eigen::|ceres::", t) and not t.endswith("*"):
                a = [x.replace(" ", "") for x in split(t)]
                q = re.sub(r"<.*>$", "", t).split("::")
                for n in self.records().get(q[-1], ()):
                    o = [p[0] for p in self.u.owner.get(n["id"], ())]
                    g = [str(x).replace(" ", "") for x in cpp.template_args(n)] if n["kind"] == "ClassTemplateSpecializationDecl" else None
                    if any(x not in o for x in q[:-1]) or bool(a) != (g is not None) and a:
                        continue
                    s = (a == g if a else True, bool(inner(n, "FieldDecl")), -len(o))
                    if best is None or s > best[0]:
                        best = s, n
            self.loose[t] = best[1] if best else None
        return self.loose[t]

    def records(self):
        r = getattr(self.u, "by_record", None)
        if r is None:
            r = self.u.by_record = {}
            for n in self.u.ids.values():
                if n["kind"] in ("CXXRecordDecl", "ClassTemplateSpecializationDecl") and n.get("completeDefinition"):
                    # not the pattern of a class template
                    own = [p for p in self.u.owner.get(n["id"], ()) if p[1] and self.u.ids.get(p[1], {}).get("kind") == "ClassTemplateDecl"]
                    if n["kind"] == "CXXRecordDecl" and own and own[-1][0] == n.get("name"):
                        continue
                    r.setdefault(n.get("name"), []).append(n)
        return r

    def bases(self, r):
        out = [r]
        for b in r.get("bases", ()):
            t = b["type"].get("desugaredQualType") or b["type"]["qualType"]
            x = self.record(t)
            if x is not None and x is not r:
                out += self.bases(x)
        return out

    def desugar(self, t):
        t = bare(t)
        for _ in range(5):
            if t in self.u.aliases:
                t = bare(self.u.aliases[t])
        return t

    def foreign(self, t):
        t = bare(t)
        return any(t.startswith(f) for f in self.FOREIGN)

    def fresh(self, t):
        b = bare(t)
        for k, f in self.types.items():
            if b == k or b.split("::")[-1] == k:
                return f(self, [])
        if re.match(r"std::vector<", b):
            return Arr([])
        if re.match(r"std::(unordered_)?map<", b):
            return Assoc()
        if re.match(r"std::(unordered_)?set<", b):
            return Assoc()
        if re.match(r"std::optional<", b):
            return Opt()
        if re.match(r"std::(basic_)?string\b", b):
            return "str:\"\""
        if b.endswith("*"):
            return None
        if b.endswith(">") and self.record(b) is not None:
            return None
        if self.foreign(b):
            return Foreign(b, [])
        return super().fresh(t)

    def make(self, t, args, n=None):
        """A value of a type from constructor arguments (emplace, new)."""
        b = self.desugar(t)
        for k, f in self.types.items():
            if b == k or b.split("::")[-1] == k:
                return f(self, args)
        if self.foreign(b):
            return Foreign(b, [val_or(a) for a in args])
        if re.match(r"std::(tuple|pair)<", b) and args:
            return self.construct(b, args, None)
        r = self.record(b)
        if r is not None and len(args) == 1 and isinstance(val_or(args[0]), Obj) and val_or(args[0]).cls is r:
            return copy(args[0])
        if r is not None:
            c = []
            for x in [x for x in r.get("inner", ()) if x.get("kind") == "CXXConstructorDecl"]:
                ps = inner(x, "ParmVarDecl")
                opt = [p for p in ps if "init" in p or any(q.get("kind") for q in p.get("inner", ()))]
                d = self.u.body_of(x["id"])
                if d is not None and not x.get("isImplicit") and len(ps) - len(opt) <= len(args) <= len(ps):
                    c.append(d)
            if len(c) > 1:
                c = [d for d in c if self.fits(d, args)]
            if len(c) == 1:
                return self.build(r, c[0], args)
            if not c and len(args) == 1 and isinstance(val_or(args[0]), Obj):
                return copy(args[0])
            if not args:
                return self.plain(r)
            raise Unread("constructor of " + b)
        if len(args) == 1:
            return copy(val(args[0]))
        if not args:
            return fo.const(0) if re.match(r"(double|float|int|bool|size_t|unsigned|long)", b) else self.fresh(b)
        raise Unread("construction of " + t)

    def fits(self, d, args):
        for p, a in zip(inner(d, "ParmVarDecl"), args):
            a, m = val_or(a), cpp.dims(self.desugar(typ(p)))
            if isinstance(a, Arr) and m and (m[0] > 0 and m[0] != a.rows or m[1] > 0 and m[1] != a.cols):
                return False
        return True

    def build(self, r, ctor, args):
        o = self.plain(r)
        self.call(ctor, args, o)
        return o

    def plain(self, r):
        o = Obj(r, {})
        for b in reversed(self.bases(r)):
            for f in inner(b, "FieldDecl"):
                v = self.fresh(typ(f))
                ini = [x for x in f.get("inner", ()) if x.get("kind") and not x["kind"].endswith("Comment")]
                if f.get("hasInClassInitializer") and ini:
                    v = val(self.expr(ini[-1], {}, o))
                    if isinstance(v, list):
                        v = self.init_list(typ(f), v) if len(v) != 1 else val(v[0])
                elif v is None:
                    q = self.record(typ(f)) if not bare(typ(f)).endswith("*") else None
                    d = cpp.dims(typ(f)) if q is None else None
                    if d and (d[0] < 0 or d[1] < 0) and not bare(typ(f)).endswith(("*", "&")):
                        v = Arr([], max(d[0], 0), max(d[1], 0), d[2])  # no rows or no columns yet
                    else:
                        v = None if q is None else self.make(typ(f), []) if self.has_default(q) else self.plain(q)
                o.fields[f["name"]] = cell(v)
        return o

    def has_default(self, r):
        """A class with a default constructor written out."""
        for x in r.get("inner", ()):
            if x.get("kind") == "CXXConstructorDecl" and not x.get("isImplicit") and not inner(x, "ParmVarDecl"):
                d = self.u.body_of(x["id"])
                if d is not None and cpp.body(d) is not None:
                    return True
        return False

    def construct(self, t, args, n):
        b = self.desugar(t)
        for k, f in self.types.items():
            if b == k or b.split("::")[-1] == k:
                return copy(args[0]) if len(args) == 1 and isinstance(val_or(args[0]), type(f(self, []))) else f(self, args)
        if self.foreign(b):
            if len(args) == 1 and isinstance(val_or(args[0]), Foreign) and val(args[0]).type == b:
                return val(args[0])
            return Foreign(b, [val_or(a) for a in args])
        if re.match(r"std::(unordered_)?(map|set)<", b):
            if not args:
                return Assoc()
            v = val(args[0])
            return copy(v)
        if re.match(r"std::tuple<", b):
            a = val_or(args[0]) if len(args) == 1 else None
            return copy(a) if isinstance(a, Tuple) else Tuple([cell(copy(x)) for x in args])
        if re.match(r"std::pair<", b) and len(args) == 2:
            return pair(copy(args[0]), copy(args[1]))
        if re.match(r"std::vector<", b):
            if not args:
                return Arr([])
            v = val(args[0])
            if isinstance(v, list):
                return Arr([cell(val(x)) for x in v])
            if isnum(v):
                k = concrete(v)
                if k is None:
                    raise Unread("size of a vector")
                return Arr([cell(copy(args[1]) if len(args) > 1 else fo.const(0)) for _ in range(k)])
            return copy(v)
        if re.match(r"std::optional<", b):
            v = val_or(args[0]) if args else None
            return v if isinstance(v, Opt) else Opt(copy(v)) if args else Opt()
        if re.match(r"std::(shared_ptr|unique_ptr|basic_string|function)<", b):
            return (val_or(args[0]) if args and args[0] is not None else self.fresh(b))
        if re.match(r"(Eigen::)?Map<", b):
            d = cpp.dims(b)
            v = val(args[0])
            if isinstance(v, (Ptr, Arr)) and d and (d[0] < 0 or d[1] < 0):
                s = [concrete(x) for x in args[1:]]
                r, c = (s + [1])[:2] if len(s) < 2 else s[:2]
                if d[0] > 0 and len(s) == 1:
                    r, c = d[0], s[0]
                a, o = (v.arr, v.off) if isinstance(v, Ptr) else (v, 0)
                if o + r * c > len(a.cells):
                    raise cpp.Outside("map outside of an array")
                return Arr(a.cells[o:o + r * c], r, c, d[2])
        d = cpp.dims(b)
        if d and (d[0] < 0 or d[1] < 0):
            if not args:
                return None
            v = val(args[0])
            if isinstance(v, Arr):
                return cpp.matrix(v.grid(), d[2]) if v.rows is not None and v.cells else copy(v)
            s = [concrete(x) for x in args]
            if None not in s:
                r, c = (s + [1])[:2]
                return Arr([cell(None) for _ in range(r * c)], r, c, d[2])
        c = self.ctor(n, b, args)
        if c is not None:
            return self.build(self.record(b), c, args)
        if not args:
            r = self.record(b)
            if r is not None:
                return self.plain(r)
        return super().construct(b if b != t else t, args, n)

    def ctor(self, n, t, args):
        r = self.record(t)
        if r is None:
            return None
        def sig(x):
            return (x or {}).get("qualType", "").replace(" noexcept(false)", "").replace(" noexcept", "")

        ct = sig(n.get("ctorType"))
        for c in [x for x in r.get("inner", ()) if x.get("kind") == "CXXConstructorDecl"]:
            if sig(c.get("type")) == ct and (not c.get("isImplicit") or len(inner(c, "ParmVarDecl")) > 1):
                b = self.u.body_of(c["id"])
                if b is not None:
                    return b
        # constructors inherited from a base
        for b in self.bases(r)[1:]:
            k = [x for x in b.get("inner", ()) if x.get("kind") == "CXXConstructorDecl" and sig(x.get("type")) == ct and not x.get("isImplicit")]
            if k and args and not (len(args) == 1 and isinstance(val_or(args[0]), Obj)):
                x = self.u.body_of(k[0]["id"])
                if x is not None:
                    return x
        return super().ctor(n, t, args)

    def inherited(self, t, args):
        r = self.record(t)
        for c in inner(r, "CXXConstructorDecl") if r is not None else ():
            if len(inner(c, "ParmVarDecl")) == len(args) and self.fits(c, args):
                b = self.u.body_of(c["id"])
                if b is not None:
                    return b
        return None

    def call(self, fn, args, this=None):
        try:
            return self.call_(fn, args, this)
        except Unread as e:
            m = str(e.args[0]) if e.args else ""
            if m.count(" in ") < 6:
                e.args = (m + " in " + fn.get("name", "?"),)
            raise

    def call_(self, fn, args, this=None):
        if fn["kind"] != "CXXConstructorDecl":
            ps = [p.get("type", {}).get("qualType", "") for p in inner(fn, "ParmVarDecl")]
            args = [Ptr(Arr([cell(val_or(a))])) if i < len(ps) and pointer(ps[i]) and isinstance(val_or(a), Obj) and val_or(a).cls is not None else a for i, a in enumerate(args)]
            r = super().call(fn, args, this)
            t = fn.get("type", {}).get("qualType", "").split("(")[0].strip()
            if not t.endswith("&") and isinstance(r, LV) and isinstance(r.get(), (Arr, Obj, Assoc, Opt)) and "*" not in t:
                return copy(r)
            if not t.endswith("&") and isinstance(r, list):
                return self.init_list(t, r)
            return r
        env = {}
        self.bind(fn, args, env, this)
        for c in inner(fn, "CXXCtorInitializer"):
            e = [x for x in c.get("inner", ())]
            if "anyInit" in c and e:
                f = self.u.ids.get(c["anyInit"]["id"], {})
                if e[0]["kind"] == "CXXDefaultInitExpr":
                    continue  # done by plain()
                v = self.expr(e[0], env, this)
                if f.get("type", {}).get("qualType", "").rstrip().endswith("&") and isinstance(v, LV):
                    this.fields[c["anyInit"]["name"]] = v
                elif val_or(v) is not None:
                    v = val(v)
                    t = typ(f) or typ(c["anyInit"])
                    if isinstance(v, list):
                        v = self.init_list(t, v) if len(v) != 1 else val(v[0])
                    if isinstance(v, Obj) and pointer(t):
                        v = Ptr(Arr([cell(v)]))
                    this.fields[c["anyInit"]["name"]] = cell(copy(v) if not pointer(t) and not bare(t).endswith("*") else v)
            elif e:
                k = e[0]
                while k["kind"] in ("ExprWithCleanups", "MaterializeTemporaryExpr"):
                    k = k["inner"][0]
                t = self.desugar(typ(k))
                if self.foreign(t):
                    continue
                if k["kind"] in ("CXXConstructExpr", "CXXInheritedCtorInitExpr"):
                    a = args if k["kind"] == "CXXInheritedCtorInitExpr" else [self.expr(x, env, this) for x in k.get("inner", ()) if x.get("kind") and x["kind"] != "CXXDefaultArgExpr"]
                    b = self.ctor(k, t, a) if k["kind"] == "CXXConstructExpr" else self.inherited(t, a)
                    if b is not None:
                        self.call(b, a, this)
                    elif len(a) == 1 and isinstance(val_or(a[0]), Obj):
                        this.fields.update(copy(val(a[0])).fields)
                    elif a:
                        raise Unread("constructor of " + t)
                    continue
                self.expr(k, env, this)
        b = cpp.body(fn)
        if b is not None:
            try:
                self.stmt(b, env, this)
            except cpp.Ret:
                pass
        return None

    def x_UnaryOperator(self, n, env, this):
        if n.get("opcode") == "&":
            v = self.expr(n["inner"][0], env, this)
            if isinstance(v, LV) and not (v.key and v.key[0] == "at") and isinstance(v.get(), (Obj, Assoc, Opt)):
                return Ptr(Arr([v]))
        return super().x_UnaryOperator(n, env, this)

    def bind(self, fn, args, env, this):
        for i, p in enumerate(inner(fn, "ParmVarDecl")):
            t = p.get("type", {}).get("qualType", "")
            if i < len(args) and val_or(args[i]) != ("default",):
                a = args[i]
                if not t.rstrip().endswith("&") and isinstance(a, LV):
                    x = a.get()
                    a = x if x is None or pointer(t) else copy(x)
                if pointer(t) and isinstance(val_or(a), Obj) and val_or(a).cls is not None:
                    a = Ptr(Arr([cell(val_or(a))]))
                env[p["id"]] = a if isinstance(a, LV) else cell(a)
            else:
                d = [c for c in p.get("inner", ()) if c.get("kind") and not c["kind"].endswith("Comment")]
                if not d:  # written in the pattern of a template
                    o = p.get("loc", {}).get("offset")
                    for q in self.u.ids.values():
                        if q["kind"] == "ParmVarDecl" and q.get("name") == p.get("name") and q.get("loc", {}).get("offset") == o and q is not p:
                            d = [c for c in q.get("inner", ()) if c.get("kind") and not c["kind"].endswith("Comment")]
                            if d:
                                break
                if d:
                    env[p["id"]] = cell(val(self.expr(d[-1], env, this)))

    # statements
    def stmt(self, n, env, this):
        if n.get("kind") == "CXXForRangeStmt":
            return self.each(n, env, this)
        return super().stmt(n, env, this)

    def each(self, n, env, this):
        kids = [c for c in n["inner"] if c.get("kind")]
        ds = [c for c in kids if c["kind"] == "DeclStmt"]
        rng = ds[0]["inner"][0]
        e = [x for x in rng.get("inner", ()) if x.get("kind")][-1]
        x = val(self.expr(e, env, this))
        var = ds[-1]["inner"][0]
        for item in self.elements(x):
            self.put(var, item, env)
            try:
                self.stmt(kids[-1], env, this)
            except cpp.Break:
                break
            except cpp.Continue:
                pass

    def elements(self, x):
        if isinstance(x, Assoc):
            return [Obj(None, {"first": cell(self.keyval(k)), "second": x.d[k]}) if not getattr(x, "set", False) else cell(self.keyval(k)) for k in list(x.d)]
        if isinstance(x, Arr):
            return [cpp.LV(c.get, c.put, ("at", x, i)) for i, c in enumerate(x.cells)]
        if isinstance(x, list):
            return [a if isinstance(a, LV) else cell(a) for a in x]
        raise Unread("loop over an unknown range")

    @staticmethod
    def keyval(k):
        if isinstance(k, cpp.Address):
            return Ptr(Arr([cell(k.o)]))
        if isinstance(k, tuple):
            return pair(*[Std.keyval(x) for x in k]) if len(k) == 2 else Tuple([cell(Std.keyval(x)) for x in k])
        return fo.const(k) if isinstance(k, (int, float)) else k

    def put(self, var, item, env):
        if var["kind"] == "DecompositionDecl":
            bs = inner(var, "BindingDecl")
            o = val(item)
            if isinstance(o, Obj):
                vs = list(o.fields.values())
            elif isinstance(o, Arr):
                vs = [cpp.LV(c.get, c.put, ("at", o, i)) for i, c in enumerate(o.cells)]
            elif isinstance(o, Tuple):
                vs = o.items
            else:
                raise Unread("structured binding")
            for b, v in zip(bs, vs):
                env[b["id"]] = v if isinstance(v, LV) else cell(v)
            return
        ref = "&" in var.get("type", {}).get("qualType", "")
        v = item if isinstance(item, LV) else cell(item)
        env[var["id"]] = v if ref else cell(copy(v) if v.get() is not None and not typ(var).rstrip().endswith("*") else v.get())

    def decl(self, c, env, this):
        if c.get("kind") == "DecompositionDecl":
            ini = [x for x in c.get("inner", ()) if x.get("kind") and x["kind"] != "BindingDecl"]
            v = self.expr(ini[-1], env, this)
            ref = "&" in c.get("type", {}).get("qualType", "")
            return self.put(c, v if ref else copy(val(v)), env)
        if c.get("kind") == "VarDecl":
            t = typ(c)
            ini = [x for x in c.get("inner", ()) if x.get("kind") and not x["kind"].endswith("Comment") and not x["kind"].endswith("Attr")]
            if ini and (t.rstrip().endswith("*") or t.rstrip().endswith("*const")):
                v = self.expr(ini[-1], env, this)
                env[c["id"]] = cell(val_or(v))  # pointers keep what they point to
                return
            if ini and c.get("type", {}).get("qualType", "").rstrip().endswith("&"):
                v = self.expr(ini[-1], env, this)
                env[c["id"]] = v if isinstance(v, LV) else cell(v)
                return
            m = re.match(r"(.*)\[(\d*)\]$", t)
            if ini and m:
                v = self.expr(ini[-1], env, this)
                v = val_or(v)
                if isinstance(v, list):
                    env[c["id"]] = cell(Arr([cell(val_or(x)) for x in v]))
                    return
                env[c["id"]] = cell(v)
                return
        return super().decl(c, env, this)

    # expressions
    def x_InitListExpr(self, n, env, this):
        t = bare(typ(n))
        kids = [c for c in (n.get("inner") or ()) if c.get("kind")]
        if re.search(r"\*\s*(const)?\s*\[\d*\]$", t):
            return [val_or(self.expr(c, env, this)) for c in kids]
        return super().x_InitListExpr(n, env, this)

    def x_CXXNewExpr(self, n, env, this):
        k = [c for c in n["inner"] if c.get("kind")]
        v = self.expr(k[-1], env, this)
        return val(v)

    def x_CXXInheritedCtorInitExpr(self, n, env, this):
        raise Unread("inherited constructor")

    def x_LambdaExpr(self, n, env, this):
        r = inner(n, "CXXRecordDecl")[0]
        ms = [m for m in inner(r, "CXXMethodDecl") if m.get("name") == "operator()"]
        for t in inner(r, "FunctionTemplateDecl"):
            ms = [m for m in inner(t, "CXXMethodDecl") if m.get("name") == "operator()"][1:] + ms
        ms = [m for m in ms if cpp.body(m) is not None]
        if not ms:
            raise Unread("lambda")
        return Closure(ms[0], env, this)

    def x_CXXDefaultInitExpr(self, n, env, this):
        kids = [c for c in n.get("inner", ()) if c.get("kind")]
        return self.expr(kids[0], env, this) if kids else ("default",)

    def x_ImplicitCastExpr(self, n, env, this):
        c = n.get("castKind")
        if c == "LValueToRValue":
            return val_or(self.only(n, env, this)) if typ(n).rstrip().endswith("*") else super().x_ImplicitCastExpr(n, env, this)
        if c in ("PointerToBoolean",):
            v = val_or(self.only(n, env, this))
            if v is None:
                raise Unread("pointer not set")
            return v != "null"
        if c == "UserDefinedConversion":
            v = val_or(self.only(n, env, this))
            if isinstance(v, Opt):
                return v.v is not None
            return v
        return super().x_ImplicitCastExpr(n, env, this)

    def truth(self, v):
        x = val_or(v)
        if isinstance(x, (Foreign, Obj)):
            return True
        if isinstance(x, Opt):
            return x.v is not None
        if x == "null":
            return False
        return super().truth(v)

    @staticmethod
    def place_of(p):
        return p.arr.cells[p.off] if isinstance(p.arr, Arr) and 0 <= p.off < len(p.arr.cells) else None

    def compare(self, op, a, b):
        x, y = val_or(a), val_or(b)
        if isinstance(x, Obj) and isinstance(y, Ptr) and y.target() is not None:
            y = y.target()
        if isinstance(y, Obj) and isinstance(x, Ptr) and x.target() is not None:
            x = x.target()
        if isinstance(x, str) or isinstance(y, str) or isinstance(x, (Foreign, Obj)) or isinstance(y, (Foreign, Obj)):
            if op not in ("==", "!="):
                raise Unread("order of " + str(type(x)))
            same = x == y if isinstance(x, str) and isinstance(y, str) else x is y
            return same == (op == "==")
        if isinstance(x, Ptr) and isinstance(y, Ptr) and op in ("==", "!="):
            return (x.target() is y.target() is not None or x.arr is y.arr and x.off == y.off or self.place_of(x) is self.place_of(y) is not None) == (op == "==")
        return super().compare(op, a, b)

    def x_MemberExpr(self, n, env, this):
        kids = [c for c in n.get("inner", ()) if c.get("kind")]
        b = self.expr(kids[0], env, this) if kids else None
        o = val_or(b)
        name = n.get("name", "")
        if isinstance(o, Ptr) and n.get("isArrow"):
            o = val_or(o.at(0))
        if isinstance(o, Opt) and n.get("isArrow"):
            o = o.v
        if isinstance(o, Foreign):
            # a method unless the type says it is a field
            if "bound member" in typ(n):
                return ("method", b, name, n.get("referencedMemberDecl"))
            return o.fields.setdefault(name, cell(None))
        if isinstance(o, Iter) and name in ("first", "second"):
            if o.k not in o.m.d:
                raise PastEnd("element past the end")
            return o.m.d[o.k] if name == "second" else self.keyval(o.k)
        if isinstance(o, Obj):
            if name in o.fields:
                return o.fields[name]
            d = self.u.ids.get(n.get("referencedMemberDecl"))
            if d is not None and d["kind"] == "VarDecl":
                return self.static(d)
            return ("method", o, name, n.get("referencedMemberDecl"))
        d = self.u.ids.get(n.get("referencedMemberDecl"))
        if d is not None and d["kind"] == "VarDecl":
            return self.static(d)
        return ("method", b, name, n.get("referencedMemberDecl"))

    def static(self, d):
        ini = [x for x in d.get("inner", ()) if x.get("kind") and not x["kind"].endswith("Comment")]
        for v in self.u.ids.values() if not ini else ():
            if v["kind"] == "VarDecl" and v.get("name") == d.get("name") and (v.get("previousDecl") == d["id"] or v.get("type") == d.get("type") and v.get("parentDeclContextId")):
                ini = ini or [x for x in v.get("inner", ()) if x.get("kind") and not x["kind"].endswith("Comment")]
        if not ini:
            raise Unread("static member " + d.get("name", "?"))
        if d["id"] not in self.globals:
            v = val(self.expr(ini[-1], {}, None))
            self.globals[d["id"]] = cell(v)
        return self.globals[d["id"]]

    def x_DeclRefExpr(self, n, env, this):
        d = n["referencedDecl"]
        if d["id"] in env:
            return env[d["id"]]
        if d["kind"] == "VarDecl" and d["id"] not in self.globals and d["id"] not in self.u.ids:
            if d.get("name") == "piecewise_construct":
                return Tuple([])
            if d.get("name") == "nullopt":
                return Opt()
            # another parse names it
            c = [v for v in self.u.ids.values() if v["kind"] == "VarDecl" and v.get("name") == d.get("name") and v.get("type") == d.get("type") and cpp.inner(v, "") is not None]
            c = [v for v in c if any(x.get("kind") for x in v.get("inner", ()))]
            if c:
                return self.static(c[0])
        return super().x_DeclRefExpr(n, env, this)

    def enum(self, i, d):
        if i not in self.u.ids and self.foreign(d.get("type", {}).get("qualType", "")):
            return d["name"]
        if i not in self.u.ids:
            c = [(x, e) for x in self.u.ids.values() if x["kind"] == "EnumDecl" for e in inner(x, "EnumConstantDecl")
                 if e["name"] == d["name"] and e.get("type", {}).get("qualType") == d.get("type", {}).get("qualType")]
            if c:
                return super().enum(c[0][1]["id"], c[0][1])
        return super().enum(i, d)

    def x_CXXOperatorCallExpr(self, n, env, this):
        kids = n["inner"]
        f = kids[0]
        while f["kind"] in ("ImplicitCastExpr", "ParenExpr"):
            f = [c for c in f["inner"] if c.get("kind")][0]
        name = f.get("referencedDecl", {}).get("name") or f.get("name")
        first = self.expr(kids[1], env, this) if name != "operator=" else None
        x = val_or(first) if first is not None else None
        if name == "operator=":
            d = self.expr(kids[1], env, this)
            v = self.expr(kids[2], env, this)
            w = val_or(v)
            t = typ(kids[1])
            if isinstance(w, list):
                w = self.init_list(t, w) if not re.match(r"std::vector", bare(t)) else Arr([cell(val(q)) for q in w])
            if isinstance(d, LV) and (d.get() is None or isinstance(d.get(), (Obj, Assoc, Opt, str, Foreign)) or isinstance(d.get(), Arr) and d.get().rows is None):
                if isinstance(d.get(), Opt) and not isinstance(w, Opt):
                    w = Opt(w)
                if isinstance(d.get(), Obj) and isinstance(w, Obj) and d.get().cls is not None:
                    d.get().fields.update(copy(w).fields)  # the object keeps its place
                    return d
                d.put(copy(w))
                return d
            if isinstance(d, LV) and isinstance(w, Arr) and isinstance(d.get(), Arr) and d.get().rows is not None and (d.get().rows, d.get().cols) != (w.rows, w.cols) and "-1" in t:
                d.put(copy(w))
                return d
            if isinstance(d, LV) and isnum(w) and not isinstance(d.get(), Arr):
                d.put(w)
                return d
            self.assign(d, w)
            return d
        if isinstance(x, Assoc) and name == "operator[]":
            k = x.key(self.expr(kids[2], env, this))
            if k not in x.d:
                t = typ(n)
                x.d[k] = cell(self.make(t, []))
            return x.d[k]
        if isinstance(x, (Obj, Foreign)) and name in ("operator->", "operator*"):
            return first
        if isinstance(x, Opt) and name in ("operator->", "operator*"):
            return x.v
        if isinstance(x, Obj) and name == "operator()":
            args = [self.expr(c, env, this) for c in kids[2:]]
            b = self.u.body_of(f.get("referencedDecl", {}).get("id"), (name, f.get("referencedDecl", {}).get("type", {}).get("qualType")))
            if b is None:
                raise Unread(name)
            return self.call(b, args, x)
        if isinstance(x, (str, Foreign, Ptr)) and name in ("operator==", "operator!="):
            return self.compare(name[8:], x, self.expr(kids[2], env, this))
        if isinstance(x, Iter):
            if name == "operator++":
                ks = list(x.m.d)
                i = ks.index(x.k) + 1
                first.put(Iter(x.m, ks[i] if i < len(ks) else None))
                return first
            if name in ("operator->", "operator*"):
                return x if not getattr(x.m, "set", False) else self.keyval(x.k)
        if isinstance(x, str) and name == "operator+":
            return "str:?"
        if isinstance(x, Wise) and name in ("operator+", "operator-", "operator*", "operator/") and len(kids) == 3:
            v = flat(val(self.expr(kids[2], env, this)))
            g = x.m.grid()
            if len(v) != (len(g[0]) if x.rows else len(g)):
                raise Unread("sizes")
            return cpp.matrix([[cpp.arith(name[-1], g[i][j], v[j if x.rows else i]) for j in range(len(g[0]))] for i in range(len(g))])
        return super().x_CXXOperatorCallExpr(n, env, this)

    def apply(self, f, args, n, this):
        if isinstance(f, tuple) and f[0] in ("fn", "method"):
            h = self.opaque.get(f[2])
            if h is not None:
                r = h(self, args if f[0] == "fn" else [f[1]] + args, n)
                if r is not NotImplemented:
                    return r
        if isinstance(f, tuple) and f[0] == "method":
            _, o, name, did = f
            x = val_or(o)
            if isinstance(x, Ptr) and isinstance(val_or(x.at(0)), (Obj, Foreign)):
                x = val_or(x.at(0))
            if isinstance(x, Foreign):
                x.calls.append((name, [val_or(a) for a in args]))
                return Foreign(x.type + "." + name, [])
            if isinstance(x, Obj) and x.cls is not None:
                b = self.method(x, name, did, args)
                if b is None and name == "get" and not args:
                    return Ptr(Arr([cell(x)]))  # of a smart pointer
                if b is None:
                    raise Unread("method " + name)
                return self.call(b, args, x)
            r = self.container(o, x, name, args, n)
            if r is not NotImplemented:
                return r
            if name in ("rowwise", "colwise") and isinstance(x, Arr) and x.rows is not None:
                return Wise(x, name == "rowwise")
            return self.eigen(o, name, args, n)
        if isinstance(f, tuple) and f[0] == "fn":
            _, i, name, ref = f
            b = self.u.body_of(i, (name, ref.get("referencedDecl", {}).get("type", {}).get("qualType")))
            if b is not None:
                return self.call(b, args, this if b["kind"] == "CXXMethodDecl" and b.get("storageClass") != "static" else None)
            r = self.standard(name, args, n)
            if r is not NotImplemented:
                return r
            return self.library(name, args, n)
        raise Unread("callee")

    def method(self, x, name, did, args):
        d = self.u.ids.get(did) if did else None
        virtual = d is None or d.get("virtual") or cpp.body(d) is None
        b = self.u.body_of(did) if did and not virtual else None
        if b is not None:
            return b
        q = d.get("type", {}).get("qualType") if d is not None else None
        for r in self.bases(x.cls):
            c = [m for m in r.get("inner", ()) if m.get("kind") == "CXXMethodDecl" and m.get("name") == name]
            c = [m for m in c if q is not None and m.get("type", {}).get("qualType") == q] or [m for m in c if self.fits(m, args)]
            for m in c:
                b = self.u.body_of(m["id"])
                if b is not None:
                    return b
        return self.u.body_of(did) if did else None

    def fits(self, m, args):
        ps = inner(m, "ParmVarDecl")
        opt = [p for p in ps if "init" in p]
        if not len(ps) - len(opt) <= len(args) <= len(ps):
            return False
        for p, a in zip(ps, args):
            d, v = cpp.dims(typ(p)), val_or(a)
            if isinstance(v, Arr) and v.rows is not None and (d is None and not re.search(r"Mat|Vec", typ(p)) or d is not None and d[0] > 0 and d[1] > 0 and d[:2] != (v.rows, v.cols)):
                return False
            if d is not None and isnum(v):
                return False
            if isinstance(v, str) and v.startswith("str:") and pointer(typ(p)) and "char" not in typ(p):
                return False
            if isinstance(v, (Ptr, Obj)) and re.search(r"std::(__cxx11::)?(basic_)?string\b", bare(self.desugar(bare(typ(p))))):
                return False
        return True

    def container(self, o, x, name, args, n):
        if isinstance(x, str):
            if name == "compare":
                return fo.const(0 if x == val(args[0]) else 1)
            if name in ("empty",):
                return x == 'str:""'
            if name in ("c_str", "str"):
                return x
        if isinstance(x, Opt):
            if name == "has_value":
                return x.v is not None
            if name == "value":
                if x.v is None:
                    raise cpp.Stop()
                return x.v
            if name == "value_or":
                return x.v if x.v is not None else args[0]
        if isinstance(x, Assoc):
            if name == "emplace":
                a = [val_or(y) for y in args]
                if a and isinstance(a[0], Tuple) and not a[0].items:
                    a = a[1:]
                    k, rest = a[0].items[0], a[1].items
                else:
                    k, rest = a[0], [args[1]]
                k = x.key(val_or(k))
                new = k not in x.d
                if new:
                    x.d[k] = cell(self.make(self.mapped_type(n), list(rest)))
                return pair(Iter(x, k), new)
            if name == "insert":
                if len(args) == 1 and isinstance(val_or(args[0]), Obj):
                    p = val(args[0])
                    k = x.key(p.fields["first"])
                    new = k not in x.d
                    if new:
                        x.d[k] = cell(copy(p.fields["second"]))
                    return pair(Iter(x, k), new)
                if len(args) == 2 and isinstance(val_or(args[0]), Iter) or len(args) == 2 and isinstance(val_or(args[0]), Ptr):
                    x.set = True
                    a = val(args[0])
                    for y in (a.arr.cells if isinstance(a, Ptr) else [cell(self.keyval(k)) for k in a.m.d]):
                        x.d.setdefault(x.key(y), cell(None))
                    return None
                if len(args) == 1:
                    x.set = True
                    k = x.key(args[0])
                    new = k not in x.d
                    x.d.setdefault(k, cell(None))
                    return pair(Iter(x, k), new)
            if name == "at":
                k = x.key(args[0])
                if k not in x.d:
                    raise cpp.Stop()
                return x.d[k]
            if name in ("begin", "cbegin"):
                ks = list(x.d)
                return Iter(x, ks[0] if ks else None)
            if name == "clear":
                x.d.clear()
                return None
            if name in ("reserve", "rehash"):
                return None
            if name == "empty":
                return not x.d
            if name == "erase":
                a = val_or(args[0])
                if isinstance(a, Iter):
                    ks = list(x.d)
                    if a.k not in x.d:
                        raise cpp.Outside("an element is erased that is not there")
                    i = ks.index(a.k)
                    x.d.pop(a.k)
                    return Iter(x, ks[i + 1] if i + 1 < len(ks) else None)
                return fo.const(0 if x.d.pop(x.key(a), None) is None else 1)
        if isinstance(x, Arr) and x.rows is None:
            if name in ("push_back", "emplace_back"):
                v = args[0] if len(args) == 1 else None
                if v is None:
                    v = pair(*[val_or(a) for a in args]) if len(args) == 2 else self.make(split(typ(n["inner"][0]["inner"][0]))[0], args)
                w = val_or(v)
                owned = isinstance(w, Obj) and re.match(r"std::(unique|shared)_ptr<", (split(self.desugar(typ(n["inner"][0]["inner"][0]))) or [""])[0])
                x.cells.append(cell(w if isinstance(w, (Foreign, Ptr)) or owned else copy(w)))
                return None
            if name == "empty":
                return not x.cells
            if name == "clear":
                x.cells[:] = []
                return None
            if name == "reserve":
                return None
            if name == "size":
                return fo.const(len(x.cells))
            if name in ("at", "front", "back"):
                i = {"front": 0, "back": len(x.cells) - 1}.get(name)
                i = concrete(args[0]) if i is None else i
                return self.place(x, i)
            if name == "resize":
                k = concrete(args[0])
                while len(x.cells) < k:
                    x.cells.append(cell(None))
                del x.cells[k:]
                return None
            if name in ("begin", "cbegin"):
                return Ptr(x)
            if name in ("end", "cend"):
                return Ptr(x, len(x.cells))
        if isinstance(x, Arr) and x.rows is not None:
            if name == "resize":
                s = ([concrete(a) for a in args] + [1])[:2]
                if (x.rows, x.cols) != tuple(s):
                    o.put(Arr([cell(None) for _ in range(s[0] * s[1])], s[0], s[1], x.rowmajor))
                return None
            if name == "isConstant":
                c = [concrete(v) for v in flat(x)]
                w = concrete(args[0])
                return all(v is not None and abs(v - w) < 1e-12 for v in c)
            if name in ("setConstant",):
                for c in x.cells:
                    c.put(num(args[0]))
                return x
            if name == "diagonal":
                return Arr([x.at(i, i) for i in range(min(x.rows, x.cols))], min(x.rows, x.cols), 1)
        return NotImplemented

    def mapped_type(self, n):
        k = n["inner"][0]
        while k["kind"] in ("ImplicitCastExpr", "ParenExpr"):
            k = k["inner"][0]
        o = [c for c in k["inner"] if c.get("kind")][0]
        a = split(self.desugar(typ(o)))
        if len(a) < 2:
            raise Unread("type of a map " + typ(o))
        return a[1]

    def standard(self, name, args, n):
        if name == "forward_as_tuple":
            return Tuple(args)
        if name in ("make_tuple", "tie"):
            return Tuple(args)
        if name == "make_pair":
            return pair(copy(args[0]), copy(args[1]))
        if name in ("make_shared", "make_unique"):
            return self.make(split(typ(n))[0], args)
        if name in ("forward", "move", "addressof", "ref", "cref"):
            return args[0]
        if name == "to_string":
            return "str:?"
        if name in ("find_if", "any_of", "all_of", "none_of", "count_if") and isinstance(val_or(args[0]), Iter):
            a, b = val(args[0]), val(args[1])
            ks = list(a.m.d)
            ks = ks[ks.index(a.k):ks.index(b.k) if b.k is not None else None] if a.k is not None else []
            hit = [k for k in ks if self.truth(val(args[2])(self, [Iter(a.m, k) if not getattr(a.m, "set", False) else cell(self.keyval(k))], n))]
            if name == "find_if":
                return Iter(a.m, hit[0]) if hit else b
            return {"any_of": bool(hit), "all_of": len(hit) == len(ks), "none_of": not hit, "count_if": fo.const(len(hit))}[name]
        if name in ("inserter", "back_inserter"):
            return Insert(val(args[0]))
        if name == "transform" and len(args) == 4 and isinstance(val_or(args[0]), Iter) and isinstance(val_or(args[2]), Insert):
            a, b, o = val(args[0]), val(args[1]), val(args[2])
            ks = list(a.m.d)
            for k in ks[ks.index(a.k):ks.index(b.k) if b.k is not None else None] if a.k is not None else []:
                o.put(val(args[3])(self, [Iter(a.m, k) if not getattr(a.m, "set", False) else cell(self.keyval(k))], n))
            return o
        if name == "iota":
            a, b = val(args[0]), val(args[1])
            for i in range(a.off, b.off):
                a.arr.cells[i].put(fo.add(num(args[2]), fo.const(i - a.off)))
            return None
        if name == "get" and args and isinstance(val_or(args[0]), (Tuple, Obj)):
            raise Unread("std::get")
        if name == "isfinite":
            return True
        if name in ("max", "min") and len(args) == 2 and hasattr(self.decide, "value"):
            a, b = num(args[0]), num(args[1])
            return a if (self.decide.value(fo.sub(a, b)) > 0) == (name == "max") else b
        if name in ("Zero", "Ones", "Constant") and n is not None:
            s = [concrete(a) for a in args]
            d = cpp.dims(typ(n))
            if d and (d[0] < 0 or d[1] < 0) and len(s) >= 1 and None not in s[:2]:
                r, c = (s[:2] + [1])[:2] if name != "Constant" or len(s) > 2 else (s[0], 1)
                v = {"Zero": fo.const(0), "Ones": fo.const(1)}.get(name)
                v = num(args[-1]) if v is None else v
                return cpp.matrix([[v] * c for _ in range(r)])
        if name == "max" and n is not None and not args and "numeric_limits" not in typ(n):
            return fo.const(1.7976931348623157e308)
        return NotImplemented
