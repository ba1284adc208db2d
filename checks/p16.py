import ast
import os
import re

from checks.util import atoms, outcomes
from sa import terms as tm
from sa.flow import Flow
from sa.program import REPO
from sa.match import leaves, unfold
from sa.terms import sym

TECHNIQUE = "whole-repository lint of configuration accesses with reaching definitions, plus a value-flow check of the configuration loader"
EXPLANATION = (
    "Every access of a configuration by a constant key, in all Python modules and in the C++ sources, is compared with the declared options: "
    "a mandatory read must name a declared option (or one the program sets itself), every declared option must be read by something, what is "
    "read must be used, and a configuration that is changed must be a private copy. The loader must yield the file's value for keys in the file "
    "and the declared default for all others."
)
CFG = "opensfm.config."
DECL = "OpenSfMConfig"


def check(prog, rep):
    rep.rule("declared", "an option read without a default is a declared one")
    rep.rule("effective", "every declared option is read by the program, and the value read is used")
    rep.rule("loader", "options in config.yaml replace the defaults, all others keep them")
    rep.rule("private", "no step changes the configuration that later steps see")
    keys = declared(prog, rep)
    rep.part(accesses, prog, rep, keys)
    rep.part(loader, prog, rep)
    rep.part(private, prog, rep, keys)
    rep.minimum("declared", 100)
    rep.minimum("effective", 100)
    rep.minimum("loader", 2)


def declared(prog, rep):
    m = prog.modules["opensfm.config"]
    out = {}
    for c in m.tree.body:
        if isinstance(c, ast.ClassDef) and c.name == DECL:
            for x in c.body:
                if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
                    out[x.target.id] = x
                elif isinstance(x, ast.Assign):
                    for t in x.targets:
                        if isinstance(t, ast.Name):
                            out[t.id] = x
    rep.count("options", len(out))
    return out


def functions(m):
    """(qualified name, node) of each function, and the module body itself."""
    yield m.name, m.tree
    st = [(m.name, c) for c in m.tree.body]
    while st:
        q, n = st.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            yield q + "." + n.name, n
            st += [(q + "." + n.name, c) for c in ast.walk(n) if c is not n and isinstance(c, ast.FunctionDef)]
        elif isinstance(n, ast.ClassDef):
            st += [(q + "." + n.name, c) for c in n.body]
        elif isinstance(n, (ast.If, ast.Try, ast.With)):
            st += [(q, c) for c in ast.iter_child_nodes(n) if isinstance(c, ast.stmt)]


def own(n):
    """Nodes of a function without its nested functions (lambdas included)."""
    st = list(ast.iter_child_nodes(n))
    while st:
        c = st.pop()
        yield c
        if not isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            st += list(ast.iter_child_nodes(c))


def defs(fn):
    """name -> [value assigned] (None when bound in another way)"""
    out = {}
    if not isinstance(fn, ast.Module):
        a = fn.args
        for p in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
            out.setdefault(p.arg, []).append(None)
    for n in own(fn):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        out.setdefault(x.id, []).append(n.value if x is t else None)
        elif isinstance(n, (ast.AnnAssign, ast.NamedExpr)) and isinstance(n.target, ast.Name) and n.value is not None:
            out.setdefault(n.target.id, []).append(n.value)
        elif isinstance(n, (ast.For, ast.comprehension)):
            for x in ast.walk(n.target):
                if isinstance(x, ast.Name):
                    out.setdefault(x.id, []).append(None)
        elif isinstance(n, ast.withitem) and n.optional_vars is not None:
            for x in ast.walk(n.optional_vars):
                if isinstance(x, ast.Name):
                    out.setdefault(x.id, []).append(None)
    return out


FRESH = ("default_config", "load_config_from_fileobject", "deepcopy", "copy", "dict", "asdict")


def kind(e, d, m, depth=0):
    """'shared' | 'fresh' | None: is the expression a configuration, and whose?"""
    if depth > 6 or e is None:
        return None
    if isinstance(e, ast.Attribute):
        if isinstance(e.value, ast.Name) and m.imports.get(e.attr) and e.value.id not in d:
            return None
        return "shared" if is_name(e.attr) and not module(m, e) else None
    if isinstance(e, ast.Name):
        ks = {kind(v, d, m, depth + 1) for v in d.get(e.id, []) if v is not None}
        ks.discard(None)
        if ks:
            return "shared" if "shared" in ks else "param" if "param" in ks else "fresh"
        if e.id in d and is_name(e.id):
            return "param" if None in d[e.id] else None
        return None
    if isinstance(e, ast.Call):
        f = e.func
        n = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
        if n in ("default_config", "load_config_from_fileobject"):
            return "fresh"
        if n == "copy" and isinstance(f, ast.Attribute) and not e.args:
            return "fresh" if kind(f.value, d, m, depth + 1) else None
        if n in ("dict", "deepcopy", "copy") and e.args:
            return "fresh" if kind(e.args[0], d, m, depth + 1) else None
        return None
    if isinstance(e, ast.Dict):
        for k, v in zip(e.keys, e.values):
            if k is None and kind(v, d, m, depth + 1):
                return "fresh"
        return None
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
        return "fresh" if kind(e.left, d, m, depth + 1) else None
    if isinstance(e, ast.IfExp):
        ks = {kind(e.body, d, m, depth + 1), kind(e.orelse, d, m, depth + 1)} - {None}
        return None if not ks else "shared" if "shared" in ks else ks.pop()
    return None


def is_name(n):
    return n in ("config", "config_override", "config_overrides") or n.endswith("_config")


def module(m, e):
    return isinstance(e.value, ast.Name) and str(m.imports.get(e.value.id, "")) == "opensfm" and e.attr == "config"


def const_key(n):
    return n.value if isinstance(n, ast.Constant) and isinstance(n.value, str) else None


def accesses(prog, rep, keys):
    reads, setkeys, todo = {}, set(), []
    tests = ("opensfm.test",)
    for m in prog.modules.values():
        if m.name.startswith(tests) or m.name == "opensfm.config":
            continue
        for q, fn in functions(m):
            d = defs(fn)
            outer = defs(m.tree) if not isinstance(fn, ast.Module) else {}
            if isinstance(fn, ast.FunctionDef):
                # closures see the names of the enclosing function
                dd = dict(outer)
                dd.update(d)
                d = dd
            tested = set()
            for n in own(fn):
                if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and const_key(n.left):
                    tested.add(n.left.value)
            loaded = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
            for n in own(fn):
                k = None
                if isinstance(n, ast.Subscript) and const_key(n.slice) is not None:
                    b, k, dflt = n.value, const_key(n.slice), False
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("get", "pop", "setdefault") and n.args and const_key(n.args[0]):
                    b, k, dflt = n.func.value, const_key(n.args[0]), True
                if k is None:
                    continue
                cfg = kind(b, d, m) is not None or (isinstance(b, ast.Name) and is_name(b.id)) or (isinstance(b, ast.Attribute) and is_name(b.attr))
                store = isinstance(n, ast.Subscript) and not isinstance(n.ctx, ast.Load)
                if store:
                    if cfg:
                        setkeys.add(k)
                    continue
                if cfg and not dflt and k not in tested:
                    todo.append((k, q, "%s:%d" % (m.rel, n.lineno)))
                if cfg or k in keys:
                    reads.setdefault(k, []).append((q, "%s:%d" % (m.rel, n.lineno), used(fn, n, loaded) and (cfg or not dflt or not (isinstance(b, ast.Name) and None in d.get(b.id, ())))))
        # keys named in any other way (tables of options, loops over names)
        doc = {id(x.value) for x in ast.walk(m.tree) if isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)}
        for n in ast.walk(m.tree):
            if const_key(n) in keys and id(n) not in doc and n.value not in reads:
                reads.setdefault(n.value, []).append((m.name, "%s:%d" % (m.rel, n.lineno), True))
    rep.count("reads", sum(len(v) for v in reads.values()))
    cpp = cpp_keys(prog)
    rep.count("cpp reads", sum(len(v) for v in cpp.values()))
    for k, ws in cpp.items():
        rep.expect(k in keys or k in setkeys, "declared", "cpp:" + k, ws[0], "the option %s is read but never declared" % k)
    for k, q, w in todo:
        rep.expect(k in keys or k in setkeys, "declared", "%s:%s" % (q, k), w, "the option %s is read but never declared" % k)
    for k in keys:
        rs = reads.get(k, [])
        rep.expect(bool(rs) or k in cpp, "effective", k, "opensfm/config.py", "the option %s has no effect: nothing reads it" % k)
        if rs and k not in cpp:
            rep.expect(any(u for _, _, u in rs), "effective", k + ":unused", rs[0][1], "the option %s is read but its value is not used" % k)


def used(fn, n, loaded):
    """Is the value of the access used (not dropped, nor bound to a name nobody reads)?"""
    for s in own(fn):
        if isinstance(s, ast.Expr) and s.value is n:
            return False
        if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is n:
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            if all(isinstance(t, ast.Name) for t in ts):
                return any(t.id in loaded for t in ts) or isinstance(fn, ast.Module)
    return True


def cpp_keys(prog):
    out = {}
    root = os.path.join(REPO, "opensfm", "src")
    for dp, dn, fs in os.walk(root):
        dn[:] = [x for x in dn if x not in ("third_party", "cmake_build", "testing", "test", "build")]
        for f in fs:
            if not f.endswith((".cc", ".h", ".cpp")):
                continue
            p = os.path.join(dp, f)
            s = strip_comments(open(p, encoding="utf-8", errors="replace").read())
            for x in re.finditer(r"\bconfig\s*\[\s*\"(\w+)\"\s*\]|\bconfig\s*\.\s*(?:attr|contains)\s*\(\s*\"(\w+)\"", s):
                out.setdefault(x.group(1) or x.group(2), []).append("%s:%d" % (os.path.relpath(p, REPO), s.count("\n", 0, x.start()) + 1))
    return out


def strip_comments(s):
    pat = re.compile(r"//[^\n]*|/\*.*?\*/|\"(?:\\.|[^\"\\])*\"|'(?:\\.|[^'\\])*'", re.S)
    return pat.sub(lambda m: re.sub(r"[^\n]", " ", m.group(0)) if m.group(0)[0] == "/" else m.group(0), s)


def loader(prog, rep):
    q = CFG + "load_config_from_fileobject"
    fl = Flow(prog, only={"opensfm.config"})
    f = sym("f")
    r = fl.run(q, {"f": f})
    new = [e.result for e in fl.effects if e.kind == "call" and (e.name or "").endswith("safe_load")]
    new += [x for x in tm.walk(fl.deep(r)) if x.op == "call" and (tm.callee_name(x) or "").endswith("safe_load")]
    news = set(new)
    rep.expect(bool(news) and all(list(tm.call_parts(x)[1])[:1] == [f] for x in news), "loader", "load:source", q, "the file is not what is parsed")
    for v, vg in outcomes(r):
        puts = puts_of(fl, v)
        empty = any((g in news and not p) or (is_none(g, news) and p) for g, p in atoms(vg))
        base, over, order = is_default(fl, base_of(v)), False, ["default"]
        for kd, key, val, gs, loops in puts:
            if kd == "spread":
                if is_default(fl, val) or shared(prog, fl.deep(val)):
                    base = True
                    order.append("default")
                elif strip_or(val) in news:
                    over = True
                    order.append("file")
                    only_if(rep, fl, gs, news, q)
                else:
                    rep.expect(False, "loader", "load:extra", q, "the options also come from %s" % unfold(fl, val))
            elif kd == "keep":
                rep.expect(False, "loader", "load:order", q, "an option of the file does not replace its default")
            elif loops:
                over = True
                order.append("file")
                rep.expect(key.op == "elem" and is_items(key.args[0], news) and value_of(key, val, news), "loader", "load:value", q, "the option %s gets %s" % (unfold(fl, key), unfold(fl, val)))
                rep.expect(len(loops) == 1 and is_items(loops[0], news), "loader", "load:each", q, "not every option of the file is taken")
                only_if(rep, fl, gs, news, q)
            else:
                rep.expect(False, "loader", "load:extra", q, "the option %s is always %s" % (unfold(fl, key), unfold(fl, val)))
        rep.expect(base, "loader", "load:defaults", q, "options missing from the file do not keep their defaults: %s" % unfold(fl, v))
        rep.expect(over or empty, "loader", "load:file", q, "the options of the file are dropped")
        rep.expect("file" not in order or order[-1] == "file", "loader", "load:order", q, "defaults replace the options of the file")
    # fresh defaults
    fl = Flow(prog, only={"opensfm.config"})
    r = fl.run(CFG + "default_config", {})
    ok = tm.contains(fl.deep(r), lambda y: DECL in str(y)) or not shared(prog, r) and any(shared(prog, y) for x in puts_of(fl, r) for y in [fl.deep(x[2])] + list(tm.walk(fl.deep(r))))
    ok = ok or not shared(prog, r) and any(shared(prog, y) for y in tm.walk(fl.deep(r)))
    rep.expect(ok, "loader", "default_config", CFG + "default_config", "the defaults are not those declared: %s" % unfold(fl, r))
    q = "opensfm.dataset.DataSet.load_config"
    fl = Flow(prog, only={"opensfm.dataset"})
    me = sym("self")
    fl.run(q, {}, self_t=me)
    sets = [e for e in fl.effects if e.kind == "setattr" and e.name == "config" and e.recv is me]
    rep.expect(bool(sets), "loader", "DataSet.load_config", q, "the configuration is never set")
    for e in sets:
        v = e.args[0]
        for x in leaves(v):
            n = tm.callee_name(x) or ""
            rep.expect(n.endswith(("default_config", "load_config_from_fileobject")), "loader", "DataSet.load_config:value", e.where, "the configuration is %s" % unfold(fl, x))


def base_of(v):
    while v.op in ("loopout", "loopphi"):
        v = v.args[1] if v.op == "loopout" else v.args[2]
    return v


def puts_of(fl, v):
    """(set | keep | spread, key, value, guards, loops) of everything put into a dictionary"""
    v = base_of(v)
    h = fl.h(v)
    out = []
    if h is not None:
        for e in fl.live(h):
            out.append(({"set": "set", "setdefault": "keep"}.get(e.kind, "spread"), e.key, e.val, e.guards, e.loops))
        return out
    for e in fl.effects:
        if e.recv is not v:
            continue
        if e.kind == "setitem":
            out.append(("set", e.args[0], e.args[1], e.guards, e.loops))
        elif e.kind == "mcall" and e.name == "update" and e.args:
            out.append(("spread", None, e.args[0], e.guards, e.loops))
        elif e.kind == "aug" and e.name == "|":
            out.append(("spread", None, e.args[0], e.guards, e.loops))
        elif e.kind == "mcall" and e.name == "setdefault":
            out.append(("keep", e.args[0], e.args[1], e.guards, e.loops))
    return out


def only_if(rep, fl, gs, news, q):
    for g, p in atoms(gs):
        rep.expect(g in news or is_none(g, news), "loader", "load:all", q, "options of the file are only taken when %s" % unfold(fl, g))


def strip_or(t):
    while t.op == "or" or (t.op == "ite" and t.args[0] is t.args[1]):
        t = t.args[0] if t.op == "or" else t.args[1]
    return t


def is_none(g, news):
    return g.op == "cmp" and g.args[0] in ("is", "==") and any(x in news for x in g.args[1:]) and any(tm.is_const(x) for x in g.args[1:])


def is_default(fl, t):
    d = fl.deep(t)
    return (tm.callee_name(d) or "").endswith("default_config") or (tm.callee_name(d) or "").endswith("asdict") and DECL in str(d)


def shared(prog, t):
    """A table of the module that holds the declared defaults."""
    n = str(t.args[0] if t.op == "ext" else tm.show(t)).split(".")[-1] if t.op in ("ext", "attr", "global", "glob", "gvar") else None
    m = prog.modules["opensfm.config"]
    v = m.assigns.get(n) if n else None
    return isinstance(v, ast.AST) and "asdict(%s" % DECL in ast.unparse(v)


def is_items(L, news):
    if L.op == "mcall" and L.args[1] in ("items", "keys"):
        L = L.args[0]
    return strip_or(L) in news


def value_of(k, v, news):
    return v.op == "item" and strip_or(v.args[0]) in news and v.args[1] is k


def private(prog, rep, keys):
    """A configuration that is changed in a step is a copy."""
    for m in prog.modules.values():
        if not m.name.startswith("opensfm.") or m.name.startswith(("opensfm.test", "opensfm.synthetic_data")):
            continue
        for q, fn in functions(m):
            d = defs(fn)
            for n in own(fn):
                b = k = None
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    b, k = n.value, const_key(n.slice) or ast.unparse(n.slice)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("update", "pop", "setdefault", "clear", "popitem"):
                    b, k = n.func.value, n.func.attr
                if b is None:
                    continue
                kd = kind(b, d, m)
                if kd is None or (isinstance(n, ast.Subscript) and const_key(n.slice) and const_key(n.slice) not in keys):
                    continue
                w = "%s:%d" % (m.rel, n.lineno)
                rep.expect(kd == "fresh", "private", "%s:%s" % (q, k), w, "the shared configuration is changed (%s)" % k)
