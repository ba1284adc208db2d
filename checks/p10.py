import ast

from sa import terms as tm
from sa.flow import Flow
from sa.match import evalc, leaves, tautology, unfold
from sa.program import ClassInfo
from sa.refs import refs
from sa.terms import mk, sym, tand, tnot

TECHNIQUE = "reference lint over the resolved syntax tree, plus a value-flow check that the custom unpickler only yields an allow-list"
EXPLANATION = (
    "Every reference of every module (imports at any scope, aliases and attribute chains resolved) is compared with the ways Python "
    "has of running code found in data: evaluation, unpickling, numpy object arrays, unsafe YAML, shelves, shells. Whatever unpickles "
    "must be an unpickler class whose find_class can only return names of a fixed list of inert numpy constructors, decided on every "
    "path of find_class."
)
SAFE = {
    "numpy.core.multiarray._reconstruct", "numpy.core.multiarray.scalar", "numpy._core.multiarray._reconstruct",
    "numpy._core.multiarray.scalar", "numpy.ndarray", "numpy.dtype", "numpy._core.numeric._frombuffer", "numpy.core.numeric._frombuffer",
    "builtins.list", "builtins.dict", "builtins.tuple", "builtins.set", "builtins.frozenset", "builtins.int", "builtins.float",
    "builtins.str", "builtins.bytes", "builtins.bool", "builtins.complex", "builtins.slice", "collections.OrderedDict",
    "numpy.float64", "numpy.float32", "numpy.int32", "numpy.int64", "numpy.uint8", "numpy.bool_",
}
FORBIDDEN = {
    "builtins.eval", "builtins.exec", "builtins.compile", "builtins.execfile",
    "pickle.load", "pickle.loads", "_pickle.load", "_pickle.loads", "cPickle.load", "cPickle.loads", "pickle._load", "pickle._loads",
    "_pickle.Unpickler", "pickle._Unpickler",
    "dill.load", "dill.loads", "cloudpickle.load", "cloudpickle.loads", "joblib.load", "marshal.load", "marshal.loads",
    "pandas.read_pickle", "torch.load", "jsonpickle.decode", "numpy.lib.format.read_array",
    "yaml.unsafe_load", "yaml.unsafe_load_all", "yaml.full_load", "yaml.full_load_all", "yaml.Loader", "yaml.UnsafeLoader",
    "yaml.FullLoader", "yaml.CLoader", "yaml.CUnsafeLoader", "yaml.CFullLoader", "runpy.run_path", "runpy.run_module",
    "importlib.util.spec_from_file_location", "imp.load_source", "code.InteractiveInterpreter", "os.startfile",
    "subprocess.getoutput", "subprocess.getstatusoutput",
}
YAML_LOAD = {"yaml.load", "yaml.load_all"}
SAFE_YAML = {"yaml.SafeLoader", "yaml.CSafeLoader", "yaml.BaseLoader", "yaml.CBaseLoader"}
SHELLS = {"os.system", "os.popen"}
SPAWN = {"subprocess." + n for n in ("Popen", "run", "call", "check_call", "check_output")}
IMPORT = {"importlib.import_module", "builtins.__import__"}
UNPICKLERS = {"pickle.Unpickler", "pickle._Unpickler", "_pickle.Unpickler", "dill.Unpickler", "cloudpickle.Unpickler"}


def truthy_const(n):
    """May the expression be true?"""
    return not (isinstance(n, ast.Constant) and not n.value)


def check(prog, rep):
    rep.rule("refs", "no reference to an evaluator, unsafe deserialiser or shell")
    rep.rule("numpy-load", "numpy arrays are loaded without object pickles")
    rep.rule("unpickler", "custom unpicklers only yield an allow-list of inert constructors")
    rep.rule("process", "child processes get argument lists, never shell strings built at run time")
    n = 0
    unp = []
    for m in prog.modules.values():
        classes = [c for c in ast.walk(m.tree) if isinstance(c, ast.ClassDef)]
        base_refs = {}
        for r in refs(m):
            n += 1
            d = r.dotted
            where = "%s (%s)" % (r.where, r.owner)
            key = "%s:%s" % (r.owner, d)
            if d in UNPICKLERS and any(r.node in c.bases for c in classes):
                base_refs[id(r.node)] = True
                continue
            if d in FORBIDDEN or d in UNPICKLERS:
                rep.bad("refs", key, where, "%s can run code contained in the data it is given" % d)
            elif d in YAML_LOAD:
                c = r.call
                ok = c is not None and any(ast.unparse(a).split(".")[-1] in {s.split(".")[1] for s in SAFE_YAML}
                                           for a in c.args[1:2] + [k.value for k in c.keywords if k.arg == "Loader"])
                rep.expect(ok, "refs", key, where, "yaml is loaded without a safe loader")
            elif d in ("numpy.load", "numpy.lib.npyio.NpzFile", "numpy.memmap", "numpy.fromfile", "numpy.lib.npyio.load"):
                c = r.call
                bad = c is not None and (
                    any(k.arg == "allow_pickle" and truthy_const(k.value) for k in c.keywords)
                    or (d.endswith("load") and len(c.args) > 2 and truthy_const(c.args[2])))
                rep.expect(not bad, "numpy-load", key, where, "object arrays are unpickled from the file")
            elif d in SHELLS:
                ok = r.call is not None and r.call.args and from_user(m, r.call.args[0])
                rep.expect(ok, "process", key, where, "a shell runs a command built at run time")
            elif d in SPAWN:
                c = r.call
                bad = c is not None and any(k.arg == "shell" and truthy_const(k.value) for k in c.keywords)
                rep.expect(not bad, "process", key, where, "a shell interprets the command")
            elif d == "shelve.open":
                c = r.call
                fl = [k.value for k in c.keywords if k.arg == "flag"] + list(c.args[1:2]) if c is not None else []
                rep.expect(bool(fl) and isinstance(fl[0], ast.Constant) and fl[0].value == "n", "refs", key, where,
                           "an existing shelf is opened: its values are unpickled")
            elif d in IMPORT:
                rep.expect(m.name == "opensfm.transformations", "refs", key, where, "a module named at run time is imported")
        # allow_pickle reaching a loader any other way (partial, ** of a dict, a wrapper)
        for c in ast.walk(m.tree):
            if isinstance(c, ast.Call):
                for k in c.keywords:
                    if k.arg == "allow_pickle":
                        rep.expect(not truthy_const(k.value), "numpy-load", "%s:allow_pickle:%s" % (m.name, ast.unparse(c.func)),
                                   "%s:%d" % (m.rel, c.lineno), "allow_pickle is enabled")
            if isinstance(c, ast.Dict):
                for k, v in zip(c.keys, c.values):
                    if isinstance(k, ast.Constant) and k.value in ("allow_pickle", "shell") and truthy_const(v):
                        rep.bad("numpy-load", "%s:option:%s" % (m.name, k.value), "%s:%d" % (m.rel, c.lineno), "%s is enabled" % k.value)
        for c in classes:
            if any(id(b) in base_refs for b in c.bases):
                unp.append((m, c))
    rep.count("references", n)
    for m, c in unp:
        unpickler(prog, rep, m, c)
    rep.count("modules", len(prog.modules))
    rep.minimum("references", 5000)
    rep.minimum("numpy-load", 5)


def from_user(m, e):
    """The expression is built from constants and command line arguments only."""
    seen, todo = set(), [e]
    while todo:
        x = todo.pop()
        for c in ast.walk(x):
            if isinstance(c, ast.Call):
                f = ast.unparse(c.func)
                if f not in ("os.path.join", "os.path.abspath", "os.getcwd", "str") and not f.endswith("parse_args") and not f.endswith(".format"):
                    return False
            if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Load) and c.id not in seen and c.id not in m.imports:
                seen.add(c.id)
                vals = [s.value for s in ast.walk(m.tree) if isinstance(s, ast.Assign)
                        and any(isinstance(t, ast.Name) and t.id == c.id for t in s.targets)]
                if not vals:
                    return False
                todo += [v for v in vals if not (isinstance(v, ast.Call) and ast.unparse(v.func).endswith(("parse_args", "ArgumentParser")))]
    return True


def unpickler(prog, rep, m, c):
    ci = ClassInfo(m, c)
    where = "%s:%d %s" % (m.rel, c.lineno, c.name)
    ok = "find_class" in ci.methods
    rep.expect(ok, "unpickler", c.name + ":find_class", where, "the unpickler does not restrict the classes it finds")
    for n in ("persistent_load", "get_extension", "load_reduce"):
        rep.expect(n not in ci.methods, "unpickler", c.name + ":" + n, where, "%s is overridden" % n)
    if not ok:
        return
    m.classes.setdefault(c.name, ci)
    fl = Flow(prog, only={m.name})
    fn = ci.methods["find_class"]
    ps = [p.arg for p in fn.args.args][1:3]
    mod, name = sym("module"), sym("name")
    fl.record_returns = True
    fl.run("%s.%s.find_class" % (m.name, c.name), dict(zip(ps, (mod, name))), self_t=sym("self", m.name + "." + c.name))
    def world(a):
        """Nothing safe was asked for."""
        if a.op == "cmp" and a.args[0] == "is" and tm.NONE in a.args[1:]:
            g = a.args[2] if a.args[1] is tm.NONE else a.args[1]
            if g.op == "mcall" and g.args[1] == "get":
                (recv, _), ar, _ = tm.call_parts(g)
                if len(ar) == 1 and looked_up(fl, recv, ar[0], mod, name):
                    return True
        s = names_of(fl, a, mod, name)
        return False if s is not None and s <= SAFE else None

    paths = 0
    rets = [(v, tand(tm.cond_of(e.guards), c)) for e in fl.effects if e.kind == "return" and e.fn and e.fn[-1].endswith("find_class") for v, c in gated(e.args[0])]
    for v, g in rets:
        if v.op in ("undef", "noreturn"):
            continue
        paths += 1
        if any(x.op == "item" and looked_up(fl, x.args[0], x.args[1], mod, name) for x in tm.walk(v)):
            continue  # the lookup itself fails for any other name

        ok, _ = tautology(tnot(g), world)
        rep.expect(ok, "unpickler", c.name + ":allow-list", where,
                   "find_class may return %s when %s" % (unfold(fl, v), unfold(fl, g)))
    sup = [e for e in fl.effects if e.kind == "mcall" and e.name == "find_class"]
    for e in sup:
        ok, _ = tautology(tnot(tm.cond_of(e.guards)), world)
        rep.expect(ok, "unpickler", c.name + ":super", where, "the unrestricted find_class is reached")
    rep.expect(paths > 0, "unpickler", c.name + ":paths", where, "find_class was not understood")
    rep.sample("%s.find_class: %d returning paths" % (c.name, paths))


def gated(t, c=None):
    c = tm.TRUE if c is None else c
    if t.op == "ite":
        return gated(t.args[1], tand(c, t.args[0])) + gated(t.args[2], tand(c, tnot(t.args[0])))
    return [(t, c)]


def is_full(t, mod, name):
    """t is 'module.name'."""
    txt = tm.show(t)
    return tm.contains(t, lambda x: x is mod) and tm.contains(t, lambda x: x is name)


def names_of(fl, a, mod, name):
    """The dotted names an atom asks for when it is true, or None."""
    if a.op != "cmp":
        return None
    o, x, y = a.args
    if o == "==":
        for k, c in ((x, y), (y, x)):
            if tm.is_const(c) and is_full(k, mod, name):
                return {str(tm.cval(c))}
            if tm.is_const(c) and k is mod:
                return None
        return None
    if o == "in" and is_full(x, mod, name):
        ks = keys_of(fl, y)
        if ks is None:
            return None
        return {".".join(k) if isinstance(k, tuple) else str(k) for k in ks}
    return None


def looked_up(fl, d, k, mod, name):
    if not is_full(k, mod, name):
        return False
    ks = keys_of(fl, d)
    return ks is not None and {".".join(x) if isinstance(x, tuple) else str(x) for x in ks} <= SAFE


def keys_of(fl, t):
    h = fl.h(t) if t.op == "obj" else None
    if h is None:
        if t.op == "tup":
            ks = [tm.cval(x) if tm.is_const(x) else None for x in t.args]
            return None if None in ks else ks
        return None
    out = []
    for e in fl.live(h):
        k = e.key if h.kind == "dict" else e.val
        if k is None:
            return None
        k = fl.deep(k)
        if tm.is_const(k):
            out.append(tm.cval(k))
        elif k.op == "tup" and all(tm.is_const(x) for x in k.args):
            out.append(tuple(tm.cval(x) for x in k.args))
        else:
            return None
    return out
