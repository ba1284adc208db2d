import ast

from sa import terms as tm
from sa.flow import Flow
from sa.match import leaves, tautology, unfold
from sa.program import AnalysisBroken
from sa.refs import refs
from sa.terms import mk, sym, tand, tnot

TECHNIQUE = "taint analysis from URL parameters and request data to file accesses, with containment sanitisers"
EXPLANATION = (
    "Every view function of the two web servers (route decorators and add_url_rule, methods followed by name through the views and "
    "managers) is analysed with its URL parameters symbolic. A path given to a file access may contain a URL parameter or request data "
    "only below a safe_join/send_from_directory whose base is free of it, under a test that the path is one of a fixed set of files, or "
    "under a test that its resolved form lies below a fixed folder."
)
PKGS = ("viewer", "annotation_gui_gcp")
# file accesses: dotted name -> index of the path (None: every argument)
SINKS = {
    "flask.send_file": 0, "builtins.open": 0, "open": 0, "PIL.Image.open": 0, "cv2.imread": 0, "numpy.load": 0, "io.open": 0,
    "os.remove": 0, "os.unlink": 0, "os.listdir": 0, "os.scandir": 0, "os.walk": 0, "shutil.copy": None, "shutil.copyfile": None,
    "shutil.rmtree": 0, "os.rename": None, "subprocess.run": None, "subprocess.Popen": None, "os.system": None, "flask.render_template": 0,
    "flask.render_template_string": 0, "rasterio.open": 0, "codecs.open": 0, "gzip.open": 0, "zipfile.ZipFile": 0,
}
JOINS = {"werkzeug.utils.safe_join", "werkzeug.security.safe_join", "flask.safe_join"}
FROM_DIR = {"flask.send_from_directory", "flask.helpers.send_from_directory", "werkzeug.utils.send_from_directory"}


def check(prog, rep):
    rep.rule("served", "a path with request data in it is contained in a fixed folder before a file is accessed")
    rep.rule("views", "every registered view was analysed")
    views = find_views(prog)
    done, todo = set(), [(q, tuple(ps), "view") for q, ps in views]
    n = 0
    while todo:
        q, tainted, how = todo.pop()
        if (q, tainted) in done or len(done) > 200:
            continue
        done.add((q, tainted))
        n += 1
        todo += analyse(prog, rep, q, tainted, how)
    rep.count("views", len(views))
    rep.count("functions", n)
    rep.minimum("views", 6)
    rep.minimum("served", 3)


def find_views(prog):
    """[(qualified name, URL parameters)]"""
    out = []
    funcs = {}
    for m, q, node, cls in prog.all_functions():
        if m.name.split(".")[0] in PKGS:
            funcs.setdefault((m.name, node.name), []).append((q, node))
            for d in node.decorator_list:
                if isinstance(d, ast.Call) and isinstance(d.func, ast.Attribute) and d.func.attr in ("route", "get", "post"):
                    out.append((q, params(node)))
    for m in prog.modules.values():
        if m.name.split(".")[0] not in PKGS:
            continue
        for c in ast.walk(m.tree):
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "add_url_rule":
                v = [k.value for k in c.keywords if k.arg == "view_func"] + list(c.args[2:3])
                for x in v:
                    name = x.attr if isinstance(x, ast.Attribute) else (x.id if isinstance(x, ast.Name) else None)
                    for q, node in funcs.get((m.name, name), []):
                        out.append((q, params(node)))
    if not out:
        raise AnalysisBroken("no web views found")
    return sorted(set((q, tuple(p)) for q, p in out))


def params(node):
    return [a.arg for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs if a.arg not in ("self", "cls")]


def run(prog, q, tainted):
    mod = [m for m, q2, _, _ in prog.all_functions() if q2 == q][0]
    fl = Flow(prog, only={mod.name})
    try:
        fl.run(q, {p: sym("url:" + p) for p in tainted})
    except AnalysisBroken:
        node = [n for m, q2, n, _ in prog.all_functions() if q2 == q][0]
        # a function nested in another: analysed on its own
        name = q.rsplit(".", 1)[1]
        mod.funcs.setdefault(name, node)
        fl.run(mod.name + "." + name, {p: sym("url:" + p) for p in tainted})
    return fl


def is_source(x):
    if x.op == "sym" and str(x.args[0]).startswith("url:"):
        return True
    if x.op == "ext" and x.args[0].startswith("flask.request"):
        return True
    return False


def analyse(prog, rep, q, tainted, how):
    fl = run(prog, q, tainted)
    more = []
    for e in fl.effects:
        vals = list(e.args) + list(e.kwargs.values())
        if e.kind in ("call", "new") and e.name in FROM_DIR:
            base = e.arg(0, "directory")
            bad = base is not None and unsafe(fl, fl.deep(base), e)
            rep.expect(not bad, "served", "%s:%s" % (q, e.name), e.where, "the folder itself comes from the request: %s" % unfold(fl, base))
            continue
        if e.kind in ("call", "new") and (e.name in SINKS or (e.name or "").startswith("builtins.open")):
            i = SINKS.get(e.name, 0)
            for t in (vals if i is None else vals[:1]):
                d = fl.deep(t)
                bad = unsafe(fl, d, e)
                rep.expect(not bad, "served", "%s:%s" % (q, e.name), e.where,
                           "a path built from the request is not confined to the dataset: %s" % unfold(fl, t))
            continue
        if e.kind == "mcall" and any(tm.contains(fl.deep(v), is_source) for v in vals):
            for q2, node in methods_named(prog, e.name):
                ps = params(node)
                t2 = tuple(p for p, v in zip(ps, e.args) if tm.contains(fl.deep(v), is_source)) + \
                    tuple(k for k, v in e.kwargs.items() if k in ps and tm.contains(fl.deep(v), is_source))
                if t2:
                    more.append((q2, t2, q))
    rep.sample("%s(%s): %d effects" % (q, ", ".join(tainted), len(fl.effects)))
    return more


def methods_named(prog, name):
    out = []
    for m, q, node, cls in prog.all_functions():
        if cls and node.name == name and m.name.split(".")[0] in PKGS:
            out.append((q, node))
    return out


def unsafe(fl, t, e):
    """A request value reaches t outside a containment, under the guards of e."""
    hits = []

    def rec(x):
        if x.op == "call" and tm.callee_name(x) in JOINS:
            _, a, k = tm.call_parts(x)
            if a:
                rec(a[0])
            return
        if contained(fl, x, e):
            return
        if is_source(x):
            hits.append(x)
        else:
            for c in x.args:
                if isinstance(c, tm.T):
                    rec(c)
    rec(t)
    return bool(hits)


def contained(fl, x, e):
    """The guards establish that x is one of a known set, or lies below a fixed folder."""
    x = fl.deep(x)
    for a, pol in e.guards:
        a = fl.deep(a)
        if a.op == "cmp" and a.args[0] == "in" and pol and a.args[1] is x and not tm.contains(fl.deep(a.args[2]), is_source):
            return True
        if a.op == "mcall" and a.args[1] in ("startswith", "is_relative_to") and pol:
            (recv, _), ar, _ = tm.call_parts(a)
            if recv is x and ar and not tm.contains(fl.deep(ar[0]), is_source) and resolved(recv) and (a.args[1] != "startswith" or sep(ar[0])):
                return True
        if a.op == "cmp" and a.args[0] == "==" and pol:
            for l, r in ((a.args[1], a.args[2]), (a.args[2], a.args[1])):
                if l.op == "call" and tm.callee_name(l) == "os.path.commonpath" and tm.contains(l, lambda y: y is x) and resolved(x) and not tm.contains(r, is_source):
                    return True
    return False


def resolved(t):
    return tm.callee_name(t) in ("os.path.realpath", "os.path.abspath", "os.path.normpath") if t.op == "call" else (t.op == "mcall" and t.args[1] == "resolve")


def sep(t):
    """The prefix ends in a separator, so that a sibling folder does not pass."""
    return tm.contains(t, lambda y: (tm.is_const(y) and str(tm.cval(y)).endswith("/")) or (y.op == "ext" and y.args[0] == "os.sep")) or t.op == "join" and tm.is_const(t.args[-1]) and tm.cval(t.args[-1]) == ""
