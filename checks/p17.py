import ast
import os
import re

from checks.util import lookup, params
from sa import terms as tm
from sa.flow import Flow
from sa.match import leaves, unfold
from sa.program import REPO
from sa.terms import attr, cval, is_const, sym

TECHNIQUE = "value-flow analysis from the declared command-line options through run_impl into the actions, and from there to their uses"
EXPLANATION = (
    "For every command the options declared in add_arguments_impl are compared with what run_impl reads, each option is followed to the "
    "parameter of the action that receives it, and that parameter to a use: a call argument, a condition or a result of the action."
)
CMD = "opensfm.commands."
# step -> steps whose results it needs
NEEDS = {
    "detect_features": ["extract_metadata"], "match_features": ["detect_features", "extract_metadata"], "create_tracks": ["match_features"],
    "reconstruct": ["create_tracks"], "bundle": ["reconstruct"], "mesh": ["reconstruct"], "undistort": ["reconstruct"],
    "compute_depthmaps": ["undistort"], "compute_statistics": ["reconstruct"], "export_report": ["compute_statistics"],
}


def check(prog, rep):
    rep.rule("declared", "a command reads only options it declares")
    rep.rule("forwarded", "every declared option reaches the action, as the parameter meant for it, whatever its value")
    rep.rule("used", "the parameter has an effect in the action")
    rep.rule("typed", "switches, numbers and names arrive as such")
    rep.rule("registered", "every command can be called, under a name of its own, and its name selects it")
    rep.rule("order", "the run-all scripts run each step after those whose results it needs")
    names = {}
    n = 0
    for m in sorted(prog.modules):
        if m.startswith(CMD) and "Command" in prog.modules[m].classes:
            n += 1
            rep.part(command, prog, rep, m, names)
    rep.count("commands", n)
    rep.part(registered, prog, rep, names)
    rep.part(runner, prog, rep)
    rep.part(dispatched, prog, rep)
    rep.part(actions, prog, rep)
    rep.part(order, rep)
    rep.part(files, prog, rep)
    rep.minimum("commands", 20)
    rep.minimum("forwarded", 20)
    rep.minimum("used", 20)


def command(prog, rep, m, names):
    c = prog.modules[m].classes["Command"]
    short = m[len(CMD):]
    nm = c.assigns.get("name")
    if isinstance(nm, ast.Constant):
        rep.expect(nm.value not in names, "registered", short + ":name", m, "the commands %s and %s have the same name" % (short, names.get(nm.value)))
        names[nm.value] = short
    fl = Flow(prog, only={m})
    parser, me = sym("parser"), sym("self")
    fl.run(c.qual + ".add_arguments_impl", {params_of(c, "add_arguments_impl")[1]: parser}, self_t=me)
    opts = {}
    for e in fl.effects:
        if e.kind == "mcall" and e.name == "add_argument":
            flags = [cval(a) for a in e.args if is_const(a)]
            kw = dict(e.kwargs)
            d = kw.get("dest")
            if d is not None and is_const(d):
                dest = cval(d)
            else:
                longs = [f for f in flags if f.startswith("--")]
                dest = (longs or [f for f in flags])[0].lstrip("-").replace("-", "_")
            opts[dest] = (e, kw)
    fl = Flow(prog, only={m})
    args, ds = sym("args"), sym("dataset")
    ps = params_of(c, "run_impl")
    fl.run(c.qual + ".run_impl", {ps[1]: ds, ps[2]: args}, self_t=me)
    seen = set()
    for e in fl.effects:
        for t in terms_of(e):
            for x in tm.walk(fl.deep(t)):
                if x.op == "attr" and x.args[0] is args:
                    seen.add(x.args[1])
    for d in sorted(seen):
        rep.expect(d in opts or d in ("dataset", "command", "dataset_type"), "declared", "%s:%s" % (short, d), m, "run_impl reads args.%s, which %s does not declare" % (d, short))
    acts = [e for e in fl.effects if e.kind == "call" and (e.name or "").startswith("opensfm.") and not (e.name or "").startswith(CMD)]
    rep.expect(bool(acts), "forwarded", short + ":action", m, "the command runs nothing")
    for d, (e0, kw) in sorted(opts.items()):
        a = attr(args, d)
        hits = []
        for e in acts:
            f = lookup(prog, e.name)
            ps = params(f) if f is not None else []
            vals = dict(e.kwargs)
            for p, v in zip(ps, e.args):
                vals.setdefault(p, v)
            for p, v in vals.items():
                if tm.contains(fl.deep(v), lambda y: y is a):
                    hits.append((e, p, v))
            if d in ps and d in vals:
                rep.expect(tm.contains(fl.deep(vals[d]), lambda y: y is a), "forwarded", "%s:%s" % (short, d), e.where, "the parameter %s of the action gets %s" % (d, unfold(fl, vals[d])))
            if d in ps and d not in vals:
                rep.expect(False, "forwarded", "%s:%s" % (short, d), e.where, "the parameter %s of the action is not given" % d)
        guards = any(tm.contains(fl.deep(g), lambda y: y is a) for e in acts for g, _ in e.guards)
        rep.expect(bool(hits) or guards, "forwarded", "%s:%s" % (short, d), e0.where, "the option %s is dropped" % d)
        for e, p, v in hits:
            rep.expect(not [g for g, _ in e.guards if not tm.contains(fl.deep(g), lambda y: y.op == "attr" and y.args[0] is args)], "forwarded", "%s:%s:always" % (short, d), e.where, "the action is only run in some cases")
            rep.part(effect, prog, rep, short, d, e, p)
            # inverted switch
            w = fl.deep(v)
            if p == d:
                others = sorted({y.args[1] for y in tm.walk(w) if y.op == "attr" and y.args[0] is args and y.args[1] in opts and y.args[1] != d})
                rep.expect(not others, "forwarded", "%s:%s:own" % (short, d), e.where, "the parameter %s of the action also depends on %s" % (p, ", ".join(others)))
            if kw.get("action") is not None and is_const(kw["action"]) and w is not a and p == d:
                rep.expect(w.op != "not", "forwarded", "%s:%s" % (short, d), e.where, "the switch %s arrives inverted" % d)
            ann = annotation(prog, e.name, p)
            if ann and w is a:
                act = cval(kw["action"]) if "action" in kw and is_const(kw["action"]) else None
                conv = tm.callee_name(kw["type"]) or str(kw["type"]) if "type" in kw else None
                if ann == "bool":
                    rep.expect(act in ("store_true", "store_false") or conv is not None, "typed", "%s:%s" % (short, d), e0.where, "the switch %s takes a text, and any text is true" % d)
                    if act == "store_false":
                        rep.expect(d != p, "typed", "%s:%s" % (short, d), e0.where, "giving the switch %s turns it off" % d)
                if ann in ("int", "float"):
                    rep.expect(conv is not None and ("int" in conv or "float" in conv), "typed", "%s:%s" % (short, d), e0.where, "the number %s arrives as text" % d)
                if ann in ("str", "Optional[str]"):
                    rep.expect(act is None and (conv is None or "str" in conv or "ath" in conv), "typed", "%s:%s" % (short, d), e0.where, "the name %s arrives as %s" % (d, act or conv))


def params_of(c, name):
    return params(c.methods[name])


def terms_of(e):
    out = [a for a in e.args] + [v for v in e.kwargs.values()] + [g for g, _ in e.guards] + list(e.loops)
    if e.recv is not None:
        out.append(e.recv)
    if e.result is not None:
        out.append(e.result)
    return out


def annotation(prog, q, p):
    f = lookup(prog, q)
    if f is None:
        return None
    for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs:
        if a.arg == p and a.annotation is not None:
            return ast.unparse(a.annotation)
    return None


def effect(prog, rep, short, d, e, p):
    why = ineffective(prog, e.name, p, 0)
    if why is None and p in params(lookup(prog, e.name)):
        fl, A = flow_of(prog, e.name)
        if not any(tm.contains(fl.deep(t), lambda y: y is A[p]) for x in fl.effects for t in terms_of(x)):
            why = "nothing in %s depends on its parameter %s" % (e.name, p)
    rep.expect(why is None, "used", "%s:%s" % (short, d), e.where, "the option %s has no effect: %s" % (d, why))


FLOWS = {}


def flow_of(prog, q):
    if q not in FLOWS:
        fl = Flow(prog, only={q.rpartition(".")[0]})
        fl.record_returns = True
        A = {p: sym("p:" + p) for p in params(lookup(prog, q))}
        fl.run(q, A)
        FLOWS[q] = (fl, A)
    return FLOWS[q]


def ineffective(prog, q, p, depth):
    """Why the parameter p of q changes nothing, or None."""
    f = lookup(prog, q)
    if f is None or depth > 4:
        return None
    mod = prog.func(q)[0] if isinstance(f, ast.FunctionDef) and q.count(".") else None
    names, skip = {p}, set()
    # copies of the parameter
    changed = True
    while changed:
        changed = False
        for n in ast.walk(f):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in names:
                for t in n.targets:
                    if isinstance(t, ast.Name) and t.id not in names:
                        names.add(t.id)
                        changed = True
            if isinstance(n, ast.If) and id(n.test) not in skip and any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(n.test)):
                made = builds(n)
                if made:
                    names |= made
                    skip |= {id(x) for x in ast.walk(n)}
                    changed = True
    plain = skip
    passed = []
    for n in ast.walk(f):
        if isinstance(n, ast.Call) and id(n) not in skip:
            for i, a in enumerate(n.args):
                if isinstance(a, ast.Name) and a.id in names:
                    passed.append((n, i, None, a))
            for k in n.keywords:
                if isinstance(k.value, ast.Name) and k.value.id in names:
                    passed.append((n, None, k.arg, k.value))
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in names and all(isinstance(t, ast.Name) and t.id in names for t in n.targets):
            plain.add(id(n.value))
    args = {id(x[3]) for x in passed}
    dead = {id(n.value) for n in ast.walk(f) if isinstance(n, ast.Expr)}
    uses = [n for n in ast.walk(f) if isinstance(n, ast.Name) and n.id in names and isinstance(n.ctx, ast.Load) and id(n) not in args and id(n) not in plain and id(n) not in dead]
    if uses:
        return None
    reason = "%s never uses its parameter %s" % (q.split("opensfm.")[-1], p)
    for c, i, k, a in passed:
        q2 = target(prog, mod, c)
        if q2 is None:
            return None
        g = lookup(prog, q2)
        ps = params(g) if g is not None else []
        if g is not None and isinstance(c.func, ast.Attribute) and ps[:1] == ["self"]:
            ps = ps[1:]
        p2 = k if k in ps else ps[i] if i is not None and i < len(ps) else None
        if p2 is None:
            return None
        r = ineffective(prog, q2, p2, depth + 1)
        if r is None:
            return None
        reason = r
    return reason


def target(prog, mod, call):
    f = call.func
    if mod is None:
        return None
    if isinstance(f, ast.Name):
        if f.id in mod.funcs:
            return mod.name + "." + f.id
        d = mod.imports.get(f.id)
        return d if d and lookup(prog, d) is not None else None
    if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
        d = mod.imports.get(f.value.id)
        if d and lookup(prog, d + "." + f.attr) is not None:
            return d + "." + f.attr
    return None


def registered(prog, rep, names):
    m = prog.modules["opensfm.commands"]
    v = m.assigns.get("opensfm_commands")
    if not isinstance(v, (ast.List, ast.Tuple)):
        return
    got = [ast.unparse(x).split(".")[-1] for x in v.elts]
    for n, short in sorted(names.items()):
        rep.expect(short in got, "registered", short, "opensfm/commands/__init__.py", "the command %s cannot be called" % n)
    rep.expect(len(set(got)) == len(got), "registered", "twice", "opensfm/commands/__init__.py", "a command is registered twice")


def runner(prog, rep):
    q = "opensfm.commands.command_runner.command_runner"
    fl = Flow(prog, only={"opensfm.commands.command_runner"})
    ps = params(lookup(prog, q))
    A = {p: sym("p:" + p) for p in ps}
    fl.run(q, A)
    runs = [e for e in fl.effects if e.kind == "mcall" and e.name == "run"]
    rep.expect(bool(runs), "registered", "command_runner:run", q, "no command is run")
    for e in runs:
        eq = [g for g, p in e.guards if p and g.op == "cmp" and g.args[0] == "=="]
        c = e.recv
        ok = any({fl.deep(x) for x in g.args[1:]} >= {fl.deep(attr(c, "name"))} and any(x.op == "attr" and x.args[1] == "command" for x in g.args[1:]) for g in eq)
        by_name = any(tm.contains(fl.deep(g), lambda y: y.op == "attr" and y.args[1] == "name") for g, _ in e.guards)
        rep.expect(ok or not (eq or by_name), "registered", "command_runner:select", e.where, "the command run is not the one asked for")
        rep.expect(bool(e.guards), "registered", "command_runner:select", e.where, "every command is run")
    adds = [e for e in fl.effects if e.kind == "mcall" and e.name == "add_parser"]
    for e in adds:
        rep.expect(e.args and e.args[0].op == "attr" and e.args[0].args[1] == "name", "registered", "command_runner:parser", e.where, "commands are registered as %s" % unfold(fl, e.args[0]))
    # datasets are opened from the given path
    fac = A.get("dataset_factory")
    for x in {y for e in fl.effects for t in terms_of(e) for y in tm.walk(fl.deep(t)) if y.op == "call" and y.args[0] is fac}:
        a = tm.call_parts(x)[1]
        if a:
            rep.expect(a[0].op == "attr" and a[0].args[1] == "dataset", "registered", "command_runner:dataset", q, "the dataset is opened from %s" % unfold(fl, a[0]))


def builds(ifs):
    """Names a conditional block fills, when that is all it does."""
    out = set()

    def root(t):
        while isinstance(t, (ast.Subscript, ast.Starred)):
            t = t.value
        return t.id if isinstance(t, ast.Name) else None

    def rec(ss):
        for s in ss:
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    if root(t) is None:
                        return False
                    out.add(root(t))
            elif isinstance(s, (ast.For, ast.With, ast.If)):
                if not rec(s.body) or not rec(getattr(s, "orelse", [])):
                    return False
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr in ("append", "add", "update", "extend") and root(s.value.func.value):
                out.add(root(s.value.func.value))
            elif not isinstance(s, ast.Pass):
                return False
        return True
    return out if rec(ifs.body) and rec(ifs.orelse) and out else None


def files(prog, rep):
    """Actions load the reconstruction they are told to load and save where they are told to save."""
    for m in sorted(prog.modules):
        f = lookup(prog, m + ".run_dataset") if m.startswith("opensfm.actions.") else None
        if f is None:
            continue
        ps = params(f)
        roles = [(p, k, i) for p, k, i in (("input", "load_reconstruction", 0), ("reconstruction", "load_reconstruction", 0), ("output", "save_reconstruction", 1), ("tracks", "load_tracks_manager", 0), ("tracks", "tracks_exists", 0))
                 if p in ps and annotation(prog, m + ".run_dataset", p) in ("str", "Optional[str]")]
        if not roles:
            continue
        fl = Flow(prog, only={m})
        A = {p: sym("p:" + p) for p in ps}
        fl.run(m + ".run_dataset", A)
        for p, k, i in roles:
            for e in fl.effects:
                if e.kind in ("mcall", "call") and (e.name or "").split(".")[-1] == k:
                    vals = list(e.args) + list(e.kwargs.values())
                    ok = False
                    for v in vals:
                        lv = leaves(v)
                        # the option itself, or one default when it is not given
                        ok = ok or (A[p] in lv and len(lv) <= 2 and all(x is A[p] or is_const(x) for x in lv))
                    rep.expect(ok, "used", "%s:%s:%s" % (m[len("opensfm.actions."):], p, k), e.where, "%s is called with %s, not with the option %s" % (k, ", ".join(unfold(fl, v) for v in vals[i:]) or "nothing", p))


def order(rep):
    for f in ("bin/opensfm_run_all", "bin/opensfm_run_all.bat"):
        p = os.path.join(REPO, f)
        if not os.path.exists(p):
            continue
        steps = []
        for line in logical(open(p, encoding="utf-8").read(), f.endswith(".bat")):
            loop = re.search(r"\bfor\s+%*\w+\s+in\s+\(?([^;)]*)", line)
            for x in loop.group(1).split() if loop else ():
                if x in NEEDS or x == "extract_metadata":
                    steps.append(x)
            for x in re.finditer(r"opensfm[\w.]*\"?\s+(\w+)", line):
                if x.group(1) in NEEDS or x.group(1) == "extract_metadata":
                    steps.append(x.group(1))
        for i, s in enumerate(steps):
            for n in NEEDS.get(s, []):
                rep.expect(n in steps[:i], "order", "%s:%s" % (os.path.basename(f), s), f, "%s runs before %s" % (s, n))
        rep.expect({"extract_metadata", "detect_features", "match_features", "create_tracks", "reconstruct", "undistort", "compute_depthmaps"} <= set(steps), "order",
                   os.path.basename(f) + ":all", f, "a step of the pipeline is missing")
        stops(rep, f, open(p, encoding="utf-8").read(), f.endswith(".bat"))


def logical(text, bat):
    """The commands of a script, one a line, comments left out, joined with the lines they go on in."""
    out, open_ = [], ""
    for line in text.splitlines():
        line = re.sub(r"^\s*(#|rem\b|::).*", "", line, flags=re.I) if bat else re.sub(r"(^|\s)#.*", "", line)
        line = line.rstrip()
        if not line.strip():
            continue
        open_ += line
        if open_.endswith(("^" if bat else "\\",)):
            open_ = open_[:-1] + " "
        elif open_.endswith(("&&", "||", "(", "{")) and not bat:
            open_ += " "
        else:
            out.append(open_)
            open_ = ""
    return out + ([open_] if open_ else [])


def stops(rep, f, text, bat):
    """A step that fails is the last one to run."""
    errexit = False
    step = re.compile(r"opensfm[\w.]*\"?\s+(\"?\$\{?\w+\}?\"?|%%?\w+|\w+)")
    seen = 0
    lines = logical(text, bat)
    for line in lines:
        if re.match(r"\s*set\s+(-\w*e\w*|-o\s+errexit)", line):
            errexit = True
        if re.match(r"\s*set\s+(\+\w*e\w*|\+o\s+errexit)", line):
            errexit = False
        if bat and re.match(r"\s*if\s+(not\s+)?(errorlevel|%errorlevel%)", line, re.I) and re.search(r"\b(exit|goto)\b", line, re.I):
            seen -= 1
            continue
        found = [x for x in step.finditer(line) if x.group(1) in NEEDS or x.group(1) == "extract_metadata" or re.match(r'"?[$%]', x.group(1))]
        for x in found:
            rest = re.sub(r'"[^"]*"', "X", line[x.end():].replace(x.group(0), "", 1))
            alt = re.search(r"\|\|\s*(.*)", rest)
            leaves_ = alt is not None and re.search(r"\b(exit|return|goto|false|kill)\b", alt.group(1)) is not None
            hidden = alt is not None and not leaves_ or re.search(r"(?<![&|<>])&\s*$", rest) is not None or re.search(r"(?<!\|)\|(?!\|)", rest) is not None and "pipefail" not in text or re.search(r";\s*(true|:)\s*$", rest) is not None
            chained = "&&" in rest
            if bat:
                seen += 0 if leaves_ else 1
                continue
            rep.expect(not hidden and (errexit or leaves_ or chained or x is found[-1] and line is lines[-1]), "order", "%s:errors" % os.path.basename(f), f, "the script goes on after a failure of %s" % x.group(1).strip('"'))
    if bat:
        rep.expect(seen <= 1, "order", "%s:errors" % os.path.basename(f), f, "the script goes on after a failed step")


# ------------------------------------------------------------------ the calls, concretely
class Named:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return "<%s>" % self.n


def dispatched(prog, rep):
    """The command asked for is run, once, on the dataset asked for."""
    from checks.util import run
    from sa.play import Held, Play
    q = "opensfm.commands.command_runner.command_runner"
    fl, r, A = run(prog, q, {"opensfm.commands.command_runner"})
    mods = [Named("module " + n) for n in ("mesh", "undistort", "bundle")]
    for asked in ("mesh", "undistort", "bundle"):
        cmds = [Held(name=n, help="helps " + n) for n in ("mesh", "undistort", "bundle")]
        data, parsers = Named("data"), {}
        args = Held(command=asked, dataset="/some/where", dataset_type="other")
        opened = []

        def calls(p, name, recv, a, kw):
            n = (name or "").split(".")[-1]
            if n == "Command" and recv in mods:
                return cmds[mods.index(recv)]
            if n == "parse_args":
                return args
            if n == "ArgumentParser":
                return Named("parser")
            if n == "add_subparsers":
                return Named("subparsers")
            if n == "add_parser":
                return parsers.setdefault((a[0] if a else kw["name"])(), Named("parser of " + (a[0] if a else kw["name"])()))
            if n in ("add_argument", "add_arguments", "setup"):
                return None
            if n in ("__enter__",) and isinstance(recv, Named):
                return data
            if recv is None and not name or n in ("dataset_factory", "p:dataset_factory"):
                opened.append([x() for x in a] + [x() for x in kw.values()])
                return data
            return NotImplemented

        env = {A["all_commands_types"]: mods, A["dataset_factory"]: Named("factory"), A["dataset_choices"]: ["opensfm", "other"], A["default_dataset_type"]: "opensfm"}
        play = Play(fl, env, calls, ["run", "add_arguments", "add_argument", "add_parser"]).go()
        ran = [e for e in play.events if e.name == "run"]
        rep.expect([e.recv for e in ran] == [cmds[("mesh", "undistort", "bundle").index(asked)]], "registered", "command_runner:run", q, "asked for %s, %s runs" % (asked, [getattr(e.recv, "name", e.recv) for e in ran]))
        for e in ran:
            v = list(e.args) + list(e.kw.values())
            rep.expect(args in v, "registered", "command_runner:args", q, "the command is run without its options")
        own = [(e.recv, (e.args or list(e.kw.values()))[0]) for e in play.events if e.name == "add_arguments"]
        for c in cmds:
            rep.expect([x for y, x in own if y is c] == [parsers.get(c.name)], "registered", "command_runner:options", q, "the options of %s are not declared once, for itself" % c.name)
    t = {y for e in fl.effects for x in terms_of(e) for y in tm.walk(fl.deep(x)) if y.op == "call" and y.args[0] is A["dataset_factory"]}
    for x in t:
        _, a, kw = tm.call_parts(x)
        a = list(a) + list(kw.values())
        rep.expect(len(a) == 2 and [y.args[1] if y.op == "attr" else None for y in map(fl.deep, a)] == ["dataset", "dataset_type"], "registered", "command_runner:dataset", q, "the dataset is opened from %s" % [unfold(fl, y) for y in a])
    # what all commands share
    B = "opensfm.commands.command.CommandBase"
    for m, n, due in (("run", "run_impl", 2), ("add_arguments", "add_arguments_impl", 1)):
        fl, r, A = run(prog, "%s.%s" % (B, m), {"opensfm.commands.command"}, ["%s.%s" % (B, n)], B)
        es = [e for e in fl.effects if e.name.split(".")[-1] == n and e.kind in ("call", "mcall")]
        rep.expect(len(es) == 1 and not es[0].guards and not es[0].loops, "registered", "command:" + n, "%s.%s" % (B, m), "%s is not called once, for every command" % n)
        for e in es:
            v = [x for x in list(e.args) + list(e.kwargs.values()) if x is not sym("self")]
            rep.expect(v == list(A.values())[-due:], "registered", "command:%s:args" % n, "%s.%s" % (B, m), "%s is called with %s" % (n, [tm.show(x) for x in v]))


def actions(prog, rep):
    """What each option does in its action, for several values of each."""
    import itertools
    from checks.util import run
    from sa.play import Held, Play
    AC = "opensfm.actions."

    def play(mod, given, due, names, hook=lambda n, recv, a, kw: NotImplemented):
        q = AC + mod + ".run_dataset"
        if not prog.has(q) if hasattr(prog, "has") else False:
            return
        fl, r, A = run(prog, q, {AC + mod}, [])
        data = Named("data")

        def calls(p, name, recv, a, kw):
            n = (name or "").split(".")[-1]
            v = hook(n, recv, a, kw)
            return v

        env = {A["data"]: data, attr(A["data"], "data_path"): "/d", attr(A["data"], "io_handler"): "io"}
        env.update({A[k]: v for k, v in given.items() if k in A})
        return q, [e for e in Play(fl, env, calls, names).go().events]

    val = lambda a, kw, i, k, d=None: a[i]() if len(a) > i else kw[k]() if k in kw else d  # noqa: E731
    got = lambda e, i, k, d=None: e.args[i] if len(e.args) > i else e.kw.get(k, d)  # noqa: E731

    # undistort: the component, tracks, folder and images asked for
    for rec, i, tr, out, skip in itertools.product((None, "r.json"), (0, 1, 2), (None, "t.csv"), ("undistorted", "u2"), (False, True)):
        def hook(n, recv, a, kw):
            if n == "UndistortedDataSet":
                return ("udata", val(a, kw, 1, "undistorted_data_path"))
            if n == "load_reconstruction":
                return [(val(a, kw, 0, "filename"), j) for j in range(3)]
            if n == "tracks_exists":
                return True
            if n == "load_tracks_manager":
                return ("tracks", val(a, kw, 0, "filename"))
            return NotImplemented
        q, ev = play("undistort", {"reconstruction": rec, "reconstruction_index": i, "tracks": tr, "output": out, "skip_images": skip}, None, ["undistort_reconstruction_with_images"], hook)
        if rep.expect(len(ev) == 1, "used", "undistort:once", q, "%d reconstructions are undistorted" % len(ev)):
            e = ev[0]
            for k, (at, n, d) in {"reconstruction_index": (1, "reconstruction", (rec, i)), "tracks": (0, "tracks_manager", ("tracks", tr)), "output": (3, "udata", ("udata", "/d/" + out)), "skip_images": (4, "skip_images", skip)}.items():
                g = got(e, at, n, False if n == "skip_images" else None)
                rep.expect(g == d, "used", "undistort:" + k, q, "with component %d of %s, tracks %s, output %s%s: %s is %s" % (i, rec, tr, out, " and without images" if skip else "", n, g))
    # reconstruct: the method asked for, with these tracks, and what it found is saved
    q = AC + "reconstruct.run_dataset"
    fl, r, A = run(prog, q, {AC + "reconstruct"}, [])
    for want in ("incremental", "triangulation"):
        def calls(p, name, recv, a, kw):
            n = (name or "").split(".")[-1]
            if n == "load_tracks_manager":
                return "tracks"
            if n.endswith("_reconstruction") and n != "save_reconstruction":
                return ({"steps": n}, [n + " 0", n + " 1"])
            if n == "json_dumps":
                return ("json", [x() for x in list(a) + list(kw.values())])
            return NotImplemented
        env = {A["data"]: Named("data"), A["algorithm"]: want}
        ev = Play(fl, env, calls, ["incremental_reconstruction", "triangulation_reconstruction", "save_reconstruction", "save_report"]).go().events
        names = [e.name.split(".")[-1] for e in ev]
        rep.expect(names[:1] == [want + "_reconstruction"] and names.count(want + "_reconstruction") == 1, "used", "reconstruct:algorithm", q, "asked for %s, what runs is %s" % (want, ", ".join(names)))
        saved = [e for e in ev if e.name.endswith("save_reconstruction")]
        rep.expect(len(saved) == 1 and got(saved[0], 0, "reconstruction") == [want + "_reconstruction 0", want + "_reconstruction 1"], "used", "reconstruct:saved", q, "asked for %s, what is saved is %s" % (want, [list(e.args) for e in saved]))
    # export_ply: what is left out is what was said
    for nc, np_, dm, nv in itertools.product((False, True), repeat=4):
        loaded = []

        def hook(n, recv, a, kw):
            if n == "load_reconstruction":
                return ["rec 0", "rec 1"]
            if n == "load_tracks_manager":
                return "tracks"
            if n == "undistorted_dataset":
                return Named("udata")
            if n == "load_undistorted_reconstruction":
                loaded.append(1)
                return [Held(shots={})]
            return NotImplemented
        q, ev = play("export_ply", {"no_cameras": nc, "no_points": np_, "depthmaps": dm, "point_num_views": nv}, None, ["save_ply", "load_undistorted_reconstruction"], hook)
        saved = [e for e in ev if e.name == "save_ply"]
        if rep.expect(len(saved) == 1, "used", "export_ply:once", q, "%d files are saved" % len(saved)):
            e = saved[0]
            for at, n, d in ((3, "no_cameras", nc), (4, "no_points", np_), (5, "point_num_views", nv)):
                rep.expect(bool(got(e, at, n, False)) == d, "used", "export_ply:" + n, q, "with no_cameras %s, no_points %s and point_num_views %s, %s is %s" % (nc, np_, nv, n, got(e, at, n, False)))
        rep.expect(any(e.name != "save_ply" for e in ev) == dm, "used", "export_ply:depthmaps", q, "depthmaps are %sexported with depthmaps %s and point_num_views %s" % ("" if not dm else "not ", dm, nv))
    # export_geocoords: what was asked for, in the file asked for
    NAMES = {"transformation": ("_write_transformation", "geocoords_transformation.txt"), "image_positions": ("_transform_image_positions", "image_geocoords.tsv"),
             "reconstruction": ("save_reconstruction", "reconstruction.geocoords.json"), "dense": ("_transform_dense_point_cloud", "undistorted/depthmaps/merged.geocoords.ply")}
    q = AC + "export_geocoords.run_dataset"
    there = {n.name for n in prog.modules[AC + "export_geocoords"].tree.body if isinstance(n, ast.FunctionDef)} | {"save_reconstruction"}
    NAMES = {k: v for k, v in NAMES.items() if v[0] in there}
    fl, r, A = run(prog, q, {AC + "export_geocoords"}, [AC + "export_geocoords." + v[0] for v in NAMES.values()] + [AC + "export_geocoords." + n for n in ("_get_transformation", "_transform_reconstruction")])
    for out in (None, "there.txt"):
        for on in list(itertools.combinations(NAMES, 1)) + [tuple(NAMES), tuple(NAMES)[::2], ()]:
            def calls(p, name, recv, a, kw):
                n = (name or "").split(".")[-1]
                if n == "load_reconstruction":
                    return ["rec 0", "rec 1"]
                if n in ("load_reference", "undistorted_dataset", "_get_transformation", "Proj"):
                    return n
                if n == "_transform_reconstruction":
                    return None
                return NotImplemented
            env = {A["data"]: Named("data"), attr(A["data"], "data_path"): "/d", A["output"]: out, A["proj"]: "+proj"}
            env.update({A[k]: k in on for k in NAMES})
            ev = Play(fl, env, calls, [v[0] for v in NAMES.values()]).go().events
            for k, (n, f) in NAMES.items():
                es = [e for e in ev if e.name == n]
                if rep.expect(len(es) == (k in on), "used", "export_geocoords:" + k, q, "%s is %sexported when asked for %s" % (k, "not " if k in on else "", ", ".join(on))) and es:
                    f2 = out or f
                    v = list(es[0].args) + list(es[0].kw.values())
                    rep.expect(("/d/" + f2) in v or f2 in v, "used", "export_geocoords:output", q, "%s with output %s is written to %s" % (k, out, [x for x in v if isinstance(x, str)]))
