import ast

from checks.p05 import newest
from checks.store import DS, PAIRS, UDS, Store, dirname
from sa import terms as tm
from sa.flow import Flow
from sa.match import covered_by, leaves, tautology, unfold
from sa.terms import const, sym, tnot

TECHNIQUE = "symbolic path templates of every saver, loader and existence test; dominance of directory creation"
EXPLANATION = (
    "The path each dataset method touches is computed as a symbolic template over the dataset folder, the image name and the optional file "
    "name. Saver, loader and existence test of an artefact must agree on the template, the test must answer yes when the saved file is "
    "there and no when it is not, templates of different artefacts must differ, per-image artefacts must contain the whole image name, and "
    "a folder below the dataset must be created before the file is opened for writing (in the saver, or by every caller beforehand)."
)
W = "opensfm/dataset.py"


def check(prog, rep):
    rep.rule("agree", "saver, loader and existence test use the same file")
    rep.rule("exists", "the existence test answers for exactly that file")
    rep.rule("distinct", "no two artefacts, and no two images, share a file")
    rep.rule("folder", "the folder of an artefact exists before it is written")
    seen, late = {}, []
    for cls, saver, loader, tester, how in PAIRS:
        st = Store(prog, cls)
        fl = st.fl
        _, sacc, seff = st.run(saver)
        _, lacc, leff = st.run(loader)
        ws = [a for a in sacc if a.kind in ("open_wb", "open_wt", "imwrite")]
        w = "%s %s" % (W, saver)
        paths = []
        for a in ws:
            paths += [p for p in leaves(a.path) if p not in paths]
        rep.expect(len(paths) == 1, "agree", saver + ":one", w, "%s writes %s" % (saver, [tm.show(p) for p in paths]))
        rd = []
        for a in lacc:
            if a.kind in ("open_rb", "open_rt", "imread"):
                rd += leaves(a.path)
        for p in paths:
            rep.expect(p in rd, "agree", loader, w, "%s writes %s but %s reads %s" % (saver, tm.show(p), loader, [tm.show(x) for x in rd]))
        if tester:
            r, tacc, _ = st.run(tester)
            c = fl.truth(r)

            def there(a, val=True):
                if a.op == "mcall" and a.args[1] in ("isfile", "exists"):
                    return val if st.canon(tm.call_parts(a)[1][0]) in paths else (None if val else False)
                return None
            ok, why = tautology(c, there)
            rep.expect(ok, "exists", tester + ":yes", w, "%s may deny that %s exists: %s" % (tester, [tm.show(p) for p in paths], unfold(fl, r)))
            ok, why = tautology(tnot(c), lambda a: there(a, False))
            rep.expect(ok, "exists", tester + ":no", w, "%s may claim a missing file exists: %s" % (tester, unfold(fl, r)))
            for a in tacc:
                for p in leaves(a.path):
                    rep.expect(p in rd or p in paths, "exists", tester + ":same", w, "%s looks at %s, which %s never reads" % (tester, tm.show(p), loader))
        mod, node = prog.func(cls + saver)
        args = [x.arg for x in node.args.args]
        for p in paths:
            comps = list(p.args) if p.op == "path" else [p]
            if "image" in args:
                last = comps[-1]
                parts = list(last.args) if last.op == "strcat" else [last]
                img = [x for x in parts if x is sym("image")]
                ok = len(img) == 1 and all(tm.is_const(x) for x in parts if x is not sym("image"))
                rep.expect(ok, "distinct", saver + ":image", w, "the file of an image does not follow from its name: %s" % tm.show(p))
            key = (cls, p)
            rep.expect(key not in seen, "distinct", saver, w, "%s and %s write the same file %s" % (saver, seen.get(key), tm.show(p)))
            seen[key] = saver
        for q in rd:
            pass
        # folder
        for a in ws:
            for p in leaves(a.path):
                d = dirname(p)
                if d is None:
                    continue
                root = tm.attr(st.self_t, "data_path")
                if cls == DS and d is root:
                    rep.count("folder")
                    continue
                mk = [m for m in sacc if m.kind == "mkdir_p" and m.eff.seq < a.eff.seq and tuple(m.eff.loops) == tuple(a.eff.loops)[:len(m.eff.loops)]
                      and (m.path is d or under(m.path, d))]
                if p.args[-1].op == "sym" and nested(prog, saver):
                    mk = [m for m in mk if any(x.op == "dirof" and x.args[0] is p.args[-1] for x in (m.path.args if m.path.op == "path" else ()))]
                    rep.expect(bool(mk), "folder", saver + ":nested", a.eff.where, "%s is called with names that have folders of their own, which are not made" % saver)
                ok = covered_by([m.eff.guards for m in mk], a.eff.guards)
                rep.count("folder")
                if not ok:
                    late.append((cls, saver, d, a.eff.where))
    # readers must not read another artefact's file
    rep.part(newest, prog, rep, "agree")
    for cls, saver, d, where in late:
        callers(prog, rep, cls, saver, d, where)
    rep.minimum("agree", 40)
    rep.minimum("exists", 25)
    rep.minimum("folder", 24)


def nested(prog, saver):
    """Does any call of the saver name a file with a folder of its own?"""
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == saver:
                for a in list(n.args[1:]) + [k.value for k in n.keywords]:
                    for x in ast.walk(a):
                        if isinstance(x, ast.Constant) and isinstance(x.value, str) and "/" in x.value or isinstance(x, ast.Attribute) and x.attr == "join" and isinstance(x.value, ast.Attribute) and x.value.attr == "path":
                            return True
    return False


def under(p, d):
    """Creating p creates d as well."""
    a = list(p.args) if p.op == "path" else [p]
    b = list(d.args) if d.op == "path" else [d]
    return len(a) >= len(b) and a[:len(b)] == b


def callers(prog, rep, cls, saver, d, where):
    """Savers that rely on the folder being there: every call follows one that creates it."""
    makers = []
    for c2, s2, _, _, _ in PAIRS:
        if s2 == saver or c2 != cls:
            continue
        st = Store(prog, c2)
        _, acc, _ = st.run(s2)
        for m in acc:
            if m.kind == "mkdir_p" and not m.eff.guards and under(m.path, d):
                makers.append(s2)
    sites = []

    def judge(qual, mod, depth):
        """[(effect, ok)] for the calls of the saver reached from function `qual`."""
        fl = Flow(prog, only={mod.name}, opaque_prefix=[cls])
        fl.run(qual)
        out = []
        for e in fl.effects:
            if e.kind in ("mcall", "call") and (e.name or "").split(".")[-1] == saver:
                before = [x for x in fl.effects if x.seq < e.seq and x.kind in ("mcall", "call") and (x.name or "").split(".")[-1] in makers
                          and x.recv is e.recv]
                ok = covered_by([x.guards for x in before], e.guards)
                out.append((e, ok))
        return out

    def visit(name, depth):
        for mod, qual, node, _ in prog.all_functions():
            if node.name == saver or ".<locals>" in qual:
                continue
            if not any((isinstance(n, ast.Attribute) and n.attr == name) or (isinstance(n, ast.Name) and n.id == name) for n in ast.walk(node)):
                continue
            if prog.resolve(qual)[0] != "func":
                continue  # a nested function is judged with the function around it
            bad = [e for e, ok in judge(qual, mod, depth) if not ok]
            sites.append(qual)
            rep.count("folder")
            if bad and visit_ok(node.name, mod, depth + 1):
                continue
            for e in bad:
                rep.expect(False, "folder", "%s in %s" % (saver, qual), e.where, "%s writes into %s, which may not exist yet" % (saver, tm.show(d)))

    def visit_ok(name, mod, depth):
        """Every caller of the function creates the folder before the call."""
        n = 0
        for m2, q2, node2, _ in prog.all_functions():
            if m2 is not mod or node2.name == name or prog.resolve(q2)[0] != "func":
                continue
            if any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(node2)):
                n += 1
                res = judge(q2, m2, depth)
                if not res or any(not ok for _, ok in res):
                    return False
        return n > 0

    visit(saver, 0)
    rep.expect(bool(sites), "folder", saver, where, "%s writes into %s without creating it" % (saver, tm.show(d)))
