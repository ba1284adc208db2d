"""Source model: every Python module of the repository, parsed, with names resolved."""

import ast
import hashlib
import os

REPO = os.environ.get("VP_REPO", "/repo")


class AnalysisBroken(Exception):
    """An anchor the rule needs is not in the tree: the check has no answer."""


class ClassInfo:
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.qual = mod.name + "." + node.name
        self.methods, self.assigns, self.props, self.setters = {}, {}, {}, {}
        self.ann = {}
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                decs = [ast.unparse(d) for d in s.decorator_list]
                if any(d.endswith(".setter") for d in decs):
                    self.setters[s.name] = s
                    continue
                if "property" in decs or any(d.endswith("cached_property") for d in decs):
                    self.props[s.name] = s
                self.methods[s.name] = s
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.assigns[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                self.ann[s.target.id] = s.annotation
                if s.value is not None:
                    self.assigns[s.target.id] = s.value
        self.bases = [b for b in node.bases]
        # name = property(get, set)
        for n, v in list(self.assigns.items()):
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "property":
                g = v.args[0] if v.args else None
                for k in v.keywords:
                    if k.arg == "fget":
                        g = k.value
                if isinstance(g, ast.Name) and g.id in self.methods:
                    self.props[n] = self.methods[g.id]


class Module:
    def __init__(self, name, path, src):
        self.name, self.path, self.src = name, path, src
        self.tree = ast.parse(src, path)
        self.is_pkg = os.path.basename(path) == "__init__.py"
        self.funcs, self.classes, self.imports, self.assigns = {}, {}, {}, {}
        self.multi = set()
        self._collect(self.tree.body)
        self.multi |= {n for s in ast.walk(self.tree) if isinstance(s, ast.Global) for n in s.names}

    def _collect(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[s.name] = s
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = ClassInfo(self, s)
            elif isinstance(s, (ast.Import, ast.ImportFrom)):
                for local, target in import_targets(self, s):
                    self.imports[local] = target
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            if n.id in self.assigns:
                                self.multi.add(n.id)
                            if n is t:
                                self.assigns[n.id] = s.value
                            else:
                                self.assigns[n.id] = None
            elif isinstance(s, ast.AnnAssign):
                if isinstance(s.target, ast.Name) and s.value is not None:
                    self.assigns[s.target.id] = s.value
            elif isinstance(s, ast.AugAssign):
                if isinstance(s.target, ast.Name):
                    self.multi.add(s.target.id)
            elif isinstance(s, (ast.If, ast.Try)):
                for b in ("body", "orelse", "finalbody"):
                    self._collect(getattr(s, b, []) or [])
                for h in getattr(s, "handlers", []):
                    self._collect(h.body)

    @property
    def rel(self):
        return os.path.relpath(self.path, REPO)


def import_targets(mod, s):
    """[(local name, dotted target)] of an import statement."""
    out = []
    if isinstance(s, ast.Import):
        for a in s.names:
            if a.asname:
                out.append((a.asname, a.name))
            else:
                out.append((a.name.split(".")[0], a.name.split(".")[0]))
    else:
        base = s.module or ""
        if s.level:
            parts = mod.name.split(".")
            if not mod.is_pkg:
                parts = parts[:-1]
            parts = parts[: len(parts) - (s.level - 1)]
            base = ".".join(parts + ([s.module] if s.module else []))
        for a in s.names:
            out.append((a.asname or a.name, base + "." + a.name))
    return out


class Program:
    def __init__(self, repo=REPO):
        self.repo = repo
        self.modules = {}
        self.unparsed = []
        roots = [("opensfm", "opensfm"), ("annotation_gui_gcp", "annotation_gui_gcp"), ("viewer", "viewer")]
        for d, pkg in roots:
            top = os.path.join(repo, d)
            for dp, dn, fn in os.walk(top):
                dn[:] = sorted(x for x in dn if x not in ("test", "tests", "node_modules", "third_party", "__pycache__", "src"))
                for f in sorted(fn):
                    if not f.endswith(".py"):
                        continue
                    p = os.path.join(dp, f)
                    rel = os.path.relpath(p, repo)[:-3].split(os.sep)
                    if rel[-1] == "__init__":
                        rel = rel[:-1]
                    self._add(".".join(rel), p)
        bind = os.path.join(repo, "bin")
        for f in sorted(os.listdir(bind)) if os.path.isdir(bind) else []:
            p = os.path.join(bind, f)
            if os.path.isfile(p):
                head = open(p, "rb").read(80)
                if f.endswith(".py") or (head.startswith(b"#!") and b"python" in head.split(b"\n")[0]):
                    self._add("bin." + f.replace(".py", ""), p)
        if len(self.modules) < 80:
            raise AnalysisBroken("only %d python modules found" % len(self.modules))

    def _add(self, name, p):
        src = open(p, "rb").read().decode("utf-8")
        try:
            self.modules[name] = Module(name, p, src)
        except SyntaxError:
            if not name.startswith("bin."):
                raise
            self.unparsed.append(p)

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.modules):
            h.update(n.encode() + b"\0" + self.modules[n].src.encode())
        return h.hexdigest()

    # -- lookup ---------------------------------------------------------
    def resolve(self, dotted, _depth=0):
        """('mod',name) | ('func',mod,node) | ('class',ClassInfo) | ('var',mod,name) | ('ext',dotted)"""
        if dotted in self.modules:
            return ("mod", dotted)
        if "." in dotted and _depth < 8:
            base, last = dotted.rsplit(".", 1)
            r = self.resolve(base, _depth + 1)
            if r[0] == "mod":
                m = self.modules[r[1]]
                if last in m.funcs:
                    return ("func", m, m.funcs[last])
                if last in m.classes:
                    return ("class", m.classes[last])
                if last in m.imports and m.imports[last] != dotted:
                    return self.resolve(m.imports[last], _depth + 1)
                if last in m.assigns:
                    return ("var", m, last)
            if r[0] == "class":
                c, fn = self.find_method(r[1], last)
                if fn is not None:
                    return ("func", c.mod, fn)
        return ("ext", dotted)

    def func(self, dotted):
        r = self.resolve(dotted)
        if r[0] != "func":
            raise AnalysisBroken("function %s not found" % dotted)
        return r[1], r[2]

    def cls(self, dotted):
        r = self.resolve(dotted)
        if r[0] != "class":
            raise AnalysisBroken("class %s not found" % dotted)
        return r[1]

    def base_classes(self, ci):
        out = []
        for b in ci.bases:
            try:
                d = ast.unparse(b)
            except Exception:
                continue
            d = d.split("[")[0]
            head, _, rest = d.partition(".")
            if head in ci.mod.classes and not rest:
                out.append(ci.mod.classes[head])
                continue
            tgt = ci.mod.imports.get(head)
            if tgt:
                r = self.resolve(tgt + ("." + rest if rest else ""))
                if r[0] == "class":
                    out.append(r[1])
        return out

    def mro(self, ci, _d=0):
        out = [ci]
        if _d < 8:
            for b in self.base_classes(ci):
                for c in self.mro(b, _d + 1):
                    if c not in out:
                        out.append(c)
        return out

    def find_method(self, ci, name):
        for c in self.mro(ci):
            if name in c.methods:
                return c, c.methods[name]
        return None, None

    def all_functions(self):
        """(module, qualname, node, class-or-None) for every def, nested ones included."""
        for m in self.modules.values():
            def rec(body, prefix, cls):
                for s in body:
                    if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        q = prefix + "." + s.name
                        yield m, q, s, cls
                        yield from rec(s.body, q, None)
                    elif isinstance(s, ast.ClassDef):
                        yield from rec(s.body, prefix + "." + s.name, s.name)
                    else:
                        for b in ("body", "orelse", "finalbody"):
                            bb = getattr(s, b, None)
                            if bb:
                                yield from rec(bb, prefix, cls)
                        for h in getattr(s, "handlers", []) or []:
                            yield from rec(h.body, prefix, cls)
            yield from rec(m.tree.body, m.name, None)
