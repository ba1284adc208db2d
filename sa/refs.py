"""References by resolved dotted name, over the whole syntax tree (imports at any scope, attribute chains, local shadowing)."""

import ast
import builtins

from sa.program import import_targets

BUILTINS = set(dir(builtins))


class Ref:
    def __init__(self, mod, node, dotted, call, owner):
        self.mod, self.node, self.dotted, self.call, self.owner = mod, node, dotted, call, owner

    @property
    def where(self):
        return "%s:%d" % (self.mod.rel, getattr(self.node, "lineno", 0))


def scope_names(fn):
    """Names bound inside a function other than by import (they hide globals)."""
    out = set()
    a = fn.args
    for p in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
        out.add(p.arg)

    def rec(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                out.add(c.id)
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.add(c.name)
                continue
            if isinstance(c, ast.Lambda):
                continue
            if isinstance(c, ast.ExceptHandler) and c.name:
                out.add(c.name)
            rec(c)
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    for s in body:
        rec(ast.Module(body=[s], type_ignores=[]) if isinstance(s, ast.stmt) else s)
    if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
        g = {n for s in ast.walk(fn) if isinstance(s, (ast.Global,)) for n in s.names}
        out -= g
    return out


def refs(mod):
    """Every maximal Name/Attribute chain that resolves to a dotted name."""
    out = []

    def lookup(name, env):
        for hidden, imps in reversed(env):
            if name in imps:
                return imps[name]
            if name in hidden:
                return None
        if name in mod.imports:
            return mod.imports[name]
        if name in mod.funcs or name in mod.classes or name in mod.assigns:
            return mod.name + "." + name
        if name in BUILTINS:
            return "builtins." + name
        return None

    def chain(n):
        parts = []
        while isinstance(n, ast.Attribute):
            parts.append(n.attr)
            n = n.value
        return (n, list(reversed(parts)))

    def visit(n, env, call, owner):
        if isinstance(n, (ast.Name, ast.Attribute)):
            base, parts = chain(n)
            if isinstance(base, ast.Name):
                d = lookup(base.id, env)
                if d is not None:
                    out.append(Ref(mod, n, ".".join([d] + parts), call, owner))
                return
            visit(base, env, None, owner)
            return
        if isinstance(n, ast.Call):
            visit(n.func, env, n, owner)
            for a in n.args:
                visit(a, env, None, owner)
            for k in n.keywords:
                visit(k.value, env, None, owner)
            return
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            imps = {}
            if not isinstance(n, ast.Lambda):
                for s in ast.walk(n):
                    if isinstance(s, (ast.Import, ast.ImportFrom)):
                        imps.update(dict(import_targets(mod, s)))
                for d in n.decorator_list + ([n.returns] if n.returns else []):
                    visit(d, env, None, owner)
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
                visit(d, env, None, owner)
            e2 = env + [(scope_names(n), imps)]
            o2 = owner if isinstance(n, ast.Lambda) else (owner + "." + n.name)
            for s in (n.body if isinstance(n.body, list) else [n.body]):
                visit(s, e2, None, o2)
            return
        if isinstance(n, ast.ClassDef):
            for d in n.decorator_list + n.bases + [k.value for k in n.keywords]:
                visit(d, env, None, owner + "." + n.name)
            for s in n.body:
                visit(s, env, None, owner + "." + n.name)
            return
        for c in ast.iter_child_nodes(n):
            visit(c, env, None, owner)

    for s in mod.tree.body:
        visit(s, [], None, mod.name)
    return out
