"""C++ functions read off clang's syntax tree into formulas.

Unit(driver text, filter) parses with clang; Eval(unit, decide)(function, arguments) follows the statements of a function (calls to
functions of the unit are followed too) and computes formulas (sa/formula.py) for everything it writes or returns. Conditions on
formulas are looked up in `decide`; paths(...) goes through all the ways to decide them.
"""

import concurrent.futures
import json
import math
import re
import subprocess

from . import formula as fo
from .program import REPO

SRC = REPO + "/opensfm/src"
FLAGS = ["-std=c++17", "-fsyntax-only", "-w", "-I" + SRC, "-I/usr/include/eigen3"]


class Unread(LookupError):
    pass


class Outside(Unread):
    """An element outside of an array, on this path."""


class Split(Exception):
    def __init__(self, key):
        self.key = key


class Stop(Exception):
    """The path ends in an exception of the C++ code."""


def stable():
    """A prefix for commands that makes their addresses, which clang prints as identifiers, the same in every run."""
    c = ["setarch", "-R"]
    try:
        return c if subprocess.run(c + ["true"], capture_output=True).returncode == 0 else []
    except OSError:
        return []


class Unit:
    cache = {}

    def __init__(self, text, filt):
        k = (text, filt)
        if k not in Unit.cache:
            Unit.cache[k] = self.parse(text, filt)
        self.tops = Unit.cache[k]
        self.ids = {}
        self.bodies = {}
        self.owner = {}
        self.byname = {}
        self.aliases = {}
        for t, spaces in self.tops:
            self.index(t, tuple((x, None) for x in spaces))
        # members defined outside of their class belong to it
        for k, l in self.byname.items():
            self.byname[k] = [(self.home(p, n), n) for p, n in l]

    @staticmethod
    def parse(text, filt):
        tops = []
        fs = filt if isinstance(filt, (tuple, list)) else (filt,)

        still = [] if len(fs) == 1 else stable()
        m = max(map(len, fs))
        # addresses are node identifiers: a declaration that every filter lets through, at the end, tells by how much those of one run are shifted
        name = "verif_anchor_" + "_".join(re.sub(r"\W+", "_", f) for f in fs if not f.endswith("::") and f not in ("anonymous namespace", "(unnamed"))
        around = ["namespace %s" % x for f in fs if f.endswith("::") for x in f.split("::") if x] + (["namespace"] if "anonymous namespace" in fs else [])
        anchor = "\n" + " ".join(x + " {" for x in ["namespace verif_anchors"] + around) + (" struct { int %s; } unnamed; " if "(unnamed" in fs else " extern int %s; ") % name + "}" * (1 + len(around)) + "\n"

        def clang(f):
            return subprocess.run(still + ["clang-18", "-x", "c++"] + FLAGS + ["-DPAD=" + "x" * (m - len(f)), "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=" + f, "-"],
                                  input=text + (anchor if still else ""), capture_output=True, text=True, timeout=600)

        def place(p):
            i = p.stdout.rfind('"name": "%s"' % name)
            x = re.match(r'"id": "(0x[0-9a-f]+)"', p.stdout[p.stdout.rfind('"id"', 0, i):][:40]) if i >= 0 else None
            return int(x.group(1), 16) if x else None

        with concurrent.futures.ThreadPoolExecutor(8) as pool:
            runs = list(pool.map(clang, fs))
        if still:
            ends = [place(p) for p in runs]
            if None in ends:
                still = []
            else:
                for p, e in zip(runs, ends):
                    if e != ends[0]:
                        p.stdout = re.sub('"0x(7f[0-9a-f]+)"', lambda r: '"0x%x"' % (int(r.group(1), 16) + ends[0] - e), p.stdout)
        for f, p in zip(fs, runs):
            if p.returncode:
                raise Unread("clang: " + p.stderr.strip().split("\n")[0][:300])
            # identifiers of different runs are kept apart unless addresses are the same in all runs
            spaces = (f[:-2],) if f.endswith("::") else ()
            d, i, s = json.JSONDecoder(), 0, p.stdout if len(fs) == 1 or still else p.stdout.replace('"0x', '"%s0x' % f)
            while True:
                while i < len(s) and s[i].isspace():
                    i += 1
                if i >= len(s):
                    break
                if s.startswith("Dumping", i):
                    i = s.index("\n", i)
                    continue
                o, i = d.raw_decode(s, i)
                tops.append((o, spaces))
        return tops

    def index(self, n, path):
        k = n.get("kind", "")
        if "id" in n and (k.endswith("Decl") or k.endswith("Specialization")):
            old = self.ids.get(n["id"])
            if old is None or len(n.get("inner", ())) > len(old.get("inner", ())):
                self.ids[n["id"]] = n
            self.owner[n["id"]] = path
            if k in ("TypeAliasDecl", "TypedefDecl") and "desugaredQualType" in n.get("type", {}):
                self.aliases.setdefault(n.get("name"), n["type"]["desugaredQualType"])
            if k in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXConversionDecl"):
                if body(n) is not None:
                    self.bodies.setdefault(n.get("mangledName", n["id"]), n)
                    self.byname.setdefault(n.get("name"), []).append((path, n))
            if k in ("CXXRecordDecl", "ClassTemplateSpecializationDecl", "NamespaceDecl", "FunctionTemplateDecl", "ClassTemplateDecl"):
                path = path + ((n.get("name"), n["id"]),)
        for c in n.get("inner", ()):
            index_ok = c.get("kind") is not None
            if index_ok:
                self.index(c, path)

    def home(self, path, n):
        c = n.get("parentDeclContextId")
        r = self.ids.get(c)
        if r is None or r["kind"] not in ("CXXRecordDecl", "ClassTemplateSpecializationDecl") or any(p[1] == c for p in path):
            return path
        self.owner[n["id"]] = self.owner.get(c, ()) + ((r.get("name"), c),) + tuple(p for p in path if p[0] == n.get("name"))
        return self.owner[n["id"]]

    def body_of(self, fid, ref=None):
        """The definition of a function; ref: (name, type) when another run declares it."""
        n = self.ids.get(fid)
        if n is None:
            c = [f for _, f in self.byname.get(ref[0], ()) if f.get("type", {}).get("qualType") == ref[1]] if ref else []
            return c[0] if c and len({f.get("mangledName") for f in c}) == 1 else None
        if body(n) is not None:
            return n
        return self.bodies.get(n.get("mangledName", fid))

    def find(self, name, cls=None, targs=None, params=None, templated=None):
        """The function definitions with this name; targs: values of their template arguments."""
        out = []
        for path, n in self.byname.get(name, ()):
            if cls is not None and (not [p for p in path if p[0] != name] or [p for p in path if p[0] != name][-1][0] != cls):
                continue
            t = template_args(n)
            if targs is not None and t != targs:
                continue
            if templated is False and any(self.ids.get(p[1], {}).get("kind") == "FunctionTemplateDecl" for p in path) and not t:
                continue
            if params is not None and [q.get("type", {}).get("qualType", "") for q in inner(n, "ParmVarDecl")] != params:
                continue
            if n not in out:
                out.append(n)
        return out


def body(n):
    for c in n.get("inner", ()):
        if c.get("kind") == "CompoundStmt":
            return c
    return None


def inner(n, kind):
    return [c for c in n.get("inner", ()) if c.get("kind") == kind]


def template_args(n):
    out = []
    for c in inner(n, "TemplateArgument"):
        if "type" in c:
            out.append(c["type"]["qualType"])
        elif "value" in c:
            out.append(c["value"])
        elif "inner" in c:
            out += [x.get("value", x.get("type", {}).get("qualType")) for x in c["inner"]]
        else:
            out.append(None)
    return out


def typ(n):
    t = n.get("type", {})
    return t.get("desugaredQualType") or t.get("qualType", "")


def dims(t):
    """(rows, cols, row major) of an Eigen type."""
    for m in re.finditer(r"\b(?:Matrix|Array)<", t):
        depth, parts, start = 1, [], m.end()
        for i in range(m.end(), len(t)):
            c = t[i]
            depth += (c == "<") - (c == ">")
            if depth == 0 or depth == 1 and c == ",":
                parts.append(t[start:i].strip())
                start = i + 1
            if depth == 0:
                break
        if len(parts) >= 3 and all(re.match(r"-?\d+$", x) for x in parts[1:3]):
            o = parts[3] if len(parts) > 3 else "0"
            return int(parts[1]), int(parts[2]), "RowMajor" in o or bool(o.isdigit() and int(o) & 1)
    m = re.search(r"\b(?:Vec|Vector)(\d)d?\b", t)
    if m:
        return int(m.group(1)), 1, False
    m = re.search(r"\bMat(?:rix)?(\d)d?\b", t)
    if m:
        return int(m.group(1)), int(m.group(1)), False
    return None


class LV:
    """A place."""

    def __init__(self, get, put, key=None):
        self.get, self.put, self.key = get, put, key


def cell(v=None):
    box = [v]
    return LV(lambda: box[0], lambda x: box.__setitem__(0, x), ("cell", id(box), box))


class Arr:
    """Cells in memory order; rows x cols for matrices (cell(i, j) finds its place)."""

    def __init__(self, cells, rows=None, cols=None, rowmajor=False):
        self.cells, self.rows, self.cols, self.rowmajor = cells, rows, cols, rowmajor

    def at(self, i, j=None):
        if j is None:
            if self.rows is not None and self.rows != 1 and self.cols != 1:
                raise Unread("single index into a matrix")
            return self.cells[i]
        if not (0 <= i < self.rows and 0 <= j < self.cols):
            raise Unread("index out of range")
        return self.cells[i * self.cols + j if self.rowmajor else j * self.rows + i]

    def grid(self):
        return [[self.at(i, j).get() for j in range(self.cols)] for i in range(self.rows)]


def matrix(grid, rowmajor=False):
    r, c = len(grid), len(grid[0])
    cells = [cell(grid[i][j]) for i in range(r) for j in range(c)] if rowmajor else [cell(grid[i][j]) for j in range(c) for i in range(r)]
    return Arr(cells, r, c, rowmajor)


class Ptr:
    def __init__(self, arr, off=0):
        self.arr, self.off = arr, off

    def target(self):
        """The object pointed to."""
        c = self.arr.cells if isinstance(self.arr, Arr) else []
        v = val_or(c[self.off]) if 0 <= self.off < len(c) else None
        return v if isinstance(v, Obj) else None

    def at(self, i):
        k = self.off + i
        if not 0 <= k < len(self.arr.cells):
            raise Outside("index outside of an array")
        return self.arr.cells[k]


class Obj:
    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields


class Dual:
    """Forward derivatives (Eigen::AutoDiffScalar, ceres::Jet)."""

    def __init__(self, v, d):
        self.v, self.d = v, d


class Assoc:
    """A std::map with known keys."""

    def __init__(self):
        self.d = {}

    def key(self, k):
        k = val_or(k)
        if isinstance(k, Address):
            return k
        if isinstance(k, Ptr) and k.target() is not None:
            return Address(k.target())
        if isinstance(k, Obj) and k.cls is None and list(k.fields) == ["first", "second"]:
            return self.key(k.fields["first"]), self.key(k.fields["second"])
        if isinstance(k, Obj) and k.cls is not None and "id_" in k.fields:
            return Address(k)
        k = concrete(k) if not isinstance(k, str) else k
        if k is None:
            raise Unread("key of a map")
        return k

    def slot(self, k):
        return self.d.setdefault(self.key(k), cell(None))


class Address:
    """The address of an object as the key of a map; objects with an identifier are ordered by it."""

    def __init__(self, o):
        self.o = o
        i = val_or(o.fields["id_"]) if "id_" in o.fields else None
        self.k = i if isinstance(i, str) else id(o)

    def __eq__(self, other):
        return isinstance(other, Address) and self.k == other.k

    def __hash__(self):
        return hash(("address", self.k))


class PastEnd(Unread):
    """What an iterator at the end is taken to point at."""


class Iter:
    def __init__(self, m, k):
        self.m, self.k = m, k


class Comma:
    def __init__(self, m):
        self.m, self.k = m, 0

    def put(self, v):
        for x in flat(v):
            i, j = divmod(self.k, self.m.cols)
            self.m.at(i, j).put(x)
            self.k += 1


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Loop(Exception):
    pass


class Break(Loop):
    pass


class Continue(Loop):
    pass


def val(x):
    while isinstance(x, LV):
        x = x.get()
    if x is None:
        raise Unread("value not written before it is read")
    return x


def isnum(x):
    return isinstance(x, dict)


def num(x):
    x = val(x)
    if isinstance(x, bool):
        return fo.const(int(x))
    if isinstance(x, Arr) and len(x.cells) == 1:
        x = val(x.cells[0])
    if not isnum(x):
        raise Unread("not a number")
    return x


def concrete(x):
    x = val(x)
    if isinstance(x, bool):
        return int(x)
    if isnum(x) and set(x) <= {()}:
        v = x.get((), 0.0)
        return int(v) if v == int(v) else v
    return None


def flat(v):
    v = val(v)
    if isinstance(v, Arr):
        if v.rows is None:
            return [val(c) for c in v.cells]
        return [val(v.at(i, j)) for i in range(v.rows) for j in range(v.cols)]
    return [v]


def wrap(name, f):
    """A unary function lifted to dual numbers."""
    der = {"sin": fo.cos, "cos": lambda p: fo.neg(fo.sin(p)), "sqrt": lambda p: fo.scale(fo.inv(fo.sqrt(p)), 0.5),
           "tan": lambda p: fo.inv(fo.mul(fo.cos(p), fo.cos(p)))}.get(name)

    def g(x):
        x = val(x)
        if isinstance(x, Dual):
            if der is None:
                raise Unread("derivative of " + name)
            k = der(x.v)
            return Dual(f(x.v), [fo.mul(k, y) for y in x.d])
        return f(num(x))
    return g


UNARY = {
    "sin": fo.sin, "cos": fo.cos, "sqrt": fo.sqrt, "tan": lambda p: fo.div(fo.sin(p), fo.cos(p)), "abs": lambda p: absolute(p), "fabs": lambda p: absolute(p),
    "asin": lambda p: fo.fun("asin", p), "acos": lambda p: fo.fun("acos", p), "atan": lambda p: fo.atan2(p, fo.const(1)),
    "exp": lambda p: fo.fun("exp", p), "log": lambda p: fo.fun("log", p), "floor": lambda p: rnd("floor", math.floor, p), "ceil": lambda p: rnd("ceil", math.ceil, p),
    "round": lambda p: rnd("round", round, p),
}


def absolute(p):
    if set(p) <= {()}:
        return fo.const(abs(p.get((), 0)))
    if fo.lead(p) < 0:
        p = fo.neg(p)
    return fo.fun("abs", p)


def rnd(name, f, p):
    if set(p) <= {()}:
        return fo.const(f(p.get((), 0)))
    return fo.fun(name, p)


def arith(op, a, b):
    a, b = val(a), val(b)
    if isinstance(a, bool):
        a = fo.const(int(a))
    if isinstance(b, bool):
        b = fo.const(int(b))
    if isinstance(a, Dual) or isinstance(b, Dual):
        n = len((a if isinstance(a, Dual) else b).d)
        a = a if isinstance(a, Dual) else Dual(num(a), [{}] * n)
        b = b if isinstance(b, Dual) else Dual(num(b), [{}] * n)
        v = arith(op, a.v, b.v)
        if op == "+":
            d = [fo.add(x, y) for x, y in zip(a.d, b.d)]
        elif op == "-":
            d = [fo.sub(x, y) for x, y in zip(a.d, b.d)]
        elif op == "*":
            d = [fo.add(fo.mul(x, b.v), fo.mul(a.v, y)) for x, y in zip(a.d, b.d)]
        elif op == "/":
            i = fo.inv(b.v)
            d = [fo.mul(i, fo.sub(x, fo.mul(v, y))) for x, y in zip(a.d, b.d)]
        else:
            raise Unread("operator on dual numbers")
        return Dual(v, d)
    if isinstance(a, Ptr) and isnum(b):
        k = concrete(b)
        if k is None:
            raise Unread("pointer moved by an unknown amount")
        return Ptr(a.arr, a.off + (k if op == "+" else -k))
    if isinstance(a, Arr) and a.rows is None and isnum(b) and op in "+-":
        return arith(op, Ptr(a), b)
    if isinstance(a, Arr) or isinstance(b, Arr):
        return marith(op, a, b)
    if not (isnum(a) and isnum(b)):
        raise Unread("operator " + op)
    if op == "+":
        return fo.add(a, b)
    if op == "-":
        return fo.sub(a, b)
    if op == "*":
        return fo.mul(a, b)
    if op == "/":
        if not b:
            raise Unread("division by zero")
        return fo.div(a, b)
    if op == "%":
        x, y = concrete(a), concrete(b)
        if x is not None and y:
            return fo.const(int(math.fmod(x, y)))
        return fo.fun("mod", a, b)
    raise Unread("operator " + op)


def marith(op, a, b):
    if isinstance(a, Arr) and isinstance(b, Arr):
        if op in "+-":
            return matrix([[arith(op, x, y) for x, y in zip(r, s)] for r, s in zip(a.grid(), b.grid())])
        if op == "*":
            if a.cols != b.rows:
                raise Unread("shapes of a product")
            g, h = a.grid(), b.grid()
            out = []
            for i in range(a.rows):
                row = []
                for j in range(b.cols):
                    s = fo.const(0)
                    for k in range(a.cols):
                        s = arith("+", s, arith("*", g[i][k], h[k][j]))
                    row.append(s)
                out.append(row)
            return matrix(out)
        raise Unread("operator on matrices")
    if isinstance(a, Arr):
        return matrix([[arith(op, x, b) for x in r] for r in a.grid()])
    return matrix([[arith(op, a, x) for x in r] for r in b.grid()])


class Eval:
    LIMIT = 200000

    def __init__(self, unit, decide=None, opaque=None, fields=None):
        self.u = unit
        self.decide = decide if decide is not None else {}
        self.opaque = opaque or {}  # function name -> python function(eval, args)
        self.steps = 0
        self.globals = {}
        self.asked = {}

    # entry
    def run(self, fn, args, this=None):
        try:
            return self.call(fn, args, this)
        except RecursionError:
            raise Unread("recursion")

    def call(self, fn, args, this=None):
        env = {}
        ps = inner(fn, "ParmVarDecl")
        for i, p in enumerate(ps):
            if i < len(args) and val_or(args[i]) != ("default",):
                a = args[i]
                ref = "&" in p.get("type", {}).get("qualType", "")
                if not ref and isinstance(a, LV):
                    a = copy(val(a)) if a.get() is not None else None
                env[p["id"]] = a if isinstance(a, LV) else cell(a)
            else:
                d = [c for c in p.get("inner", ()) if "kind" in c and not c["kind"].endswith("Comment")]
                if d:
                    env[p["id"]] = cell(val(self.expr(d[-1], env, this)))
        if fn["kind"] == "CXXConstructorDecl":
            for f in inner(this.cls, "FieldDecl") if this.cls else ():
                this.fields.setdefault(f["name"], cell(self.fresh(typ(f))))
            for c in inner(fn, "CXXCtorInitializer"):
                e = [x for x in c.get("inner", ())]
                if "anyInit" in c and e:
                    v = self.expr(self.default(c, e[0]), env, this)
                    if val_or(v) is not None:
                        this.fields[c["anyInit"]["name"]] = cell(val(v))
                elif e:
                    v = val(self.expr(e[0], env, this))
                    if isinstance(v, Obj):
                        this.fields.update(v.fields)
        try:
            self.stmt(body(fn), env, this)
        except Ret as r:
            return r.v
        return None

    def default(self, c, e):
        """The initializer of a member: the one written in the class for CXXDefaultInitExpr."""
        if e["kind"] != "CXXDefaultInitExpr" or e.get("inner"):
            return e
        f = self.u.ids.get(c["anyInit"]["id"], {})
        k = [x for x in f.get("inner", ()) if x.get("kind") and not x["kind"].endswith("Comment")]
        return k[-1] if k else e

    # statements
    def stmt(self, n, env, this):
        self.steps += 1
        if self.steps > self.LIMIT:
            raise Unread("too long")
        k = n.get("kind")
        if k is None:
            return
        kids = n.get("inner", ())
        if k == "CompoundStmt":
            for c in kids:
                self.stmt(c, env, this)
        elif k == "DeclStmt":
            for c in kids:
                self.decl(c, env, this)
        elif k == "ReturnStmt":
            raise Ret(self.ret(kids[0], env, this) if kids else None)
        elif k == "IfStmt":
            i = 0
            if n.get("hasInit"):
                self.stmt(kids[0], env, this)
                i = 1
            if n.get("hasVar"):
                self.stmt(kids[i], env, this)
                i += 1
            if self.cond(kids[i], env, this):
                self.stmt(kids[i + 1], env, this)
            elif len(kids) > i + 2:
                self.stmt(kids[i + 2], env, this)
        elif k == "ForStmt":
            init, _, cond, inc, b = (list(kids) + [{}] * 5)[:5]
            if init.get("kind"):
                self.stmt(init, env, this)
            for _i in range(10000):
                if cond.get("kind") and not self.cond(cond, env, this):
                    break
                try:
                    self.stmt(b, env, this)
                except Break:
                    break
                except Continue:
                    pass
                if inc.get("kind"):
                    self.expr(inc, env, this)
            else:
                raise Unread("endless loop")
        elif k in ("WhileStmt", "DoStmt"):
            cond, b = (kids[0], kids[-1]) if k == "WhileStmt" else (kids[-1], kids[0])
            first = k == "DoStmt"
            for _i in range(10000):
                if not first and not self.cond(cond, env, this):
                    break
                first = False
                try:
                    self.stmt(b, env, this)
                except Break:
                    break
                except Continue:
                    pass
        elif k == "SwitchStmt":
            self.switch(n, env, this)
        elif k == "BreakStmt":
            raise Break()
        elif k == "ContinueStmt":
            raise Continue()
        elif k == "NullStmt":
            pass
        elif k in ("AttributedStmt", "LabelStmt"):
            self.stmt(kids[-1], env, this)
        else:
            self.expr(n, env, this)

    def ret(self, n, env, this):
        v = self.expr(n, env, this)
        return v

    def switch(self, n, env, this):
        kids = [c for c in n["inner"] if c.get("kind")]
        x = concrete(self.expr(kids[0], env, this))
        if x is None:
            raise Unread("switch on an unknown value")
        active = False
        try:
            for pas in (0, 1):
                for c in kids[-1].get("inner", ()):
                    while c.get("kind") in ("CaseStmt", "DefaultStmt"):
                        sub = c["inner"]
                        if c["kind"] == "CaseStmt":
                            if not active and concrete(self.expr(sub[0], env, this)) == x:
                                active = True
                        elif pas == 1:
                            active = True
                        c = sub[-1]
                    if active:
                        self.stmt(c, env, this)
                if active:
                    break
        except Break:
            pass

    def decl(self, c, env, this):
        k = c.get("kind")
        if k != "VarDecl":
            return
        ini = [x for x in c.get("inner", ()) if x.get("kind") and not x["kind"].endswith("Comment") and not x["kind"].endswith("Attr")]
        t = typ(c)
        ref = c.get("type", {}).get("qualType", "").rstrip().endswith("&")
        if not ini:
            env[c["id"]] = cell(self.fresh(t))
            return
        v = self.expr(ini[-1], env, this)
        if ref and isinstance(v, LV):
            env[c["id"]] = v
            return
        v = val(v) if v is not None and not (isinstance(v, LV) and v.get() is None) else None
        m = re.match(r"(.*)\[(\d+)\]$", t)
        if m and isinstance(v, list):
            n = int(m.group(2))
            v = Arr([cell(x) for x in (v + [fo.const(0)] * n)[:n]])
        elif isinstance(v, list):
            v = self.init_list(t, v)
        else:
            v = self.convert(t, copy(v) if not ref and "Map<" not in t else v)
        env[c["id"]] = cell(v)

    def convert(self, t, v):
        d = dims(t)
        if d and isinstance(v, Arr) and v.rows is not None and d[0] > 0 and d[1] > 0 and (v.rows, v.cols) == d[:2] and v.rowmajor != d[2] and "Map<" not in t:
            return matrix(v.grid(), d[2])
        if re.match(r"(const )?(unsigned |signed )?(int|long|size_t|short|char)\b", t) and isnum(v) and set(v) <= {()}:
            return fo.const(math.trunc(v.get((), 0)))
        return v

    def fresh(self, t):
        m = re.match(r"(.*)\[(\d+)\]$", t)
        t = self.u.aliases.get(t.replace("const ", "").strip(), t)
        if re.match(r"(const )?std::(unordered_)?map<", t):
            return Assoc()
        if m:
            return Arr([cell(self.fresh(m.group(1).strip())) for _ in range(int(m.group(2)))])
        if "AutoDiffScalar<" in t and not re.search(r"Matrix<Eigen::AutoDiffScalar|Matrix<Dual", t):
            d = re.search(r"Matrix<double, (\d+)", t) or re.search(r"Vec(\d)d", t)
            return Dual(None, [None] * int(d.group(1))) if d else None
        d = dims(t)
        if d and d[0] > 0 and d[1] > 0:
            return Arr([cell(None) for _ in range(d[0] * d[1])], *d)
        return None

    def init_list(self, t, v):
        m = re.match(r"(?:const )?std::array<.*, (\d+)>$", t.strip())
        if m:
            v = val(v[0]) if len(v) == 1 and isinstance(val_or(v[0]), list) else v
            v = v.cells if isinstance(v, Arr) else v
            n = int(m.group(1))
            return Arr([cell(val(x)) for x in (list(v) + [fo.const(0)] * n)[:n]])
        d = dims(t)
        if d and len(v) == d[0] * d[1] and (d[0] == 1 or d[1] == 1):
            return Arr([cell(val(x)) for x in v], *d)
        r = self.record(t)
        if r is not None:
            names = [f["name"] for f in inner(r, "FieldDecl")]
            return Obj(r, {n: (x if isinstance(x, LV) else cell(x)) for n, x in zip(names, v)})
        if len(v) == 1:
            return val(v[0])
        return Arr([cell(val(x)) for x in v])

    def record(self, t):
        t = re.sub(r"\b(const|struct|class) ", "", t).strip().rstrip("&").strip()
        head, args = t, None
        if "<" in t and t.endswith(">"):
            d = 0
            for i in range(len(t) - 1, -1, -1):
                d += {">": 1, "<": -1}.get(t[i], 0)
                if d == 0:
                    head, args = t[:i], t[i + 1:-1]
                    break
        q = re.sub(r"<[^<>]*>", "", head).split("::")
        best = None
        for n in self.u.ids.values():
            if n["kind"] in ("CXXRecordDecl", "ClassTemplateSpecializationDecl") and n.get("name") == q[-1] and inner(n, "FieldDecl"):
                o = [p[0] for p in self.u.owner.get(n["id"], ()) if p[0] != q[-1]]
                s = sum(1 for x in q[:-1] if x in o)
                g = template_args(n) if n["kind"] == "ClassTemplateSpecializationDecl" else None
                s = (s, args is not None and g is not None and ", ".join(map(str, g)).replace(" ", "") == args.replace(" ", ""), args is not None and g is not None)
                if best is None or s > best[0]:
                    best = s, n
        return best[1] if best else None

    # conditions
    def cond(self, n, env, this):
        return self.truth(self.expr(n, env, this))

    def truth(self, v):
        v = val(v)
        if isinstance(v, bool):
            return v
        if isnum(v):
            c = concrete(v)
            if c is not None:
                return bool(c)
            return self.ask(("!=0", fo.key(v)))
        if isinstance(v, tuple) and v and v[0] == "cond":
            return self.ask(v[1])
        if isinstance(v, (Ptr, Arr)):
            return True
        raise Unread("condition")

    def ask(self, key):
        if key in self.decide:
            self.asked[key] = self.decide[key]
            return self.decide[key]
        raise Split(key)

    def compare(self, op, a, b):
        a, b = val(a), val(b)
        if isinstance(a, Dual):
            a = a.v
        if isinstance(b, Dual):
            b = b.v
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            na, nb = a == "null", b == "null"
            if na or nb:
                return (op == "!=")
            raise Unread("comparison of pointers")
        if a == "null" and b == "null":
            return op == "=="
        a, b = num(a), num(b)
        if op in (">", "<="):
            return self.compare("<", b, a) if op == ">" else self.negate(self.compare("<", b, a))
        if op == ">=":
            return self.negate(self.compare("<", a, b))
        if op == "!=":
            return self.negate(self.compare("==", a, b))
        d = fo.sub(a, b)
        c = concrete(d)
        if c is not None:
            return c < 0 if op == "<" else c == 0
        if op == "==":
            if fo.lead(d) < 0:
                d = fo.neg(d)
            k = fo.scale(d, 1 / fo.lead(d))
            return self.ask(("==", fo.key(k)))
        s = fo.lead(d)
        k = fo.key(fo.scale(d, 1 / s))
        r = self.ask(("<", k))  # lead-normalised difference below zero
        return r if s > 0 else not r

    def negate(self, v):
        return not self.truth(v)

    # expressions
    def expr(self, n, env, this):
        self.steps += 1
        if self.steps > self.LIMIT:
            raise Unread("too long")
        k = n["kind"]
        f = getattr(self, "x_" + k, None)
        if f is None:
            raise Unread("construct " + k)
        return f(n, env, this)

    def only(self, n, env, this):
        kids = [c for c in n.get("inner", ()) if c.get("kind")]
        return self.expr(kids[0], env, this)

    x_ParenExpr = x_ExprWithCleanups = x_MaterializeTemporaryExpr = x_CXXBindTemporaryExpr = x_ConstantExpr = only
    x_CXXStdInitializerListExpr = x_FullExpr = only

    def x_SubstNonTypeTemplateParmExpr(self, n, env, this):
        kids = [c for c in n.get("inner", ()) if c.get("kind") and c["kind"] != "NonTypeTemplateParmDecl"]
        return self.expr(kids[-1], env, this)

    def x_ImplicitCastExpr(self, n, env, this):
        v = self.only(n, env, this)
        c = n.get("castKind")
        if c == "LValueToRValue":
            return val(v)
        if c in ("FloatingToIntegral",):
            x = concrete(v)
            return fo.const(math.trunc(x)) if x is not None else fo.fun("int", num(v))
        if c == "ArrayToPointerDecay":
            v = val(v)
            return Ptr(v) if isinstance(v, Arr) else v
        if c in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
            return self.truth(v)
        return v

    def cast(self, n, env, this):
        v = self.only(n, env, this)
        c = n.get("castKind")
        if c in ("FloatingToIntegral",):
            x = concrete(v)
            return fo.const(math.trunc(x)) if x is not None else fo.fun("int", num(v))
        if c == "ToVoid":
            return None
        t = typ(n)
        if isinstance(v, list):
            return self.init_list(t, v)
        return v

    x_CXXStaticCastExpr = x_CStyleCastExpr = x_CXXFunctionalCastExpr = x_CXXConstCastExpr = x_CXXReinterpretCastExpr = cast

    def x_FloatingLiteral(self, n, env, this):
        return fo.const(float(n["value"]))

    def x_IntegerLiteral(self, n, env, this):
        return fo.const(int(n["value"]))

    def x_CXXBoolLiteralExpr(self, n, env, this):
        return bool(n["value"])

    def x_StringLiteral(self, n, env, this):
        return "str:" + str(n.get("value"))

    def x_CXXNullPtrLiteralExpr(self, n, env, this):
        return "null"

    x_GNUNullExpr = x_CXXNullPtrLiteralExpr

    def x_CXXThisExpr(self, n, env, this):
        return this

    def x_CXXScalarValueInitExpr(self, n, env, this):
        return fo.const(0)

    def x_ImplicitValueInitExpr(self, n, env, this):
        z = re.match(r"(?:const )?(?:unsigned )?(?:double|float|int|char|long|bool|size_t) *\[(\d+)\]$", typ(n))
        return Arr([cell({}) for _ in range(int(z.group(1)))]) if z else self.x_CXXScalarValueInitExpr(n, env, this)

    def x_CXXThrowExpr(self, n, env, this):
        raise Stop()

    def x_CXXDefaultArgExpr(self, n, env, this):
        kids = [c for c in n.get("inner", ()) if c.get("kind")]
        if kids:
            return self.expr(kids[0], env, this)
        return ("default",)

    x_CXXDefaultInitExpr = x_CXXDefaultArgExpr

    def x_DeclRefExpr(self, n, env, this):
        d = n["referencedDecl"]
        i = d["id"]
        if i in env:
            return env[i]
        if d["kind"] == "EnumConstantDecl":
            return self.enum(i, d)
        if d["kind"] in ("FunctionDecl", "CXXMethodDecl"):
            return ("fn", i, d["name"], n)
        if i in self.globals:
            return self.globals[i]
        v = self.u.ids.get(i)
        if v is not None and v["kind"] in ("VarDecl",):
            ini = [x for x in v.get("inner", ()) if x.get("kind") and not x["kind"].endswith("Comment") and not x["kind"].endswith("Attr")]
            if ini:
                x = val(self.expr(ini[-1], {}, None))
                self.globals[i] = cell(x)
                return self.globals[i]
        raise Unread("name " + d.get("name", "?"))

    def enum(self, i, d):
        n = self.u.ids.get(i)
        if n is not None:
            for c in n.get("inner", ()):
                if "value" in c:
                    return fo.const(int(c["value"]))
                if c.get("kind"):
                    v = concrete(self.expr(c, {}, None))
                    if v is not None:
                        return fo.const(v)
            # implicit value: previous + 1
            for p in self.u.ids.values():
                if p["kind"] == "EnumDecl":
                    k = inner(p, "EnumConstantDecl")
                    for j, e in enumerate(k):
                        if e["id"] == i:
                            return fo.const(0) if j == 0 else fo.add(self.enum(k[j - 1]["id"], k[j - 1]), fo.const(1))
        raise Unread("enumerator " + d.get("name", "?"))

    def x_MemberExpr(self, n, env, this):
        name = n.get("name", "")
        kids = [c for c in n.get("inner", ()) if c.get("kind")]
        b = self.expr(kids[0], env, this) if kids else None
        o = val_or(b) if b is not None else None
        if isinstance(o, Obj):
            if name in o.fields:
                return o.fields[name]
            return ("method", o, name, n.get("referencedMemberDecl"))
        if isinstance(o, Iter) and name in ("first", "second"):
            if o.k not in o.m.d:
                raise PastEnd("element past the end")
            return o.m.d[o.k] if name == "second" else fo.const(o.k)
        if isinstance(o, Dual) and name in ("a", "v"):
            return self.eigen(b, "value" if name == "a" else "derivatives", [], n)
        return ("method", b, name, n.get("referencedMemberDecl"))

    def x_UnaryOperator(self, n, env, this):
        op = n["opcode"]
        v = self.only(n, env, this)
        if op == "-":
            return self.minus(v)
        if op == "+":
            return val(v)
        if op == "!":
            return not self.truth(v)
        if op == "&":
            if isinstance(v, LV):
                k = v.key
                if k and k[0] == "at":
                    return Ptr(k[1], k[2])
                x = v.get()
                if isinstance(x, (Arr, Obj)):
                    return x
                return Ptr(Arr([v]))
            return v
        if op == "*":
            x = val(v)
            if isinstance(x, Ptr):
                return self.place(x.arr, x.off)
            return v
        if op in ("++", "--"):
            old = val(v)
            new = arith("+" if op == "++" else "-", old, fo.const(1))
            v.put(new)
            return old if n.get("isPostfix") else v
        raise Unread("operator " + op)

    def minus(self, v):
        v = val(v)
        if isinstance(v, Arr):
            return matrix([[self.minus(x) for x in r] for r in v.grid()])
        if isinstance(v, Dual):
            return Dual(fo.neg(v.v), [fo.neg(x) for x in v.d])
        return fo.neg(num(v))

    def place(self, arr, i):
        if not 0 <= i < len(arr.cells):
            raise Outside("index outside of an array")
        c = arr.cells[i]
        return LV(c.get, c.put, ("at", arr, i))

    def x_BinaryOperator(self, n, env, this):
        op = n["opcode"]
        a, b = n["inner"]
        if op == "&&":
            return self.cond(a, env, this) and self.cond(b, env, this)
        if op == "||":
            return self.cond(a, env, this) or self.cond(b, env, this)
        if op == "=":
            v = val(self.expr(b, env, this))
            d = self.expr(a, env, this)
            self.assign(d, v)
            return d
        x = self.expr(a, env, this)
        y = self.expr(b, env, this)
        if op == ",":
            return y
        if op in ("<", ">", "<=", ">=", "==", "!="):
            return self.compare(op, x, y)
        if op == "/" and re.match(r"(const )?(unsigned |signed )?(int|long|short|char|size_t)\b", typ(n)):
            p, q = concrete(x), concrete(y)
            if p is None or not q:
                return fo.fun("idiv", num(x), num(y))
            return fo.const(int(p / q))
        return arith(op, x, y)

    def assign(self, d, v):
        if not isinstance(d, LV):
            t = val(d)
            if isinstance(t, Arr):
                return self.fill(t, v)
            raise Unread("assignment")
        t = d.get()
        if isinstance(t, Arr) and isinstance(v, Arr) and t.rows is not None:
            self.fill(t, v)
        elif isinstance(v, list):
            d.put(Arr([cell(val(x)) for x in v]))
        else:
            d.put(copy(v))

    def fill(self, t, v):
        v = val(v)
        if isinstance(v, Arr) and v.rows is not None and t.rows is not None:
            if (t.rows, t.cols) != (v.rows, v.cols):
                if len(t.cells) == len(v.cells) and 1 in (t.rows, t.cols) and 1 in (v.rows, v.cols):
                    for c, x in zip(t.cells, [val(c) for c in v.cells]):
                        c.put(x)
                    return
                raise Unread("shapes of an assignment %s %s" % ((t.rows, t.cols), (v.rows, v.cols)))
            g = v.grid()
            for i in range(t.rows):
                for j in range(t.cols):
                    t.at(i, j).put(g[i][j])
            return
        raise Unread("assignment to an array")

    def x_CompoundAssignOperator(self, n, env, this):
        op = n["opcode"][:-1]
        a, b = n["inner"]
        d = self.expr(a, env, this)
        v = arith(op, d, self.expr(b, env, this))
        self.assign(d, v)
        return d

    def x_ConditionalOperator(self, n, env, this):
        c, a, b = n["inner"]
        return self.expr(a if self.cond(c, env, this) else b, env, this)

    def x_ArraySubscriptExpr(self, n, env, this):
        a, b = n["inner"]
        p = val(self.expr(a, env, this))
        i = concrete(self.expr(b, env, this))
        if i is None:
            raise Unread("unknown index")
        if isinstance(p, Ptr):
            return self.place(p.arr, p.off + i)
        if isinstance(p, Arr):
            return self.place(p, i)
        raise Unread("subscript")

    def x_InitListExpr(self, n, env, this):
        t = typ(n)
        kids = [c for c in (n.get("inner") or ()) if c.get("kind")]
        if n.get("array_filler"):
            kids = [c for c in n["array_filler"] if c.get("kind") and c["kind"] != "ImplicitValueInitExpr"]
        vs = [self.keep(c, env, this) for c in kids]
        r = self.record(t)
        if r is not None:
            fs = inner(r, "FieldDecl")
            out = {}
            for f, x in zip(fs, vs):
                ref = "&" in f.get("type", {}).get("qualType", "")
                out[f["name"]] = x if ref and isinstance(x, LV) else cell(copy(val(x)))
            return Obj(r, out)
        if len(vs) == 1 and not re.search(r"\[|Matrix|Vec|array|vector", t):
            return vs[0]
        vs = [val(v) for v in vs]
        # the elements of an array of numbers that are not listed are zero
        z = re.match(r"(?:const )?(?:unsigned )?(?:double|float|int|char|long|bool|size_t) *\[(\d+)\]$", t)
        return vs + [{}] * (int(z.group(1)) - len(vs)) if z else vs

    def keep(self, c, env, this):
        return self.expr(c, env, this)

    # construction
    def x_CXXConstructExpr(self, n, env, this):
        t = typ(n)
        args = [self.expr(c, env, this) for c in n.get("inner", ()) if c.get("kind") and c["kind"] != "CXXDefaultArgExpr"]
        return self.construct(t, args, n)

    x_CXXTemporaryObjectExpr = x_CXXConstructExpr

    def construct(self, t, args, n):
        if len(args) == 1 and isinstance(val_or(args[0]), list):
            return self.init_list(t, val(args[0]))
        if "Map<" in t:
            v = val(args[0])
            d = dims(t)
            if d and isinstance(v, (Ptr, Arr)) and d[0] > 0 and d[1] > 0:
                a, o = (v.arr, v.off) if isinstance(v, Ptr) else (v, 0)
                if o + d[0] * d[1] > len(a.cells):
                    raise Outside("map outside of an array")
                return Arr(a.cells[o:o + d[0] * d[1]], d[0], d[1], d[2])
            raise Unread("map")
        if "AutoDiffScalar<" in t and "Matrix<Eigen::AutoDiff" not in t:
            if not args:
                return self.fresh(t)
            x = val(args[0])
            if isinstance(x, Dual):
                return x
            if len(args) == 1:
                k = len(self.fresh(t).d)
                return Dual(num(x), [{}] * k)
        d = dims(t)
        if d and d[0] > 0 and d[1] > 0 and re.search(r"Matrix<|Vec\d|Mat\d|Array<", t):
            if not args:
                return self.fresh(t)
            if len(args) == d[0] * d[1] and len(args) > 1:
                return Arr([cell(val(x)) for x in args], *d)
            v = val(args[0])
            if isinstance(v, (Ptr,)):
                return Arr([cell(val(v.at(i))) for i in range(d[0] * d[1])], *d)
            if isinstance(v, Arr) and v.rows is not None and (v.rows, v.cols) == (d[1], d[0]) and 1 in d[:2] and d[0] != d[1]:
                return Arr([cell(val(x)) for x in flat(v)], *d)  # a row as a column or back
            if isinstance(v, Arr):
                return matrix(v.grid(), d[2]) if v.rows is not None else v
            if isnum(v) and d[:2] == (1, 1):
                return v
            raise Unread("construction of " + t)
        if len(args) == 1 and not self.ctor(n, t, args):
            v = args[0]
            return copy(val(v)) if not (isinstance(v, LV) and v.get() is None) else None
        c = self.ctor(n, t, args)
        if c is not None:
            r = self.record(t)
            o = Obj(r, {})
            self.call(c, args, o)
            return o
        if not args:
            r = self.record(t)
            if r is not None:
                return Obj(r, {f["name"]: cell(self.fresh(typ(f))) for f in inner(r, "FieldDecl")})
            return self.fresh(t)
        raise Unread("construction of " + t)

    def ctor(self, n, t, args):
        r = self.record(t)
        if r is None:
            return None
        ct = n.get("ctorType", {}).get("qualType")
        for c in [x for x in r.get("inner", ()) if x.get("kind") == "CXXConstructorDecl"] + [x for p, x in self.u.byname.get(r.get("name"), ()) if x["kind"] == "CXXConstructorDecl"]:
            if c.get("type", {}).get("qualType") == ct and not c.get("isImplicit"):
                b = self.u.body_of(c["id"])
                if b is not None:
                    return b
        return None

    # calls
    def x_CallExpr(self, n, env, this):
        kids = n["inner"]
        f = self.callee(kids[0], env, this)
        args = [self.expr(c, env, this) for c in kids[1:]]
        return self.apply(f, args, n, this)

    def callee(self, n, env, this):
        while n["kind"] in ("ImplicitCastExpr", "ParenExpr", "ConstantExpr"):
            n = [c for c in n["inner"] if c.get("kind")][0]
        return self.expr(n, env, this)

    def x_CXXMemberCallExpr(self, n, env, this):
        kids = n["inner"]
        f = self.callee(kids[0], env, this)
        args = [self.expr(c, env, this) for c in kids[1:] if c.get("kind") != "CXXDefaultArgExpr"]
        return self.apply(f, args, n, this)

    def apply(self, f, args, n, this):
        if not isinstance(f, tuple):
            raise Unread("callee")
        if f[0] == "fn":
            _, i, name, ref = f
            h = self.opaque.get(name)
            if h is not None:
                r = h(self, args, n)
                if r is not NotImplemented:
                    return r
            d = ref.get("referencedDecl", {})
            b = self.u.body_of(i, (name, d.get("type", {}).get("qualType")))
            if b is not None:
                return self.call(b, args, this if b["kind"] == "CXXMethodDecl" and b.get("storageClass") != "static" else None)
            return self.library(name, args, n)
        if f[0] == "method":
            _, o, name, did = f
            h = self.opaque.get(name)
            if h is not None:
                r = h(self, [o] + args, n)
                if r is not NotImplemented:
                    return r
            x = val_or(o)
            if isinstance(x, Obj):
                b = self.u.body_of(did) if did else None
                if b is None and x.cls is not None:
                    c = [m for m in x.cls.get("inner", ()) if m.get("kind") == "CXXMethodDecl" and m.get("name") == name]
                    b = self.u.body_of(c[0]["id"]) if c else None
                if b is None:
                    raise Unread("method " + name)
                return self.call(b, args, x)
            return self.eigen(o, name, args, n)
        raise Unread("callee")

    def library(self, name, args, n):
        if name in UNARY and len(args) == 1:
            return wrap(name, UNARY[name])(args[0])
        if name == "atan2":
            return fo.atan2(num(args[0]), num(args[1]))
        if name == "hypot":
            a, b = num(args[0]), num(args[1])
            return fo.sqrt(fo.add(fo.mul(a, a), fo.mul(b, b)))
        if name == "pow":
            e = concrete(args[1])
            if e is None:
                raise Unread("power")
            return fo.power(num(args[0]), e)
        if name in ("max", "min", "fmax", "fmin") and len(args) == 2:
            a, b = num(args[0]), num(args[1])
            d = fo.sub(a, b)
            c = concrete(d)
            if c is not None:
                return a if (c > 0) == name.endswith("max") else b
            return fo.fun(name[-3:], *sorted((a, b), key=fo.key))
        if name == "swap" and len(args) == 2:
            a, b = val(args[0]), val(args[1])
            args[0].put(b)
            args[1].put(a)
            return None
        if name in ("move", "forward", "as_const"):
            return args[0]
        if name == "epsilon":
            return fo.const(2.220446049250313e-16)
        if name in ("isnan", "isinf"):
            return False
        if name in ("Zero", "Ones", "Identity", "Unit", "UnitX", "UnitY", "UnitZ", "Constant"):
            return self.special(name, args, typ(n), n)
        if name == "fill_n":
            return None
        raise Unread("function " + name)

    def special(self, name, args, t, n):
        d = dims(t)
        m = re.search(r"Block<.*, (\d+), (\d+)(?:, (?:true|false))?>$", t.strip())
        if m:
            d = int(m.group(1)), int(m.group(2))
        if not d or d[0] < 0 or d[1] < 0:
            raise Unread("size of " + name)
        r, c = d[:2]
        if name == "Zero":
            g = [[{}] * c for _ in range(r)]
        elif name == "Ones":
            g = [[fo.const(1)] * c for _ in range(r)]
        elif name == "Constant":
            g = [[num(args[0])] * c for _ in range(r)]
        elif name == "Identity":
            g = [[fo.const(1 if i == j else 0) for j in range(c)] for i in range(r)]
        else:
            k = concrete(args[0]) if name == "Unit" else "XYZ".index(name[-1])
            g = [[fo.const(1 if i * c + j == k else 0) for j in range(c)] for i in range(r)]
        return matrix(g)

    OPS = {"operator+": "+", "operator-": "-", "operator*": "*", "operator/": "/", "operator%": "%"}

    def x_CXXOperatorCallExpr(self, n, env, this):
        kids = n["inner"]
        f = kids[0]
        while f["kind"] in ("ImplicitCastExpr", "ParenExpr"):
            f = [c for c in f["inner"] if c.get("kind")][0]
        name = f.get("referencedDecl", {}).get("name") or f.get("name")
        if name == "operator=":
            v = val(self.expr(kids[2], env, this))
            d = self.expr(kids[1], env, this)
            self.assign(d, v)
            return d
        args = [self.expr(c, env, this) for c in kids[1:]]
        x = val_or(args[0])
        if isinstance(x, Obj):
            b = self.u.body_of(f.get("referencedDecl", {}).get("id"))
            if b is None:
                raise Unread(name)
            return self.call(b, args[1:] if b["kind"] == "CXXMethodDecl" else args, x)
        if isinstance(x, Iter):
            y = val_or(args[1]) if len(args) > 1 else None
            if name in ("operator==", "operator!=") and isinstance(y, Iter):
                return (x.k == y.k) == (name == "operator==")
            if name in ("operator->", "operator*"):
                return x
            raise Unread(name)
        if isinstance(x, Assoc) and name == "operator[]":
            return x.slot(args[1])
        if name == "operator()" and callable(x):
            return x(self, args[1:], n)
        if name in ("operator[]", "operator()"):
            if isinstance(x, Arr):
                idx = [concrete(a) for a in args[1:]]
                if None in idx:
                    raise Unread("unknown index")
                if len(idx) == 1 and x.rows is not None and x.rows != 1 and x.cols != 1:
                    raise Unread("single index into a matrix")
                c = x.at(*idx)
                return c
            if isinstance(x, tuple) and x and x[0] == "lambda":
                raise Unread("lambda")
            raise Unread(name)
        if name in ("operator<",  "operator>", "operator<=", "operator>=", "operator==", "operator!="):
            return self.compare(name[8:], args[0], args[1])
        if name in self.OPS:
            if len(args) == 1:
                return self.minus(args[0]) if name == "operator-" else args[0]
            return arith(self.OPS[name], args[0], args[1])
        if name in ("operator+=", "operator-=", "operator*=", "operator/="):
            v = arith(name[8], args[0], args[1])
            self.assign(args[0], v)
            return args[0]
        if name == "operator<<" and isinstance(x, Arr):
            c = Comma(x)
            c.put(args[1])
            return c
        if name == "operator," and isinstance(x, Comma):
            x.put(args[1])
            return x
        raise Unread(name)

    def eigen(self, o, name, args, n):
        x = val_or(o)
        if isinstance(x, Comma):
            x = x.m
        if isinstance(x, Dual):
            if name == "value":
                return LV(lambda: x.v, lambda v: setattr(x, "v", v))
            if name == "derivatives":
                return Arr([LV(lambda i=i: x.d[i], lambda v, i=i: x.d.__setitem__(i, v)) for i in range(len(x.d))], len(x.d), 1)
        if x is None and name == "resize" and isinstance(o, LV) and args and None not in [concrete(a) for a in args]:
            d = [concrete(a) for a in args] + [1]
            o.put(Arr([cell(None) for _ in range(d[0] * d[1])], d[0], d[1]))
            return None
        if isinstance(x, Assoc):
            if name == "find":
                k = x.key(args[0])
                return Iter(x, k if k in x.d else None)
            if name in ("end", "cend"):
                return Iter(x, None)
            if name in ("count", "contains"):
                return fo.const(1 if x.key(args[0]) in x.d else 0)
            if name == "at" and x.key(args[0]) in x.d:
                return x.slot(args[0])
            if name == "size":
                return fo.const(len(x.d))
        if not isinstance(x, Arr):
            raise Unread("method " + name)
        if name in ("eval", "array", "matrix", "noalias", "derived", "template", "asDiagonal"):
            if name == "asDiagonal":
                v = flat(x)
                return matrix([[v[i] if i == j else {} for j in range(len(v))] for i in range(len(v))])
            return x
        if name in ("x", "y", "z", "w"):
            return x.at("xyzw".index(name))
        if name == "data":
            return Ptr(x)
        if name in ("size", "rows", "cols"):
            return fo.const({"size": len(x.cells), "rows": x.rows, "cols": x.cols}[name])
        if name in ("setZero", "setIdentity"):
            for i in range(x.rows):
                for j in range(x.cols):
                    x.at(i, j).put(fo.const(1 if name == "setIdentity" and i == j else 0))
            return x
        if name in ("norm", "squaredNorm", "normalized", "normalize"):
            s = {}
            for v in flat(x):
                s = arith("+", s, arith("*", v, v))
            if name == "squaredNorm":
                return s
            r = wrap("sqrt", fo.sqrt)(s)
            if name == "norm":
                return r
            v = marith("/", x, r)
            if name == "normalize":
                self.fill(x, v)
                return x
            return v
        if name == "sum":
            s = {}
            for v in flat(x):
                s = arith("+", s, v)
            return s
        if name == "trace":
            s = {}
            for i in range(x.rows):
                s = arith("+", s, x.at(i, i))
            return s
        if name == "dot":
            s = {}
            for v, w in zip(flat(x), flat(args[0])):
                s = arith("+", s, arith("*", v, w))
            return s
        if name == "cross":
            a, b = flat(x), flat(args[0])
            c = [arith("-", arith("*", a[i], b[j]), arith("*", a[j], b[i])) for i, j in ((1, 2), (2, 0), (0, 1))]
            return matrix([[v] for v in c])
        if name == "transpose":
            return Arr([x.at(i, j) for i in range(x.rows) for j in range(x.cols)], x.cols, x.rows) if True else None
        if name == "inverse":
            g = x.grid()
            r = fo.rigid_inverse(g) if len(g) == 4 else None
            if r is None and len(g) == 3:
                t = [[fo.add(*[fo.mul(g[k][i], g[k][j]) for k in range(3)]) for j in range(3)] for i in range(3)]
                if fo.same(t, [[fo.const(1 if i == j else 0) for j in range(3)] for i in range(3)]):
                    r = [list(c) for c in zip(*g)]
            if r is None:
                raise Unread("inverse")
            return matrix(r)
        if name in ("block", "topLeftCorner", "topRightCorner", "bottomLeftCorner", "bottomRightCorner", "head", "tail", "segment", "row", "col", "topRows", "bottomRows", "leftCols", "rightCols"):
            return self.block(x, name, [concrete(a) for a in args], typ(n))
        if name == "homogeneous":
            return matrix([[v] for v in flat(x) + [fo.const(1)]])
        if name == "hnormalized":
            v = flat(x)
            return matrix([[arith("/", a, v[-1])] for a in v[:-1]])
        if name == "cwiseProduct":
            return matrix([[arith("*", a, b) for a, b in zip(r, s)] for r, s in zip(x.grid(), val(args[0]).grid())])
        if name == "cast":
            return x
        if name in ("operator()", "operator[]", "coeff", "coeffRef"):
            return x.at(*[concrete(a) for a in args])
        raise Unread("method " + name)

    def block(self, x, name, a, t):
        if None in a:
            raise Unread("unknown block")
        m = re.search(r"(?:Block|VectorBlock)<.*?, (-?\d+)(?:, (-?\d+))?(?:, (?:true|false|\d+))?>$", t.replace("const ", "").strip())
        z = re.findall(r"-?\d+", t.rsplit(">", 2)[-2] if t.endswith(">") else "")
        vec = x.cols == 1 or x.rows == 1
        n = x.rows * x.cols
        if name in ("head", "tail", "segment"):
            size = a[-1] if (name != "segment" and a) or (name == "segment" and len(a) == 2) else (int(m.group(1)) if m else None)
            if size is None or not vec:
                raise Unread("block size")
            s = {"head": 0, "tail": n - size, "segment": a[0] if a else 0}[name]
            c = x.cells[s:s + size]
            return Arr(c, size, 1) if x.cols == 1 else Arr(c, 1, size)
        if name == "row":
            return Arr([x.at(a[0], j) for j in range(x.cols)], 1, x.cols)
        if name == "col":
            return Arr([x.at(i, a[0]) for i in range(x.rows)], x.rows, 1)
        if len(a) == 4:
            i, j, r, c = a
        elif m and m.group(2):
            r, c = int(m.group(1)), int(m.group(2))
            i, j = (a + [0, 0])[:2] if name == "block" else {"topLeftCorner": (0, 0), "topRightCorner": (0, x.cols - c), "bottomLeftCorner": (x.rows - r, 0),
                                                             "bottomRightCorner": (x.rows - r, x.cols - c), "topRows": (0, 0), "leftCols": (0, 0),
                                                             "bottomRows": (x.rows - r, 0), "rightCols": (0, x.cols - c)}[name]
        else:
            raise Unread("block size")
        if i + r > x.rows or j + c > x.cols:
            raise Outside("block outside of a matrix")
        return Arr([x.at(i + p, j + q) for q in range(c) for p in range(r)], r, c)


def val_or(x):
    while isinstance(x, LV):
        x = x.get()
    return x


def copy(v):
    v = val_or(v)
    if isinstance(v, Arr) and v.rows is not None:
        return Arr([cell(copy(c)) for c in v.cells], v.rows, v.cols, v.rowmajor)
    if isinstance(v, Arr):
        return Arr([cell(copy(c)) for c in v.cells])
    if isinstance(v, Obj):
        return Obj(v.cls, {k: cell(copy(c)) for k, c in v.fields.items()})
    if isinstance(v, Dual):
        return Dual(v.v, list(v.d))
    if isinstance(v, Assoc):
        a = Assoc()
        a.d = {k: cell(copy(c)) for k, c in v.d.items()}
        if getattr(v, "set", False):
            a.set = True
        return a
    return v


def vector(name, n):
    """An array of n unknowns name0, name1..."""
    return Arr([cell(fo.var(name + str(i))) for i in range(n)])


def vec(name, n):
    return Arr([cell(fo.var(name + str(i))) for i in range(n)], n, 1)


def empty(n):
    return Arr([cell(None) for _ in range(n)])


def paths(unit, go, limit=64, **kw):
    """[(decisions, result of go(Eval))] over all ways to decide the conditions met on the way."""
    out = []
    todo = [{}]
    while todo:
        d = todo.pop()
        e = Eval(unit, d, **kw)
        try:
            out.append((dict(d), go(e)))
        except Split as s:
            if len(out) + len(todo) > limit:
                raise Unread("too many paths")
            for b in (True, False):
                x = dict(d)
                x[s.key] = b
                todo.append(x)
        except Stop:
            out.append((dict(d), None))
    return out
