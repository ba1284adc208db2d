"""Text, streams, sorting and file contents on top of cppstd: strings are kept whole, numbers printed into them stay the numbers they are."""

import ast
import re

from . import cpp, cppstd
from . import formula as fo
from .cpp import Arr, LV, Obj, Ptr, Unread, cell, concrete, num, val, val_or

MARK = re.compile("\u27e8(\\d+)\u27e9")


def text(v):
    """The text of a string value."""
    v = val_or(v)
    if not (isinstance(v, str) and v.startswith('str:"') and v.endswith('"')):
        raise Unread("text " + repr(v)[:40])
    s = v[5:-1]
    return ast.literal_eval('"' + s + '"') if "\\" in s else s


def string(s):
    return 'str:"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t").replace("\r", "\\r") + '"'


class Stream:
    """A text being written or read."""

    def __init__(self, io, content="", name=None, write=False, opened=True):
        self.io, self.buf, self.pos, self.name, self.write, self.opened, self.failed = io, content, 0, name, write, opened, not opened

    def out(self, s):
        if self.opened:
            self.buf += s
            if self.name is not None:
                self.io.files[self.name] = self.buf

    def line(self, sep):
        if self.failed or self.pos >= len(self.buf):
            self.failed = True
            return None
        i = self.buf.find(sep, self.pos)
        s = self.buf[self.pos:] if i < 0 else self.buf[self.pos:i]
        self.pos = len(self.buf) if i < 0 else i + 1
        return s


class Io(cppstd.Std):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.files, self.locked = {}, set()
        self.printed = []  # the numbers in texts
        self.whole = set()  # names of unknowns that are integers
        self.digits = []  # precisions asked for

    # numbers in texts
    def show(self, p):
        k = concrete(p)
        if k is not None:
            return str(k)
        self.printed.append(p)
        return "\u27e8%d\u27e9" % (len(self.printed) - 1)

    def read(self, s, whole):
        s = s.strip()
        m = MARK.fullmatch(s)
        if m:
            p = self.printed[int(m.group(1))]
            if whole and not all(any(v.endswith(w) for w in self.whole) for v in fo.variables(p)):
                return fo.fun("trunc", p)
            return p
        m = re.match(r"[+-]?\d+" if whole else r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?", s)
        if not m:
            raise cpp.Stop()
        return fo.const(int(m.group(0)) if whole else float(m.group(0)))

    # making
    def fresh(self, t):
        s = self.stream(t, [])
        return s if s is not None else super().fresh(t)

    def x_DeclRefExpr(self, n, env, this):
        if n["referencedDecl"].get("name") in ("app", "ate", "trunc", "binary", "in", "out") and "penmode" in cpp.typ(n):
            return ("mode", n["referencedDecl"]["name"])
        return super().x_DeclRefExpr(n, env, this)

    def stream(self, t, args):
        b = cppstd.bare(t)
        m = re.match(r"(?:std::)?(?:__cxx11::)?(?:basic_)?([io]?)(string|f)?stream\b", b)
        if not m or b.endswith("*"):
            return None
        if m.group(2) == "f":
            if not args:
                return Stream(self, opened=False)
            name = text(args[0])
            w = m.group(1) == "o"
            if w:
                ok = name not in self.locked
                old = self.files.get(name, "") if len(args) > 1 and val_or(args[1]) == ("mode", "app") else ""
                if ok:
                    self.files[name] = old
                return Stream(self, old, name if ok else None, True, ok)
            return Stream(self, self.files.get(name, ""), None, False, name in self.files)
        if m.group(2) == "string":
            return Stream(self, text(args[0]) if args and isinstance(val_or(args[0]), str) else "")
        return None

    def construct(self, t, args, n):
        s = self.stream(self.desugar(t), args)
        if s is not None:
            return s
        b = self.desugar(t)
        if re.match(r"(std::)?(__cxx11::)?(basic_)?string\b", b) and args:
            v = val_or(args[0])
            if len(args) >= 2 and cpp.isnum(v):
                c = val_or(args[1])
                return string((c if isinstance(c, str) and not c.startswith("str:") else chr(concrete(c))) * concrete(v))
            if isinstance(v, str):
                return v
        return super().construct(t, args, n)

    def x_CharacterLiteral(self, n, env, this):
        return fo.const(int(n["value"]))

    def truth(self, v):
        x = val_or(v)
        if isinstance(x, Stream):
            return not x.failed
        return super().truth(v)

    def compare(self, op, a, b):
        x, y = val_or(a), val_or(b)
        if isinstance(x, str) and isinstance(y, str) and x.startswith("str:") and y.startswith("str:"):
            s, t = text(x), text(y)
            return {"==": s == t, "!=": s != t, "<": s < t, ">": s > t, "<=": s <= t, ">=": s >= t}[op]
        return super().compare(op, a, b)

    def x_CXXOperatorCallExpr(self, n, env, this):
        kids = n["inner"]
        f = kids[0]
        while f["kind"] in ("ImplicitCastExpr", "ParenExpr"):
            f = [c for c in f["inner"] if c.get("kind")][0]
        name = f.get("referencedDecl", {}).get("name") or f.get("name")
        if name in ("operator<<", "operator>>", "operator!", "operator+", "operator+=", "operator[]", "operator<", "operator>", "operator<=", "operator>=", "operator==", "operator!="):
            t = cppstd.bare(cpp.typ(kids[1]))
            if re.search(r"stream\b|stream<|string\b|string<|char\b|_S_", t) or name in ("operator<<", "operator>>"):
                a = self.expr(kids[1], env, this)
                x = val_or(a)
                if isinstance(x, Stream):
                    if name == "operator!":
                        return x.failed
                    b = self.expr(kids[2], env, this)
                    if name == "operator<<":
                        self.write(x, val_or(b), kids[2])
                        return a
                    raise Unread("operator of a stream " + name)
                if isinstance(x, str) and len(kids) > 2:
                    b = self.expr(kids[2], env, this)
                    y = val_or(b)
                    if name in ("operator+", "operator+="):
                        s = x if x == "str:?" or y == "str:?" else string(text(x) + (text(y) if isinstance(y, str) else chr(concrete(y))))
                        s = "str:?" if "?" == s[4:] else s
                        if name == "operator+=":
                            a.put(s)
                            return a
                        return s
                    if name == "operator[]":
                        i, s = concrete(y), text(x)
                        if i is None or not 0 <= i <= len(s):
                            raise cpp.Outside("character outside of a text")
                        return fo.const(ord((s + "\0")[i]))
                    return self.compare(name[8:], x, y)
                if x is None and name == "operator<<" and "stream" in t:
                    raise Unread("stream " + t)
        return super().x_CXXOperatorCallExpr(n, env, this)

    def write(self, s, v, n):
        if isinstance(v, str) and v.startswith("str:"):
            s.out(text(v))
        elif cpp.isnum(v):
            s.out(chr(concrete(v)) if re.match(r"(const )?char\b", cpp.typ(n)) and concrete(v) is not None else self.show(v))
        elif isinstance(v, tuple) and v and v[0] == "manip":
            pass
        else:
            r = n
            while r.get("kind") in ("ImplicitCastExpr", "ParenExpr", "ConstantExpr"):
                r = r["inner"][0]
            d = r.get("referencedDecl", {}).get("name")
            if d == "endl":
                s.out("\n")
            elif d not in ("fixed", "scientific", "flush", "left", "right"):
                raise Unread("written " + str(d))

    def container(self, o, x, name, args, n):
        if isinstance(x, Stream):
            if name in ("is_open", "good"):
                return x.opened if name == "is_open" else not x.failed
            if name == "fail":
                return x.failed
            if name == "eof":
                return x.pos >= len(x.buf)
            if name == "operator bool":
                return not x.failed
            if name in ("tellg",):
                return fo.const(x.pos if not x.failed else -1)
            if name == "seekg":
                if not x.failed:
                    x.pos = concrete(num(args[0]))
                return o
            if name in ("close", "flush", "clear"):
                if name == "clear":
                    x.failed = False
                return None
            if name == "str":
                if args:
                    x.buf, x.pos = text(args[0]), 0
                    return None
                return string(x.buf)
            if name in ("precision", "setf", "width"):
                if name == "precision" and args:
                    self.digits.append(concrete(num(args[0])))
                return fo.const(6)
        if isinstance(x, str) and x.startswith('str:"'):
            s = text(x)
            k = [val_or(a) for a in args]
            if name in ("find", "rfind"):
                i = getattr(s, name)(text(k[0]) if isinstance(k[0], str) else chr(concrete(k[0])), *([concrete(k[1])] if len(k) > 1 else []))
                return fo.const(i if i >= 0 else 2 ** 64 - 1)
            if name == "substr":
                i = concrete(k[0]) if k else 0
                if i > len(s):
                    raise cpp.Stop()
                return string(s[i:] if len(k) < 2 else s[i:i + concrete(k[1])])
            if name in ("length", "size"):
                return fo.const(len(s))
            if name in ("append", "push_back"):
                o.put(string(s + (text(k[0]) if isinstance(k[0], str) else chr(concrete(k[0])))))
                return o
            if name == "clear":
                o.put(string(""))
                return None
            if name == "compare" and len(k) == 1:
                t = text(k[0])
                return fo.const((s > t) - (s < t))
            if name == "compare" and len(k) == 3:
                s, t = s[concrete(k[0]):concrete(k[0]) + concrete(k[1])], text(k[2])
                return fo.const((s > t) - (s < t))
            if name == "empty":
                return not s
            if name in ("reserve",):
                return None
            if name in ("front", "back"):
                return fo.const(ord(s[0 if name == "front" else -1]))
        return super().container(o, x, name, args, n)

    def standard(self, name, args, n):
        a = [val_or(x) for x in args]
        if name == "getline" and isinstance(a[0], Stream):
            sep = "\n" if len(a) < 3 else chr(concrete(a[2]))
            s = a[0].line(sep)
            args[1].put(string(s if s is not None else ""))
            return args[0]
        if name in ("stoi", "stol", "stoul", "atoi", "stoll"):
            try:
                return self.read(text(a[0]), True)
            except cpp.Stop:
                if name == "atoi":
                    return fo.const(0)
                raise
        if name in ("stod", "stof", "atof"):
            try:
                return self.read(text(a[0]), False)
            except cpp.Stop:
                if name == "atof":
                    return fo.const(0)
                raise
        if name == "to_string":
            return string(self.show(num(a[0])))
        if name == "setprecision":
            self.digits.append(concrete(a[0]))
            return ("manip", name)
        if name in ("sort", "stable_sort") and isinstance(a[0], Ptr) and isinstance(a[1], Ptr):
            p, q = a[0], a[1]
            cells = p.arr.cells[p.off:q.off]
            vals = [c.get() for c in cells]
            less = (lambda x, y: self.truth(val(args[2])(self, [cell(x), cell(y)], n))) if len(args) > 2 else (lambda x, y: self.truth(self.compare("<", x, y)))
            out = []
            for v in vals:
                i = len(out)
                while i > 0 and less(v, out[i - 1]):
                    i -= 1
                out.insert(i, v)
            for c, v in zip(cells, out):
                c.put(v)
            return None
        return super().standard(name, args, n)
