"""Index-space typing of matching code: which image's features an index, a row, a camera or a mask belongs to.

Types are tuples.  ("data", rows, side): an array whose rows are the space `rows` and whose content belongs to image `side`;
("idx", space, rows): indices into `space`; ("pairs", a, b, rows): rows of index pairs (into a, into b); ("pair", a, b); ("mask", rows);
("mat", a, b); ("filter", s): boolean selection that leads from all features of s to the masked ones; ("unmap", s): its indices;
("img"|"cam"|"exif"|"camkey"|"pose"|"index", s); ("rel", a, b): pose of b in the frame of a; ("fd", rows, side); ("tuple", types).
"""

from . import terms as tm
from .match import core
from .terms import NONE, const, is_const, cval

WRAP = {"numpy.array", "numpy.asarray", "list", "tuple", "set", "sorted", "numpy.vstack", "numpy.ascontiguousarray", "numpy.unique"}
KEEP = {"copy", "astype", "ravel", "tolist", "flatten", "squeeze"}


def same_rows(a, b):
    """Two selections whose conditions are written differently may still be the same one."""
    if a == b or a is None or b is None:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        return not (leading(a) ^ leading(b))
    return False


def leading(s):
    return isinstance(s[1], tm.T) and s[1].op in ("slice", "slice_of")


FIELDS = ("points", "descriptors", "colors", "depths", "semantic", "segmentation", "instances")


def attr_name(e):
    return cval(e.key) if isinstance(e.key, tm.T) and is_const(e.key) else e.key


def full(s):
    return s + "f"


class Sides:
    def __init__(self, fl, env, sigs, report, special=()):
        self.fl, self.env, self.sigs, self.report = fl, dict(env), sigs, report
        self.memo = {}
        self.checked = 0
        self.special = special
        self.seen = []
        self.visited = set()

    def visit(self, t):
        """Type every subterm, so that every construct is checked; the type of t."""
        if not isinstance(t, tm.T):
            return None
        if t not in self.visited:
            self.visited.add(t)
            self.seen.append(t)
            for c in t.args:
                self.visit(c)
            if t.op == "obj":
                h = self.fl.h(t)
                for e in (h.log if h else []):
                    for c in (e.key, e.val):
                        self.visit(c)
                    for g, _ in e.guards:
                        self.visit(g)
        return self.T(t)

    # -- signatures -------------------------------------------------------
    def unify(self, pat, act, b):
        """True / False; unknown actual types agree with everything."""
        if act is None or pat is None or pat == "_":
            return True
        if isinstance(pat, str):
            if pat.startswith("?"):
                base = pat.rstrip("f") if pat.endswith("f") else pat
                if base != pat:
                    if not (isinstance(act, str) and act.endswith("f")):
                        return False
                    return self.unify(base, act[:-1], b)
                if pat in b:
                    return same_rows(b[pat], act)
                b[pat] = act
                return True
            return pat == act
        if not isinstance(act, tuple) or not isinstance(pat, tuple):
            return False
        if pat[0] != act[0]:
            return False
        if len(pat) != len(act):
            return False
        ok = True
        for p, a in zip(pat[1:], act[1:]):
            ok = self.unify(p, a, b) and ok
        return ok

    def inst(self, pat, b):
        if isinstance(pat, str) and pat.startswith("?"):
            if pat.endswith("f"):
                v = b.get(pat[:-1])
                return None if v is None else full(v)
            return b.get(pat)
        if isinstance(pat, tuple):
            return tuple([pat[0]] + [self.inst(p, b) for p in pat[1:]])
        return pat

    def bad(self, what, t, msg):
        self.report(what, t, msg)

    def ok(self, cond, what, t, msg):
        self.checked += 1
        if not cond:
            self.bad(what, t, msg)
        return cond

    def apply(self, name, t, actual):
        params, result = self.sigs[name]
        b = {}
        for p, pat in params:
            if p not in actual:
                continue
            ty = self.T(actual[p])
            if not self.unify(pat, ty, b):
                self.ok(False, name.split(".")[-1] + ":" + p, t, "argument %s is of %s, expected %s given the other arguments (%s)" % (
                    p, say(ty), say(self.inst(pat, b)), ", ".join("%s=%s" % kv for kv in sorted(b.items()) if not isinstance(kv[1], tuple))))
            else:
                self.checked += ty is not None
        return self.inst(result, b) if result is not None else None

    # -- types -----------------------------------------------------------
    def T(self, t):
        if not isinstance(t, tm.T):
            return None
        if t in self.env:
            return self.env[t]
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = None
        r = self._T(t)
        self.memo[t] = r
        return r

    def _T(self, t):
        op = t.op
        f = getattr(self, "t_" + op, None)
        if f is not None:
            return f(t)
        return None

    def t_tup(self, t):
        ts = [self.T(x) for x in t.args]
        if len(ts) == 2 and ts[0] and ts[1] and ts[0][0] == ts[1][0] == "idx":
            if ts[0][2] is None and ts[1][2] is None:
                return ("pair", ts[0][1], ts[1][1])
        return ("tuple",) + tuple(ts)

    def present(self, c):
        """Truth of a condition when every typed value is there (not None); None when it does not follow."""
        if is_const(c):
            return bool(cval(c))
        if c.op == "not":
            v = self.present(c.args[0])
            return None if v is None else not v
        if c.op in ("and", "or"):
            vs = [self.present(x) for x in c.args]
            stop = c.op == "or"
            if stop in vs:
                return stop
            return None if None in vs else not stop
        if c.op == "cmp" and c.args[0] in ("is", "is not", "==", "!=") and tm.NONE in c.args[1:]:
            x = [y for y in c.args[1:] if y is not tm.NONE]
            if x and self.T(x[0]) is not None:
                return c.args[0] in ("is not", "!=")
            return None
        ty = self.T(c)
        return True if ty and ty[0] in ("fd", "index") else None

    def t_ite(self, t):
        c = t.args[0]
        v = self.present(c)
        if v is not None:
            return self.T(t.args[1 if v else 2])
        for x, y in ((t.args[1], t.args[2]), (t.args[2], t.args[1])):
            # `f(m) if len(m) else m`: the other side is empty
            if c.op == "nonempty" and c.args[0] is y:
                return self.T(x)
        a, b = self.T(t.args[1]), self.T(t.args[2])
        if a is None or b is None or a == b:
            return a or b
        if a[0] == b[0] and len(a) == len(b):
            return tuple(x if x == y else None for x, y in zip(a, b))
        return None

    def t_elem(self, t):
        ty = self.T(t.args[0])
        if ty is None:
            return None
        if ty[0] == "pairs":
            return ("pair", ty[1], ty[2])
        if ty[0] == "idx":
            return ("idx", ty[1], None)
        if ty[0] == "data":
            return ("data", None, ty[2])
        if ty[0] == "tri":
            return ("trielem", ty[1], ty[2])
        if ty[0] == "bfmatches":
            return ("bfbest", ty[1], ty[2])
        if ty[0] == "list":
            return ty[1]
        return None

    def t_idx(self, t):
        ty = self.T(t.args[0])
        if ty and ty[0] in ("mask", "tri"):
            return ("idx", ty[1], None)
        if ty and ty[0] in ("data", "idx", "pairs"):
            r = ty[1] if ty[0] == "data" else ty[-1]
            return ("idx", r, None) if r is not None else None
        return None

    def t_attr(self, t):
        ty = self.T(t.args[0])
        n = t.args[1]
        if ty is None:
            return None
        if ty[0] == "fd" and n in ("points", "descriptors", "colors", "depths", "semantic"):
            return ("data", ty[1], ty[2]) if n != "semantic" else ("sem", ty[1], ty[2])
        if ty[0] == "sem" and n in ("segmentation", "instances"):
            return ("data", ty[1], ty[2])
        if ty[0] == "wrap" and n == "T":
            return ty[1]
        if ty[0] == "mat" and n == "T":
            return ("mat", ty[2], ty[1])
        if ty[0] == "rot" and n == "T":
            return ("rot", ty[2], ty[1])
        if ty[0] == "data" and n == "T":
            return ty
        if ty[0] == "dmatch":
            if n == "queryIdx":
                return ("idx", ty[1], None)
            if n == "trainIdx":
                return ("idx", ty[2], None)
        return None

    def t_item(self, t):
        x, k = t.args
        ty = self.T(x)
        if ty is None:
            return None
        kt = self.T(k)
        if ty[0] == "tuple":
            if is_const(k) and isinstance(cval(k), int) and cval(k) < len(ty) - 1:
                return ty[1 + cval(k)]
            return None
        if ty[0] == "pair":
            if is_const(k) and cval(k) in (0, 1, -1, -2):
                return ("idx", ty[1 + cval(k) % 2], None)
            return None
        if ty[0] == "exifs":
            return ("exif", kt[1]) if kt and kt[0] == "img" else None
        if ty[0] == "exif":
            return ("camkey", ty[1]) if k is const("camera") else None
        if ty[0] == "cams":
            return ("cam", kt[1]) if kt and kt[0] == "camkey" else None
        if ty[0] == "poses":
            return ("pose", kt[1]) if kt and kt[0] == "img" else None
        if ty[0] == "matchesof":
            return ("pairs", full(ty[1]), full(kt[1]), None) if kt and kt[0] == "img" else None
        if ty[0] == "knn":
            if is_const(k):
                return ("idx", ty[1], ty[2]) if cval(k) == 0 else ("data", ty[2], None)
            return None
        if ty[0] == "bfbest":
            return ("dmatch", ty[1], ty[2])
        if ty[0] == "tri":
            if kt and kt[0] == "idx":
                return ("trielem", ty[1], ty[2])
            return None
        if ty[0] == "trielem":
            return ("data", None, ty[2]) if is_const(k) and cval(k) == 1 else None
        if ty[0] == "rel":
            last = k.args[-1] if k.op == "tup" else None
            if last is not None and last.op == "slice":
                return ("rot", ty[1], ty[2])
            if last is not None and is_const(last) and cval(last) in (3, -1):
                return ("tr", ty[1], ty[2])
            return None
        if ty[0] == "unmap":
            if kt and kt[0] == "idx":
                self.ok(kt[1] == ty[1], "mask", t, "indices into %s are unmasked with the mask of %s" % (say(kt[1]), say(ty[1])))
                return ("idx", full(ty[1]), kt[2])
            return None
        first, rest = k, ()
        if k.op == "tup":
            first, rest = k.args[0], k.args[1:]
        ft = self.T(first)
        if ty[0] == "pairs" and rest:
            if first.op == "slice" and len(rest) == 1:
                c = rest[0]
                if is_const(c) and cval(c) in (0, 1, -1, -2):
                    return ("idx", ty[1 + cval(c) % 2], ty[3])
                cols = self.columns(c)
                if cols == [1, 0]:
                    return ("pairs", ty[2], ty[1], ty[3])
                if cols == [0, 1]:
                    return ty
            return None
        rows = {"data": 1, "pairs": 3, "idx": 2, "mask": 1}.get(ty[0])
        if rows is None:
            return None
        r = ty[rows]

        def with_rows(n):
            l = list(ty)
            l[rows] = n
            return tuple(l)
        if first.op == "slice" or (first.op == "call" and tm.callee_name(first) == "slice"):
            plain = all(x is NONE or not isinstance(x, tm.T) for x in first.args)
            if plain or rest:
                return ty
            return with_rows(("sel", first))
        if ft and ft[0] == "tuple" and len(ft) == 2:
            ft = ft[1]
        if ft and ft[0] == "filter":
            if r is not None:
                self.ok(r == full(ft[1]), "mask", t, "rows of %s are masked with the mask of %s" % (say(r), say(ft[1])))
            return with_rows(ft[1])
        if ft and ft[0] == "mask":
            if r is not None and ft[1] is not None:
                self.ok(same_rows(ft[1], r), "rows", t, "rows of %s are selected by a mask over %s" % (say(r), say(ft[1])))
            return with_rows(("sel", first))
        if ft and ft[0] == "idx":
            if r is not None and ft[1] is not None:
                self.ok(same_rows(ft[1], r), "rows", t, "%s are indexed by indices into %s" % (say(ty), say(ft[1])))
            return with_rows(ft[2])
        if is_const(first):
            if ty[0] == "pairs":
                return ("pair", ty[1], ty[2])
            if ty[0] == "idx":
                return ("idx", ty[1], None)
            return ("data", None, ty[2]) if ty[0] == "data" and r is not None else None
        return None

    def columns(self, c):
        if c.op == "slice":
            return [1, 0] if len(c.args) == 3 and is_const(c.args[2]) and cval(c.args[2]) == -1 and c.args[0] is NONE and c.args[1] is NONE else None
        el = self.fl.elements(c) if c.op == "obj" else None
        if el is None and c.op == "tup":
            el = [(x, (), ()) for x in c.args]
        if el is None or not all(is_const(v) for v, _, _ in el):
            return None
        return [cval(v) for v, _, _ in el]

    def t_slice_of(self, t):
        ty = self.T(t.args[0])
        rows = {"data": 1, "pairs": 3, "idx": 2, "mask": 1}.get(ty[0]) if ty else None
        if rows is None:
            return None
        return ty[:rows] + (("sel", t),) + ty[rows + 1:]

    def t_cmp(self, t):
        a, b = self.T(t.args[1]), self.T(t.args[2])
        for x in (a, b):
            if x and x[0] == "data" and x[1] is not None:
                return ("mask", x[1])
            if x and x[0] == "mat":
                return x
        return None

    def t_bin(self, t):
        op, x, y = t.args[0], t.args[1], t.args[2]
        a, b = self.T(x), self.T(y)
        if a and b and a[0] == b[0] == "mask" and None not in (a[1], b[1]):
            self.ok(same_rows(a[1], b[1]), "rows", t, "a mask over %s is combined with one over %s" % (say(a[1]), say(b[1])))
        if op == "*":
            for p, q in ((x, y), (y, x)):
                if p.op == "obj" and q.op == "call" and tm.callee_name(q) == "len":
                    ty = self.T(tm.call_parts(q)[1][0])
                    r = {"data": 1, "pairs": 3, "idx": 2, "mask": 1, "tri": 1}.get(ty[0]) if ty else None
                    if r is not None and ty[r] is not None:
                        return ("mask", ty[r])
        for p, q in ((a, b), (b, a)):
            if p and p[0] in ("mask", "mat"):
                return p
            if p and p[0] == "data":
                if q and q[0] == "data":
                    if p[1] is not None and q[1] is not None:
                        self.ok(same_rows(p[1], q[1]), "rows", t, "rows of %s are combined with rows of %s" % (say(p[1]), say(q[1])))
                    if "frames" in self.special and op == "-" and p[2] is not None and q[2] is not None:
                        self.ok(p[2] == q[2], "frame", t, "a direction in the frame of %s is compared with one of %s" % (say(p[2]), say(q[2])))
                    return ("data", p[1] or q[1], p[2] if p[2] == q[2] else None)
                return p
        return None

    def t_and(self, t):
        for x in t.args:
            ty = self.T(x)
            if ty and ty[0] == "mask":
                return ty
        return None

    def t_obj(self, t):
        fl = self.fl
        h = fl.h(t)
        if h is None:
            return None
        c = core(fl, t)
        if c is not t:
            return self.T(c)
        if h.kind == "ext" and h.cls is not None and h.cls.op == "copyof":
            return self.T(h.cls.args[0])
        if h.kind == "inst" and h.cls is not None and str(getattr(h.cls, "qual", h.cls)).endswith(("FeaturesData", "SemanticData")):
            return self.record(t, h)
        if h.kind not in ("list", "set", "iter"):
            return None
        got = []
        rows = ("sel", t)
        adds = [e for e in h.log if e.kind == "add"]
        if len(adds) == 1 and len(h.log) == 1 and adds[0].loops:
            # one value per passing iteration: lists filled alike are aligned
            e = adds[0]
            own = tuple(g for g in e.guards if any(tm.contains(g[0], lambda y: y.op in ("elem", "idx") and y.args[0] is L) for L in e.loops))
            rows = ("sel", tuple(e.loops), own)
            if not own and len(e.loops) == 1:
                ty = self.T(e.loops[0])
                r = {"data": 1, "pairs": 3, "idx": 2, "mask": 1, "tri": 1}.get(ty[0]) if ty else None
                if r is not None and ty[r] is not None:
                    rows = ty[r]
                    if is_const(e.val):
                        return ("mask", rows)
        for e in h.log:
            if e.kind == "add":
                ty = self.T(e.val)
                if ty is None and e.val.op == "obj":
                    el = fl.elements(e.val)
                    if el is not None and len(el) == 2 and not any(g or L for _, g, L in el if False):
                        ts = [self.T(v) for v, _, _ in el]
                        if all(x and x[0] == "idx" for x in ts):
                            ty = ("pair", ts[0][1], ts[1][1])
                got.append(ty)
            elif e.kind == "spread":
                ty = self.T(e.val)
                got.append(("pair", ty[1], ty[2]) if ty and ty[0] == "pairs" else (("idx", ty[1], None) if ty and ty[0] == "idx" else None))
        got = [g for g in got if g is not None]
        if not got:
            return None
        if any(g != got[0] for g in got):
            if all(g[0] == "pair" for g in got):
                self.ok(False, "mixed", t, "one list holds pairs of %s" % " and ".join(sorted({say(g) for g in got})))
            return None
        g = got[0]
        if g[0] == "data" and g[1] is not None and not any(e.loops for e in adds):
            return ("wrap", g)
        if g[0] == "pair":
            return ("pairs", g[1], g[2], rows)
        if g[0] == "idx":
            return ("idx", g[1], rows)
        if g[0] == "dmatch":
            return ("list", g)
        if g[0] == "data":
            return ("data", rows, g[2])
        return ("list", g)

    def record(self, t, h):
        """A features object: its fields agree on their rows."""
        rows = side = None
        for e in h.attrs:
            v = self.T(e.val)
            if v and v[0] in ("data", "sem") and attr_name(e) in FIELDS and v[1] is not None:
                if rows is None:
                    rows, side = v[1], v[2]
                else:
                    self.ok(same_rows(rows, v[1]) and side == v[2], "fields", t, "field %s holds rows of %s, another field rows of %s" % (attr_name(e), say(v[1]), say(rows)))
        return ("fd", rows, side) if rows is not None else None

    def t_call(self, t):
        name = tm.callee_name(t)
        _, a, k = tm.call_parts(t)
        if name is None:
            return None
        if name in self.sigs:
            params, _ = self.sigs[name]
            actual = dict(k)
            for i, x in enumerate(a):
                if i < len(params):
                    actual.setdefault(params[i][0], x)
            return self.apply(name, t, actual)
        if name in WRAP and a:
            return self.T(a[0])
        if name == "zip" and len(a) == 2:
            ts = [self.T(x) for x in a]
            if all(x and x[0] == "idx" for x in ts):
                return ("pairs", ts[0][1], ts[1][1], None)
            return None
        if name in ("numpy.column_stack", "numpy.stack", "numpy.transpose") and a:
            x = a[0]
            el = self.fl.elements(x) if x.op == "obj" else [(y, (), ()) for y in x.args] if x.op == "tup" else None
            if el and len(el) == 2:
                ts = [self.T(v) for v, _, _ in el]
                if all(y and y[0] == "idx" for y in ts):
                    return ("pairs", ts[0][1], ts[1][1], ts[0][2])
            return None
        if name in ("numpy.concatenate", "numpy.hstack") and a:
            el = self.fl.elements(a[0])
            ts = [self.T(v) for v, _, _ in el or []]
            ts = [y for y in ts if y and y[0] == "data"]
            ax = k.get("axis")
            if ts and (name == "numpy.hstack" or ax is const(1) or ax is const(-1)):
                self.ok(all(same_rows(y[1], ts[0][1]) for y in ts), "rows", t, "columns of different features are joined")
                return ts[0]
            return None
        if name in ("numpy.flatnonzero", "numpy.nonzero", "numpy.where", "numpy.argwhere") and len(a) == 1:
            ty = self.T(a[0])
            if ty and ty[0] == "filter":
                u = ("unmap", ty[1])
            elif ty and ty[0] == "mask":
                u = ("idx", ty[1], ("sel", a[0]))
            else:
                return None
            return u if name == "numpy.flatnonzero" else ("tuple", u)
        if name == "cv2.findFundamentalMat" and len(a) >= 2:
            x, y = self.T(a[0]), self.T(a[1])
            if x and y and x[0] == y[0] == "data":
                self.ok(same_rows(x[1], y[1]), "rows", t, "point rows of %s are paired with rows of %s" % (say(x[1]), say(y[1])))
                self.ok(x[2] != y[2], "sides", t, "both point sets belong to %s" % say(x[2]))
                return ("tuple", None, ("mask", x[1]))
            return None
        if name in ("numpy.linalg.norm", "numpy.abs") and a:
            ty = self.T(a[0])
            return ty if ty and ty[0] in ("data", "mat") else None
        if name in ("numpy.logical_and", "numpy.bitwise_and") and a:
            return self.T(a[0])
        return None

    def t_mcall(self, t):
        (recv, n), a, k = tm.call_parts(t)
        args = list(a) + list(k.values())
        ty = self.T(recv)
        if n in ("load_all_data", "load_bearings", "load_mask", "load_words", "load_features", "load_features_index", "load_points_colors_segmentations_instances"):
            return self.loader(t, n, a, k)
        if n == "load_exif" and args:
            x = [self.T(y) for y in args]
            x = [y for y in x if y and y[0] == "img"]
            return ("exif", x[0][1]) if x else None
        if n == "load_matches" and args:
            x = self.T(args[0])
            return ("matchesof", x[1]) if x and x[0] == "img" else None
        if n == "knnMatch" and args:
            return self.knn_match(t, recv, a, k)
        if ty is None:
            return None
        if n in KEEP:
            return ty
        if n == "mask" and ty[0] in ("fd", "sem") and args:
            f = self.T(args[0])
            if f and f[0] == "filter":
                self.ok(ty[1] == full(f[1]), "mask", t, "features of %s are masked with the mask of %s" % (say(ty[1]), say(f[1])))
                return (ty[0], f[1], ty[2])
            return None
        if n in ("get_segmentation", "has_instances") and ty[0] == "fd":
            return ("data", ty[1], ty[2])
        if n in ("nonzero",):
            if ty[0] == "mask":
                return ("tuple", ("idx", ty[1], ("sel", recv)))
            if ty[0] == "filter":
                return ("tuple", ("unmap", ty[1]))
        if n in ("intersection", "union") and ty[0] == "pairs" and args:
            o = self.T(args[0])
            if o and o[0] == "pairs":
                self.ok(o[1:3] == ty[1:3], "symmetric", t, "matches %s are intersected with matches %s" % (say(ty), say(o)))
            return ("pairs", ty[1], ty[2], None)
        if n in ("pixel_bearing_many", "pixel_bearing", "pixel_to_normalized_coordinates_many") and ty[0] == "cam" and args:
            d = self.T(args[0])
            if d and d[0] == "data":
                if d[2] is not None:
                    self.ok(d[2] == ty[1], "camera", t, "points of %s are unprojected with the camera of %s" % (say(d[2]), say(ty[1])))
                return d
            return None
        if n == "knnSearch" and ty[0] == "index" and args:
            d = self.T(args[0])
            return ("knn", ty[1], d[1] if d and d[0] == "data" else None)
        if n == "relative_to" and ty[0] == "pose" and args:
            o = self.T(args[0])
            return ("rel", o[1], ty[1]) if o and o[0] == "pose" else None
        if n == "inverse" and ty[0] == "rel":
            return ("rel", ty[2], ty[1])
        if ty[0] == "rel" and n in ("get_R_cam_to_world", "get_R_world_to_cam", "get_origin", "get_t_world_to_cam", "get_Rt", "get_cam_to_world"):
            fwd = n in ("get_R_cam_to_world", "get_origin", "get_cam_to_world")
            part = "rot" if "_R_" in n else ("tr" if n in ("get_origin", "get_t_world_to_cam") else "rel")
            return (part, ty[1], ty[2]) if fwd else (part, ty[2], ty[1])
        if n == "dot" and ty[0] == "rot" and args:
            d = self.T(args[0])
            if d and d[0] == "data" and d[2] is not None:
                if "frames" in self.special:
                    self.ok(d[2] == ty[2], "frame", t, "a rotation from %s to %s turns directions of %s" % (say(ty[2]), say(ty[1]), say(d[2])))
                return ("data", d[1], ty[1])
        return None

    def knn_match(self, t, recv, a, k):
        """OpenCV matchers: queries against the train set given along or added before."""
        q = self.T(a[0] if a else k.get("queryDescriptors"))
        tr = self.T(a[1]) if len(a) > 1 else self.T(k.get("trainDescriptors"))
        if not (tr and tr[0] == "data"):
            tr = None
            for e in self.fl.effects:
                if e.kind == "mcall" and e.name == "add" and e.recv is recv and e.args:
                    for v, _, _ in self.fl.elements(e.args[0]) or []:
                        tr = self.T(v)
        if not q or q[0] != "data" or not tr or tr[0] != "data":
            return None
        for x in list(k.values()) + list(a[1:]):
            for y in tm.walk(self.fl.deep(x)):
                m = self.T(y)
                if m and m[0] == "mat":
                    self.ok(m[1:] == (q[1], tr[1]), "mask", t, "the candidate mask covers (%s, %s) for queries %s against %s" % (say(m[1]), say(m[2]), say(q[1]), say(tr[1])))
                    break
        return ("bfmatches", q[1], tr[1])

    def loader(self, t, n, a, k):
        """FeatureLoader methods (data, image, masked, ...)."""
        own = getattr(self, "own", None)
        if own is not None and (self.fl.types.get(t.args[0]) or "") != own and n in ("load_features", "load_words", "load_mask"):
            x = [self.T(y) for y in list(a) + list(k.values())]
            x = [y[1] for y in x if y and y[0] == "img"]
            if not x or n == "load_mask":
                return None
            return ("fd" if n == "load_features" else "data", full(x[0]), x[0])
        img = cam = None
        for x in list(a) + list(k.values()):
            ty = self.T(x)
            if ty and ty[0] == "img":
                img = ty[1]
            if ty and ty[0] == "cam":
                cam = ty[1]
        if img is None:
            return None
        m = k.get("masked")
        if m is None and n not in ("load_mask", "load_points_colors_segmentations_instances"):
            m = a[2] if len(a) > 2 else None
        rows = img
        if n == "load_points_colors_segmentations_instances" or (m is not None and is_const(m) and not cval(m)):
            rows = full(img)
        if n == "load_mask":
            return ("filter", img)
        if n == "load_all_data" or n == "load_points_colors_segmentations_instances":
            return ("fd", rows, img)
        if n == "load_words":
            return ("data", rows, img)
        if n == "load_bearings":
            if cam is not None:
                self.ok(cam == img, "camera", t, "bearings of %s are computed with the camera of %s" % (say(img), say(cam)))
            return ("data", rows, img)
        if n == "load_features_index":
            return ("tuple", ("fd", rows, img), ("index", rows))
        return None


def say(ty):
    if ty is None:
        return "?"
    if isinstance(ty, str):
        if ty.endswith("f") and ty[:-1] in ("1", "2"):
            return "image %s (all features)" % ty[:-1]
        return "image %s" % ty if ty in ("1", "2") else str(ty)
    if ty[0] == "pairs" or ty[0] == "pair":
        return "%s (%s, %s)" % (ty[0], say(ty[1]), say(ty[2]))
    if ty[0] == "sel":
        return "a selection"
    if ty[0] == "data":
        return "features of %s" % say(ty[2] if ty[2] is not None else ty[1])
    return "%s %s" % (ty[0], " ".join(say(x) if x is None or isinstance(x, (str, tuple)) else str(x) for x in ty[1:]))
