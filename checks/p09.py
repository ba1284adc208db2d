"""P09: poses, similarities and orientations keep both directions, compositions and angles as they are defined."""

import sys
from fractions import Fraction

from sa import cpp, cppstd, trig
from sa import formula as fo
from sa import terms as tm
from sa.cpp import Arr, flat, num, val, val_or
from sa.program import AnalysisBroken
from sa.sample import Sample
from checks.p22 import Rotations, V, arr
from checks.util import run

TECHNIQUE = "clang's syntax tree of the pose and similarity classes evaluated over unknown rotations and translations, the result of every getter after every setter compared with its definition; orientation angles of the Python code reduced to trigonometric polynomials"
EXPLANATION = (
    "Every constructor and setter of Pose and Similarity is evaluated on unknown rotations and translations, from a fresh and from an already moved object; what each getter then returns is reduced to normal forms and compared "
    "with the one rigid motion that was set. Composition, relation, inverse and point transforms are compared with their definitions, every setter of the immutable pose must throw. "
    "The conversions between rotation matrices and orientation angles are compared with the products of axis rotations they are defined by, and their inverses with the angles they start from."
)
POSE = "pose.h"
SIM = "similarity.h"


def eye(n=3):
    return [[fo.const(1 if i == j else 0) for j in range(n)] for i in range(n)]


def mm(a, b):
    return [[fo.add(*[fo.mul(a[i][k], b[k][j]) for k in range(len(b))]) for j in range(len(b[0]))] for i in range(len(a))]


def mv(a, p):
    return [fo.add(*[fo.mul(x, y) for x, y in zip(r, p)]) for r in a]


def tr(a):
    return [list(r) for r in zip(*a)]


def plus(a, b):
    return [fo.add(x, y) for x, y in zip(a, b)]


def neg(a):
    return [fo.neg(x) for x in a]


class Motions(Rotations):
    """Rotations, with vectors for matrices that are products of others."""

    def __init__(self):
        super().__init__()
        self.back = {}
        self.bad = None

    def mat(self, a):
        a = list(a)
        k = tuple(fo.key(x) for x in a)
        if k in self.back:
            return self.back[k]
        return super().mat(a)

    def vec(self, m):
        try:
            return super().vec(m)
        except cpp.Unread:
            pass
        e = [x for r in m for x in r]
        t = [x for r in tr(m) for x in r]
        flip = [fo.show(x) for x in t] < [fo.show(x) for x in e]
        v = [fo.fun("log%d" % i, *(t if flip else e)) for i in range(3)]
        v = neg(v) if flip else v
        self.back[tuple(fo.key(x) for x in v)] = m
        self.back[tuple(fo.key(x) for x in neg(v))] = tr(m)
        return v

    def inverse(self, e, a, n):
        g = val(a[0]).grid()
        if len(g) == 3:
            return cpp.matrix(tr(g))
        return super().inverse(e, a, n)


class Poses:
    def __init__(self, u, seed=0):
        self.u = u
        self.rot = Motions()
        self.asked = []
        ops = self.rot.opaque()
        ops["allFinite"] = self.finite
        ops["isfinite"] = self.finite
        ops["isFinite"] = self.finite
        self.sample = Sample(None, seed)
        self.ev = cppstd.Std(u, self.sample, opaque=ops)
        self.ev.LIMIT = 10 ** 7

    def finite(self, e, a, n):
        x = val_or(a[0])
        return not any("bad" in str(v) for y in (flat(x) if isinstance(x, Arr) else [num(x)]) for v in names(y))

    def make(self, cls, *args):
        return self.ev.make("geometry::" + cls, list(args))

    def call(self, obj, fn, *args):
        return self.ev.run(fn, list(args), obj)

    def get(self, obj, name, *args, cls="Pose"):
        fs = [x for x in self.u.find(name, cls=cls) if len(cpp.inner(x, "ParmVarDecl")) == len(args)]
        if len(fs) != 1:
            raise cpp.Unread("%d functions %s" % (len(fs), name))
        return val_or(self.ev.run(fs[0], list(args), obj))


def names(p):
    """Names of the variables a formula is made of, inside its functions too."""
    out = set()
    for v in fo.variables(p):
        out.add(str(v))
    s = fo.show(p)
    if "bad" in s:
        out.add("bad")
    return out


def grid(v):
    v = val(v)
    return v.grid() if isinstance(v, Arr) else [[num(v)]]


def col(v):
    return [x for r in grid(v) for x in r]


def same(a, b):
    return len(a) == len(b) and all(len(x) == len(y) and all(fo.equal(p, q) for p, q in zip(x, y)) for x, y in zip(a, b))


def check(prog, rep):
    rep.rule("set", "a setter leaves a pose being the one motion that was set, in both directions and both notations")
    rep.rule("fixed", "an immutable pose refuses every setter and stays as it is")
    rep.rule("combine", "compositions, relations and inverses are those of the motions")
    rep.rule("points", "points are transformed by the motion")
    rep.rule("state", "identity and validity look at rotation and translation")
    rep.rule("similarity", "a similarity scales, rotates, then translates, and its inverse undoes it")
    rep.rule("angles", "orientation angles and rotation matrices convert into each other by the axis rotations that define them")
    sys.setrecursionlimit(8000)
    text = '#include "%s/geometry/pose.h"\n#include "%s/geometry/similarity.h"\n' % (cpp.SRC, cpp.SRC)
    u = cpp.Unit(text, ("geometry::",))
    for part in (notation, setters, fixed, combine, points, state, similarities):
        rep.part(guarded, part, u, rep)
    rep.part(angles, prog, rep)
    rep.minimum("set", 200)
    rep.minimum("combine", 12)
    rep.minimum("angles", 12)


def guarded(part, u, rep):
    try:
        part(u, rep)
    except cpp.Stop:
        rep.bad({"setters": "set", "notation": "set", "similarities": "similarity"}.get(part.__name__, part.__name__), part.__name__, POSE, "a value that is valid is refused")
    except cpp.Outside as e:
        rep.bad({"setters": "set", "notation": "set", "similarities": "similarity"}.get(part.__name__, part.__name__), part.__name__, POSE, str(e))
    except (cpp.Unread, LookupError, TypeError, AttributeError) as e:
        raise AnalysisBroken("%s: %s" % (part.__name__, e))


def notation(u, rep):
    """Rotation vectors are axis times angle, both ways."""
    made = []

    def axis_angle(ev, args):
        if args:
            made.append([val_or(a) for a in args])
        return cppstd.Foreign("AngleAxis", list(args))
    matrix = cpp.matrix([[fo.var("m%d%d" % (i, j)) for j in range(3)] for i in range(3)])
    ops = {"toRotationMatrix": lambda e, a, n: matrix, "matrix": lambda e, a, n: matrix, "axis": lambda e, a, n: arr(V("axis", 3)), "angle": lambda e, a, n: fo.var("angle")}
    types = {"AngleAxis<double>": axis_angle, "AngleAxisd": axis_angle}
    f = u.find("VectorToRotationMatrix")
    for what, r in (("turning", V("r", 3)), ("zero", [{}] * 3)):
        made.clear()
        ev = cppstd.Std(u, Sample(None, 0), opaque=ops, types=types)
        got = val_or(ev.run(f[0], [arr(r)], None))
        if len(made) != 1 or len(made[0]) != 2:
            raise AnalysisBroken("VectorToRotationMatrix: %d rotations" % len(made))
        a, v = num(made[0][0]), flat(made[0][1])
        ok = all(fo.equal(fo.mul(a, x), y) for x, y in zip(v, r)) and (what == "zero" or fo.equal(fo.add(*[fo.mul(x, x) for x in v]), fo.const(1)))
        rep.expect(ok and same(grid(got), grid(matrix)), "set", "VectorToRotationMatrix:" + what, "transformations_functions.h:VectorToRotationMatrix", "the rotation is not about the vector by its length")
    made.clear()
    ev = cppstd.Std(u, Sample(None, 0), opaque=ops, types=types)
    got = val_or(ev.run(u.find("RotationMatrixToVector")[0], [matrix], None))
    rep.expect(len(made) == 1 and same(grid(made[0][0]), grid(matrix)), "set", "RotationMatrixToVector:source", "transformations_functions.h:RotationMatrixToVector", "the vector is not read off the given matrix")
    rep.expect(all(fo.equal(x, fo.mul(fo.var("angle"), y)) for x, y in zip(flat(got), V("axis", 3))), "set", "RotationMatrixToVector", "transformations_functions.h:RotationMatrixToVector", "the vector is not axis times angle")


def getters(p, o):
    return {n: grid(p.get(o, n)) for n in (
        "WorldToCamera", "WorldToCameraRt", "CameraToWorld", "CameraToWorldRt", "RotationWorldToCamera", "RotationCameraToWorld", "RotationWorldToCameraMin", "RotationCameraToWorldMin",
        "TranslationWorldToCamera", "TranslationCameraToWorld", "GetOrigin")}


def expected(p, R, t, o=None):
    """What the getters of a pose with this world-to-camera motion return."""
    o = o or neg(mv(tr(R), t))
    v = p.rot.vec(tr(R))
    c = lambda x: [[y] for y in x]
    rt = [R[i] + [t[i]] for i in range(3)]
    ro = [tr(R)[i] + [o[i]] for i in range(3)]
    last = [[{}, {}, {}, fo.const(1)]]
    return {"WorldToCamera": rt + last, "WorldToCameraRt": rt, "CameraToWorld": ro + last, "CameraToWorldRt": ro, "RotationWorldToCamera": R, "RotationCameraToWorld": tr(R),
            "RotationWorldToCameraMin": c(neg(v)), "RotationCameraToWorldMin": c(v), "TranslationWorldToCamera": c(t), "TranslationCameraToWorld": c(o), "GetOrigin": c(o)}


def compare(rep, rule, what, where, got, want):
    for n in want:
        rep.expect(same(got[n], want[n]), rule, "%s:%s" % (what, n), where, "after %s, %s is not that of the motion: %s instead of %s" % (
            what, n, fo.show(first(got[n], want[n])[0])[:60], fo.show(first(got[n], want[n])[1])[:60]))


def first(a, b):
    for x, y in zip(a, b):
        for p, q in zip(x, y):
            if not fo.equal(p, q):
                return p, q
    return {}, {}


def sig(f):
    return [("mat%s" % cpp.dims(cpp.typ(x))[0]) if cpp.dims(cpp.typ(x)) and cpp.dims(cpp.typ(x))[1] != 1 else "vec" for x in cpp.inner(f, "ParmVarDecl")]


def transform(R, t):
    return cpp.matrix([R[i] + [t[i]] for i in range(3)] + [[{}, {}, {}, fo.const(1)]])


def setters(u, rep):
    seen = set()
    found = {}
    for n in ("SetFromWorldToCamera", "SetFromCameraToWorld", "SetWorldToCamRotation", "SetWorldToCamRotationMatrix", "SetWorldToCamTranslation", "SetOrigin"):
        for f in u.find(n, cls="Pose"):
            if f["id"] not in seen:
                seen.add(f["id"])
                found.setdefault(n, []).append(f)
    cases = []
    for n, fs in found.items():
        for f in fs:
            s = sig(f)
            if n.startswith("SetFrom"):
                cases.append((n, f, s, {("mat4",): "T", ("mat3", "vec"): "Rt", ("vec", "vec"): "rt"}.get(tuple(s))))
            else:
                cases.append((n, f, s, n))
    kinds = [(n, k) for n, f, s, k in cases]
    for n in ("SetFromWorldToCamera", "SetFromCameraToWorld"):
        for k in ("T", "Rt", "rt"):
            if (n, k) not in kinds:
                raise AnalysisBroken("Pose::%s with %s" % (n, k))
    for n, f, s, k in cases:
        if k is None:
            raise AnalysisBroken("Pose::%s with %s" % (n, ", ".join(s)))
        for before in (False, True):
            p = Poses(u)
            o = p.make("Pose")
            R0, t0 = eye(), [{}, {}, {}]
            if before:
                r0, t0 = V("before", 3), V("place", 3)
                R0 = p.rot.mat(r0)
                p.call(o, [x for m, x, _, kk in cases if (m, kk) == ("SetFromWorldToCamera", "rt")][0], arr(r0), arr(t0))
            r, t = V("r", 3), V("t", 3)
            R = p.rot.mat(r)
            if k == "T":
                p.call(o, f, transform(R, t))
            elif k == "Rt":
                p.call(o, f, cpp.matrix(R), arr(t))
            elif k == "rt":
                p.call(o, f, arr(r), arr(t))
            elif k == "SetWorldToCamRotation":
                p.call(o, f, arr(r))
                t = t0
            elif k == "SetWorldToCamRotationMatrix":
                p.call(o, f, cpp.matrix(R))
                t = t0
            elif k == "SetWorldToCamTranslation":
                p.call(o, f, arr(t))
                R = R0
            elif k == "SetOrigin":
                p.call(o, f, arr(t))
                R, t = R0, neg(mv(R0, t))
            at = None
            if n == "SetFromCameraToWorld":
                R, t, at = tr(R), neg(mv(tr(R), t)), t
            compare(rep, "set", "%s(%s)%s" % (n, ", ".join(s), " again" if before else ""), "%s:%s" % (POSE, n), getters(p, o), expected(p, R, t, at))
    for what, args in (("Pose()", ()), ("Pose(r)", "r"), ("Pose(r, t)", "rt"), ("Pose(R)", "R"), ("Pose(R, t)", "Rt")):
        p = Poses(u)
        r, t = V("r", 3), V("t", 3)
        R = p.rot.mat(r)
        o = p.make("Pose", *[{"r": arr(r), "R": cpp.matrix(R), "t": arr(t)}[x] for x in args])
        if not args:
            R = eye()
        if "t" not in args:
            t = [{}, {}, {}]
        compare(rep, "set", what, POSE + ":Pose", getters(p, o), expected(p, R, t))


def moved(p, name="", cls="Pose", fixed=False):
    r, t = V(name + "r", 3), V(name + "t", 3)
    o = p.make(cls, arr(r), arr(t))
    return o, p.rot.mat(r), t


def fixed(u, rep):
    fs, seen = [], set()
    for r in Poses(u).ev.records()["Pose"]:
        for f in cpp.inner(r, "CXXMethodDecl"):
            if f.get("name", "").startswith("Set") and f["id"] not in seen:
                seen.add(f["id"])
                fs.append((f["name"], f))
    for name, f in fs:
        p = Poses(u)
        o, R, t = moved(p)
        fixed_ = p.make("PoseImmutable", o)
        args = [arr(V("x%d" % i, 3)) if cpp.dims(cpp.typ(x)) is None or cpp.dims(cpp.typ(x))[1] == 1 else
                (transform(p.rot.mat(V("y", 3)), V("z", 3)) if cpp.dims(cpp.typ(x))[0] == 4 else cpp.matrix(p.rot.mat(V("y", 3)))) for i, x in enumerate(cpp.inner(f, "ParmVarDecl"))]
        what = "PoseImmutable::%s(%s)" % (name, ", ".join(sig(f)))
        try:
            p.call(fixed_, p.ev.method(fixed_, name, f["id"], args), *args)
            rep.expect(False, "fixed", what, POSE, "%s changes an immutable pose or passes silently" % what)
        except cpp.Stop:
            rep.expect(True, "fixed", what, POSE, "")
        rep.expect(all(same(getters(p, fixed_)[k], v) for k, v in expected(p, R, t).items()), "fixed", what + ":unchanged", POSE, "%s changes the pose" % what)


def combine(u, rep):
    def both():
        p = Poses(u)
        a, R1, t1 = moved(p, "a")
        b, R2, t2 = moved(p, "b")
        return p, a, R1, t1, b, R2, t2
    p, a, R1, t1, b, R2, t2 = both()
    compare(rep, "combine", "Compose", POSE + ":Compose", getters(p, p.get(a, "Compose", b)), expected(p, mm(R1, R2), plus(mv(R1, t2), t1)))
    p, a, R1, t1, b, R2, t2 = both()
    o = neg(mv(tr(R2), t2))
    compare(rep, "combine", "RelativeTo", POSE + ":RelativeTo", getters(p, p.get(a, "RelativeTo", b)), expected(p, mm(R1, tr(R2)), plus(mv(R1, o), t1)))
    p, a, R1, t1, b, R2, t2 = both()
    w = expected(p, R1, t1)
    c = lambda x: [y[0] for y in x]
    compare(rep, "combine", "Inverse", POSE + ":Inverse", getters(p, p.get(a, "Inverse")), {
        "WorldToCamera": w["CameraToWorld"], "WorldToCameraRt": w["CameraToWorldRt"], "RotationWorldToCamera": tr(R1), "RotationCameraToWorld": R1,
        "RotationWorldToCameraMin": w["RotationCameraToWorldMin"], "RotationCameraToWorldMin": w["RotationWorldToCameraMin"], "TranslationWorldToCamera": w["GetOrigin"],
        "GetOrigin": [[x] for x in neg(mv(R1, c(w["GetOrigin"])))]})
    for n, x in (("Compose", a), ("RelativeTo", a), ("Inverse", a)):
        rep.expect(same(getters(p, a)["WorldToCamera"], w["WorldToCamera"]), "combine", n + ":source", POSE + ":" + n, "%s changes the pose it is asked of" % n)


def points(u, rep):
    p = Poses(u)
    o, R, t = moved(p)
    x = V("x", 3)
    back = lambda y: mv(tr(R), plus(y, neg(t)))
    go = lambda y: plus(mv(R, y), t)
    for name, f in (("TransformWorldToCamera", go), ("TransformCameraToWorld", back)):
        g = p.get(o, name, arr(x))
        rep.expect(same(grid(g), [[y] for y in f(x)]), "points", name, POSE + ":" + name, "%s does not transform a point by the pose's motion" % name)
        rows = [V("x%d" % i, 3) for i in range(2)]
        g = p.get(o, name + "Many", cpp.matrix(rows))
        rep.expect(same(grid(g), [f(y) for y in rows]), "points", name + "Many", POSE + ":" + name + "Many", "%sMany does not transform each row by the pose's motion" % name)


def state(u, rep):
    for what, r, t, want in (("identity", None, None, True), ("rotated", "r", None, False), ("moved", None, "t", False), ("both", "r", "t", False)):
        p = Poses(u)
        o = p.make("Pose", arr(V(r, 3) if r else [{}] * 3), arr(V(t, 3) if t else [{}] * 3))
        f = u.find("IsIdentity", cls="Pose")[0]
        got = val_or(p.ev.run(f, [fo.const(Fraction(1, 10 ** 15))], o))
        rep.expect(got is want, "state", "IsIdentity:" + what, POSE + ":IsIdentity", "a pose that is %s counts as %s identity" % (what, "an" if got else "no"))
    for what, r, t, want in (("finite", "r", "t", True), ("bad rotation", "bad", "t", False), ("bad translation", "r", "bad", False)):
        for cls, args in (("Pose", ()), ("Similarity", (fo.var("s"),))):
            p = Poses(u)
            r_, t_ = V(r, 3), V(t, 3)
            o = p.make(cls, arr(r_), arr(t_), *args)
            got = val_or(p.ev.run(u.find("IsValid", cls=cls)[0], [], o))
            rep.expect(got is want, "state", "%s::IsValid:%s" % (cls, what), "%s:IsValid" % (POSE if cls == "Pose" else SIM), "a %s with %s values is %s" % (cls.lower(), what, "valid" if got else "not valid"))
    p = Poses(u)
    o = p.make("Similarity", arr(V("r", 3)), arr(V("t", 3)), fo.var("bad"))
    rep.expect(val_or(p.ev.run(u.find("IsValid", cls="Similarity")[0], [], o)) is False, "state", "Similarity::IsValid:bad scale", SIM + ":IsValid", "a similarity with a bad scale is valid")


def similarities(u, rep):
    S = lambda p, o, n, *a: p.get(o, n, *a, cls="Similarity")
    x = V("x", 3)

    def judge(p, o, what, R, t, s, r=None):
        w = SIM + ":" + what.split("(")[0]
        v = neg(p.rot.vec(tr(R)))
        ok = {"Translation": same(grid(S(p, o, "Translation")), [[y] for y in t]), "RotationMatrix": same(grid(S(p, o, "RotationMatrix")), R),
              "Rotation": same(grid(S(p, o, "Rotation")), [[y] for y in v]), "Scale": fo.equal(num(S(p, o, "Scale")), s),
              "Transform": same(grid(S(p, o, "Transform", arr(x))), [[fo.add(fo.mul(s, a), b)] for a, b in zip(mv(R, x), t)])}
        i = S(p, o, "Inverse")
        y = V("y", 3)
        ok["Inverse"] = same(grid(S(p, i, "Transform", arr(y))), [[fo.div(a, s)] for a in mv(tr(R), plus(y, neg(t)))])
        ok["Inverse scale"] = fo.equal(num(S(p, i, "Scale")), fo.inv(s))
        ok["Inverse rotation"] = same(grid(S(p, i, "RotationMatrix")), tr(R))
        ok["unchanged"] = fo.equal(num(S(p, o, "Scale")), s) and same(grid(S(p, o, "RotationMatrix")), R)
        for k, b in ok.items():
            rep.expect(b, "similarity", "%s:%s" % (what, k), w, "%s after %s is not that of the similarity (scale * rotation * point + translation)" % (k, what))
    p = Poses(u)
    judge(p, p.make("Similarity"), "Similarity()", eye(), [{}] * 3, fo.const(1))
    for what in ("Similarity(r, t, s)", "Similarity(R, t, s)", "SetTranslation", "SetRotation", "SetScale"):
        p = Poses(u)
        r, t, s = V("r", 3), V("t", 3), fo.var("s")
        R = p.rot.mat(r)
        o = p.make("Similarity", cpp.matrix(R) if "(R" in what else arr(r), arr(t), s)
        f = u.find(what, cls="Similarity")
        if what == "SetTranslation":
            t = V("n", 3)
            p.call(o, f[0], arr(t))
        elif what == "SetRotation":
            r = V("n", 3)
            R = p.rot.mat(r)
            p.call(o, f[0], arr(r))
        elif what == "SetScale":
            s = fo.var("n")
            p.call(o, f[0], s)
        judge(p, o, what, R, t, s)


# orientation angles of the Python code
G = "opensfm.geometry."


class Turn(trig.Mat):
    """Matrices of named angles: rotations about an axis, quarter turns, cross products, lengths."""

    def __init__(self, fl, angles, given=None):
        super().__init__(fl, angles)
        self.given = given or {}

    def angle(self, t):
        a = super().angle(t)
        if a:
            return a
        return None

    def turn(self, t):
        """(cos, sin) of an angle term that is a sum of named angles' signs and quarter turns."""
        if tm.is_const(t) and tm.cval(t) == 0:
            return trig.const(1), {}
        a = self.angle(t)
        if a:
            return trig.C(a[0]), trig.add({}, trig.S(a[0]), a[1])
        k = self.quarters(t)
        if k is not None:
            return [(trig.const(1), {}), ({}, trig.const(1)), (trig.const(-1), {}), ({}, trig.const(-1))][k % 4]
        if t.op == "bin" and t.args[0] in "+-" or t.op == "un":
            sign = [1] * len(t.args)
            parts = t.args[1:]
            c, s = self.turn(parts[0])
            if t.op == "un":
                return c, trig.add({}, s, -1)
            for x in parts[1:]:
                c2, s2 = self.turn(x)
                s2 = trig.add({}, s2, -1) if t.args[0] == "-" else s2
                c, s = trig.add(trig.mul(c, c2), trig.mul(s, s2), -1), trig.add(trig.mul(s, c2), trig.mul(c, s2))
            return c, s
        raise trig.Unknown("angle %s" % tm.show(t)[:60])

    def quarters(self, t):
        """n, when a term is n quarter turns."""
        x = self.pis(t)
        if x is None:
            return None
        k = x * 2
        return int(k) if k.denominator == 1 else None

    def pis(self, t):
        if t.op == "ext" and str(t.args[0]) in ("numpy.pi", "math.pi"):
            return Fraction(1)
        if t.op == "bin" and t.args[0] in "*/":
            r = None
            for i, x in enumerate(t.args[1:]):
                p = self.pis(x)
                if p is None and tm.is_const(x) and isinstance(tm.cval(x), (int, float)):
                    p = ("c", Fraction(tm.cval(x)).limit_denominator(1000))
                if p is None:
                    return None
                if r is None:
                    r = p
                elif t.args[0] == "/" and isinstance(p, tuple):
                    r = r / p[1] if not isinstance(r, tuple) else ("c", r[1] / p[1])
                elif t.args[0] == "*":
                    a, b = (r, p)
                    if isinstance(a, tuple) and not isinstance(b, tuple):
                        r = a[1] * b
                    elif isinstance(b, tuple) and not isinstance(a, tuple):
                        r = a * b[1]
                    else:
                        return None
                else:
                    return None
            return None if isinstance(r, tuple) else r
        return None

    def called(self, t):
        """(name, arguments) of a call, also one whose result is an object."""
        if t.op == "call":
            return tm.callee_name(t), list(tm.call_parts(t)[1])
        h = self.fl.h(t) if t.op == "obj" else None
        if h is not None and h.kind == "ext" and h.cls is not None and h.cls.args:
            return str(h.cls.args[0]), list(h.args)
        return None, []

    def axis(self, t):
        s = self.seq(t) if t.op in ("tup", "obj") else None
        if s is None and self.called(t)[0] in trig.ARR and self.called(t)[1]:
            return self.axis(self.called(t)[1][0])
        if s is None or len(s) != 3:
            raise trig.Unknown("axis %s" % tm.show(t)[:60])
        z = [tm.is_const(x) and tm.cval(x) == 0 for x in s]
        if z.count(False) != 1:
            raise trig.Unknown("axis %s" % tm.show(t)[:60])
        i = z.index(False)
        return "xyz"[i], self.turn(s[i])

    def rotation(self, t):
        k, (c, s) = self.axis(t)
        o, z, n = trig.const(1), {}, trig.add({}, s, -1)
        return {"x": [[o, z, z], [z, c, n], [z, s, c]], "y": [[c, z, s], [z, o, z], [n, z, c]], "z": [[c, n, z], [s, c, z], [z, z, o]]}[k]

    def __call__(self, t):
        if t in self.given:
            return self.given[t]
        n, ps = self.called(t)
        if n == "numpy.cross":
            a, b = [self(x) for x in ps[:2]]
            return [trig.add(trig.mul(a[i], b[j]), trig.mul(a[j], b[i]), -1) for i, j in ((1, 2), (2, 0), (0, 1))]
        if n == "numpy.linalg.norm" or n == "numpy.hypot":
            a = self(ps[0]) if n.endswith("norm") else [self(x) for x in ps]
            return root(trig.sum_([trig.mul(x, x) for x in a]))
        if t.op == "slice_of":
            k = [tm.cval(x) if tm.is_const(x) else False for x in t.args[1:4]]
            if False in [x for x in k if not isinstance(x, int) or isinstance(x, bool)]:
                raise trig.Unknown("slice")
            return self(t.args[0])[slice(*k)]
        if t.op == "item" and tm.is_const(t.args[1]) and tm.cval(t.args[1]) == 0 and self.called(t.args[0])[0] == "cv2.Rodrigues":
            return self.rotation(self.called(t.args[0])[1][0])
        if t.op == "bin" and t.args[0] == "/" and len(t.args) == 3:
            a, b = self(t.args[1]), self(t.args[2])
            if isinstance(b, dict) and len(b) == 1:
                (m, c), = b.items()
                i = {tuple((k, -e) for k, e in m): 1 / c}
                return self.each(a, lambda p: trig.mul(p, i))
        return super().__call__(t)


def root(p):
    """The square root of a squared monomial of cosines taken as positive."""
    if len(p) == 1:
        (m, c), = p.items()
        if all(e % 2 == 0 for _, e in m) and c == 1:
            return {tuple((k, e // 2) for k, e in m): Fraction(1)}
    raise trig.Unknown("length")


def opk(w, p, k):
    """Image axes (x right, y down) of a camera whose body is turned by kappa, phi, omega from East, North, Up."""
    r = lambda axis, a: trig.transpose(trig.rot(axis, a))
    flip = [[trig.const(1), {}, {}], [{}, trig.const(-1), {}], [{}, {}, trig.const(-1)]]
    return trig.mm(trig.mm(trig.mm(flip, r("z", k)), r("y", p)), r("x", w))


def ptr(pan, tilt, roll):
    z, o = {}, trig.const(1)
    c, s = trig.add({}, trig.S(tilt), -1), trig.C(tilt)
    x = [[o, z, z], [z, c, trig.add({}, s, -1)], [z, s, c]]
    return trig.mm(trig.mm(trig.rot("z", roll), x), trig.rot("z", pan))


def angles(prog, rep):
    only = {"opensfm.geometry"}
    cases = (("rotation_from_opk", ("omega", "phi", "kappa"), opk), ("rotation_from_ptr", ("pan", "tilt", "roll"), ptr))
    for name, ps, want in cases:
        fl, r, A = run(prog, G + name, only, ())
        try:
            m = Turn(fl, {A[p]: p for p in ps})(r)
        except (trig.Unknown, KeyError) as e:
            raise AnalysisBroken("%s: %s" % (name, e))
        w = want(*ps)
        for i in range(3):
            for j in range(3):
                rep.expect(m[i][j] == w[i][j], "angles", "%s:%d%d" % (name, i, j), G + name, "entry %d, %d of the matrix is not that of the rotations by %s" % (i, j, ", ".join(ps)))
    for name, ps, want in (("opk_from_rotation", ("omega", "phi", "kappa"), opk), ("ptr_from_rotation", ("pan", "tilt", "roll"), ptr)):
        fl, r, A = run(prog, G + name, only, ())
        s = Turn(fl, {}).seq(r)
        if s is None or len(s) != 3:
            raise AnalysisBroken("%s: three angles" % name)
        t = Turn(fl, {}, {A["rotation_matrix"]: want(*ps)})
        for p, x in zip(ps, s):
            try:
                ok = recovers(t, x, p)
            except (trig.Unknown, KeyError, IndexError) as e:
                raise AnalysisBroken("%s %s: %s" % (name, p, e))
            rep.expect(ok, "angles", "%s:%s" % (name, p), G + name, "the %s read off a matrix is not the one the matrix was made of" % p)


HALF = ("phi", "tilt", "roll")  # within a quarter turn of zero


def recovers(t, x, p):
    """x is the angle p, for every p (of HALF: within a quarter turn)."""
    c = tm.callee_name(x) if x.op == "call" else None
    if c in ("numpy.arctan", "math.atan", "numpy.arccos", "math.acos") and p not in HALF:
        return False
    n = tm.callee_name(x) if x.op == "call" else None
    a = [t(y) for y in tm.call_parts(x)[1]] if n else []
    if n in ("numpy.arcsin", "math.asin"):
        return a[0] == trig.S(p) and p in HALF
    if n in ("numpy.arctan", "math.atan"):
        if p not in HALF:
            return False
        return trig.mul(a[0], trig.C(p)) == trig.S(p)
    if n in ("numpy.arctan2", "math.atan2"):
        s, c = a
        # (s, c) is a positive multiple of (sin, cos): another angle's cosine
        if trig.mul(s, trig.C(p)) != trig.mul(c, trig.S(p)) or len(c) != 1:
            return False
        (m, k), = c.items()
        d = dict(m)
        if d.get(("c", p), 0) != 1 or k <= 0:
            return False
        return all(v[0] == "c" for v in d)
    if n in ("numpy.arccos", "math.acos"):
        return False
    raise trig.Unknown(tm.show(x)[:60])
