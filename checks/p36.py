"""P36: aligning reconstructions minimises the errors of the constraints added, and moves only what is free."""

import glob
import os
import sys

from sa import cpp, cppstd
from sa import formula as fo
from sa.cpp import Arr, Obj, Ptr, cell, num, val, val_or
from sa.cppstd import Foreign
from sa.program import AnalysisBroken
from sa.sample import Sample
from checks.p22 import SRC, Adjuster, Rotations, S, Scene, V, canonical, loss, loss_of, minus, one_over, plus, times

TECHNIQUE = "clang's syntax tree of the alignment of reconstructions evaluated over unknown poses, scales and measurements: the problem it builds and the errors it gives to the solver reduced to normal forms and compared with their definitions"
EXPLANATION = (
    "A ReconstructionAlignment is filled through its public interface with unknown shots, reconstructions and constraints of every kind, its Run is evaluated from the syntax tree up to the call of the solver, "
    "where the free parameters become new unknowns; every cost functor is then evaluated on the blocks it was given and compared, with its loss, block sizes, constant blocks and bounds, with the definition of "
    "the error that was added; what is read back afterwards is compared with where the optimisation ended."
)
CLS = "ReconstructionAlignment"
FILE = "opensfm/src/bundle/reconstruction_alignment.h"
SHOT = "RX RY RZ TX TY TZ".split()
REC = SHOT + ["Scale"]


class Aligned:
    """The alignment of a scene, evaluated."""

    def __init__(self, u, seed):
        self.u = u
        self.rot = Rotations()
        ops = self.rot.opaque()
        ops["Solve"] = self.solve
        self.sample = Sample(None, seed)
        self.ev = cppstd.Std(u, self.sample, opaque=ops)
        self.ev.LIMIT = 10 ** 8
        self.ra = self.ev.make(CLS, [])
        self.problem = None
        self.old, self.new, self.fixed, self.expected, self.where = {}, {}, set(), [], {}

    fn = Adjuster.fn
    blocks = Scene.blocks
    evaluate = Scene.evaluate

    def do(self, name, *args):
        return self.ev.run(self.fn(name, CLS), list(args), self.ra)

    def shot(self, key, constant):
        self.old["shot", key] = V("old." + key, 6)
        self.do("AddShot", key, *self.old["shot", key], constant)
        if constant:
            self.fixed.add(("shot", key))

    def rec(self, key, constant):
        v = V("old." + key, 6) + [fo.var("scale." + key)]
        self.old["rec", key] = v
        self.do("AddReconstruction", key, *v, constant)
        if constant:
            self.fixed.add(("rec", key))

    def tables(self):
        out = {}
        for f in self.ra.fields.values():
            d = val_or(f)
            if isinstance(d, cppstd.Assoc) or isinstance(d, cpp.Assoc):
                for k, c in d.d.items():
                    o = val_or(c)
                    if isinstance(o, Obj):
                        for a in o.fields.values():
                            a = val_or(a)
                            if isinstance(a, Arr) and len(a.cells) in (6, 7):
                                out["shot" if len(a.cells) == 6 else "rec", k] = a.cells
        return out

    def solve(self, e, a, n):
        self.options, p = val_or(a[0]), val_or(a[1])
        self.problem = val_or(p.at(0)) if isinstance(p, Ptr) else p
        given = {o for o, cells in self.tables().items() if any(c is x for c in cells[:1] for x in self.given())}
        for o, cells in self.tables().items():
            self.where[id(cells[0])] = (o, len(cells))
            if o not in self.fixed and o in given:
                for i, c in enumerate(cells):
                    c.put(fo.var("new.%s.%d" % (".".join(o), i)))
            self.new[o] = [num(c) for c in cells]
        return ()

    def given(self):
        """first cells of the blocks the solver knows"""
        out = []
        for name, args in self.problem.calls:
            if name in ("AddResidualBlock", "AddParameterBlock"):
                for x in args:
                    x = val_or(x)
                    if isinstance(x, Arr) and x.cells and not isinstance(val_or(x.cells[0]), (Ptr, Arr)):
                        out.append(x.cells[0])
                    elif isinstance(x, Ptr) and isinstance(x.arr, Arr):
                        out.append(x.at(0))
                    elif isinstance(x, Arr):
                        out += [val_or(q).at(0) if isinstance(val_or(q), Ptr) else val_or(q).cells[0] for q in x.cells]
        return out

    # -- definitions
    def turn(self, a, p, back=False):
        m = self.rot.mat(a)
        return [fo.add(*[fo.mul(m[j][i] if back else m[i][j], p[j]) for j in range(3)]) for i in range(3)]

    def centre(self, s):
        return [fo.neg(x) for x in self.turn(s[:3], s[3:6], True)]

    def to_world(self, r, p):
        return self.turn(r[:3], [fo.div(fo.sub(x, t), r[6]) for x, t in zip(p, r[3:6])], True)

    def from_world(self, r, p):
        return plus(times(r[6], self.turn(r[:3], p)), r[3:6])

    def kept(self):
        """identities of the arrays that live as long as the alignment"""
        out, todo = set(), [self.ra]
        while todo:
            x = val_or(todo.pop())
            if isinstance(x, Obj):
                todo += list(x.fields.values())
            elif isinstance(x, Arr) and id(x) not in out:
                out |= {id(x)} | {id(c) for c in x.cells}
                todo += x.cells
            elif hasattr(x, "d") and isinstance(x.d, dict):
                todo += list(x.d.values())
        return out

    def dangling(self, cost):
        """the values of an error that are pointed to, and gone when the solver runs"""
        c = val_or(cost.at(0)) if isinstance(cost, Ptr) else val_or(cost)
        f = val_or(c.args[0]) if isinstance(c, Foreign) and c.args else c
        f = val_or(f.at(0)) if isinstance(f, Ptr) else f
        live, out = self.kept(), []
        for d in cpp.inner(f.cls, "FieldDecl") if isinstance(f, Obj) else ():
            v = val_or(f.fields.get(d["name"]))
            if "*" in cpp.typ(d):
                a = v.arr if isinstance(v, Ptr) else v
                if isinstance(a, Arr) and id(a) not in live and not (a.cells and id(a.cells[0]) in live):
                    out.append(d["name"])
        return out

    def expect(self, what, l, f):
        self.expected.append((what, l, f))

    # -- constraints
    def relative_motion(self, rec, shot, k, matrix):
        v = V(k, 6)
        c = self.ev.make("RARelativeMotionConstraint", [rec, shot] + v)
        m = [[fo.const(1 if i == j else 0) for j in range(6)] for i in range(6)]
        if matrix:
            m = [[fo.var("%s.m%d%d" % (k, i, j)) for j in range(6)] for i in range(6)]
            f = self.fn("SetScaleMatrix", "RARelativeMotionConstraint")
            for i in range(6):
                for j in range(6):
                    self.ev.run(f, [fo.const(i), fo.const(j), m[i][j]], c)
        self.do("AddRelativeMotionConstraint", c)

        def error():
            a, s = self.new["rec", rec], self.new["shot", shot]
            # the camera in the reconstruction is that in the world, moved by the reconstruction
            r = self.rot.log([v[:3], a[:3], [fo.neg(x) for x in s[:3]]]) + minus(self.from_world(a, self.centre(s)), self.centre(v))
            return [fo.add(*[fo.mul(m[i][j], r[j]) for j in range(6)]) for i in range(6)]
        self.expect("relative motion %s of %s in %s" % (k, shot, rec), loss("CauchyLoss", 1), error)

    def absolute(self, shot, k):
        p = V(k, 3)
        self.do("AddAbsolutePositionConstraint", shot, *p, fo.var(k + ".sd"))
        self.expect("absolute position " + k, None, lambda: times(one_over(k + ".sd"), minus(p, self.centre(self.new["shot", shot]))))

    def relative_absolute(self, rec, shot, k):
        p = V(k, 3)
        self.do("AddRelativeAbsolutePositionConstraint", rec, shot, *p, fo.var(k + ".sd"))
        self.expect("position %s of %s in %s" % (k, shot, rec), loss("SoftLOneLoss", 1), lambda: times(one_over(k + ".sd"), minus(p, self.to_world(self.new["rec", rec], self.centre(self.new["shot", shot])))))

    def common_camera(self, a, sa, b, sb, k):
        self.do("AddCommonCameraConstraint", a, sa, b, sb, fo.var(k + ".csd"), fo.var(k + ".rsd"))

        def error():
            A, B, x, y = self.new["rec", a], self.new["rec", b], self.new["shot", sa], self.new["shot", sb]
            n = lambda v: [fo.neg(t) for t in v[:3]]  # noqa: E731
            return times(one_over(k + ".rsd"), self.rot.log([x[:3], A[:3], n(B), n(y)])) + times(one_over(k + ".csd"), minus(self.to_world(A, self.centre(x)), self.to_world(B, self.centre(y))))
        self.expect("common camera %s of %s and %s" % (k, a, b), loss("CauchyLoss", 1), error)

    def common_point(self, a, b, k):
        p, q = V(k + ".a", 3), V(k + ".b", 3)
        self.do("AddCommonPointConstraint", a, *p, b, *q, fo.var(k + ".sd"))

        def error():
            A, B = self.new["rec", a], self.new["rec", b]
            return times(fo.mul(one_over(k + ".sd"), fo.add(A[6], B[6])), minus(self.to_world(A, p), self.to_world(B, q)))
        self.expect("common point %s of %s and %s" % (k, a, b), loss("SoftLOneLoss", 1), error)


def every(s):
    for k, c in (("s0", False), ("s1", True), ("s2", False), ("s3", True), ("s4", True), ("s5", False)):
        s.shot(k, c)
    for k, c in (("a", False), ("b", True), ("c", False)):
        s.rec(k, c)
    # added once more: the last values count
    s.old["shot", "s1"] = V("again.s1", 6)
    s.do("AddShot", "s1", *s.old["shot", "s1"], True)
    s.old["rec", "b"] = V("again.b", 6) + [fo.var("scale.again")]
    s.do("AddReconstruction", "b", *s.old["rec", "b"], True)
    s.relative_motion("a", "s0", "m0", False)
    s.relative_motion("b", "s0", "m1", True)
    s.relative_motion("a", "s1", "m2", True)
    s.relative_motion("c", "s2", "m3", False)
    s.absolute("s0", "g0")
    s.absolute("s2", "g1")
    s.relative_absolute("a", "s3", "h0")
    s.relative_absolute("c", "s4", "h1")
    s.common_camera("a", "s3", "b", "s4", "k0")
    s.common_camera("c", "s5", "a", "s3", "k1")
    s.common_point("a", "b", "p0")
    s.common_point("c", "a", "p1")


def pairs(s):
    """only reconstructions, no shot that is free"""
    for k in ("z", "y"):
        s.shot(k, True)
    for k, c in (("r2", False), ("r1", False)):
        s.rec(k, c)
    s.relative_absolute("r2", "z", "h0")
    s.relative_absolute("r1", "y", "h1")
    s.common_point("r1", "r2", "p0")
    s.common_camera("r2", "z", "r1", "y", "k0")


def shots(s):
    """shots whose positions are known, in fixed reconstructions"""
    s.rec("r", True)
    for k in ("u", "v", "w"):
        s.shot(k, k == "v")
        s.relative_motion("r", k, "m" + k, k == "w")
    s.absolute("w", "g")


def judge(s, rep, tag):
    s.do("Run")
    if s.problem is None:
        raise cpp.Unread("nothing is solved")
    want = {}
    for what, l, f in s.expected:
        want.setdefault((canonical(f()), l), []).append(what)
    for cost, l, ptrs in s.blocks():
        ptrs = [Ptr(p) if isinstance(p, Arr) else p for p in ptrs]
        res, declared, sizes, _ = s.evaluate(cost, ptrs)
        rep.expect(declared == sizes, "sizes", "blocks", FILE, "an error declares blocks of %s for parameters of %s" % (declared, sizes))
        k = (canonical(res), loss_of(l))
        c = val_or(cost.at(0)) if isinstance(cost, Ptr) else cost
        kind = c.type.split("<")[1].split(",")[0] if isinstance(c, Foreign) and "<" in c.type else "error"
        gone = s.dangling(cost)
        if gone:
            rep.bad("errors", kind + ":lifetime", FILE, "%s: an error points to values (%s) that are gone when the solver runs" % (tag, ", ".join(gone)))
        if k in want and want[k]:
            rep.count("obligations")
            rep.count("errors")
            want[k].pop()
            continue
        near = [w for (r, m), ws in want.items() for w in ws if r == k[0]]
        rep.bad("errors", kind, FILE, "%s: an error over %s is none of those added%s" % (tag, " and ".join(".".join(s.where[id(p.at(0))][0]) for p in ptrs), (" (%s has another loss function)" % near[0]) if near else ""))
    for ws in want.values():
        for w in ws:
            rep.bad("errors", w.split()[0] + " " + w.split()[1] + ":missing", FILE, "%s: nothing is minimised for the %s" % (tag, w))
    # what moves
    calls = [(n, [val_or(x) for x in a]) for n, a in s.problem.calls]
    at = lambda x: s.where.get(id((x.at(0) if isinstance(x, Ptr) else x.cells[0])), (None,))[0]  # noqa: E731
    held = {at(a[0]) for n, a in calls if n == "SetParameterBlockConstant"} - {at(a[0]) for n, a in calls if n == "SetParameterBlockVariable"}
    known = {at(a[0]) for n, a in calls if n == "AddParameterBlock"} | {s.where[id(p.at(0))][0] for _, _, ps in s.blocks() for p in [Ptr(q) if isinstance(q, Arr) else q for q in ps]}
    for o in s.old:
        if o in known:
            rep.expect((o in held) == (o in s.fixed), "constant", o[0], FILE, "%s: %s %s was added as %s" % (tag, o[0], o[1], "fixed, but it moves" if o in s.fixed else "free, but it is held"))
    low = {at(a[0]): a[1:] for n, a in calls if n == "SetParameterLowerBound"}
    high = [(at(a[0]), a[1], a[2]) for n, a in calls if n == "SetParameterUpperBound"]
    for o in s.old:
        if o[0] != "rec" or o in s.fixed:
            rep.expect(o not in low and not any(h[0] == o for h in high) or o in s.fixed, "bounds", "shot", FILE, "%s: a shot is bounded" % tag)
            continue
        b = low.get(o)
        if rep.expect(b is not None and fo.lead(num(b[0])) == 6, "bounds", "scale", FILE, "%s: the scale of reconstruction %s has no lower bound" % (tag, o[1])):
            rep.expect(0 < s.sample.value(num(b[1])) <= 0.1, "bounds", "scale:lower", FILE, "%s: the scale of a reconstruction is kept above %s" % (tag, s.sample.value(num(b[1]))))
        for h, i, x in high:
            if h == o:
                rep.expect(fo.lead(num(i)) == 6 and s.sample.value(num(x)) >= 1e6, "bounds", "scale:upper", FILE, "%s: a reconstruction is kept from growing" % tag)
    # what is read back
    for (kind, k), was in s.old.items():
        o = s.do("GetShot" if kind == "shot" else "GetReconstruction", k)
        o = val_or(o)
        now = s.new[kind, k]
        for i, n in enumerate(SHOT if kind == "shot" else REC):
            f = s.fn("Get" + n, "RAShot" if kind == "shot" else "RAReconstruction")
            v = num(s.ev.run(f, [], o))
            rep.expect(fo.equal(v, now[i]), "results", "%s:%s" % (kind, n), FILE, "%s: %s of %s %s is read as %s" % (tag, n, kind, k, fo.show(v)[:60]))
            if kind == "shot" and (kind, k) in s.fixed:
                rep.expect(fo.equal(now[i], was[i]), "results", "%s:%s:kept" % (kind, n), FILE, "%s: %s of %s is changed before the solver runs" % (tag, n, k))


def setters(u, rep):
    """values set one by one are read back under their own names"""
    for cls, names in (("RAShot", SHOT), ("RAReconstruction", REC), ("RARelativeMotionConstraint", SHOT)):
        s = Aligned(u, 1)
        o = s.ev.make(cls, ["r", "s"] + V("w", 6) if cls == "RARelativeMotionConstraint" else [])
        if cls == "RARelativeMotionConstraint":
            for i, n in enumerate(names):
                rep.expect(fo.equal(num(s.ev.run(s.fn("Get" + n, cls), [], o)), V("w", 6)[i]), "results", "%s:%s:made" % (cls, n), FILE, "%s of a new %s is another value" % (n, cls))
        for n in names:
            s.ev.run(s.fn("Set" + n, cls), [fo.var("set." + n)], o)
        for n in names:
            v = num(s.ev.run(s.fn("Get" + n, cls), [], o))
            rep.expect(fo.equal(v, fo.var("set." + n)), "results", "%s:%s:set" % (cls, n), FILE, "%s of %s is read as %s" % (n, cls, fo.show(v)[:60]))


def scene(u, rep, make, seed):
    s = Aligned(u, seed)
    make(s)
    try:
        judge(s, rep, make.__name__)
    except cpp.Stop:
        rep.bad("errors", "refused", FILE, "a problem that can be solved is refused")
    except cpp.Outside as e:
        rep.bad("errors", "bounds", FILE, str(e))


def check(prog, rep):
    rep.rule("errors", "every error the solver is given is, by its definition, that of a constraint added, and no constraint is left out")
    rep.rule("sizes", "errors declare their blocks with the sizes they have")
    rep.rule("constant", "exactly what was added as fixed is held")
    rep.rule("bounds", "scales stay positive and may grow")
    rep.rule("results", "what is read back is where the optimisation ended")
    rep.part(problems, rep)


def problems(rep):
    sys.setrecursionlimit(8000)
    more = sorted(glob.glob(os.path.join(SRC, "bundle", "src", "*alignment*.cc")))
    text = '#include "%s/bundle/reconstruction_alignment.h"\n' % SRC + "".join('#include "%s"\n' % f for f in more)
    u = cpp.Unit(text, ("RA", CLS, "transform_point", "(unnamed"))
    for make in (every, pairs, shots):
        for seed in ((1,) if rep.tier == "quick" else (1, 2, 3)):
            rep.part(scene, u, rep, make, seed)
    rep.part(setters, u, rep)
    rep.minimum("errors", 20)
    rep.minimum("results", 90)
