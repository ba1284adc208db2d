"""P22: bundle adjustment minimises the errors of what was added, over the parameters they belong to."""

import multiprocessing
import os
import sys
import traceback

from sa import cpp, cppstd
from sa import formula as fo
from sa.cpp import Arr, Obj, Ptr, cell, flat, num, val, val_or
from sa.cppstd import Foreign, Opt
from sa.program import AnalysisBroken
from sa.sample import Sample
from checks import p08

TECHNIQUE = "clang's syntax tree of the bundle adjuster evaluated over unknown values: the problem built for scenes with every kind of error, the errors given to the solver reduced to normal forms and compared with their definitions"
EXPLANATION = (
    "A BundleAdjuster is filled through its public interface with unknown cameras, poses, points and measurements, its Run is evaluated from the syntax tree up to the call of the solver, "
    "where all free parameters become new unknowns; every cost functor is then evaluated on the blocks it was given and compared, with its loss, block sizes, constant blocks and bounds, with the definition of the "
    "error that was added. Comparisons choose a branch by one sample of the unknowns; formulas are never compared by numbers."
)

SRC = cpp.SRC


class Rotations:
    """Rotations given by unknown angle-axis vectors: matrices of atoms, with inverses and products known as such."""

    def __init__(self):
        self.mats = {}
        self.quats = {}
        self.logs = {}

    def signed(self, a):
        for x in a:
            if x:
                return (a, False) if fo.lead(x) > 0 else ([fo.neg(y) for y in a], True)
        return a, False

    def mat(self, a):
        a = list(a)
        b, flip = self.signed(a)
        if not any(b):
            m = [[fo.const(1 if i == j else 0) for j in range(3)] for i in range(3)]
        else:
            k = tuple(fo.key(x) for x in b)
            if k in self.logs:
                m = [[fo.const(1 if i == j else 0) for j in range(3)] for i in range(3)]
                for f in self.logs[k]:
                    g = self.mat(f)
                    m = [[fo.add(*[fo.mul(m[i][n], g[n][j]) for n in range(3)]) for j in range(3)] for i in range(3)]
            else:
                m = [[fo.fun("R%d%d" % (i, j), *b) for j in range(3)] for i in range(3)]
        if flip:
            m = [list(r) for r in zip(*m)]
        self.mats[tuple(fo.key(x) for r in m for x in r)] = a
        return m

    def vec(self, m):
        k = tuple(fo.key(x) for r in m for x in r)
        if k in self.mats:
            return self.mats[k]
        if k == tuple(fo.key(fo.const(1 if i == j else 0)) for i in range(3) for j in range(3)):
            return [{}, {}, {}]
        t = tuple(fo.key(x) for r in zip(*m) for x in r)
        if t in self.mats:
            return [fo.neg(x) for x in self.mats[t]]
        raise cpp.Unread("rotation matrix")

    def quat(self, factors):
        out = []
        for f in factors:
            k = tuple(fo.key(x) for x in f)
            b, flip = self.signed(f)
            s = self.logs.get(tuple(fo.key(x) for x in b))
            if s is not None:
                f2 = [[fo.neg(y) for y in x] for x in reversed(s)] if flip else s
                out += f2
            elif any(f):
                out.append(f)
        q = [fo.fun("q%d" % i, *[x for f in out for x in f]) for i in range(4)] if out else [fo.const(1), {}, {}, {}]
        self.quats[tuple(fo.key(x) for x in q)] = out
        return q

    def factors(self, q):
        k = tuple(fo.key(x) for x in q)
        if k not in self.quats:
            raise cpp.Unread("quaternion")
        return self.quats[k]

    def log(self, factors):
        f = self.factors(self.quat(factors))
        if not f:
            return [{}, {}, {}]
        if len(f) == 1:
            return f[0]
        a = [fo.fun("log%d" % i, *[x for y in f for x in y]) for i in range(3)]
        b, flip = self.signed(a)
        self.logs[tuple(fo.key(x) for x in a)] = f
        return a

    # the functions of ceres and the repository that compute them
    def opaque(self):
        return {
            "VectorToRotationMatrix": lambda e, a, n: cpp.matrix(self.mat(flat(a[0]))),
            "RotationMatrixToVector": lambda e, a, n: cpp.matrix([[x] for x in self.vec(val(a[0]).grid())]),
            "AngleAxisRotatePoint": self.rotate,
            "AngleAxisToQuaternion": lambda e, a, n: store(a[1], self.quat([load(a[0], 3)])),
            "QuaternionProduct": lambda e, a, n: store(a[2], self.quat(self.factors(load(a[0], 4)) + self.factors(load(a[1], 4)))),
            "QuaternionToAngleAxis": lambda e, a, n: store(a[1], self.log(self.factors(load(a[0], 4)))),
            "CrossProduct": cross,
            "inverse": self.inverse,
        }

    def rotate(self, e, a, n):
        p = load(a[1], 3)
        m = self.mat(load(a[0], 3))
        store(a[2], [fo.add(*[fo.mul(m[i][j], p[j]) for j in range(3)]) for i in range(3)])

    def inverse(self, e, a, n):
        g = val(a[0]).grid()
        if len(g) != 4:
            raise cpp.Unread("inverse")
        r = [[g[j][i] for j in range(3)] for i in range(3)]
        t = [fo.neg(fo.add(*[fo.mul(r[i][j], g[j][3]) for j in range(3)])) for i in range(3)]
        return cpp.matrix([r[i] + [t[i]] for i in range(3)] + [[{}, {}, {}, fo.const(1)]])


def load(p, n):
    p = val(p)
    p = Ptr(p) if isinstance(p, Arr) else p
    return [num(p.at(i)) for i in range(n)]


def store(p, v):
    p = val(p)
    p = Ptr(p) if isinstance(p, Arr) else p
    for i, x in enumerate(v):
        p.at(i).put(x)


def cross(e, a, n):
    x, y = load(a[0], 3), load(a[1], 3)
    store(a[2], [fo.sub(fo.mul(x[i], y[j]), fo.mul(x[j], y[i])) for i, j in ((1, 2), (2, 0), (0, 1))])


class Dispatched:
    """geometry::Dispatch over camera types, for the functions of the camera models."""

    def __init__(self, rot):
        self.rot = rot

    def __call__(self, e, a, n):
        f = n["inner"][0]
        while f["kind"] != "DeclRefExpr":
            f = [c for c in f["inner"] if c.get("kind")][0]
        t = cpp.template_args(e.u.ids.get(f["referencedDecl"]["id"], {}))
        name = t[0].split("::")[-1] if t else ""
        if name == "ProjectFunction":
            store(a[3], self.project(num(a[0]), load(a[1], 3), rest(a[2]), 2))
            return ()
        if name in ("ProjectRigPoseDerivatives", "ProjectPoseDerivatives", "RigPoseNormalizedDerivatives", "PoseNormalizedDerivatives"):
            k = 2 if "Rig" in name else 1
            x, pars = load(a[1], 3), rest(a[2])
            p = x
            for i in range(k):
                p = self.local(p, pars[6 * i:6 * i + 6])
            out = normalized(p) if "Normalized" in name else self.project(num(a[0]), p, pars[6 * k:], 2)
            store(a[3], out)
            if len(pars) > 6 * k and "Normalized" in name:
                raise cpp.Unread("parameters of " + name)
            v = x + pars
            store(a[4], [fo.fun("d", o, y) for o in out for y in v])
            if len(rest(a[4], False)) != len(out) * len(v):
                raise cpp.Outside("the size of the derivatives differs from that of the parameters")
            return ()
        return NotImplemented

    @staticmethod
    def project(kind, p, camera, n):
        return [fo.fun("project%d" % i, kind, *(p + camera)) for i in range(n)]

    def local(self, p, rt):
        m = self.rot.mat(rt[:3])
        d = [fo.sub(p[i], rt[3 + i]) for i in range(3)]
        return [fo.add(*[fo.mul(m[j][i], d[j]) for j in range(3)]) for i in range(3)]

    def forward(self, e, a, n):
        f = n["inner"][0]
        while f["kind"] != "DeclRefExpr":
            f = [c for c in f["inner"] if c.get("kind")][0]
        own = [p[0] for p in e.u.owner.get(f["referencedDecl"]["id"], ())]
        if "PoseFunctor" in own:
            store(a[2], self.local(load(a[0], 3), load(a[1], 6)))
            return ()
        return NotImplemented


def rest(p, read=True):
    p = val(p)
    p = Ptr(p) if isinstance(p, Arr) else p
    c = p.arr.cells[p.off:]
    return [num(x) for x in c] if read else c


def normalized(p):
    n = fo.sqrt(fo.add(*[fo.mul(x, x) for x in p]))
    return [fo.div(x, n) for x in p]


def V(name, n):
    return [fo.var("%s.%d" % (name, i)) for i in range(n)]


def S(text):
    """A string literal."""
    return 'str:"%s"' % text


def arr(v):
    return cpp.matrix([[x] for x in v])


class Adjuster:
    """A BundleAdjuster of the repository, evaluated."""

    def __init__(self, u, given=None, seed=0):
        self.u = u
        self.rot = Rotations()
        d = Dispatched(self.rot)
        ops = self.rot.opaque()
        ops.update({"Dispatch": d, "Forward": d.forward, "Solve": self.solve, "Evaluate": self.heat, "StringToLinearSolverType": self.named,
                    "StringToCovarianceAlgorithmType": self.named, "GetCovarianceBlock": self.covariance, "allFinite": self.finite, "Compute": self.compute,
                    "abs": lambda e, a, n: self.absolute(num(a[0])), "fabs": lambda e, a, n: self.absolute(num(a[0]))})
        self.sample = Sample(given, seed)
        self.ev = cppstd.Std(u, self.sample, opaque=ops)
        self.ev.LIMIT = 10 ** 8
        self.ba = self.ev.make("bundle::BundleAdjuster", [])
        self.problem = self.options = None
        self.names, self.asked = {}, []

    def fn(self, name, cls=None, **k):
        r = self.u.find(name, cls=cls, **k)
        if len(r) != 1:
            raise cpp.Unread("%d functions %s" % (len(r), name))
        return r[0]

    def do(self, name, *args):
        return self.ev.run(self.fn(name, "BundleAdjuster"), list(args), self.ba)

    def pose(self, rt):
        p = self.ev.make("geometry::Pose", [])
        f = [x for x in self.u.find("SetFromCameraToWorld", cls="Pose") if len(cpp.inner(x, "ParmVarDecl")) == 2 and "Mat" not in cpp.typ(cpp.inner(x, "ParmVarDecl")[0])]
        self.ev.run(f[0], [arr(rt[:3]), arr(rt[3:])], p)
        return p

    def table(self, name):
        return val(self.ba.fields[name]).d

    def block(self, table, key, field="value_data_"):
        return val(val(self.table(table)[key]).fields[field])

    # what the solver is given
    def solve(self, e, a, n):
        self.options, p = val_or(a[0]), val_or(a[1])
        self.problem = val_or(p.at(0)) if isinstance(p, Ptr) else p
        q = val_or(a[2])
        q = val_or(q.at(0)) if isinstance(q, Ptr) else q
        q.fields["termination_type"] = cell("CONVERGENCE")
        self.before()
        return ()

    def before(self):
        pass

    def absolute(self, x):
        return fo.neg(x) if self.sample.value(x) < 0 else x

    def named(self, e, a, n):
        self.asked.append(val_or(a[0]))
        p = val_or(a[1])
        p.at(0).put("type of " + str(val_or(a[0])))
        return True

    def heat(self, e, a, n):
        if not isinstance(val_or(a[0]), Foreign):
            return NotImplemented
        val(a[3]).at(0).put(fo.fun("heat", num(a[1]), num(a[2])))
        return ()

    def compute(self, e, a, n):
        return NotImplemented

    def covariance(self, e, a, n):
        return NotImplemented

    def finite(self, e, a, n):
        return True


TABLES = {"camera": "cameras_", "bias": "bias_", "rig camera": "rig_cameras_", "rig instance": "rig_instances_", "point": "points_"}
SD = {"Focal": "focal", "AspectRatio": "aspect_ratio", "Cx": "c", "Cy": "c", "K1": "k1", "K2": "k2", "P1": "p1", "P2": "p2", "K3": "k3", "K4": "k4"}
SDS = "focal aspect_ratio c k1 k2 p1 p2 k3 k4".split()
KINDS = ("point projection", "relative motion")


class Scene(Adjuster):
    """A problem with one of everything, and what its errors are by definition."""

    def __init__(self, u, analytic=False, adjust=False, late=False, losses=("HuberLoss", "SoftLOneLoss"), given=None, seed=0):
        g = {"angle.%s" % k: 0.4 for k in ("pan", "tilt", "roll")}
        g.update(given or {})
        super().__init__(u, g, seed)
        self.analytic, self.adjust = analytic, adjust
        self.losses = losses
        self.new, self.constant, self.expected = {}, set(), []
        self.kinds = p08.enumerators(u, self.ev, "ProjectionType")
        self.types = p08.enumerators(u, self.ev, "Parameters")
        self.models = {}
        self.shots = {}
        self.instances = {}
        self.late = late
        self.std = {}

    # -- building
    def settings(self):
        self.do("SetInternalParametersPriorSD", *[fo.var("sd." + k) for k in SDS])
        self.do("SetRigParametersPriorSD", fo.var("sd.rigt"), fo.var("sd.rigr"))
        self.do("SetPointProjectionLossFunction", S(self.losses[0]), fo.var("threshold.p"))
        self.do("SetRelativeMotionLossFunction", S(self.losses[1]), fo.var("threshold.r"))
        self.do("SetUseAnalyticDerivatives", self.analytic)
        self.do("SetAdjustAbsolutePositionStd", self.adjust)
        self.do("SetMaxNumIterations", fo.var("iterations"))
        self.do("SetNumThreads", fo.var("threads"))
        self.do("SetLinearSolverType", "the solver")
        self.do("SetCovarianceAlgorithmType", "the algorithm")
        self.do("SetComputeCovariances", False)
        self.do("SetComputeReprojectionErrors", True)

    def camera(self, key, create, constant=False):
        def one(tag):
            c = p08.create(self.ev, self.u, create)
            t = [int(fo.lead(num(x)) if num(x) else 0) for x in val(c.fields["types_"]).cells]
            names = {v: k for k, v in self.enums().items()}
            order = [names[x] for x in t]
            for x, n in zip(val(c.fields["values_"]).cells, order):
                x.put(fo.var("%s.%s.%s" % (tag, key, n)))
            return c, order
        c, order = one("old")
        prior, _ = one("prior")
        self.models[key] = (p08.CREATE[create][0], order)
        self.do("AddCamera", key, c, prior, constant)
        self.constant |= {("camera", key)} if constant else set()
        self.constant.add(("bias", key))

    def enums(self):
        return {k: int(fo.lead(v)) if v else 0 for k, v in ((k, num(v)) for k, v in self.types.items())}

    def rig_camera(self, key, fixed, zero=False, prior=True):
        rt = [{}] * 6 if zero else V("old." + key, 6)
        self.do("AddRigCamera", key, self.pose(rt), self.pose(V("prior." + key, 6)), fixed)
        self.constant |= {("rig camera", key)} if fixed else set()

    def instance(self, key, shots, fixed=False):
        cams, rigs = cppstd.Assoc(), cppstd.Assoc()
        for s, (c, r) in shots.items():
            cams.d[s], rigs.d[s] = cell(c), cell(r)
            self.shots[s] = (c, r, key)
        self.instances[key] = list(shots)
        self.do("AddRigInstance", key, self.pose(V("old." + key, 6)), cams, rigs, fixed)
        self.constant |= {("rig instance", key)} if fixed else set()

    # -- the state at the end of the optimisation
    def owners(self):
        for kind, t in TABLES.items():
            for k in self.table(t):
                yield (kind, k), self.block(t, k).cells
        for r, o in self.table("reconstructions_").items():
            for k, c in val(val(o).fields["scales"]).d.items():
                yield ("scale", r, k), [c]

    def before(self):
        self.where = {}
        for o, cells in self.owners():
            self.where[id(cells[0])] = (o, len(cells))
            if o not in self.constant:
                for i, c in enumerate(cells):
                    c.put(fo.var("new.%s.%d" % (".".join(o), i)))
            self.new[o] = [num(c) for c in cells]
        k = 0
        for name, args in self.problem.calls:
            for x in args:
                for q in x.cells if isinstance(x, Arr) else [x]:
                    q = val_or(q)
                    if isinstance(q, Ptr) and isinstance(q.arr, Arr) and id(q.at(0)) not in self.where and name in ("AddResidualBlock", "AddParameterBlock"):
                        self.where[id(q.at(0))] = (("deviation", str(k)), 1)
                        if self.adjust:
                            q.at(0).put(fo.var("new.deviation.%d" % k))
                        self.new[("deviation", str(k))] = [num(q.at(0))]
                        k += 1

    # -- evaluating an error the solver was given
    def blocks(self):
        for name, args in self.problem.calls:
            if name == "AddResidualBlock":
                ptrs = []
                for x in args[2:]:
                    ptrs += [val_or(q) for q in x.cells] if isinstance(x, Arr) else [x]
                yield args[0], args[1], ptrs

    def evaluate(self, cost, ptrs):
        """(residuals, declared sizes, jacobians)"""
        sizes = [self.where[id(p.at(0))][1] for p in ptrs]
        if isinstance(cost, Ptr):
            cost = val_or(cost.at(0))
        if isinstance(cost, Foreign):
            f = val_or(cost.args[0])
            f = val_or(f.at(0)) if isinstance(f, Ptr) else f
            ops = [m for t in cpp.inner(f.cls, "FunctionTemplateDecl") if t.get("name") == "operator()" for m in cpp.inner(t, "CXXMethodDecl") if cpp.template_args(m) == ["double"]]
            if len(ops) != 1:
                raise cpp.Unread("operator() of " + str(f.cls.get("name")))
            if "DynamicAutoDiff" in cost.type:
                n = [a for c, a in cost.calls if c == "SetNumResiduals"]
                declared = [int(fo.lead(num(a[0]))) for c, a in cost.calls if c == "AddParameterBlock"]
                out = empty_arr(int(fo.lead(num(n[-1][0]))))
                self.ev.run(ops[0], [Ptr(pointers(ptrs)), Ptr(out)], f)
            else:
                t = [int(x) for x in cppstd.split(cost.type)[1:]]
                declared = t[1:]
                out = empty_arr(t[0])
                self.ev.run(ops[0], ptrs + [Ptr(out)], f)
            return cells(out), declared, sizes, None
        sized = [b["type"]["qualType"] for b in cost.cls.get("bases", ()) if "SizedCostFunction" in b["type"]["qualType"]]
        t = [int(x) for x in cppstd.split(sized[0])[:]]
        run = [m for m in cpp.inner(cost.cls, "CXXMethodDecl") if m.get("name") == "Evaluate"]
        out = empty_arr(t[0])
        self.ev.run(run[0], [Ptr(pointers(ptrs)), Ptr(out), "null"], cost)
        plain = cells(out)
        jac = []
        for skip in [None] + list(range(len(ptrs))):
            js = [empty_arr(t[0] * n) for n in t[1:]]
            out = empty_arr(t[0])
            self.ev.run(run[0], [Ptr(pointers(ptrs)), Ptr(out), Ptr(pointers(["null" if i == skip else Ptr(j) for i, j in enumerate(js)]))], cost)
            if not fo.same([plain], [cells(out)]):
                raise cpp.Outside("the residuals differ with and without derivatives")
            jac.append([None if i == skip else [None if val_or(c) is None else num(c) for c in j.cells] for i, j in enumerate(js)])
        return plain, t[1:], sizes, jac


    # -- what each error is, by definition
    def expect(self, what, loss, *ways):
        """ways: functions giving the residuals once the optimisation is over (any of them may hold)"""
        self.expected.append((what, loss, ways))

    def at(self, kind, key):
        return self.new[(kind, key)]

    def poses(self, shot):
        c, r, i = self.shots[shot]
        return self.at("rig instance", i), self.at("rig camera", r)

    def in_camera(self, shot, x):
        i, r = self.poses(shot)
        d = Dispatched(self.rot)
        return d.local(d.local(x, i), r)

    def turn(self, a, p):
        m = self.rot.mat(a)
        return [fo.add(*[fo.mul(m[i][j], p[j]) for j in range(3)]) for i in range(3)]

    def position(self, shot):
        i, r = self.poses(shot)
        return plus(i[3:], self.turn(i[:3], r[3:]))

    def axes(self, shot):
        """factors of the rotation from the camera of the shot to the world"""
        i, r = self.poses(shot)
        return [i[:3], r[:3]]

    def to_world(self, shot, p):
        i, r = self.poses(shot)
        # the rotation of the shot is known by its logarithm
        return self.turn(self.rot.log([i[:3], r[:3]]), p)

    def projected(self, shot, x, obs, scale):
        c = self.shots[shot][0]
        model = self.models[c][0]
        p = self.in_camera(shot, x)
        if model == "SPHERICAL":
            lon, lat = fo.scale(obs[0], 2 * PI), fo.scale(obs[1], -2 * PI)
            b = [fo.mul(fo.cos(lat), fo.sin(lon)), fo.neg(fo.sin(lat)), fo.mul(fo.cos(lat), fo.cos(lon))]
            out = normalized(p)
        else:
            out = Dispatched.project(num(self.kinds[model]), p, self.at("camera", c), 2)
            b = obs
        return [fo.mul(scale, fo.sub(o, x)) for o, x in zip(out, b)], out

    def deviation(self, inst, group):
        """the multiplier of the deviations of a group: the block given with the priors of its instances"""
        if not self.std:
            inst_of = {}
            for _, _, ptrs in self.blocks():
                o = [self.where[id(p.at(0))][0] for p in ptrs]
                d = [x for x in o if x[0] == "deviation"]
                i = [x for x in o if x[0] == "rig instance"]
                if d and i:
                    inst_of[i[0][1]] = d[0]
            self.std = inst_of
        if inst not in self.std:
            raise cpp.Outside("the prior on the position of a rig instance has no deviation of its group")
        g = {"g1": ("pair", "i1"), "g2": ("i0",)}
        for k in g[group]:
            if self.std.get(k) != self.std[inst]:
                raise cpp.Outside("instances of one group do not share their deviation")
        for h in g:
            if h != group and any(self.std.get(k) == self.std[inst] for k in g[h]):
                raise cpp.Outside("instances of different groups share their deviation")
        return self.new[self.std[inst]][0]

    def barrier(self):
        k = [k for k in self.models if self.models[k][0] == "DUAL"][0]
        x = self.at("camera", k)[self.models[k][1].index("Transition")]
        e = fo.const(1e-10)
        return [fo.add(fo.fun("log", fo.add(x, e)), fo.fun("log", fo.add(fo.sub(fo.const(1), x), e)), fo.scale(fo.fun("log", fo.const(0.5)), 2))]

    def wrapped(self, d):
        v = self.sample.value(d)
        return fo.sub(d, fo.const(2 * PI)) if v > PI else fo.add(d, fo.const(2 * PI)) if v < -PI else d

    def linear(self, shots, k):
        t = [self.position(x) for x in shots]
        r = [self.axes(x) for x in shots]
        far, near = minus(t[2], t[0]), minus(t[1], t[0])
        alpha = fo.var(k + ".alpha")
        if self.sample.value(norm2(far)) > 1e-20:
            v = [fo.sub(alpha, fo.div(norm(near), norm(far)))] * 3
        else:
            v = minus(times(alpha, far), near)
        a = self.rot.log(r[2] + negated(r[0]))
        w = self.rot.log([times(alpha, a)] + r[0] + negated(r[1]))
        return times(one_over(k + ".psd"), v) + times(one_over(k + ".osd"), w)


PI = 3.141592653589793


def plus(a, b):
    return [fo.add(x, y) for x, y in zip(a, b)]


def minus(a, b):
    return [fo.sub(x, y) for x, y in zip(a, b)]


def times(k, a):
    return [fo.mul(k, x) for x in a]


def norm2(a):
    return fo.add(*[fo.mul(x, x) for x in a])


def norm(a):
    return fo.sqrt(norm2(a))


def one_over(name):
    return fo.inv(fo.var(name))


def negated(factors):
    return [[fo.neg(x) for x in f] for f in reversed(factors)]


def empty_arr(n):
    return Arr([cell(None) for _ in range(n)], (n, 1))


def cells(out):
    if any(val_or(c) is None for c in out.cells):
        raise cpp.Outside("residuals are left unset")
    return [num(c) for c in out.cells]


def pointers(ptrs):
    return Arr([cell(p) for p in ptrs], (len(ptrs), 1))


def loss(kind, t):
    return (kind, fo.key(t if isinstance(t, dict) else fo.const(t)))


def loss_of(f):
    f = val_or(f)
    if isinstance(f, Ptr):
        f = val_or(f.at(0))
    if f == "null" or isinstance(f, Foreign) and f.type == "ceres::TrivialLoss":
        return None
    if not isinstance(f, Foreign):
        raise cpp.Unread("loss function")
    return (f.type.split("::")[-1], fo.key(num(f.args[0])))


def signed(p):
    return fo.key(p if not p or fo.lead(p) > 0 else fo.neg(p))


def canonical(res):
    return tuple(sorted(signed(x) for x in res if x))


CAMERAS = {"c%d" % i: n for i, n in enumerate(p08.CREATE)}
CAUCHY, TUKEY = loss("CauchyLoss", 1), loss("TukeyLoss", 1)


def build(s):
    """A scene with every kind of error."""
    do = s.do
    projection, motion = [loss(k, fo.var(t)) if k != "TrivialLoss" else None for k, t in zip(s.losses, ("threshold.p", "threshold.r"))]
    if not s.late:
        s.settings()
    for k, n in CAMERAS.items():
        s.camera(k, n, k == "c3")
    s.rig_camera("r0", True, True)
    s.rig_camera("r1", False)
    s.rig_camera("r2", True)
    s.rig_camera("r3", False, True)
    s.rig_camera("r4", False, True)
    for i, c in enumerate(CAMERAS):
        s.instance("i%d" % i, {"s%d" % i: (c, "r%d" % (i % 4))}, i == 5)
    s.instance("pair", {"a": ("c0", "r1"), "b": ("c2", "r2")})
    s.instance("pair2", {"a2": ("c0", "r1"), "b2": ("c2", "r2")})
    s.instance("plain", {"o": ("c0", "r0")})
    s.instance("plain2", {"o2": ("c0", "r0")})
    s.instance("same", {"e": ("c0", "r4")})
    for k, fixed in (("p", False), ("q", True), ("h", False), ("l", False)):
        do("AddPoint", k, arr(V("old." + k, 3)), fixed)
        s.constant |= {("point", k)} if fixed else set()
    for k, alt in (("h", False), ("l", True)):
        do("AddPointPrior", k, arr(V("prior." + k, 3)), arr(V("psd." + k, 3)), alt)
        s.expect("prior on a point" + ("" if alt else " without altitude"), None,
                 lambda k=k, alt=alt: [fo.div(fo.sub(s.at("point", k)[i], V("prior." + k, 3)[i]), V("psd." + k, 3)[i]) for i in range(3 if alt else 2)])
    for c in ("c0", "c2"):
        b = s.ev.make("geometry::Similarity", [arr(V("old.bias%s.r" % c, 3)), arr(V("old.bias%s.t" % c, 3)), fo.var("old.bias%s.s" % c)])
        do("SetCameraBias", c, b)
        s.constant.discard(("bias", c))
    # observations: every camera, every kind of rig camera, with and without depth
    obs = [(k, "p" if i % 2 else "q") for i, k in enumerate(s.shots)] + [("a", "h"), ("s0", "p"), ("s7", "p")]
    s.observations = {}
    for n, (shot, point) in enumerate(obs):
        o, sd = V("obs%d" % n, 2), "obs%d.sd" % n
        depth = Opt()
        if n % 3 == 0:
            radial = n % 2 == 0
            depth = Opt(Obj(None, {"value": cell(fo.var("depth%d" % n)), "is_radial": cell(radial), "std_deviation": cell(fo.var("depth%d.sd" % n))}))
            s.expect("depth prior" + (", radial" if radial else ""), projection, lambda shot=shot, point=point, n=n, radial=radial: [
                fo.mul(one_over("depth%d.sd" % n), fo.sub((norm if radial else lambda v: v[2])(s.in_camera(shot, s.at("point", point))), fo.var("depth%d" % n)))])
        do("AddPointProjectionObservation", shot, point, arr(o), fo.var(sd), depth)
        s.observations[(shot, point)] = (o, sd)
        s.expect("reprojection (%s)" % s.models[s.shots[shot][0]][0], projection, lambda shot=shot, point=point, o=o, sd=sd: s.projected(shot, s.at("point", point), o, one_over(sd))[0])
    # priors on positions
    for inst, group in (("pair", "g1"), ("i0", "g2"), ("i1", "g1")):
        do("AddRigInstancePositionPrior", inst, arr(V("gps." + inst, 3)), arr(V("gps.sd." + inst, 3)), group)

        def gps(cam, inst=inst, group=group):
            b = s.at("bias", cam)
            g = plus(times(b[6], s.turn(b[:3], V("gps." + inst, 3))), b[3:6])
            r = [fo.div(fo.sub(s.at("rig instance", inst)[3 + i], g[i]), V("gps.sd." + inst, 3)[i]) for i in range(3)]
            return [fo.div(x, s.deviation(inst, group)) for x in r] if s.adjust else r
        s.expect("prior on a position", None, *[lambda c=c, f=gps: f(c) for c in sorted({s.shots[x][0] for x in s.instances[inst]})])
    if s.adjust:
        for inst, group in (("pair", "g1"), ("i0", "g2")):
            s.expect("deviation of a group", None, lambda inst=inst, group=group: [
                fo.fun("log", fo.inv(fo.sqrt(fo.scale(fo.add(fo.mul(s.deviation(inst, group), s.deviation(inst, group)), fo.const(1e-20)), 2 * PI))))])
    for k in ("r0", "r1", "r2", "r3", "r4"):
        s.expect("prior on a rig camera", None, lambda k=k: [fo.div(fo.sub(s.at("rig camera", k)[i], V("prior." + k, 6)[i]), fo.var("sd.rigr" if i < 3 else "sd.rigt")) for i in range(6)])
    for k in CAMERAS:
        def calibration(k=k):
            out = []
            for x, n in zip(s.at("camera", k), s.models[k][1]):
                y = fo.var("prior.%s.%s" % (k, n))
                if n in ("Focal", "AspectRatio"):
                    out.append(fo.div(fo.fun("log", fo.div(x, y)), fo.var("sd." + SD[n])))
                elif n == "Transition":
                    out.append(fo.sub(x, y))
                elif n in SD:
                    out.append(fo.div(fo.sub(x, y), fo.var("sd." + SD[n])))
            return out
        s.expect("prior on a camera (%s)" % s.models[k][0], None, calibration)
    s.expect("transition of a dual camera", None, lambda: s.barrier())
    # relative errors
    for r, (const, shared) in {"R": (False, True), "S": (False, False), "T": (True, True)}.items():
        do("AddReconstruction", r, const)
        do("SetScaleSharing", r, shared)
        for inst in {"R": ("i0", "i1"), "S": ("i2", "i3", "pair"), "T": ("i6",)}[r]:
            do("AddReconstructionInstance", r, fo.var("old.scale." + inst), inst)
            s.constant |= {("scale", r, inst)} if const else set()
    for i, j, si, sj, seen in (("i0", "i1", ("R", "i0"), ("R", "i0"), True), ("i2", "i3", ("S", "i2"), ("S", "i3"), True), ("i1", "pair", ("R", "i0"), ("S", "pair"), False), ("i6", "i2", ("T", "i6"), ("S", "i2"), True)):
        n = "rm." + i
        rm = s.ev.make("bundle::RelativeMotion", [i, j, arr(V(n + ".r", 3)), arr(V(n + ".t", 3)), fo.var(n + ".s"), fo.var(n + ".mult"), seen])
        m = [[fo.var("%s.m%d%d" % (n, a, b)) if a >= b else {} for b in range(7)] for a in range(7)]
        s.ev.run(s.fn("SetScaleMatrix", "RelativeMotion"), [cpp.matrix(m)], rm)
        do("AddRelativeMotion", rm)

        def relative(i=i, j=j, si=si, sj=sj, seen=seen, n=n, m=m):
            a, b = s.at("rig instance", i), s.at("rig instance", j)
            ki, kj = s.at("scale", *si)[0] if False else s.new[("scale",) + si][0], s.new[("scale",) + sj][0]
            v = s.rot.log([V(n + ".r", 3)] + negated([a[:3]]) + [b[:3]])
            v = v + minus(V(n + ".t", 3), times(kj, s.turn([fo.neg(x) for x in b[:3]], minus(a[3:], b[3:]))))
            v = v + [fo.sub(fo.var(n + ".s"), fo.div(kj, ki)) if seen else {}]
            return [fo.add(*[fo.mul(x, y) for x, y in zip(row, v)]) for row in m]
        s.expect("relative motion", loss(motion[0], fo.mul(fo.var("threshold.r"), fo.var(n + ".mult"))) if motion else None, relative)
    pairs = [("s0", "o"), ("s1", "s2"), ("s1", "s5"), ("a", "a2"), ("o", "o2"), ("s3", "b"), ("s2", "s0"), ("s7", "s3"), ("s3", "e")]
    for n, (i, j) in enumerate(pairs):
        k = "rr%d" % n
        rr = s.ev.make("bundle::RelativeRotation", [i, j, arr(V(k, 3))])
        m = [[fo.var("%s.m%d%d" % (k, a, b)) for b in range(3)] for a in range(3)]
        s.ev.run(s.fn("SetScaleMatrix", "RelativeRotation"), [cpp.matrix(m)], rr)
        do("AddRelativeRotation", rr)

        def rotation(i=i, j=j, k=k, m=m):
            v = s.rot.log([V(k, 3)] + negated(s.axes(i)) + s.axes(j))
            return [fo.add(*[fo.mul(x, y) for x, y in zip(row, v)]) for row in m]
        s.expect("relative rotation", motion, rotation)
    for n, (i, j) in enumerate(pairs):
        k = "cp%d" % n
        do("AddCommonPosition", i, j, fo.var("margin"), fo.var(k + ".sd"))

        def common(i=i, j=j, k=k):
            e = minus(s.position(i), s.position(j))
            for x in (0, 1):
                a = s.absolute(e[x])
                d = fo.sub(a, fo.var("margin"))
                e[x] = d if s.sample.value(d) > 0 else {}
            return [fo.div(x, fo.var(k + ".sd")) for x in e]
        s.expect("common position", TUKEY, common)
    # absolute errors
    do("AddHeatmap", "map", cpp.vec("heat", 15), fo.const(3), fo.var("resolution"))
    for shot in ("s0", "s1", "s2", "s3", "o"):
        do("AddAbsolutePositionHeatmap", shot, "map", fo.var("xoff"), fo.var("yoff"), fo.var("heat.sd." + shot))
        s.expect("position in a heatmap", None, lambda shot=shot: [fo.div(fo.fun(
            "heat", fo.sub(fo.const(2.5), fo.div(fo.sub(s.position(shot)[1], fo.var("yoff")), fo.var("resolution"))),
            fo.add(fo.const(1.5), fo.div(fo.sub(s.position(shot)[0], fo.var("xoff")), fo.var("resolution")))), fo.var("heat.sd." + shot))])
        do("AddAbsoluteUpVector", shot, arr(V("up." + shot, 3)), fo.var("up.sd." + shot))
        s.expect("up vector", CAUCHY, lambda shot=shot: times(one_over("up.sd." + shot), minus(
            s.to_world(shot, [fo.div(x, norm(V("up." + shot, 3))) for x in V("up." + shot, 3)]), [{}, {}, fo.const(1)])))
        for kind, f in (("Pan", pan), ("Tilt", tilt), ("Roll", roll)):
            k = kind.lower()
            do("AddAbsolute" + kind, shot, fo.var("angle." + k), fo.var("%s.sd.%s" % (k, shot)))
            s.expect(k + " angle", CAUCHY, lambda shot=shot, k=k, f=f: [fo.div(s.wrapped(fo.sub(f(s, shot), fo.var("angle." + k))), fo.var("%s.sd.%s" % (k, shot)))])
    for k in ("UpVector", "Pan", "Tilt", "Roll"):
        do("AddAbsolute" + k, "s4", arr(V("up.none", 3)) if k == "UpVector" else fo.var("angle.none"), fo.const(-1))
    triples = [("s0", "o", "o2"), ("s1", "s2", "s3"), ("s1", "s5", "a"), ("s0", "s1", "s5"), ("s1", "s0", "s5"), ("s1", "s5", "o"), ("s2", "s6", "s3"), ("s1", "s2", "s6"), ("s3", "e", "s7"), ("e", "s3", "s7"), ("s7", "s3", "e")]
    for n, t in enumerate(triples):
        k = "lm%d" % n
        do("AddLinearMotion", *t, fo.var(k + ".alpha"), fo.var(k + ".psd"), fo.var(k + ".osd"))
        s.expect("linear motion", CAUCHY, lambda t=t, k=k: s.linear(t, k))
    do("SetGaugeFixShots", "s0", "s1")
    s.constant.add(("rig instance", "i0"))
    gap = minus(V("old.i0", 6)[3:], V("old.i1", 6)[3:])
    s.expect("gauge", None, lambda: [fo.fun("log", fo.div(fo.sqrt(fo.add(norm2(minus(s.at("rig instance", "i0")[3:], s.at("rig instance", "i1")[3:])), fo.const(1e-20))), norm(gap)))])
    if s.late:
        s.settings()
    do("Run")


def pan(s, shot):
    z = s.to_world(shot, [{}, {}, fo.const(1)])
    return fo.atan2(z[0], z[1])


def tilt(s, shot):
    z = s.to_world(shot, [{}, {}, fo.const(1)])
    return fo.neg(fo.atan2(z[2], norm(z[:2])))


def roll(s, shot):
    x, z = s.to_world(shot, [fo.const(1), {}, {}]), s.to_world(shot, [{}, {}, fo.const(1)])
    n = norm(z[:2])
    a = [fo.div(z[1], n), fo.neg(fo.div(z[0], n)), {}]
    b = [fo.sub(fo.mul(x[i], a[j]), fo.mul(x[j], a[i])) for i, j in ((1, 2), (2, 0), (0, 1))]
    return fo.fun("asin", fo.add(*[fo.mul(u, v) for u, v in zip(z, b)]))


def judge(s, rep, tag):
    """Compare what the solver was given with the definitions."""
    problem = s.problem
    if problem is None:
        rep.bad("errors", "solve", "bundle_adjuster.cc", "Run does not solve a problem")
        return
    got = {}
    for cost, ls, ptrs in s.blocks():
        owners = [s.where[id(p.at(0))][0] for p in ptrs]
        name = kind_of(cost)
        try:
            res, declared, sizes, jac = s.evaluate(cost, ptrs)
        except cpp.Outside as e:
            rep.bad("errors", name, "bundle", "%s: %s" % (name, e))
            continue
        rep.expect(declared == sizes, "sizes", name, "bundle", "%s declares parameters of sizes %s for blocks of sizes %s" % (name, declared, sizes))
        rep.expect(len({id(p.at(0)) for p in ptrs}) == len(ptrs), "sizes", name + " blocks", "bundle", "%s is given the same block twice" % name)
        drop = set()
        if "PriorError" in name:
            for o in owners:
                if o[0] == "camera":
                    drop |= {"new.camera.%s.%d" % (o[1], i) for i, n in enumerate(s.models[o[1]][1]) if n not in SD and n != "Transition"}
                    drop |= {"prior.%s.%s" % (o[1], n) for n in s.models[o[1]][1] if n not in SD and n != "Transition"}
        kept = [y for y in res if not set(fo.variables(y)) & drop]
        got.setdefault((loss_of(ls), canonical(kept)), []).append((name, owners))
        if jac is not None:
            derivatives(s, rep, name, owners, ptrs, res, jac)
    count = {}
    for what, ls, ways in s.expected:
        try:
            ks = [(ls, canonical(w())) for w in ways]
        except cpp.Outside as e:
            rep.bad("errors", what, "bundle_adjuster.cc", "%s: %s" % (what, e))
            continue
        hit = [k for k in ks if got.get(k)]
        if hit:
            got[hit[0]].pop()
        elif any(k[1] == ks[0][1] and v for k, v in got.items()):
            other = [k for k, v in got.items() if k[1] == ks[0][1] and v][0]
            got[other].pop()
            rep.bad("errors", what + " loss", "bundle_adjuster.cc", "the error of %s goes through the wrong loss function (%s)" % (what, other[0] and other[0][0]))
            continue
        rep.expect(bool(hit), "errors", what, "bundle", "the error of %s is missing or is not what it is defined to be%s" % (what, tag))
    for k, v in got.items():
        for name, owners in v:
            rep.bad("errors", "extra " + name, "bundle", "the problem has an error (%s on %s) that is not one of those added%s" % (name, ", ".join(sorted({o[0] for o in owners})), tag))
    frozen(s, rep)


def kind_of(cost):
    c = val_or(cost)
    if isinstance(c, Ptr):
        c = val_or(c.at(0))
    if isinstance(c, Foreign):
        f = val_or(c.args[0])
        f = val_or(f.at(0)) if isinstance(f, Ptr) else f
        return f.cls.get("name", "?")
    return c.cls.get("name", "?")


def derivatives(s, rep, name, owners, ptrs, res, jac):
    """The analytic derivatives are those of the residuals, whichever of them are asked for."""
    cam, inst, rig, point = owners
    shot = [x for x, (c, r, i) in s.shots.items() if (c, r, i) == (cam[1], rig[1], inst[1])]
    if not shot or (shot[0], point[1]) not in s.observations:
        rep.bad("derivatives", name, "projection_errors.h", "%s is given blocks of different shots" % name)
        return
    o, sd = s.observations[(shot[0], point[1])]
    want, out = s.projected(shot[0], s.at("point", point[1]), o, one_over(sd))
    if canonical(want) != canonical(res):
        return
    sign = [1 if fo.equal(a, b) else -1 for a, b in zip(want, res)]
    used = any(s.at("rig camera", rig[1]))
    blocks = [[num(c) for c in p.arr.cells[p.off:]] for p in ptrs]
    for k, js in enumerate(jac):
        for b, (block, j) in enumerate(zip(blocks, js)):
            if j is None:
                continue
            n = len(block)
            for i in range(len(res)):
                for c in range(n):
                    zero = owners[b][0] == "camera" and s.models[cam[1]][0] == "SPHERICAL" or owners[b][0] == "rig camera" and not used
                    exact = {} if zero else fo.scale(fo.mul(one_over(sd), fo.fun("d", out[i], block[c])), sign[i])
                    rep.expect(j[i * n + c] is not None and fo.equal(exact, j[i * n + c]), "derivatives", "%s %s" % (name, owners[b][0]), "projection_errors.h",
                               "%s: the derivative of residual %d by parameter %d of the %s is not that of the residual" % (name, i, c, owners[b][0]))


def frozen(s, rep):
    const, low = set(), {}
    for name, args in s.problem.calls:
        if name in ("SetParameterBlockConstant", "SetParameterLowerBound", "SetParameterUpperBound", "AddParameterBlock", "SetParameterBlockVariable"):
            o = s.where.get(id(val_or(args[0]).at(0)))
            if o is None:
                rep.bad("constant", name, "bundle_adjuster.cc", "%s on a block of no error" % name)
                continue
            if name == "SetParameterBlockConstant":
                const.add(o[0])
            if name == "SetParameterBlockVariable":
                const.discard(o[0])
            if name == "SetParameterLowerBound":
                low[o[0]] = s.sample.value(num(args[2]))
            if name == "AddParameterBlock":
                rep.expect(cpp.concrete(num(args[1])) == o[1], "sizes", "block of a " + o[0][0], "bundle_adjuster.cc", "the block of a %s is added with another size than it has" % o[0][0])
    for o in s.new:
        k = o[0]
        if k == "deviation":
            rep.expect((o in const) == (not s.adjust), "constant", k, "bundle_adjuster.cc", "deviations of groups are optimised exactly when asked for")
            rep.expect(not s.adjust or low.get(o, -1) > 0, "constant", k + " bound", "bundle_adjuster.cc", "an optimised deviation is not kept positive")
            continue
        fixed = o in s.constant
        rep.expect((o in const) == fixed, "constant", "%s %s" % ("fixed" if fixed else "free", k), "bundle_adjuster.cc", "a %s %s is %s during the optimisation" % ("fixed" if fixed else "free", k, "optimised" if fixed else "held constant"))
        if k == "scale" and not fixed:
            rep.expect(low.get(o, -1) >= 0, "constant", "scale bound", "bundle_adjuster.cc", "the scale of a reconstruction may become negative")


def options(s, rep):
    f = {k: val_or(c) for k, c in s.options.fields.items()}
    rep.expect(f.get("linear_solver_type") == "type of the solver", "options", "linear solver", "bundle_adjuster.cc", "the linear solver is not the one set")
    for k, n in (("num_threads", "threads"), ("max_num_iterations", "iterations")):
        rep.expect(isinstance(f.get(k), dict) and fo.equal(f[k], fo.var(n)), "options", k, "bundle_adjuster.cc", "%s is not the number set" % k)


def results(s, rep):
    """What is read back is where the optimisation ended."""
    def same(what, got, want):
        rep.expect(len(got) == len(want) and all(fo.equal(num(a), b) for a, b in zip(got, want)), "results", what, "bundle_adjuster.cc", "the %s read back is not the one the optimisation ended with" % what)

    def method(o, name):
        for b in s.ev.bases(o.cls):
            c = [m for m in cpp.inner(b, "CXXMethodDecl") if m.get("name") == name]
            c = [x for x in (s.u.body_of(m["id"]) for m in c) if x is not None and not cpp.inner(x, "ParmVarDecl")]
            if c:
                return val(s.ev.run(c[0], [], o))
        raise cpp.Unread("method " + name)

    def pose(what, p, want):
        same(what + " rotation", flat_cells(method(p, "RotationCameraToWorldMin")), want[:3])
        same(what + " position", flat_cells(method(p, "GetOrigin")), want[3:])
    for k in s.models:
        same("camera", val(val(s.do("GetCamera", k)).fields["values_"]).cells, s.at("camera", k))
        b = val(s.do("GetBias", k))
        same("bias", flat_cells(method(b, "Rotation")) + flat_cells(method(b, "Translation")) + [method(b, "Scale")], s.at("bias", k))
    for k in s.table("points_"):
        same("point", flat_cells(val(s.do("GetPoint", k)).fields["value_data_"]), s.at("point", k))
    for k in s.table("rig_cameras_"):
        pose("rig camera", method(val(s.do("GetRigCamera", k)), "GetValue"), s.at("rig camera", k))
    for k in s.table("rig_instances_"):
        pose("rig instance", method(val(s.do("GetRigInstance", k)), "GetValue"), s.at("rig instance", k))
    for o, v in s.new.items():
        if o[0] == "scale":
            r = val(s.do("GetReconstruction", o[1]))
            shared = [x for x in s.new if x[:2] == o[:2]]
            first = sorted(shared)[0] if o[1] != "S" else o
            same("scale", [s.ev.run(s.fn("GetScale", "Reconstruction"), [o[2]], r)], s.new[first])
    # errors of the observations, in units of the image
    for (shot, point), (o, _) in s.observations.items():
        p = val(s.do("GetPoint", point))
        e = val(p.fields["reprojection_errors"]).d.get(shot)
        want = s.projected(shot, s.at("point", point), o, fo.const(1))[0]
        got = [] if e is None else flat_cells(val(e))
        rep.expect(canonical([num(x) for x in got]) == canonical(want), "results", "reprojection error (%s)" % s.models[s.shots[shot][0]][0], "bundle_adjuster.cc",
                   "the error of an observation is not what remains between its projection and where it was seen")
    counts = sum(len(val(val(s.table("points_")[k]).fields["reprojection_errors"]).d) for k in s.table("points_"))
    rep.expect(counts == len(s.observations), "results", "number of errors", "bundle_adjuster.cc", "there are not as many errors as observations")


def flat_cells(a):
    return list(val(a).cells)


class Small(Scene):
    """Two shots of one rig instance and one of another; covariances asked for."""

    def __init__(self, u, valid=True, finite=True):
        super().__init__(u)
        self.valid, self.finite_ = valid, finite

    def compute(self, e, a, n):
        if not isinstance(val_or(a[0]), Foreign):
            return NotImplemented
        self.covered = []
        for q in val(a[1]).cells:
            q = val_or(q).fields
            self.covered.append(tuple(self.where[id(val_or(q[k]).at(0))][0] for k in ("first", "second")))
        return self.valid

    def covariance(self, e, a, n):
        o = [self.where[id(val_or(x).at(0))][0] for x in a[1:3]]
        out = val_or(a[3])
        out = Ptr(out) if isinstance(out, Arr) else out
        for i in range(36):
            out.at(i).put(fo.var("cov.%s.%s.%d" % (o[0][1], o[1][1], min(i, i % 6 * 6 + i // 6))))
        return True

    def finite(self, e, a, n):
        return self.finite_

    def make(self):
        self.settings()
        self.do("SetComputeCovariances", True)
        for k, c in (("c0", "CreatePerspectiveCamera"), ("c1", "CreateBrownCamera")):
            self.camera(k, c)
        self.rig_camera("r1", False)
        self.rig_camera("r2", True)
        self.instance("pair", {"a": ("c0", "r1"), "b": ("c1", "r2")})
        self.instance("one", {"o": ("c0", "r1")})
        self.do("Run")


def covariances(s, rep, want):
    if want == "estimated":
        asked = sorted(s.covered)
        rep.expect(len(set(asked)) == len(asked), "covariances", "asked once", "bundle_adjuster.cc", "the covariance of a block is asked for more than once, which the solver does not allow")
        rep.expect(set(asked) == {(("rig instance", k),) * 2 for k in ("one", "pair")}, "covariances", "asked for", "bundle_adjuster.cc", "the covariances asked for are not those of the rig instances")
    for k in ("one", "pair"):
        i = val(s.table("rig_instances_")[k])
        has = s.ev.run(method_of(s, i, "HasCovariance"), [], i)
        if not rep.expect(has is True, "covariances", "set", "bundle_adjuster.cc", "a rig instance has no covariance"):
            continue
        g = val(s.ev.run(method_of(s, i, "GetCovariance"), [], i)).grid()
        if want == "estimated":
            w = [[fo.var("cov.%s.%s.%d" % (k, k, min(x * 6 + y, y * 6 + x))) for x in range(6)] for y in range(6)]
        else:
            w = [[fo.const((1e-5 if x < 3 else 1e-2) if x == y else 0) for x in range(6)] for y in range(6)]
        rep.expect(fo.same(g, w), "covariances", want, "bundle_adjuster.cc", "the covariance of a rig instance is not the %s one" % want)
    ok = s.do("GetCovarianceEstimationValid")
    rep.expect(bool(val_or(ok)) == (want == "estimated"), "covariances", "validity", "bundle_adjuster.cc", "covariances are said to be %s when they are %s" % ("valid" if want != "estimated" else "invalid", want))


def method_of(s, o, name):
    for b in s.ev.bases(o.cls):
        for m in cpp.inner(b, "CXXMethodDecl"):
            if m.get("name") == name and not cpp.inner(m, "ParmVarDecl"):
                f = s.u.body_of(m["id"])
                if f is not None:
                    return f
    raise cpp.Unread("method " + name)


def losses(u, rep):
    f = u.find("CreateLossFunction")
    if len(f) != 1:
        raise cpp.Unread("CreateLossFunction")
    for k in ("TrivialLoss", "HuberLoss", "SoftLOneLoss", "CauchyLoss", "ArctanLoss"):
        e = cppstd.Std(u, Sample())
        try:
            got = loss_of(e.run(f[0], [S(k), fo.var("t")]))
        except cpp.Stop:
            got = "none"
        rep.expect(got == (None if k == "TrivialLoss" else loss(k, fo.var("t"))), "losses", k, "bundle_adjuster.cc", "the loss function named %s is another one" % k)
    try:
        cppstd.Std(u, Sample()).run(f[0], [S("no such loss"), fo.var("t")])
        rep.bad("losses", "unknown", "bundle_adjuster.cc", "an unknown loss function is accepted")
    except cpp.Stop:
        rep.count("losses")


OTHER = {"angle.%s" % k: 9 for k in ("pan", "tilt", "roll")}
BACK = dict({"angle.%s" % k: -9 for k in ("pan", "tilt", "roll")}, margin=50)
STILL = {"margin": 0.01}
for _i in [*("i%d" % i for i in range(10)), "pair", "pair2", "plain", "plain2", "same"]:
    STILL.update({"new.rig instance.%s.%d" % (_i, _j): 0.5 for _j in (3, 4, 5)})
for _r in ("r1", "r2", "r3", "r4"):
    STILL.update({k % (_r, _j): 0 for _j in (3, 4, 5) for k in ("old.%s.%d", "new.rig camera.%s.%d")})
SCENES = [
    dict(given={"margin": 0.01}), dict(analytic=True, adjust=True, late=True, losses=("ArctanLoss", "CauchyLoss")),
    dict(given=OTHER, analytic=True), dict(given=BACK, adjust=True), dict(given=STILL, late=True, losses=("TrivialLoss", "TrivialLoss")),
]


class Notes:
    """The report of one scene, made in another process."""

    def __init__(self):
        self.calls = []

    def expect(self, ok, rule, construct, where, msg):
        self.calls.append(("expect", bool(ok), rule, construct, where, msg))
        return ok

    def bad(self, *a):
        self.calls.append(("bad",) + a)

    def count(self, rule):
        self.calls.append(("count", rule))


UNIT = None


def scene(job):
    sys.setrecursionlimit(8000)
    n = Notes()
    kind, k = job
    try:
        if kind == "losses":
            losses(UNIT, n)
        elif kind == "covariances":
            s = Small(UNIT, *[(True, True), (False, True), (True, False)][k])
            s.make()
            covariances(s, n, "estimated" if k == 0 else "default")
        else:
            s = Scene(UNIT, **SCENES[k])
            build(s)
            judge(s, n, "")
            options(s, n)
            results(s, n)
    except cpp.Stop:
        n.bad("errors", "refused", "bundle_adjuster.cc", "a problem that can be solved is refused")
    except cpp.Outside as e:
        n.bad("errors", "bounds", "bundle_adjuster.cc", str(e))
    except Exception as e:
        if os.environ.get("VP_TRACE"):
            traceback.print_exc()
        return n.calls, "%s %s: %s" % (kind, k, e)
    return n.calls, None


def check(prog, rep):
    rep.rule("errors", "every error the solver is given is, by its definition, that of something added, and nothing added is left out")
    rep.rule("sizes", "errors declare their blocks with the sizes they have")
    rep.rule("constant", "exactly what was added as fixed is held constant")
    rep.rule("derivatives", "analytic derivatives are those of the residuals")
    rep.rule("options", "the solver runs with the options set")
    rep.rule("losses", "loss functions are known by their names")
    rep.rule("results", "what is read back is where the optimisation ended")
    rep.rule("covariances", "each rig instance gets its own covariance, or the default one")
    rep.part(problems, rep)


def problems(rep):
    global UNIT
    text = '#include "%s/bundle/src/bundle_adjuster.cc"\n#include "%s/geometry/src/camera.cc"\n' % (SRC, SRC)
    UNIT = cpp.Unit(text, ("bundle::", "geometry::", "foundation::", "anonymous namespace"))
    jobs = [("scene", k) for k in range(len(SCENES))] + [("losses", 0)] + [("covariances", k) for k in range(3)]
    wrong = []
    with multiprocessing.get_context("fork").Pool(8) as pool:
        for calls, error in pool.imap(scene, jobs):
            for c in calls:
                getattr(rep, c[0])(*c[1:])
            if error:
                wrong.append(error)
    if wrong:
        raise AnalysisBroken("; ".join(wrong))
    rep.minimum("errors", 400)
    rep.minimum("derivatives", 2000)
