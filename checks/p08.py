"""P08 camera models: projection and bearing of every model equal its definition, derivatives equal the derivatives of the projection, un-distortion solves the distortion."""

import glob
import re

from sa import cpp, formula as fo
from sa.program import AnalysisBroken

TECHNIQUE = "clang's syntax tree of every camera functor reduced to algebraic normal forms: projections compared with the definition, jacobians with the formal derivative, Newton residuals with the distortion, composed jacobians with the chain rule of the recorded stages"
EXPLANATION = (
    "Every path through the functors is evaluated over unknown points and parameters to a normal form. The forward formulas are compared with the definition of the model, by parameter name; "
    "each jacobian entry with the formal derivative of the output; the residual an inverse iterates on with the distortion; the composition of jacobians with the chain rule over opaque stages."
)
GEO = cpp.SRC + "/geometry/"
FILTER = ("geometry::", "foundation::")
SIG = "(const double*, const double*, double*%s);\n"
MODELS = {  # projection, distortion, affine
    "PERSPECTIVE": ("perspective", "k1 k2", False),
    "BROWN": ("perspective", "k1 k2 k3 p1 p2", True),
    "FISHEYE": ("fisheye", "k1 k2", False),
    "FISHEYE_OPENCV": ("fisheye", "k1 k2 k3 k4", True),
    "FISHEYE62": ("fisheye", "k1 k2 k3 k4 k5 k6 p1 p2", True),
    "FISHEYE624": ("fisheye", "k1 k2 k3 k4 k5 k6 p1 p2 s0 s1 s2 s3", True),
    "SPHERICAL": ("spherical", "", False),
    "DUAL": ("dual", "k1 k2", False),
    "RADIAL": ("perspective", "k1 k2", True),
    "SIMPLE_RADIAL": ("perspective", "k1", True),
}
CREATE = {
    "CreatePerspectiveCamera": ("PERSPECTIVE", "focal k1 k2"), "CreateBrownCamera": ("BROWN", "focal aspect_ratio c d"),
    "CreateFisheyeCamera": ("FISHEYE", "focal k1 k2"), "CreateFisheyeOpencvCamera": ("FISHEYE_OPENCV", "focal aspect_ratio c d"),
    "CreateFisheye62Camera": ("FISHEYE62", "focal aspect_ratio c d"), "CreateFisheye624Camera": ("FISHEYE624", "focal aspect_ratio c d"),
    "CreateDualCamera": ("DUAL", "transition focal k1 k2"), "CreateSphericalCamera": ("SPHERICAL", ""),
    "CreateRadialCamera": ("RADIAL", "focal aspect_ratio c d"), "CreateSimpleRadialCamera": ("SIMPLE_RADIAL", "focal aspect_ratio c k1"),
}
COMPOSED = {"ProjectDerivativesFunction": True, "ProjectPoseDerivatives": True, "ProjectPosePointDerivatives": False, "ProjectRigPoseDerivatives": True}


def check(prog, rep):
    rep.rule("projection", "a camera projects as its model is defined, each parameter in its place")
    rep.rule("jacobian", "the analytic derivatives are the derivatives of the projection")
    rep.rule("chain", "derivatives of composed functions follow the chain rule, each block at the place of its parameters")
    rep.rule("bearing", "a bearing inverts the projection")
    rep.rule("newton", "un-distortion looks for a root of the distortion minus the distorted point, with its derivative")
    rep.rule("names", "parameters and projections are known by their names")
    rep.rule("pixels", "pixel and normalized coordinates convert into each other, focal and center scaled to pixels")
    fs = functors()
    u = unit(fs)
    rep.part(inside, rep, "projection", "cameras", registry, u, rep)
    rep.part(inside, rep, "jacobian", "derivatives", jacobians, u, fs, rep)
    rep.part(pose, u, rep)
    rep.part(chains, u, rep)
    rep.part(bearings, u, rep)
    rep.part(newton, u, rep)
    rep.part(decrement, u, rep)
    rep.part(pixels, u, rep)
    rep.minimum("jacobian", 150)
    rep.minimum("projection", 20)


def expect(rep, rule, key, ok, msg):
    return rep.expect(bool(ok), rule, key, "opensfm/src/geometry: " + key.replace("|", " "), msg)


def inside(rep, rule, key, fn, *args):
    """fn, where reaching outside of an array is a violation"""
    try:
        fn(*args)
    except cpp.Outside as e:
        expect(rep, rule, key + "|bounds", False, str(e))


def functors():
    """name -> (inputs, parameters, outputs)"""
    txt = "".join(open(f).read() for f in sorted(glob.glob(GEO + "*functions.h")))
    fs = {}
    for m in re.finditer(r"struct\s+(\w+)\s*(?:final)?\s*:\s*(?:public\s+)?Functor<\s*(\d+),\s*(\d+),\s*(\d+)\s*>", txt):
        fs[m.group(1)] = tuple(int(x) for x in m.groups()[1:])
    if len(fs) < 12:
        raise AnalysisBroken("functors of the camera models")
    return fs


def cameras():
    txt = open(GEO + "camera_instances.h").read()
    c = re.findall(r"using\s+(\w+Camera)\s*=\s*ProjectGeneric", txt)
    if len(c) < 10:
        raise AnalysisBroken("camera types")
    return c


def unit(fs):
    t = '#include "%ssrc/camera.cc"\n#include "%s../foundation/src/newton_raphson.cc"\n' % (GEO, GEO)
    for n in fs:
        t += "template void geometry::%s::Forward<double>%s" % (n, SIG % "")
        for b in ("true", "false"):
            t += "template void geometry::%s::ForwardDerivatives<double, %s>%s" % (n, b, SIG % ", double*")
    for c in cameras():
        for f in COMPOSED:
            if c != "SphericalCamera":  # composed derivatives of spherical cameras are not used
                t += "template void geometry::%s::Apply<geometry::%s, double>%s" % (f, c, SIG % ", double*")
    for f in ("PoseNormalizedDerivatives", "RigPoseNormalizedDerivatives"):
        t += "template void geometry::%s::Apply<geometry::PerspectiveCamera, double>%s" % (f, SIG % ", double*")
    return cpp.Unit(t, FILTER)


def instance(u, name, cls, *targs):
    """The one instantiation with these template arguments; booleans are given as such."""
    def same(a, b):
        return str(a) in ("-1", "1", "true", "True") if b is True else str(a) in ("0", "false", "False") if b is False else a == b

    r = [f for f in u.find(name, cls=cls) if len(cpp.template_args(f)) >= len(targs) and all(same(a, b) for a, b in zip(cpp.template_args(f), targs))]
    r = list({f.get("mangledName"): f for f in r}.values())
    if len(r) != 1:
        raise AnalysisBroken("%s::%s%s" % (cls, name, targs))
    return r[0]


def near(decisions):
    """None away from the special case of a tiny radius or angle; else the largest threshold that selects it."""
    t = None
    for (op, k), v in decisions.items():
        p = fo.POLYS[k]
        c0 = p.get((), 0)
        rest = [abs(c) for m, c in p.items() if m]
        if op == "==":
            if v:
                t = max(t or 0, 0)
            continue
        if (c0 < 0) == v and rest:
            t = max(t or 0, abs(c0) / max(rest))
    return t


TINY = 1e-5


# definitions of the models
def one():
    return fo.const(1)


def project(kind, x, tr=None, limit=False):
    if kind == "perspective" or (kind == "fisheye" and limit):
        return [fo.div(x[0], x[2]), fo.div(x[1], x[2])]
    if kind == "fisheye":
        r = fo.sqrt(fo.add(fo.mul(x[0], x[0]), fo.mul(x[1], x[1])))
        s = fo.div(fo.atan2(r, x[2]), r)
        return [fo.mul(s, x[0]), fo.mul(s, x[1])]
    if kind == "dual":
        a, b = project("perspective", x), project("fisheye", x, limit=limit)
        return [fo.add(fo.mul(tr, p), fo.mul(fo.sub(one(), tr), q)) for p, q in zip(a, b)]
    lon = fo.atan2(x[0], x[2])
    lat = fo.atan2(fo.neg(x[1]), fo.sqrt(fo.add(fo.mul(x[0], x[0]), fo.mul(x[2], x[2]))))
    c = 1 / (2 * 3.141592653589793)
    return [fo.scale(lon, c), fo.scale(lat, -c)]


def radial(r2, k):
    d, p = one(), one()
    for i in range(1, 7):
        p = fo.mul(p, r2)
        if "k%d" % i in k:
            d = fo.add(d, fo.mul(k["k%d" % i], p))
    return d


def distort(u, k):
    x, y = u
    r2 = fo.add(fo.mul(x, x), fo.mul(y, y))
    d = radial(r2, k)
    o = [fo.mul(x, d), fo.mul(y, d)]
    if "p1" in k:
        p1, p2 = k["p1"], k["p2"]
        xy = fo.scale(fo.mul(x, y), 2)
        o[0] = fo.add(o[0], fo.mul(p1, xy), fo.mul(p2, fo.add(r2, fo.scale(fo.mul(x, x), 2))))
        o[1] = fo.add(o[1], fo.mul(p2, xy), fo.mul(p1, fo.add(r2, fo.scale(fo.mul(y, y), 2))))
    if "s0" in k:
        r4 = fo.mul(r2, r2)
        o[0] = fo.add(o[0], fo.mul(k["s0"], r2), fo.mul(k["s1"], r4))
        o[1] = fo.add(o[1], fo.mul(k["s2"], r2), fo.mul(k["s3"], r4))
    return o


def known(model):
    """parameter name -> unknown, and the arguments of the factory"""
    kind, ks, affine = MODELS[model]
    k = {n: fo.var(n) for n in ks.split()}
    p = dict(k)
    if kind == "dual":
        p["transition"] = fo.var("transition")
    if kind != "spherical":
        p["focal"] = fo.var("focal")
    if affine:
        p.update({n: fo.var(n) for n in ("aspect_ratio", "cx", "cy")})
    return kind, k, p


def arguments(names, k, p):
    out = []
    for n in names.split():
        if n == "c":
            out.append(cpp.Arr([cpp.cell(p["cx"]), cpp.cell(p["cy"])], 2, 1))
        elif n == "d":
            out.append(cpp.Arr([cpp.cell(v) for v in k.values()], len(k), 1))
        else:
            out.append(p[n])
    return out


def affine(o, p):
    if "focal" not in p:
        return o
    a = p.get("aspect_ratio", one())
    return [fo.add(fo.mul(p["focal"], o[0]), p.get("cx", {})), fo.add(fo.mul(fo.mul(p["focal"], a), o[1]), p.get("cy", {}))]


def create(e, u, name):
    model, names = CREATE[name]
    kind, k, p = known(model)
    f = u.find(name, cls="Camera")
    if len(f) != 1:
        raise AnalysisBroken(name)
    return cpp.val(e.run(f[0], arguments(names, k, p)))


def enumerators(u, e, name):
    for n in u.ids.values():
        if n["kind"] == "EnumDecl" and n.get("name") == name:
            return {c["name"]: e.enum(c["id"], c) for c in cpp.inner(n, "EnumConstantDecl")}
    raise AnalysisBroken("enumeration " + name)


LABELS = {"focal": "Focal", "aspect_ratio": "AspectRatio", "cx": "Cx", "cy": "Cy", "transition": "Transition"}


def registry(u, rep):
    x = [fo.var("x%d" % i) for i in range(3)]
    for name, (model, _) in CREATE.items():
        where = "Camera::" + name
        kind, k, p = known(model)

        def go(e):
            c = create(e, u, name)
            return e, c, cpp.flat(e.run(u.find("Project", cls="Camera")[0], [cpp.vec("x", 3)], c))

        limits = 0
        for d, (e, c, r) in cpp.paths(u, go):
            t = near(d)
            want = [affine(distort(project(kind, x, p.get("transition"), l), k), p) for l in ((False, True) if t is not None else (False,))]
            ok = any(all(fo.equal(cpp.num(a), b) for a, b in zip(r, w)) for w in want)
            if ok and len(want) > 1 and all(fo.equal(cpp.num(a), b) for a, b in zip(r, want[1])):
                limits += 1
            expect(rep, "projection", where + "|projection", ok, "a %s camera does not project as the model is defined" % model.lower())
            expect(rep, "projection", where + "|near", t is None or t <= TINY, "a %s camera is approximated away from its axis" % model.lower())
        if kind in ("fisheye", "dual"):
            expect(rep, "projection", where + "|axis", limits, "a %s camera divides zero by zero for points on its axis" % model.lower())
        types = enumerators(u, e, "ProjectionType")
        pars = enumerators(u, e, "Parameters")
        expect(rep, "names", where + "|type", cpp.num(c.fields["type_"]) == types[model], "a camera has the type of another model")
        for n, v in p.items():
            l = pars.get(LABELS.get(n, n.upper()))
            g = [f for f in u.find("GetParameterValue", cls="Camera")]
            got = ask(u, lambda e: e.run(g[0], [l], c))
            expect(rep, "names", where + "|" + n, len(got) == 1 and fo.equal(cpp.num(got[0]), v), "parameter %s of a %s camera is not the one it was created with" % (n, model.lower()))
        s = ask(u, lambda e: e.run([f for f in u.find("GetProjectionString", cls="Camera") if not cpp.inner(f, "ParmVarDecl")][0], [], c))
        expect(rep, "names", where + "|string", s == ['str:"%s"' % model.lower()], "a %s camera calls itself %s" % (model.lower(), s))
        expect(rep, "names", where + "|count", len(cpp.flat(c.fields["values_"])) == max(1, len(p)) and len(cpp.flat(c.fields["types_"])) == max(1, len(p)),
                   "a camera has more or fewer parameters than its model")
        # setting a parameter changes that parameter
        for n in p:
            l = pars.get(LABELS.get(n, n.upper()))

            def put(e):
                c2 = cpp.copy(c)
                e.run(u.find("SetParameterValue", cls="Camera")[0], [l, fo.var("new")], c2)
                return [e.run(u.find("GetParameterValue", cls="Camera")[0], [pars[LABELS.get(m, m.upper())]], c2) for m in p]

            for got in ask(u, put):
                expect(rep, "names", where + "|set " + n, all(fo.equal(cpp.num(g), fo.var("new") if m == n else p[m]) for g, m in zip(got, p)), "setting parameter %s of a camera" % n)


def ask(u, go, **kw):
    return [r for _, r in cpp.paths(u, go, **kw)]


def jacobians(u, fs, rep):
    for n, (i, p, o) in fs.items():
        for full in (True, False):
            f = instance(u, "ForwardDerivatives", n, "double", full)
            g = instance(u, "Forward", n, "double")
            st = i + (p if full else 0)

            def go(e):
                out, jac, ref = cpp.empty(o), cpp.empty(o * st), cpp.empty(o)
                k = cpp.vector("k", max(p, 1))
                e.run(g, [cpp.vector("x", i), k, ref])
                e.run(f, [cpp.vector("x", i), k, out, jac])
                return out, jac, ref

            vs = ["x%d" % k for k in range(i)] + (["k%d" % k for k in range(p)] if full else [])
            for d, (out, jac, ref) in cpp.paths(u, go):
                for a in range(o):
                    v = out.at(a).get()
                    expect(rep, "jacobian", "%s|output" % n, v is not None and fo.equal(cpp.num(v), cpp.num(ref.at(a).get())), "derivatives of %s come with another projection" % n)
                    for c, w in enumerate(vs):
                        g_ = jac.at(a * st + c).get()
                        ok = g_ is not None and fo.equal(cpp.num(g_), fo.diff(cpp.num(ref.at(a).get()), w))
                        expect(rep, "jacobian", "%s|d%d/d%s" % (n, a, w), ok, "the derivative of output %d of %s by %s%s is not that of the projection" % (a, n, w, "" if near(d) is None else " (near zero)"))


def rotation(r, x, limit):
    """x rotated by the rotation vector r"""
    cr = [fo.sub(fo.mul(r[(i + 1) % 3], x[(i + 2) % 3]), fo.mul(r[(i + 2) % 3], x[(i + 1) % 3])) for i in range(3)]
    if limit:
        return [fo.add(a, b) for a, b in zip(x, cr)]
    t2 = fo.add(*[fo.mul(a, a) for a in r])
    t = fo.sqrt(t2)
    c, s = fo.cos(t), fo.div(fo.sin(t), t)
    d = fo.div(fo.mul(fo.add(*[fo.mul(a, b) for a, b in zip(r, x)]), fo.sub(one(), c)), t2)
    return [fo.add(fo.mul(a, c), fo.mul(s, b), fo.mul(w, d)) for a, b, w in zip(x, cr, r)]


def pose(u, rep):
    f = instance(u, "Forward", "PoseFunctor", "double")

    def go(e):
        out = cpp.empty(3)
        e.run(f, [cpp.vector("x", 3), cpp.vector("k", 6), out])
        return [cpp.num(c.get()) for c in out.cells]

    x = [fo.sub(fo.var("x%d" % i), fo.var("k%d" % (i + 3))) for i in range(3)]
    r = [fo.neg(fo.var("k%d" % i)) for i in range(3)]
    for d, out in cpp.paths(u, go):
        t = near(d)
        expect(rep, "projection", "PoseFunctor|forward", any(all(fo.equal(a, b) for a, b in zip(out, rotation(r, x, l))) for l in ((True, False) if t is not None else (False,))),
                   "a pose does not subtract the position and undo the rotation")
        expect(rep, "projection", "PoseFunctor|near", t is None or t <= TINY, "rotations that are not tiny are approximated")


class Stages:
    """Stage functors left opaque: fresh outputs and jacobians, recorded with their inputs."""

    def __init__(self, u, names):
        self.u, self.names, self.calls = u, names, []

    def cls(self, n):
        c = n["inner"][0]
        while c.get("kind") in ("ImplicitCastExpr", "ParenExpr"):
            c = [x for x in c["inner"] if x.get("kind")][0]
        i = c.get("referencedDecl", {}).get("id")
        o = [p[0] for p in self.u.owner.get(i, ()) if p[0] in self.names]
        return (o[-1] if o else None), i, c.get("referencedDecl", {})

    def handler(self, name):
        def h(e, args, n):
            c, i, d = self.cls(n)
            if c is None:
                b = e.u.body_of(i, (name, d.get("type", {}).get("qualType")))
                if b is None:
                    raise cpp.Unread("function " + name)
                return e.call(b, args, None)
            ins, ps, outs = self.names[c]
            full = None
            if name == "ForwardDerivatives":
                b = e.u.body_of(i, (name, d.get("type", {}).get("qualType")))
                ta = cpp.template_args(b) if b is not None else []
                full = len(ta) > 1 and str(ta[1]) in ("-1", "1", "true", "True")
            k = len(self.calls)
            x = [cpp.num(at(args[0], j)) for j in range(ins)]
            p = [cpp.num(at(args[1], j)) for j in range(ps)] if ps else []
            y = [fo.var("y%d_%d" % (k, j)) for j in range(outs)]
            st = ins + (ps if full else 0)
            jac = [[fo.var("J%d_%d_%d" % (k, a, b)) for b in range(st)] for a in range(outs)]
            for j, v in enumerate(y):
                at(args[2], j).put(v)
            if full is not None:
                for a in range(outs):
                    for b in range(st):
                        at(args[3], a * st + b).put(jac[a][b])
            self.calls.append((c, x, p, y, jac, full))
            return None
        return h


def at(a, j):
    a = cpp.val(a)
    return a.at(j)


def chains(u, rep):
    fs = functors()
    own = {n: s for n, s in fs.items()}
    for c in cameras():
        if c == "SphericalCamera":
            continue
        for f, full in COMPOSED.items():
            rep.part(inside, rep, "chain", f + "|" + c, chain, u, rep, own, c, f, full)
    for f in ("PoseNormalizedDerivatives", "RigPoseNormalizedDerivatives"):
        rep.part(inside, rep, "chain", f, chain, u, rep, own, "PerspectiveCamera", f, True)


ORDER = {"ProjectDerivativesFunction": 0, "ProjectPoseDerivatives": 1, "ProjectPosePointDerivatives": 1, "ProjectRigPoseDerivatives": 2,
         "PoseNormalizedDerivatives": 1, "RigPoseNormalizedDerivatives": 2}


def chain(u, rep, own, camera, name, full):
    where = name + "|" + camera
    fn = [g for g in u.find("Apply", cls=name) if len(cpp.template_args(g)) == 2 and resolve(u, camera) in (str(cpp.template_args(g)[0]), )]
    fn = list({f.get("mangledName"): f for f in fn}.values())
    if len(fn) != 1:
        raise AnalysisBroken("%s::Apply<%s>" % (name, camera))
    stages = [] if "Normalized" in name else forward_stages(u, own, camera)
    want = ["PoseFunctor"] * ORDER[name] + (stages or ["Normalize"])
    total = sum(own[s][1] for s in want)
    outs = own[want[-1]][2]
    st = 3 + (total if full else 0)

    def go(e):
        s = Stages(u, own)
        e.opaque = {"ForwardDerivatives": s.handler("ForwardDerivatives"), "Forward": s.handler("Forward")}
        out, jac = cpp.empty(outs), cpp.empty(outs * st)
        e.run(fn[0], [cpp.vector("x", 3), cpp.vector("k", max(1, total)), out, jac])
        return s.calls, out, jac

    for d, (calls, out, jac) in cpp.paths(u, go):
        calls = [c for c in calls if c[5] is not None]
        expect(rep, "chain", where + "|stages", [c[0] for c in calls] == want, "derivatives are composed of %s, the projection of %s" % ([c[0] for c in calls], want))
        if [c[0] for c in calls] != want:
            continue
        prev, off = [fo.var("x%d" % i) for i in range(3)], 0
        ok = True
        dx = [[one() if i == j else {} for j in range(3)] for i in range(3)]
        dp = []  # columns of parameters so far, each a vector
        for c, x, p, y, J, fl in calls:
            ok &= all(fo.equal(a, b) for a, b in zip(x, prev)) and all(fo.equal(a, fo.var("k%d" % (off + i))) for i, a in enumerate(p)) and fl == full
            prev, off = y, off + own[c][1]
            cols = list(zip(*dx)) + dp
            cols = [[fo.add(*[fo.mul(J[a][b], v[b]) for b in range(own[c][0])]) for a in range(own[c][2])] for v in cols]
            dx = [list(r) for r in zip(*cols[:3])]
            dp = cols[3:]
            if full:
                dp += [[J[a][own[c][0] + q] for a in range(own[c][2])] for q in range(own[c][1])]
        expect(rep, "chain", where + "|inputs", ok, "a stage of the derivatives works on the output of another stage or on the parameters of another one")
        cols = list(zip(*dx)) + dp
        good = True
        for a in range(outs):
            o = out.at(a).get()
            good &= o is not None and fo.equal(cpp.num(o), prev[a])
            for b in range(st):
                v = jac.at(a * st + b).get()
                good &= v is not None and fo.equal(cpp.num(v), cols[b][a])
        expect(rep, "chain", where + "|jacobian", good, "derivatives of %s are not those of its stages composed" % camera)


def resolve(u, alias):
    """The type behind a camera name, as it appears in template arguments."""
    for n in u.ids.values():
        if n["kind"] == "TypeAliasDecl" and n.get("name") == alias:
            t = n["type"]
            return t.get("desugaredQualType", t["qualType"])
    raise AnalysisBroken(alias)


def forward_stages(u, own, camera):
    fn = [f for f in u.find("Apply", cls="ProjectFunction") if cpp.template_args(f) and str(cpp.template_args(f)[0]) == resolve(u, camera)]
    if not fn:
        raise AnalysisBroken("ProjectFunction::Apply<%s>" % camera)
    s = Stages(u, own)

    def go(e):
        s.calls = []
        e.opaque = {"Forward": s.handler("Forward")}
        e.run(fn[0], [cpp.vector("x", 3), cpp.vector("k", 32), cpp.empty(2)])
        return list(s.calls)

    r = ask(u, go)
    return [c[0] for c in r[0]]


# bearings
def unproject(kind, t, tr=None, theta=None):
    if kind == "perspective":
        n = fo.inv(fo.sqrt(fo.add(fo.mul(t[0], t[0]), fo.mul(t[1], t[1]), one())))
        return [fo.mul(t[0], n), fo.mul(t[1], n), n]
    if kind == "fisheye":
        r = fo.sqrt(fo.add(fo.mul(t[0], t[0]), fo.mul(t[1], t[1])))
        s = fo.div(fo.sin(r), r)
        return [fo.mul(t[0], s), fo.mul(t[1], s), fo.cos(r)]
    if kind == "dual":
        tan = fo.div(fo.sin(theta), fo.cos(theta))
        s = fo.div(tan, fo.add(fo.mul(tr, tan), fo.mul(fo.sub(one(), tr), theta)))
        return unproject("perspective", [fo.mul(t[0], s), fo.mul(t[1], s)])
    lon, lat = [fo.scale(t[0], 2 * 3.141592653589793), fo.scale(t[1], -2 * 3.141592653589793)]
    return [fo.mul(fo.cos(lat), fo.sin(lon)), fo.neg(fo.sin(lat)), fo.mul(fo.cos(lat), fo.cos(lon))]


def bearings(u, rep):
    for name, (model, _) in CREATE.items():
        rep.part(inside, rep, "bearing", "Camera::Bearing|" + model.lower(), bearing, u, rep, name, model)


def call_member(e, o, name, args):
    c = [m for m in o.cls.get("inner", ()) if m.get("kind") == "CXXMethodDecl" and m.get("name") == name]
    b = e.u.body_of(c[0]["id"]) if c else None
    if b is None:
        raise cpp.Unread("method " + name)
    return e.call(b, args, o)


def bearing(u, rep, name, model):
    where = "Camera::Bearing|" + model.lower()
    kind, k, p = known(model)
    f = p.get("focal", one())
    t = [fo.div(fo.sub(fo.var("x0"), p.get("cx", {})), f), fo.div(fo.sub(fo.var("x1"), p.get("cy", {})), fo.mul(f, p.get("aspect_ratio", one())))]
    flat_k = not any(n[0] in "ps" for n in k)

    def go(e):
        sol = []

        def newton(ev, args, n):
            o = cpp.val(args[0])
            ini = cpp.val(args[1])
            i = len(sol)
            it = cpp.concrete(args[2])
            if isinstance(ini, cpp.Arr):
                root = [fo.var("u%d" % j) for j in range(2)]
                a = cpp.Arr([cpp.cell(v) for v in root], 2, 1)
                res = cpp.flat(call_member(ev, o, "operator()", [cpp.copy(a)]))
                der = cpp.val(call_member(ev, o, "derivative", [cpp.copy(a)])).grid()
                sol.append((root, [cpp.num(v) for v in res], [der], it))
                return a
            root = fo.var("r%d" % i)
            res = call_member(ev, o, "operator()", [root])
            der = [[[cpp.num(call_member(ev, o, "derivative", [root]))]] for _ in range(2)]
            sol.append(([root], [cpp.num(res)], der, it))
            return root

        c = create(e, u, name)
        e.opaque = {"NewtonRaphson": newton}
        return sol, [cpp.num(v) for v in cpp.flat(e.run(u.find("Bearing", cls="Camera")[0], [cpp.vec("x", 2)], c))]

    limits = 0
    for d, (sol, r) in cpp.paths(u, go):
        th = near(d)
        expect(rep, "bearing", where + "|near", th is None or th <= TINY, "bearings of points away from the center are approximated")
        und, todo = t, list(sol)
        forms = [und]
        if k and todo and not (kind == "dual" and len(todo) == 1 and th is not None and len(todo[0][0]) == 1 and "transition" in str(fo.show(todo[0][1][0]))):
            root, res, der, it = todo.pop(0)
            if flat_k:
                ru2 = fo.mul(root[0], root[0])
                D = radial(ru2, k)
                rd = fo.sqrt(fo.add(fo.mul(t[0], t[0]), fo.mul(t[1], t[1])))
                want = [fo.sub(fo.mul(root[0], D), rd)]
                forms = [[fo.div(t[0], D), fo.div(t[1], D)]]
            else:
                want = [fo.sub(a, b) for a, b in zip(distort(root, k), t)]
                forms = [root]
            solve(rep, where + "|undistort", root, res, der, it, want)
        elif k:
            expect(rep, "bearing", where + "|undistort", th is not None, "distortion is not undone")
        ok = False
        for und in forms:
            if kind == "dual":
                if not todo:
                    expect(rep, "bearing", where + "|unproject", False, "the mixture of projections is not undone")
                    continue
                root, res, der, it = todo[0]
                rr = fo.sqrt(fo.add(fo.mul(und[0], und[0]), fo.mul(und[1], und[1])))
                tr = p["transition"]
                tan = fo.div(fo.sin(root[0]), fo.cos(root[0]))
                want = [fo.sub(fo.add(fo.mul(tr, tan), fo.mul(fo.sub(one(), tr), root[0])), rr)]
                solve(rep, where + "|unproject", root, res, der, it, want, first=True)
                b = unproject(kind, und, tr, root[0])
            else:
                b = unproject(kind, und)
            ok = ok or all(fo.equal(x, y) for x, y in zip(r, b))
            if not ok and th is not None and kind in ("fisheye", "dual"):
                rr = fo.sqrt(fo.add(fo.mul(und[0], und[0]), fo.mul(und[1], und[1])))
                lim = [[und[0], und[1], fo.cos(rr)], [und[0], und[1], one()], unproject("perspective", und)]
                ok = any(all(fo.equal(x, y) for x, y in zip(r, l)) for l in lim)
                limits += ok
        expect(rep, "bearing", where + "|bearing", ok, "the bearing of a point of a %s camera is not a direction that projects there" % model.lower())
    if kind in ("fisheye", "dual"):
        expect(rep, "bearing", where + "|center", limits, "the bearing of the center of a %s camera divides zero by zero" % model.lower())


def solve(rep, where, root, res, der, it, want, first=False):
    expect(rep, "newton", where + "|residual", len(res) == len(want) and all(fo.equal(a, b) for a, b in zip(res, want)), "the equation solved is not that of the model")
    expect(rep, "newton", where + "|steps", it is not None and it >= 5, "too few steps to solve the equation")
    for q, D in enumerate(der):
        # the first step of a scalar equation may be damped
        for i in range(len(want)):
            for j, v in enumerate(root):
                e = fo.diff(want[i], next(iter(fo.variables(v))))
                g = cpp.num(D[i][j])
                ok = fo.equal(g, e) or (first and q == 0 and any(fo.equal(g, fo.scale(e, s)) for s in (2, 1.5, 3, 4)))
                expect(rep, "newton", where + "|derivative", ok, "the equation is solved with a derivative that is not its own")


def newton(u, rep):
    for name, n in (("scalar", 1), ("vector", 2)):
        fn = [f for f in u.find("NewtonRaphson") if len(cpp.template_args(f)) > 2 and str(cpp.template_args(f)[1]) == str(n) == str(cpp.template_args(f)[2])]
        fn = list({f.get("mangledName"): f for f in fn}.values())
        if not fn:
            raise AnalysisBroken("NewtonRaphson " + name)
        for f in fn:
            rep.part(step, u, rep, f, n, name)


def step(u, rep, f, n, name):
    where = "NewtonRaphson|" + name
    v = [fo.var("v%d" % i) for i in range(n)]
    D = [[fo.var("D%d_%d" % (i, j)) for j in range(n)] for i in range(n)]
    F = [fo.var("F%d" % i) for i in range(n)]

    def go(e):
        asked = []

        def func(ev, args, node):
            asked.append(args)
            return cpp.Arr([cpp.cell(x) for x in F], n, 1) if n > 1 else F[0]

        def deriv(ev, args, node):
            asked.append(args)
            return cpp.matrix(D) if n > 1 else D[0][0]

        def decr(ev, args, node):
            asked.append(("solve", args))
            return cpp.Arr([cpp.cell(fo.var("s%d" % i)) for i in range(n)], n, 1) if n > 1 else fo.var("s0")

        e.opaque = {"operator()": func, "Derivative": deriv, "SolveDecr": decr}
        x = cpp.Arr([cpp.cell(a) for a in v], n, 1) if n > 1 else v[0]
        r = cpp.val(e.run(f, [func, x, fo.const(1), fo.const(1e-6)]))
        return asked, [cpp.num(a) for a in (cpp.flat(r) if n > 1 else [r])]

    moved = 0
    for d, (asked, r) in cpp.paths(u, go):
        stay = all(fo.equal(a, b) for a, b in zip(r, v))
        went = all(fo.equal(a, fo.sub(b, fo.var("s%d" % i))) for i, (a, b) in enumerate(zip(r, v)))
        moved += went
        small = near(d)
        expect(rep, "newton", where + "|step", went or (stay and small is not None and small <= 1e-3), "an iteration does not subtract its step, or stops before it is tiny")
        s = [a[1] for a in asked if isinstance(a, tuple) and a[0] == "solve"]
        ok = bool(s) and all([cpp.num(z) for z in flat_(a[1])] == F and (nums(cpp.val(a[0]).grid()) if n > 1 else [[cpp.num(a[0])]]) == D for a in s)
        expect(rep, "newton", where + "|system", ok, "the step does not solve derivative * step = residual")
    expect(rep, "newton", where + "|moves", moved > 0, "iterations do not move")


def decrement(u, rep):
    """SolveDecr(d, f) is x with d x = f: x = I b with I the inverse of d and b = f, or of d'd and b = d'f."""
    fs = [f for f in u.find("SolveDecr") if cpp.inner(f, "ParmVarDecl")]
    fs = list({f.get("mangledName"): f for f in fs}.values())
    sizes = set()
    for f in fs:
        ta = [str(x) for x in cpp.template_args(f)]
        if ta not in (["2", "2"], ["1", "1"]):
            continue
        n = int(ta[0])
        sizes.add(n)
        F = [fo.var("F%d" % i) for i in range(n)]
        if n == 1:
            r = cpp.paths(u, lambda e: cpp.num(e.run(f, [fo.var("D"), F[0]])))
            expect(rep, "newton", "SolveDecr|scalar", all(fo.equal(x, fo.div(F[0], fo.var("D"))) or (near(d) is not None and near(d) < 1e-9) for d, x in r), "the step of a scalar equation is not residual / derivative")
            continue
        D = [[fo.var("D%d_%d" % (i, j)) for j in range(n)] for i in range(n)]
        I = [[fo.var("I%d_%d" % (i, j)) for j in range(n)] for i in range(n)]

        def go(e):
            seen = []

            def inv(ev, args, node):
                seen.append(nums(cpp.val(args[0]).grid()))
                return cpp.matrix(I)

            e.opaque = {"inverse": inv}
            r = e.run(f, [cpp.matrix(D), cpp.Arr([cpp.cell(x) for x in F], n, 1)])
            return seen, [cpp.num(x) for x in cpp.flat(cpp.val(r))]

        def times(A, b):
            return [fo.add(*[fo.mul(x, y) for x, y in zip(r, b)]) for r in A]

        T = [list(c) for c in zip(*D)]
        TD = [list(c) for c in zip(*[times(T, list(c)) for c in zip(*D)])]
        for seen, r in ask(u, go):
            ok = len(seen) == 1 and any(fo.same(seen[0], A) and all(fo.equal(x, y) for x, y in zip(r, times(I, b))) for A, b in ((D, F), (TD, times(T, F))))
            expect(rep, "newton", "SolveDecr|vector", ok, "the step does not solve derivative * step = residual")
    if sizes != {1, 2}:
        raise AnalysisBroken("SolveDecr")


def flat_(x):
    x = cpp.val(x)
    return cpp.flat(x) if isinstance(x, cpp.Arr) else [x]


def pixels(u, rep):
    w, h = fo.var("width"), fo.var("height")
    m = fo.fun("max", *sorted((w, h), key=fo.key))
    half = fo.const(0.5)

    def conv(name):
        fs = [f for f in u.find(name, cls="Camera") if len(cpp.inner(f, "ParmVarDecl")) == 3]
        r = ask(u, lambda e: [cpp.num(v) for v in cpp.flat(e.run(fs[0], [cpp.vec("x", 2), w, h]))])
        one_ = [f for f in u.find(name, cls="Camera") if len(cpp.inner(f, "ParmVarDecl")) == 1]
        c = cpp.Obj(None, {"width": cpp.cell(w), "height": cpp.cell(h)})
        s = ask(u, lambda e: [cpp.num(v) for v in cpp.flat(e.run(one_[0], [cpp.vec("x", 2)], c))])
        expect(rep, "pixels", name + "|own size", len(r) == len(s) == 1 and all(fo.equal(a, b) for a, b in zip(r[0], s[0])), "a camera converts with another size than its own")
        return r[0]

    x = [fo.var("x0"), fo.var("x1")]
    n = conv("PixelToNormalizedCoordinates")
    p = conv("NormalizedToPixelCoordinates")
    for i, s in enumerate((w, h)):
        c = fo.scale(fo.sub(s, one()), 0.5)
        expect(rep, "pixels", "PixelToNormalizedCoordinates|%d" % i, fo.equal(n[i], fo.div(fo.sub(x[i], c), m)), "normalized coordinates are pixels from the center of the image over its larger side")
        expect(rep, "pixels", "NormalizedToPixelCoordinates|%d" % i, fo.equal(p[i], fo.add(fo.mul(x[i], m), c)), "pixels are normalized coordinates times the larger side from the center of the image")
    for name in CREATE:
        model = CREATE[name][0]
        kind, k, par = known(model)
        f, a = par.get("focal", one()), par.get("aspect_ratio", one())
        cx, cy = par.get("cx", {}), par.get("cy", {})

        def go(e):
            c = create(e, u, name)
            return [cpp.val(e.run(u.find("GetProjectionMatrix", cls="Camera")[0], [], c)).grid(), cpp.val(e.run(u.find("GetProjectionMatrixScaled", cls="Camera")[0], [w, h], c)).grid()]

        for K, S in ask(u, go):
            expect(rep, "pixels", "GetProjectionMatrix|" + model, fo.same(nums(K), [[f, {}, cx], [{}, fo.mul(f, a), cy], [{}, {}, one()]]), "calibration matrix")
            expect(rep, "pixels", "GetProjectionMatrixScaled|" + model, fo.same(nums(S), [[fo.mul(f, m), {}, fo.add(fo.mul(cx, m), fo.scale(w, 0.5))],
                                                                                        [{}, fo.mul(fo.mul(f, a), m), fo.add(fo.mul(cy, m), fo.scale(h, 0.5))], [{}, {}, one()]]), "calibration matrix in pixels")


def nums(g):
    return [[cpp.num(v) for v in r] for r in g]
