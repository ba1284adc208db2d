"""P30 geographic coordinates: conversion formulas (Python and C++), latitude/longitude/altitude roles at every conversion, GPX tracks."""

import ast
import math

from checks.util import argmap, call_args, lookup, run, strip
from sa import cpp, formula as fo, terms as tm
from sa.flow import Flow
from sa.program import AnalysisBroken
from sa.fold import Fold
from sa.match import leaves, seq_items
from sa.terms import attr, const, cval, is_const, item, mk, sym

TECHNIQUE = "conversion formulas of Python and C++ (clang syntax tree) reduced to algebraic normal forms and compared with the WGS84 definition; interprocedural role inference of latitude, longitude, altitude and metric values at every conversion call"
EXPLANATION = (
    "Every conversion is evaluated to a normal form (Laurent polynomials over sines, cosines, roots, arc tangents) and compared with the definition; "
    "the same for the C++ conversions read off clang's syntax tree. Every call of a conversion in the repository is visited and the role of each argument "
    "(latitude, longitude, altitude, metric coordinate) inferred from the keys, attributes, indices and results it comes from."
)
G = "opensfm.geo."
X = "opensfm.geotag_from_gpx."
A_ = 6378137.0
B_ = 6356752.314245
D2R = math.pi / 180


def check(prog, rep):
    rep.rule("ecef", "geodetic to geocentric coordinates follows WGS84, degrees in")
    rep.rule("lla", "geocentric to geodetic coordinates follows WGS84, degrees out")
    rep.rule("topocentric", "the topocentric frame is east, north, up at its reference, and converting back uses the same transform")
    rep.rule("distance", "distance between two positions is that of their geocentric points")
    rep.rule("converter", "a converter converts with its own reference")
    rep.rule("roles", "latitude goes where latitude is expected, longitude where longitude is, altitude where altitude is, and metric coordinates are not degrees")
    rep.rule("gpx", "track points and interpolated positions combine each coordinate with itself")
    rep.rule("tags", "position tags are written from their own coordinate, sign in the reference letter")
    rep.part(python, prog, rep)
    rep.part(converter, prog, rep)
    rep.part(cxx, prog, rep)
    rep.part(cxx_converter, prog, rep)
    rep.part(roles, prog, rep)
    rep.part(track, prog, rep)
    rep.part(interpolation, prog, rep)
    rep.part(samples, prog, rep)
    rep.part(bearing, prog, rep)
    rep.part(lerp, prog, rep)
    rep.part(next_points, prog, rep)
    rep.part(degrees, prog, rep)
    rep.part(tags, prog, rep)
    rep.minimum("roles", 35)


# definitions
def ecef(lat, lon, alt):
    la, lo = fo.scale(lat, D2R), fo.scale(lon, D2R)
    c, s = fo.cos(la), fo.sin(la)
    L = fo.inv(fo.sqrt(fo.add(fo.scale(fo.mul(c, c), A_ ** 2), fo.scale(fo.mul(s, s), B_ ** 2))))
    h = fo.add(fo.scale(L, A_ ** 2), alt)
    return [fo.mul(fo.mul(h, c), fo.cos(lo)), fo.mul(fo.mul(h, c), fo.sin(lo)), fo.mul(fo.add(fo.scale(L, B_ ** 2), alt), s)]


def lla(x, y, z):
    p = fo.sqrt(fo.add(fo.mul(x, x), fo.mul(y, y)))
    th = fo.atan2(fo.scale(z, A_), fo.scale(p, B_))
    e2 = (A_ ** 2 - B_ ** 2) / A_ ** 2
    f2 = (A_ ** 2 - B_ ** 2) / B_ ** 2
    lat = fo.atan2(fo.add(z, fo.scale(fo.power(fo.sin(th), 3), f2 * B_)), fo.sub(p, fo.scale(fo.power(fo.cos(th), 3), e2 * A_)))
    lon = fo.atan2(y, x)
    s = fo.sin(lat)
    N = fo.scale(fo.inv(fo.sqrt(fo.sub(fo.const(1), fo.scale(fo.mul(s, s), e2)))), A_)
    return [fo.scale(lat, 1 / D2R), fo.scale(lon, 1 / D2R), fo.sub(fo.div(p, fo.cos(lat)), N)]


def frame(lat, lon, alt):
    la, lo = fo.scale(lat, D2R), fo.scale(lon, D2R)
    sa, ca, so, co = fo.sin(la), fo.cos(la), fo.sin(lo), fo.cos(lo)
    o = ecef(lat, lon, alt)
    z, i = {}, fo.const(1)
    return [[fo.neg(so), fo.neg(fo.mul(sa, co)), fo.mul(ca, co), o[0]],
            [co, fo.neg(fo.mul(sa, so)), fo.mul(ca, so), o[1]],
            [z, ca, sa, o[2]], [z, z, z, i]]


def into_frame(q, ref):
    T = fo.rigid_inverse(frame(*ref))
    p = ecef(*q) + [fo.const(1)]
    return [fo.add(*[fo.mul(T[i][k], p[k]) for k in range(4)]) for i in range(3)]


def out_of_frame(q, ref):
    T = frame(*ref)
    p = list(q) + [fo.const(1)]
    return [fo.add(*[fo.mul(T[i][k], p[k]) for k in range(4)]) for i in range(3)]


def judge(rep, rule, construct, where, got, want, msg):
    """got equals want; anything read from values the definition does not know is not judged."""
    rep.count(rule)
    if fo.equal(got, want):
        return True
    fo.EXPAND[0] = True
    try:
        if not fo.variables(got) <= fo.variables(want) | KNOWN:
            raise LookupError("%s: computed from %s" % (construct, ", ".join(sorted(fo.show(fo.var(x))[:60] for x in fo.variables(got) - fo.variables(want) - KNOWN))[:200]))
    finally:
        fo.EXPAND[0] = False
    rep.bad(rule, construct, where, msg)
    return False


KNOWN = set()


def same_list(rep, rule, construct, where, got, want, names, msg):
    if not isinstance(got, list) or len(got) != len(want):
        raise LookupError("%s: result is not %d values" % (construct, len(want)))
    for n, g, w in zip(names, got, want):
        if isinstance(g, list):
            raise LookupError("%s: %s is not a number" % (construct, n))
        judge(rep, rule, construct + ":" + n, where, g, w, msg % n)


def where_of(prog, q):
    f = prog.func(q)
    return "%s:%d" % (f[0].rel, f[1].lineno) if isinstance(f, tuple) else q


class Both(fo.Read):
    """Alternatives have to agree."""

    def read(self, t):
        if t.op == "ite":
            a, b = self(t.args[1]), self(t.args[2])
            if fo.equal(a, b):
                return a
            raise LookupError("a conditional value")
        return super().read(t)


def formulas(prog, q, only, opaque=()):
    fl, r, A = run(prog, q, only, opaque)
    return fl, Both(fl)(r), {k: fo.var(v) for k, v in A.items()}, A


def site(prog, q):
    m, node = lookup_node(prog, q)
    return "%s:%d" % (m.rel, node.lineno)


def lookup_node(prog, q):
    f = lookup(prog, q)
    mod = prog.modules[q.rsplit(".", 1)[0]] if q.rsplit(".", 1)[0] in prog.modules else None
    return mod, (f if hasattr(f, "lineno") else f[1])


def python(prog, rep):
    M = {"opensfm.geo"}
    KNOWN.clear()
    fl, got, P, A = formulas(prog, G + "ecef_from_lla", M)
    ps = list(A)
    KNOWN.update(A.values())
    w = "opensfm/geo.py"
    same_list(rep, "ecef", "ecef_from_lla", w, got, ecef(*[P[p] for p in ps[:3]]), "xyz", "%s is not the WGS84 coordinate")
    fl, got, P, A = formulas(prog, G + "lla_from_ecef", M)
    KNOWN.update(A.values())
    same_list(rep, "lla", "lla_from_ecef", w, got, lla(*[P[p] for p in list(A)[:3]]), ("latitude", "longitude", "altitude"), "%s is not the WGS84 coordinate")
    fl, got, P, A = formulas(prog, G + "ecef_from_topocentric_transform", M)
    KNOWN.update(A.values())
    want = frame(*[P[p] for p in list(A)[:3]])
    if not isinstance(got, list) or len(got) != 4:
        raise LookupError("the transform is not a matrix")
    for i in range(4):
        same_list(rep, "topocentric", "ecef_from_topocentric_transform:row%d" % i, w, got[i], want[i], ("east", "north", "up", "origin"), "%s column of the topocentric frame")
    fl, got, P, A = formulas(prog, G + "topocentric_from_lla", M)
    KNOWN.update(A.values())
    ps = list(A)
    same_list(rep, "topocentric", "topocentric_from_lla", w, got, into_frame([P[p] for p in ps[:3]], [P[p] for p in ps[3:6]]), ("east", "north", "up"), "%s is not the coordinate in the frame of the reference")
    fl, r, A = run(prog, G + "lla_from_topocentric", M, [G + "lla_from_ecef"])
    KNOWN.update(A.values())
    calls = [t for t in leaves(r)]
    if len(calls) == 1 and calls[0].op == "call" and tm.callee_name(calls[0]) == G + "lla_from_ecef":
        a = argmap_term(prog, G + "lla_from_ecef", calls[0])
        rd = Both(fl)
        ps = [fo.var(A[p]) for p in list(A)]
        same_list(rep, "topocentric", "lla_from_topocentric", w, [rd(x) for x in a], out_of_frame(ps[:3], ps[3:6]), "xyz", "geocentric %s is not the point of the reference's frame")
    else:
        raise LookupError("lla_from_topocentric does not end in the conversion to geodetic coordinates")
    fl, r, A = run(prog, G + "gps_distance", M)
    rd = Both(fl)
    a, b = list(A.values())[:2]
    KNOWN.update(item(x, const(i)) for x in (a, b) for i in range(3))
    v = [[fo.var(item(x, const(i))) for i in range(2)] for x in (a, b)]
    judge(rep, "distance", "gps_distance", w, rd(r), spread(v), "distance is not that of the two geocentric points at altitude zero")


def spread(v):
    p, q = (ecef(x[0], x[1], {}) for x in v)
    return fo.sqrt(fo.add(*[fo.mul(fo.sub(m, n), fo.sub(m, n)) for m, n in zip(p, q)]))


def argmap_term(prog, q, t):
    f = lookup(prog, q)
    names = [a.arg for a in (f if hasattr(f, "args") else f[1]).args.args]
    _, a, kw = tm.call_parts(t)
    d = dict(zip(names, a))
    d.update(kw)
    return [d[n] for n in names]


def converter(prog, rep):
    C = G + "TopocentricConverter"
    # attributes set by the constructor
    fl, r, A = run(prog, C + ".__init__", {"opensfm.geo"}, self_cls=C)
    S = sym("self")
    attrs = {}
    for e in fl.effects:
        if e.kind == "setattr" and e.recv is S:
            attrs[e.name] = e.args[0] if e.args else None
    own = {}
    for p in A.values():
        own[p] = [n for n, v in attrs.items() if v is p]
    order = list(A.values())
    for name, q in (("to_topocentric", "topocentric_from_lla"), ("to_lla", "lla_from_topocentric")):
        fl, r, P = run(prog, C + "." + name, {"opensfm.geo"}, [G + q], self_cls=C)
        rep.count("converter")
        ok = True
        ps = list(P.values())
        for t in leaves(r):
            if t.op != "call" or tm.callee_name(t) != G + q:
                if t.op == "noreturn":
                    continue
                raise LookupError("%s does not call %s" % (name, q))
            a = argmap_term(prog, G + q, t)
            if a[:3] != ps[:3]:
                ok = False
            for x, p in zip(a[3:6], order):
                if x.op != "attr" or x.args[0] is not S or x.args[1] not in own[p]:
                    ok = False
        rep.expect(ok, "converter", "TopocentricConverter." + name, "opensfm/geo.py", "the conversion does not use the given coordinates and the converter's own latitude, longitude and altitude, in that order")


# C++
def cxx(prog, rep):
    u = cpp.Unit('#include "%s/geo/src/geo.cc"\n' % cpp.SRC, "geo::")
    w = "opensfm/src/geo/src/geo.cc"

    def one(name, n, t="double"):
        c = [f for f in u.find(name) if len(cpp.inner(f, "ParmVarDecl")) == n and all((t in p["type"]["qualType"]) for p in cpp.inner(f, "ParmVarDecl"))]
        if len(c) != 1:
            raise LookupError("C++ function %s/%d" % (name, n))
        return c[0]

    def value(fn, args, opaque=None):
        r = cpp.paths(u, lambda e: e.run(fn, args()), opaque=opaque)
        if len(r) != 1:
            raise LookupError("C++ function with several outcomes")
        return r[0][1]
    V = fo.var
    scal = lambda *n: (lambda: [V(x) for x in n])
    vec = lambda *n: (lambda: [cpp.vec(x, k) for x, k in n])
    for n in ("lat", "lon", "alt", "x", "y", "z", "rlat", "rlon", "ralt"):
        KNOWN.add(n)
    for b in ("p", "q"):
        KNOWN.update(b + str(i) for i in range(3))
    geo3 = [V("lat"), V("lon"), V("alt")]
    p3, q3 = [V("p%d" % i) for i in range(3)], [V("q%d" % i) for i in range(3)]
    names = ("latitude", "longitude", "altitude")
    m = "C++ %s is not the WGS84 coordinate"

    def part(f):
        try:
            f()
        except cpp.Unread as e:
            rep.sample("not judged (C++): %s" % e)
            raise
    same_list(rep, "ecef", "EcefFromLla/3", w, cpp.flat(value(one("EcefFromLla", 3), scal("lat", "lon", "alt"))), ecef(*geo3), "xyz", m)
    same_list(rep, "ecef", "EcefFromLla/1", w, cpp.flat(value(one("EcefFromLla", 1, "Vec"), vec(("p", 3)))), ecef(*p3), "xyz", m)
    same_list(rep, "lla", "LlaFromEcef/3", w, cpp.flat(value(one("LlaFromEcef", 3), scal("x", "y", "z"))), lla(V("x"), V("y"), V("z")), names, m)
    same_list(rep, "lla", "LlaFromEcef/1", w, cpp.flat(value(one("LlaFromEcef", 1, "Vec"), vec(("p", 3)))), lla(*p3), names, m)
    for k, (fn, args, a3) in {"EcefFromTopocentricTransform/3": (one("EcefFromTopocentricTransform", 3), scal("lat", "lon", "alt"), geo3),
                              "EcefFromTopocentricTransform/1": (one("EcefFromTopocentricTransform", 1, "Vec"), vec(("p", 3)), p3)}.items():
        g = value(fn, args).grid()
        for i, (r, s) in enumerate(zip(g, frame(*a3))):
            same_list(rep, "topocentric", "%s:row%d" % (k, i), w, r, s, ("east", "north", "up", "origin"), "%s column of the topocentric frame (C++)")
    m = "C++ %s is not the coordinate in the frame of the reference"
    e = ("east", "north", "up")
    ref = [V("rlat"), V("rlon"), V("ralt")]
    same_list(rep, "topocentric", "TopocentricFromLla/6", w, cpp.flat(value(one("TopocentricFromLla", 6), scal("lat", "lon", "alt", "rlat", "rlon", "ralt"))), into_frame(geo3, ref), e, m)
    same_list(rep, "topocentric", "TopocentricFromLla/2", w, cpp.flat(value(one("TopocentricFromLla", 2, "Vec"), vec(("p", 3), ("q", 3)))), into_frame(p3, q3), e, m)

    def back(ev, args, n):
        v = [cpp.num(x) for x in args] if len(args) == 3 else cpp.flat(args[0])
        return cpp.matrix([[x] for x in v])
    op = {"LlaFromEcef": back}
    xyz = [V("x"), V("y"), V("z")]
    m = "C++ geocentric %s is not the point of the reference's frame"
    same_list(rep, "topocentric", "LlaFromTopocentric/6", w, cpp.flat(value(one("LlaFromTopocentric", 6), scal("x", "y", "z", "rlat", "rlon", "ralt"), op)), out_of_frame(xyz, ref), "xyz", m)
    same_list(rep, "topocentric", "LlaFromTopocentric/2", w, cpp.flat(value(one("LlaFromTopocentric", 2, "Vec"), vec(("p", 3), ("q", 3)), op)), out_of_frame(p3, q3), "xyz", m)
    d = value(one("GpsDistance", 2, "Vec"), vec(("p", 2), ("q", 2)))
    judge(rep, "distance", "GpsDistance", w, cpp.num(d), spread([p3[:2], q3[:2]]), "C++ distance is not that of the two geocentric points at altitude zero")


def cxx_converter(prog, rep):
    u = cpp.Unit('#include "%s/geo/src/geo.cc"\n' % cpp.SRC, "geo::")
    w = "opensfm/src/geo/src/geo.cc"
    r = cpp.Eval(u).record("geo::TopocentricConverter")
    if r is None:
        raise LookupError("C++ TopocentricConverter")
    ctors = u.find("TopocentricConverter")
    three = [c for c in ctors if len(cpp.inner(c, "ParmVarDecl")) == 3]
    if len(three) != 1:
        raise LookupError("constructor of TopocentricConverter")

    def flat(x):
        return [y for a in x for y in cpp.flat(a)]
    for c in ctors:
        n = len(cpp.inner(c, "ParmVarDecl"))
        if n not in (1, 3) or (n == 1 and "Vec" not in cpp.inner(c, "ParmVarDecl")[0]["type"]["qualType"]):
            continue
        for name, target in (("ToTopocentric", "TopocentricFromLla"), ("ToLla", "LlaFromTopocentric")):
            for f in u.find(name):
                k = len(cpp.inner(f, "ParmVarDecl"))

                def go(e):
                    o = cpp.Obj(r, {})
                    e.call(c, [cpp.vec("q", 3)] if n == 1 else [fo.var("q%d" % i) for i in range(3)], o)
                    return e.call(f, [cpp.vec("p", 3)] if k == 1 else [fo.var("p%d" % i) for i in range(3)], o)
                seen = []

                def grab(ev, args, node):
                    seen.append(flat(args))
                    return cpp.vec("r", 3)
                cpp.paths(u, go, opaque={target: grab})
                rep.count("converter")
                want = [fo.var("p%d" % i) for i in range(3)] + [fo.var("q%d" % i) for i in range(3)]
                rep.expect(bool(seen) and all(fo.same(s, want) for s in seen), "converter", "%s/%d from constructor/%d" % (name, k, n), w,
                           "the C++ conversion does not use the given coordinates and the converter's own latitude, longitude and altitude")


# roles
LAT, LON, ALT = "latitude", "longitude", "altitude"
NAMES = {"latitude": LAT, "lat": LAT, "reflat": LAT, "longitude": LON, "lon": LON, "reflon": LON, "altitude": ALT, "alt": ALT, "refalt": ALT,
         "start_lat": LAT, "end_lat": LAT, "start_lon": LON, "end_lon": LON}
TRIPLE = {"lla_vec": (LAT, LON, ALT), "to_lla": (LAT, LON, ALT), "lla_from_topocentric": (LAT, LON, ALT), "lla_from_ecef": (LAT, LON, ALT),
          "to_topocentric": ("x", "y", "z"), "topocentric_from_lla": ("x", "y", "z"), "ecef_from_lla": ("X", "Y", "Z"),
          "get_origin": ("x", "y", "z"), "coordinates": ("x", "y", "z"), "shot_lla_and_compass": (LAT, LON, ALT, "compass"), "lla": None}
SLOTS = {
    "to_topocentric": (LAT, LON, ALT), "to_lla": ("x", "y", "z"), "TopocentricConverter": (LAT, LON, ALT), "topocentric_from_lla": (LAT, LON, ALT, LAT, LON, ALT),
    "lla_from_topocentric": ("x", "y", "z", LAT, LON, ALT), "ecef_from_lla": (LAT, LON, ALT), "lla_from_ecef": ("X", "Y", "Z"), "set_reference": (LAT, LON, ALT),
    "compute_bearing": (LAT, LON, LAT, LON), "ecef_from_topocentric_transform": (LAT, LON, ALT), "add_gps_to_exif": (None, LAT, LON, None, ALT),
}
PARAMS = {
    "to_topocentric": ("lat", "lon", "alt"), "to_lla": ("x", "y", "z"), "TopocentricConverter": ("reflat", "reflon", "refalt"),
    "topocentric_from_lla": ("lat", "lon", "alt", "reflat", "reflon", "refalt"), "lla_from_topocentric": ("x", "y", "z", "reflat", "reflon", "refalt"),
    "ecef_from_lla": ("lat", "lon", "alt"), "lla_from_ecef": ("x", "y", "z"), "set_reference": ("lat", "lon", "alt"),
    "compute_bearing": ("start_lat", "start_lon", "end_lat", "end_lon"), "ecef_from_topocentric_transform": ("lat", "lon", "alt"),
    "add_gps_to_exif": ("filename", "lat", "lon", "bearing", "elevation"),
}
KEYS = {"latitude": LAT, "longitude": LON, "altitude": ALT}
SKIP = {"opensfm.geo"}


def last(n):
    return n.rsplit(".", 1)[-1] if n else n


def triple(fl, t):
    """Roles of the elements of a vector."""
    t = strip_seq(fl, t)
    if t.op == "attr":
        return TRIPLE.get(t.args[1])
    if t.op == "mcall":
        return TRIPLE.get(tm.call_parts(t)[0][1])
    if t.op == "call":
        return TRIPLE.get(last(tm.callee_name(t)))
    if t.op == "ite":
        a, b = triple(fl, t.args[1]), triple(fl, t.args[2])
        return a if a == b else (a if b is None and is_none(t.args[2]) else b if a is None and is_none(t.args[1]) else None)
    return None


def is_none(t):
    return is_const(t) and cval(t) is None


def strip_seq(fl, t):
    for _ in range(8):
        h = fl.h(t) if t.op == "obj" else None
        if h is not None and h.kind == "ext" and h.args and h.cls is not None and h.cls.args and last(str(h.cls.args[0])) in ("array", "asarray", "list", "tuple", "stack"):
            t = h.args[0]
            continue
        if t.op == "call" and last(tm.callee_name(t)) in ("array", "asarray", "list", "tuple", "stack", "float") and tm.call_parts(t)[1]:
            t = tm.call_parts(t)[1][0]
            continue
        break
    return t


def role(fl, t, depth=0):
    """The role of a value, or None."""
    if depth > 25:
        return None
    o = t.op
    if o == "sym":
        return NAMES.get(str(t.args[0]).split(":")[-1])
    if o == "attr":
        return NAMES.get(t.args[1])
    if o in ("item", "elem"):
        k = t.args[1]
        if is_const(k):
            v = cval(k)
            if isinstance(v, str):
                return NAMES.get(v)
            if isinstance(v, int):
                r = triple(fl, t.args[0])
                if r and -len(r) <= v < len(r):
                    return r[v]
        return None
    if o == "mcall":
        (recv, name), a, kw = tm.call_parts(t)
        if name == "get" and a and is_const(a[0]) and isinstance(cval(a[0]), str):
            return NAMES.get(cval(a[0]))
        return None
    if o == "call":
        n = last(tm.callee_name(t))
        a = tm.call_parts(t)[1]
        if n in ("float", "round", "float64", "abs", "radians", "mean") and a:
            return role(fl, a[0], depth + 1)
        return None
    if o == "ite":
        rs = {role(fl, x, depth + 1) for x in t.args[1:3] if not is_const(x)}
        return rs.pop() if len(rs) == 1 else None
    if o == "bin" and t.args[0] in "+-":
        rs = {role(fl, x, depth + 1) for x in t.args[1:] if not is_const(x)}
        return rs.pop() if len(rs) == 1 else None
    return None


SIBLINGS = {LAT: {LON, ALT, "x", "y", "z", "X", "Y", "Z"}, LON: {LAT, ALT, "x", "y", "z", "X", "Y", "Z"}, ALT: {LAT, LON, "x", "y", "X", "Y", "Z"},
            "x": {LAT, LON, ALT, "y", "z", "X", "Y", "Z"}, "y": {LAT, LON, ALT, "x", "z", "X", "Y", "Z"}, "z": {LAT, LON, "x", "y", "X", "Y", "Z"},
            "X": {LAT, LON, ALT, "x", "y", "z", "Y", "Z"}, "Y": {LAT, LON, ALT, "x", "y", "z", "X", "Z"}, "Z": {LAT, LON, ALT, "x", "y", "z", "X", "Y"}}


def wanted(node):
    for n in ast.walk(node):
        if isinstance(n, ast.Call):
            f = n.func
            name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
            if name in SLOTS:
                return True
        if isinstance(n, ast.Constant) and n.value in KEYS and isinstance(n.value, str):
            return True
    return False


def names_slot(name, dotted, prog):
    return SLOTS.get(name)


def roles(prog, rep):
    todo = []
    for m, q, node, cls in prog.all_functions():
        if m.name in SKIP or "/test" in m.rel or m.rel.startswith("opensfm/test"):
            continue
        if wanted(node):
            todo.append((m, q, node, cls))
    done = 0
    for m, q, node, cls in todo:
        try:
            judge_roles(prog, rep, m, q, node, cls)
            done += 1
        except RecursionError:
            rep.sample("not judged: %s (too deep)" % q)
        except (LookupError, AnalysisBroken) as e:
            rep.sample("not judged: %s (%s)" % (q, str(e)[:80]))
    rep.sample("functions visited for roles: %d of %d" % (done, len(todo)))


def unpacked(rep, m, q, node):
    """Names a result is taken apart into."""
    for n in ast.walk(node):
        if not isinstance(n, ast.Assign) or not isinstance(n.value, ast.Call):
            continue
        f = n.value.func
        name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
        for t in n.targets:
            if TRIPLE.get(name) and isinstance(t, ast.Tuple):
                for want, x in zip(TRIPLE[name], t.elts):
                    if isinstance(x, ast.Name):
                        rep.count("roles")
                        if NAMES.get(x.id.strip("_")) in SIBLINGS.get(want, ()):
                            rep.bad("roles", "%s: %s of %s" % (short(q), x.id, name), "%s:%s" % (m.rel, n.lineno), "the %s of %s is taken for the %s" % (text(want), name, text(NAMES[x.id.strip("_")])))


def judge_roles(prog, rep, m, q, node, cls):
    unpacked(rep, m, q, node)
    args = {a.arg: sym("p:" + a.arg) for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs}
    self_t = None
    if cls and node.args.args and node.args.args[0].arg == "self":
        args.pop("self")
        self_t = sym("self")
    others = {x for mm, x, _, _ in prog.all_functions() if mm is m and x != q}
    fl = Flow(prog, only={m.name}, opaque=others, types={})
    r = fl.run(q, args, self_t=self_t)
    fn = last(q)
    if TRIPLE.get(fn) and r is not None:
        for x in leaves(r):
            it = seq_items(fl, x)
            if it is not None and len(it) == len(TRIPLE[fn]):
                for want, v in zip(TRIPLE[fn], it):
                    rep.count("roles")
                    g = role(fl, v)
                    if g in SIBLINGS.get(want, ()):
                        rep.bad("roles", "%s: returned %s" % (short(q), text(want)), "%s:%s" % (m.rel, getattr(node, "lineno", 0)), "the %s is returned as the %s" % (text(g), text(want)))
    for e in fl.effects:
        name = last(e.name) if e.name else None
        if e.kind in ("call", "mcall", "new") and name in SLOTS:
            slots, pn = SLOTS[name], PARAMS[name]
            if name == "compute_bearing" and not (e.name or "").startswith("opensfm"):
                continue
            rep.count("roles")
            given = []
            pos = 0
            for a in e.args:
                if a.op == "star":
                    v = triple(fl, a.args[0])
                    for i, r in enumerate(v or ()):
                        given.append((pos + i, r))
                    pos += len(v) if v else 3
                else:
                    given.append((pos, role(fl, a)))
                    pos += 1
            for k, v in dict(e.kwargs or {}).items():
                if k in pn:
                    given.append((pn.index(k), role(fl, v)))
            for i, r in given:
                if i < len(slots) and slots[i] is not None and r is not None and r in SIBLINGS.get(slots[i], ()):
                    rep.bad("roles", "%s -> %s" % (short(q), name), "%s:%s" % (m.rel, getattr(node, "lineno", 0)),
                            "argument %d of %s has to be the %s, it is given the %s" % (i + 1, name, text(slots[i]), text(r)))
        if e.kind == "setitem" and len(e.args) >= 2 and is_const(e.args[0]) and cval(e.args[0]) in KEYS and isinstance(cval(e.args[0]), str):
            store(rep, fl, m, q, node, cval(e.args[0]), e.args[1])
    for h in list(fl.heap.values()):
        if h.kind == "dict":
            for x in h.log:
                if x.key is not None and is_const(x.key) and isinstance(cval(x.key), str) and cval(x.key) in KEYS and x.val is not None:
                    store(rep, fl, m, q, node, cval(x.key), x.val)


def store(rep, fl, m, q, node, k, v):
    r = role(fl, v)
    rep.count("roles")
    if r is not None and r in SIBLINGS.get(KEYS[k], ()):
        rep.bad("roles", "%s:%s" % (short(q), k), "%s:%s" % (m.rel, getattr(node, "lineno", 0)), "the entry '%s' is given the %s" % (k, text(r)))


def short(q):
    return q[8:] if q.startswith("opensfm.") else q


def text(r):
    return {"x": "topocentric x", "y": "topocentric y", "z": "topocentric z", "X": "geocentric x", "Y": "geocentric y", "Z": "geocentric z"}.get(r, r)


# GPX tracks
def subterms(t):
    out, todo, seen = [], [t], set()
    while todo:
        x = todo.pop()
        if not hasattr(x, "op") or x in seen:
            continue
        seen.add(x)
        out.append(x)
        for a in x.args:
            todo += list(a) if isinstance(a, tuple) else [a]
    return out


def alternatives(t, n=0):
    """The value for each way its conditions can turn out."""
    c = next((x.args[0] for x in subterms(t) if x.op == "ite"), None)
    if c is None:
        return [t]
    if n > 5:
        raise LookupError("too many conditions")
    return [z for b in (True, False) for z in alternatives(Fold({c: b}, None)(t), n + 1)]


def track(prog, rep):
    fl, r, A = run(prog, X + "get_lat_lon_time", {"opensfm.geotag_from_gpx"})
    n = 0
    for h in fl.heap.values():
        if h.kind != "list":
            continue
        for e in h.log:
            if e.kind == "add" and e.val is not None:
                it = seq_items(fl, e.val)
                if it is None or len(it) != 4:
                    continue
                n += 1
                rep.count("gpx")
                at = [attr_name(x) for x in it[1:]]
                base = {x.args[0] for x in it[1:] if x.op == "attr"}
                rep.expect(at == ["latitude", "longitude", "elevation"] and len(base) == 1, "gpx", "get_lat_lon_time:point", "opensfm/geotag_from_gpx.py",
                           "a track point is not (time, latitude, longitude, elevation) of one point")
                zone = A.get("gpx_time")
                if zone is not None:
                    for utc in (True, False):
                        f = Fold({mk("cmp", "==", a, b): utc for a, b in ((zone, const("utc")), (const("utc"), zone))}, None)(it[0])
                        raw = all(x.op == "attr" for x in leaves(f))
                        rep.count("gpx")
                        if f.op != "ite":
                            rep.expect(raw != utc, "gpx", "get_lat_lon_time:zone", "opensfm/geotag_from_gpx.py", "track times are not converted to local time exactly when they are in UTC")
                times = [x for x in leaves(it[0])]
                ok = all(any(y.op == "attr" and y.args[1] == "time" and y.args[0] in base for y in subterms(x)) for x in times)
                rep.expect(ok, "gpx", "get_lat_lon_time:time", "opensfm/geotag_from_gpx.py", "the time of a track point is not that of its own point")
    if not n:
        raise LookupError("track points")
    srt = [e for e in fl.effects if (e.kind == "mcall" and e.name == "sort") or (e.kind == "call" and e.name == "sorted")]
    rep.count("gpx")
    ok = bool(srt) and all(not dict(e.kwargs or {}).get("reverse") for e in srt)
    rep.expect(ok, "gpx", "get_lat_lon_time:sorted", "opensfm/geotag_from_gpx.py", "track points are not returned in order of time")


def attr_name(t):
    return t.args[1] if t.op == "attr" else None


class Times(fo.Read):
    """Points in time as numbers."""

    def read(self, t):
        if t.op == "mcall":
            (recv, name), a, kw = tm.call_parts(t)
            if name in ("total_seconds",) and not a:
                return self(recv)
        if t.op == "call" and last(tm.callee_name(t)) == "timedelta":
            _, a, kw = tm.call_parts(t)
            if set(kw) == {"seconds"} and not a:
                return self(kw["seconds"])
        return super().read(t)


def interpolation(prog, rep):
    q = X + "interpolate_lat_lon"
    fl, r, A = run(prog, q, {"opensfm.geotag_from_gpx"}, [X + "compute_bearing"])
    pts, t = list(A.values())[:2]
    brk = [e for e in fl.effects if e.kind == "break"]
    it = seq_items(fl, r)
    if it is None or len(it) != 4:
        raise LookupError("interpolated position")
    each = None
    for x in subterms(r):
        if x.op == "elem" and x.args[0] is pts:
            each = x
    if each is None:
        raise LookupError("enclosing points")
    facts = {}
    for x in subterms(r):
        if x.op == "ite":
            c = x.args[0]
            if c.op == "cmp" and c.args[0] == "<":
                if c.args[1] is t and c.args[2] is item(each, const(0)):
                    facts[c] = True
                if is_const(c.args[1]) and cval(c.args[1]) == 0:
                    facts[c] = True
    fold = Fold(facts, None)
    vals = [fold(x) for x in it]
    rd = Times(fl)
    befores = [x for v in vals for x in subterms(v) if x.op == "item" and x.args[0].op == "item" and x.args[0].args[0] is pts]
    if not befores:
        raise LookupError("enclosing points")
    bases = {x.args[0] for x in befores}
    if len(bases) != 1:
        raise LookupError("enclosing points")
    bef = bases.pop()
    k = rd(bef.args[1])
    pos = [x for x in subterms(bef.args[1]) if x.op in ("idx", "pos", "index") or x.op == "call"]
    rep.count("gpx")
    rep.expect(set(k.values()) == {1.0, -1.0} and k.get((), 0) == -1.0, "gpx", "interpolate_lat_lon:before", "opensfm/geotag_from_gpx.py", "the point before the time is not the one just before the first later point")

    def B(i):
        return rd(item(bef, const(i)))

    def C(i):
        return rd(item(each, const(i)))
    tt = fo.var(t)
    db, da = fo.sub(tt, B(0)), fo.sub(C(0), tt)
    known = set().union(*[fo.variables(f(i)) for f in (B, C) for i in range(4)]) | {t}
    for i, n, v in ((1, "latitude", vals[0]), (2, "longitude", vals[1]), (3, "elevation", vals[3])):
        given = Fold(dict({mk("cmp", o, a, b): False for o in ("is", "==") for y in (item(bef, const(i)), item(each, const(i))) for a, b in ((y, const(None)), (const(None), y))}), None)
        for x in leaves(given(v)):
            if is_none(x):
                rep.count("gpx")
                rep.bad("gpx", "interpolate_lat_lon:missing " + n, "opensfm/geotag_from_gpx.py", "the %s is dropped although the enclosing points have it (a value of zero)" % n)
                continue
            g = rd(x)
            want = fo.div(fo.add(fo.mul(B(i), da), fo.mul(C(i), db)), fo.add(db, da))
            rep.count("gpx")
            if fo.equal(g, want):
                continue
            if not fo.variables(g) <= known:
                raise LookupError("interpolated " + n)
            rep.bad("gpx", "interpolate_lat_lon:" + n, "opensfm/geotag_from_gpx.py", "the %s is not the mean of the enclosing points' weighted by the time to the other one" % n)
    b = vals[2]
    if b.op == "call" and tm.callee_name(b) == X + "compute_bearing":
        a = argmap_term(prog, X + "compute_bearing", b)
        want = [item(bef, const(1)), item(bef, const(2)), item(each, const(1)), item(each, const(2))]
        rep.count("gpx")
        if all(x.op == "item" for x in a):
            rep.expect(a == want, "gpx", "interpolate_lat_lon:bearing", "opensfm/geotag_from_gpx.py", "the bearing is not that from the earlier to the later point")


def bearing(prog, rep):
    fl, r, A = run(prog, X + "compute_bearing", {"opensfm.geotag_from_gpx"})
    a, o, b, p = [fo.scale(fo.var(v), D2R) for v in list(A.values())[:4]]
    d = fo.sub(p, o)
    y = fo.mul(fo.sin(d), fo.cos(b))
    x = fo.sub(fo.mul(fo.cos(a), fo.sin(b)), fo.mul(fo.sin(a), fo.cos(b), fo.cos(d)))
    want = fo.mod(fo.scale(fo.atan2(y, x), 1 / D2R), fo.const(360))
    KNOWN.update(A.values())
    for x in alternatives(r):
        judge(rep, "gpx", "compute_bearing", "opensfm/geotag_from_gpx.py", fo.Read(fl)(x), want, "not the initial compass bearing from the start to the end, in [0, 360)")


def lerp(prog, rep):
    fl, r, A = run(prog, X + "gpx_lerp", {"opensfm.geotag_from_gpx"})
    al, a, b = list(A.values())[:3]
    rd = Times(fl)
    got = rd(r)
    if not isinstance(got, list) or len(got) != 4:
        raise LookupError("interpolated track point")
    KNOWN.update([al] + [item(x, const(i)) for x in (a, b) for i in range(4)])
    for i, n in enumerate(("time", "latitude", "longitude", "altitude")):
        u, v = fo.var(item(a, const(i))), fo.var(item(b, const(i)))
        judge(rep, "gpx", "gpx_lerp:" + n, "opensfm/geotag_from_gpx.py", got[i], fo.add(u, fo.mul(fo.var(al), fo.sub(v, u))), "the %s is not interpolated between the same entries of the two points" % n)


def next_points(prog, rep):
    w = "opensfm/geotag_from_gpx.py"
    M = {"opensfm.geotag_from_gpx"}
    fl, r, A = run(prog, X + "time_next_point", M, [X + "gpx_lerp"])
    a, b, l, dt = list(A.values())[:4]
    rd = Times(fl)
    al, p, q = lerp_args(prog, r)
    rep.count("gpx")
    rep.expect(p is a and q is b, "gpx", "time_next_point:segment", w, "the next point is not on the current segment")
    T = lambda x: fo.var(item(x, const(0)))
    KNOWN.update([item(x, const(i)) for x in (a, b, l) for i in range(4)] + [dt])
    t = fo.add(T(a), fo.mul(rd(al), fo.sub(T(b), T(a))))
    judge(rep, "gpx", "time_next_point:time", w, t, fo.add(T(l), fo.var(dt)), "the next point is not dt after the last one")
    fl, r, A = run(prog, X + "space_next_point", M, [X + "gpx_lerp", X + "segment_sphere_intersection"])
    a, b, l, dx = list(A.values())[:4]
    al, p, q = lerp_args(prog, r)
    rep.expect(p is a and q is b, "gpx", "space_next_point:segment", w, "the next point is not on the current segment")
    if al.op == "call" and tm.callee_name(al) == X + "segment_sphere_intersection":
        s = argmap_term(prog, X + "segment_sphere_intersection", al)
        for n, x, pt in zip(("start", "end", "centre"), s, (a, b, l)):
            rep.count("gpx")
            ok = x.op == "call" and tm.callee_name(x) == G + "ecef_from_lla"
            if ok:
                g = argmap_term(prog, G + "ecef_from_lla", x)
                ok = g[:2] == [item(pt, const(1)), item(pt, const(2))]
            rep.expect(ok, "gpx", "space_next_point:" + n, w, "the %s is not the geocentric position of its own point" % n)
        rep.expect(s[3] is dx, "gpx", "space_next_point:radius", w, "the step is not the given distance")
    fl, r, A = run(prog, X + "segment_sphere_intersection", M)
    pa, pb, pc, pr = list(A.values())[:4]
    v = [[fo.var("%s%d" % (n, i)) for i in range(3)] for n in "abc"]
    rd = fo.Read(fl, {pa: v[0], pb: v[1], pc: v[2], pr: fo.var("r")})

    class Pos(fo.Read):
        def read(self, t):
            if t.op == "call" and tm.callee_name(t) == "max":
                x = tm.call_parts(t)[1]
                z = [y for y in x if is_const(y) and cval(y) == 0]
                if len(x) == 2 and len(z) == 1:
                    return self([y for y in x if y is not z[0]][0])
            return super().read(t)
    s = Pos(fl, {pa: v[0], pb: v[1], pc: v[2], pr: fo.var("r")})(r)
    if isinstance(s, list):
        raise LookupError("intersection")
    ab = [fo.sub(x, y) for x, y in zip(v[1], v[0])]
    pt = [fo.add(x, fo.mul(s, y)) for x, y in zip(v[0], ab)]
    d2 = fo.add(*[fo.mul(fo.sub(x, c), fo.sub(x, c)) for x, c in zip(pt, v[2])])
    names = {"%s%d" % (n, i) for n in "abc" for i in range(3)} | {"r"}
    if not fo.variables(s) <= names:
        raise LookupError("intersection")
    rep.count("gpx")
    rep.expect(fo.equal(d2, fo.mul(fo.var("r"), fo.var("r"))), "gpx", "segment_sphere_intersection", w, "the point is not on the sphere")
    # the root ahead: derivative of the squared distance along the segment is not negative there
    g = fo.scale(fo.add(*[fo.mul(fo.sub(x, c), y) for x, c, y in zip(pt, v[2], ab)]), 2)
    dot = lambda x, y: fo.add(*[fo.mul(i, j) for i, j in zip(x, y)])
    ca = [fo.sub(x, y) for x, y in zip(v[0], v[2])]
    qa, qb, qc = dot(ab, ab), fo.scale(dot(ab, ca), 2), fo.sub(dot(ca, ca), fo.mul(fo.var("r"), fo.var("r")))
    disc = fo.sqrt(fo.sub(fo.mul(qb, qb), fo.scale(fo.mul(qa, qc), 4)))
    rep.count("gpx")
    rep.expect(not fo.equal(g, fo.neg(disc)), "gpx", "segment_sphere_intersection:side", w, "the intersection taken is the one behind the start")


def samples(prog, rep):
    names = [X + x for x in ("time_distance", "space_distance", "time_next_point", "space_next_point")]
    fl, r, A = run(prog, X + "sample_gpx", {"opensfm.geotag_from_gpx"}, names)
    n = 0
    for e in fl.effects:
        if e.kind == "call" and e.name in names[2:]:
            a, b = argmap_term(prog, e.name, e.result)[:2] if e.result is not None else (None, None)
            if a is None or b is None or b.op != "item":
                continue
            pts, k = b.args
            n += 1
            rep.count("gpx")
            pre = a.args[2] if a.op == "loopphi" else a
            if pre.op == "loopphi":
                rep.bad("gpx", "sample_gpx:segment", "opensfm/geotag_from_gpx.py", "points are sampled from a segment that does not start at the track point before its end")
            elif pre.op == "item" and pre.args[0] is pts:
                rd = fo.Read(fl)
                rep.expect(fo.equal(fo.sub(rd(k), rd(pre.args[1])), fo.const(1)), "gpx", "sample_gpx:segment", "opensfm/geotag_from_gpx.py", "points are sampled from a segment whose ends are not consecutive track points")
    if not n:
        raise LookupError("sampled segments")


def lerp_args(prog, r):
    t = [x for x in leaves(r)]
    if len(t) == 1 and t[0].op == "call" and tm.callee_name(t[0]) == X + "gpx_lerp":
        return argmap_term(prog, X + "gpx_lerp", t[0])[:3]
    raise LookupError("the next point is not interpolated")


class Round(fo.Read):
    """Rounding to printed digits is taken away; int() stays."""

    def call(self, t):
        n = tm.callee_name(t)
        a = tm.call_parts(t)[1]
        if n == "round" and a:
            return self(a[0])
        if n == "int" and len(a) == 1:
            return fo.fun("int", self(a[0]))
        return super().call(t)


def degrees(prog, rep):
    w = "opensfm/geotag_from_gpx.py"
    fl, r, A = run(prog, X + "to_deg", {"opensfm.geotag_from_gpx"})
    v, loc = list(A.values())[:2]
    it = seq_items(fl, r)
    if it is None or len(it) != 4:
        raise LookupError("degrees, minutes and seconds")
    rd = Round(fl)
    d, m, s = [rd(x) for x in it[:3]]
    total = fo.add(d, fo.scale(m, 1 / 60), fo.scale(s, 1 / 3600))
    KNOWN.add(v)
    judge(rep, "tags", "to_deg:value", w, total, fo.fun("abs", fo.var(v)), "degrees, minutes and seconds do not add up to the size of the value")
    zero = const(0)
    neg, pos = mk("cmp", "<", v, zero), mk("cmp", "<", zero, v)
    eq = mk("cmp", "==", v, zero)
    for facts, i, n in (({neg: True, pos: False, eq: False}, 0, "negative"), ({neg: False, pos: True, eq: False}, 1, "positive")):
        x = Fold(facts, None)(it[3])
        rep.count("tags")
        if x.op == "item" and x.args[0] is loc:
            rep.expect(is_const(x.args[1]) and cval(x.args[1]) in (i, i - 2), "tags", "to_deg:" + n, w, "a %s value gets the letter of the other side" % n)


def tags(prog, rep):
    w = "opensfm/geotag_from_gpx.py"
    for fn in ("add_gps_to_exif", "add_exif_using_timestamp"):
        fl, r, A = run(prog, X + fn, {"opensfm.geotag_from_gpx"}, [X + "to_deg", X + "interpolate_lat_lon", X + "get_lat_lon_time"])
        src = {}
        if fn == "add_gps_to_exif":
            for n, p in (("lat", "lat"), ("lon", "lon"), ("bearing", "bearing"), ("elevation", "elevation")):
                src[n] = A.get(p)
        else:
            c = [e for e in fl.effects if e.kind == "call" and e.name == X + "interpolate_lat_lon"]
            if len(c) != 1 or c[0].result is None:
                raise LookupError("position of the image")
            for i, n in enumerate(("lat", "lon", "bearing", "elevation")):
                src[n] = item(c[0].result, const(i))
            a = argmap([x for x in ("points", "t")], c[0])
            rd = Times(fl)
            rep.count("tags")
            tt = rd(a["t"])
            off = A["offset_time"]
            if off in fo.variables(tt):
                rep.expect(fo.equal(fo.diff(tt, off), fo.const(-1)), "tags", fn + ":offset", w, "the time offset is not subtracted from the capture time")
            rep.expect(a["points"] is A["points"], "tags", fn + ":points", w, "the position is not interpolated in the given track")
        if None in src.values():
            raise LookupError("position of " + fn)
        sets = {}
        for e in fl.effects:
            if e.kind == "setitem" and is_const(e.args[0]) and isinstance(cval(e.args[0]), str):
                sets.setdefault(cval(e.args[0]).split(".")[-1], []).append((e.args[1], e))
        for tag, n, letters in (("GPSLatitude", "lat", ("S", "N")), ("GPSLongitude", "lon", ("W", "E"))):
            for v, e in sets.get(tag, ()):
                it = seq_items(fl, v)
                if it is None or len(it) != 3:
                    raise LookupError(tag)
                for i, x in enumerate(it):
                    d = deg_of(prog, fl, fraction(fl, x))
                    rep.count("tags")
                    if d is None:
                        raise LookupError(tag)
                    rep.expect(d[0] is src[n] and d[1] == i, "tags", "%s:%s" % (fn, tag), w, "%s is not written from the degrees, minutes and seconds of its own coordinate" % tag)
            for v, e in sets.get(tag + "Ref", ()):
                d = deg_of(prog, fl, v)
                rep.count("tags")
                if d is None:
                    raise LookupError(tag + "Ref")
                ls = [cval(x) if is_const(x) else None for x in (seq_items(fl, d[2]) or [])]
                rep.expect(d[0] is src[n] and d[1] == 3 and tuple(ls) == letters, "tags", "%s:%sRef" % (fn, tag), w, "%sRef is not the letter of the coordinate's sign" % tag)
            rep.expect(bool(sets.get(tag)) and bool(sets.get(tag + "Ref")), "tags", "%s:%s written" % (fn, tag), w, "%s or its reference is not written" % tag)
        for tag, n in (("GPSImgDirection", "bearing"),):
            for v, e in sets.get(tag, ()):
                judge_simple(rep, fn, tag, w, fo.Read(fl)(fraction_term(fl, v)), fo.var(src[n]))
        for v, e in sets.get("GPSAltitude", ()):
            f = fo.Read(fl)(fraction_term(fl, v))
            judge_simple(rep, fn, "GPSAltitude", w, f, fo.fun("abs", fo.var(src["elevation"])))
        for v, e in sets.get("GPSAltitudeRef", ()):
            z = const(0)
            el = src["elevation"]
            for facts, want in (({mk("cmp", "<", el, z): True}, "1"), ({mk("cmp", "<", el, z): False}, "0")):
                x = Fold(facts, None)(v)
                rep.count("tags")
                if is_const(x):
                    rep.expect(str(cval(x)) == want, "tags", fn + ":GPSAltitudeRef", w, "the altitude reference is not 0 above and 1 below sea level")


def judge_simple(rep, fn, tag, w, got, want):
    rep.count("tags")
    if not fo.equal(got, want):
        if not fo.variables(got) <= fo.variables(want) and fo.variables(got) - fo.variables(want):
            pass
        rep.bad("tags", "%s:%s" % (fn, tag), w, "%s is not written from its own value" % tag)


def fraction(fl, t):
    """The number a fraction stands for, rounding left out: the term whose multiple by the denominator is the numerator."""
    t0 = t
    if t.op == "call" and last(tm.callee_name(t)) in ("make_fraction", "Fraction", "Rational"):
        a = tm.call_parts(t)[1]
        num, den = a[0], a[1]
        f = fo.Read(fl)
        v = fo.div(f(num), f(den))
        if len(v) == 1:
            (m, c), = v.items()
            if len(m) == 1 and m[0][1] == 1 and abs(c - 1) < 1e-9 and fo.ATOMS[m[0][0]][0] == "v":
                return fo.ATOMS[m[0][0]][1]
    return t0


def fraction_term(fl, t):
    if t.op == "call" and last(tm.callee_name(t)) in ("make_fraction", "Fraction", "Rational"):
        a = tm.call_parts(t)[1]
        return mk("bin", "/", a[0], a[1])
    return t


def deg_of(prog, fl, t):
    """(value, index, letters) when t is an entry of to_deg(value, letters)."""
    if t.op == "item" and is_const(t.args[1]) and t.args[0].op == "call" and tm.callee_name(t.args[0]) == X + "to_deg":
        a = argmap_term(prog, X + "to_deg", t.args[0])
        return a[0], cval(t.args[1]), a[1]
    return None
