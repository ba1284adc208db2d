from checks.cams import FACTORY
from checks.util import argmap, cond_leaves, effects, items, lookup, params, run, strip
from sa import terms as tm
from sa import trig
from sa.fold import Fold, worlds
from sa.linalg import Lin
from sa.match import leaves, unfold
from sa.terms import FALSE, TRUE, attr, const, cval, is_const, item, mk, sym

TECHNIQUE = "value-flow analysis under every combination of present tags: each extracted quantity is brought to normal form and compared with the meaning of its tag"
EXPLANATION = (
    "Each extraction function is evaluated abstractly for every combination of tags it looks at; the value it returns is a formula over tag values, "
    "compared as a polynomial (or as a matrix of trigonometric polynomials) with what the tags mean. Tags that are absent must not be read. "
    "Calibrations are followed into the camera factories by parameter name."
)
EX = "opensfm.exif."
K = "opensfm.exif.EXIF"
RH = "opensfm.reconstruction_helpers."
ONLY = {"opensfm.exif"}


def check(prog, rep):
    rep.rule("tags", "a tag that is absent is not read")
    rep.rule("value", "an extracted quantity is what its tags mean")
    rep.rule("time", "capture time is UTC: GPS time, else local time minus its offset")
    rep.rule("opk", "omega, phi, kappa describe the rotation given by yaw, pitch, roll")
    rep.rule("record", "each field of the record holds its own quantity")
    rep.rule("camera", "a camera is built from the calibration of its own projection type, parameter by parameter")
    rep.rule("override", "overrides replace what was extracted")
    rep.rule("measure", "shot measurements are those of the record")
    rep.rule("reference", "the reference is the weighted average of the positions")
    for p in (fraction, degrees, lonlat, altitude, size, focal, sensor, orientation, geo, time, opk, record, camera, calibrations, identity, overrides, measurements, reference, angles, fileSize):
        rep.part(p, prog, rep)
    rep.minimum("value", 10)
    rep.minimum("camera", 5)


def meth(prog, n, opaque=()):
    return run(prog, K + "." + n, ONLY, [K + "." + x if "." not in x else x for x in opaque], self_cls=K)


SELF = sym("self")
TAGS = attr(SELF, "tags")
XMP = attr(SELF, "xmp")


def tag(k):
    return item(TAGS, const(k))


def tval(k, i):
    return item(attr(tag(k), "values"), const(i))


def xmp0(k):
    return item(item(XMP, const(0)), const(k))


def has(k, src=TAGS):
    return mk("cmp", "in", const(k), src)


def read(t):
    """Tags read by a term (subscripts of the tag table)."""
    out = set()
    for z in tm.walk(t):
        if z.op == "item" and z.args[0] is TAGS and is_const(z.args[1]):
            out.add(cval(z.args[1]))
        if z.op == "item" and z.args[0] is item(XMP, const(0)) and is_const(z.args[1]):
            out.add(cval(z.args[1]))
    return out


def asked(t):
    out = []
    for z in tm.walk(t):
        if z.op == "cmp" and z.args[0] == "in" and is_const(z.args[1]) and (z.args[2] is TAGS or z.args[2] is item(XMP, const(0))):
            if cval(z.args[1]) not in out:
                out.append(cval(z.args[1]))
    return out


def world(w, extra=None, decide=None):
    f = {}
    for k, v in w.items():
        f[has(k)] = v
        f[has(k, item(XMP, const(0)))] = v
    f.update(extra or {})

    def dec(c):
        if c.op == "nonempty" and c.args[0] is XMP:
            return any(k.startswith("@") for k, v in w.items() if v)
        if c.op == "exc":
            return False
        if c.op == "cmp" and c.args[0] == "is" and tm.NONE in c.args[1:]:
            o = c.args[1] if c.args[2] is tm.NONE else c.args[2]
            if o.op in ("bin", "un", "item", "attr", "mcall") or (o.op == "call" and tm.callee_name(o) not in (None, "opensfm.exif.eval_frac")):
                return False
        return decide(c) if decide else None
    return Fold(f, dec)


def absent(rep, name, fl, r, where):
    """Under every combination of tags, only tags that are present are read."""
    d = fl.deep(r)
    keys = asked(d)
    for w in worlds(keys, 8):
        t = world(w)(d)
        bad = {k for k in read(t) if not w.get(k, k not in keys and False)}
        bad = {k for k in bad if not any(k == kk and v for kk, v in w.items())}
        rep.expect(not bad, "tags", "%s:%s" % (name, ",".join(sorted(bad))), where, "%s is read when only %s are present" % (", ".join(sorted(bad)), sorted(k for k, v in w.items() if v)))


def sc(fl):
    return Lin(fl, everything=True)


def fraction(prog, rep):
    f = EX + "eval_frac"
    fl, r, A = run(prog, f, ONLY)
    lin = sc(fl)
    v = next(iter(A.values()))
    q = lin.mul(lin.norm(attr(v, "num")), lin.inv(lin.norm(attr(v, "den")), v))
    for x in [y for e in fl.effects if e.kind == "return" for y in leaves(fl.deep(e.args[0]))]:
        rep.expect(x is tm.NONE or (not is_const(x) and lin.norm(x) == q), "value", "fraction", f, "a fraction becomes %s" % unfold(fl, x)[:60])


def degrees(prog, rep):
    f = EX + "gps_to_decimal"
    fl, r, A = run(prog, f, ONLY)
    lin = sc(fl)
    v = A["values"]
    frac = lambda i: lin.mul(lin.norm(attr(item(v, const(i)), "num")), lin.inv(lin.norm(attr(item(v, const(i)), "den")), v))
    base = lin.add(lin.add(frac(0), lin.mul(lin.const(1) and {((), ()): trig.Fraction(1, 60)}, frac(1))), lin.mul({((), ()): trig.Fraction(1, 3600)}, frac(2)))
    for ref, s in (("N", 1), ("E", 1), ("S", -1), ("W", -1)):
        t = world({}, {A["reference"]: const(ref)})(fl.deep(r))
        rep.expect(lin.norm(t) == lin.add({}, base, s), "value", "degrees:" + ref, f, "degrees, minutes, seconds %s become %s" % (ref, unfold(fl, t)[:120]))


COORD = {"lat": ("GPS GPSLatitude", "GPS GPSLatitudeRef", "@drone-dji:Latitude", ("N", "S")),
         "lon": ("GPS GPSLongitude", "GPS GPSLongitudeRef", "@drone-dji:Longitude", ("E", "W"))}


def lonlat(prog, rep):
    f = K + ".extract_lon_lat"
    fl, r, A = meth(prog, "extract_lon_lat")
    d = fl.deep(r)
    absent(rep, "extract_lon_lat", fl, r, f)
    lin = sc(fl)
    d1, d2 = {((), ()): trig.Fraction(1, 60)}, {((), ()): trig.Fraction(1, 3600)}
    for i, c in ((0, "lon"), (1, "lat")):
        t1, rf, dj, dirs = COORD[c]
        for ref in (None,) + dirs:
            w = {"GPS GPSLatitude": True, "GPS GPSLongitude": True, "GPS GPSLatitudeRef": ref is not None, "GPS GPSLongitudeRef": ref is not None, "@drone-dji:Latitude": False, "@drone-dji:Longitude": False}
            ot = COORD["lat" if c == "lon" else "lon"]
            t = world(w, {attr(tag(rf), "values"): const(ref or dirs[0]), attr(tag(ot[1]), "values"): const(ot[3][0])})(d)
            p = part(t, i)
            if p is None:
                raise LookupError("longitude and latitude not followed")
            vals = attr(tag(t1), "values")
            fr = lambda j: lin.mul(lin.norm(attr(item(vals, const(j)), "num")), lin.inv(lin.norm(attr(item(vals, const(j)), "den")), vals))
            want = lin.add({}, lin.add(lin.add(fr(0), lin.mul(d1, fr(1))), lin.mul(d2, fr(2))), -1 if ref == dirs[1] else 1)
            rep.expect(lin.norm(p) == want, "value", "%s:%s" % (c, ref), f, "%s with reference %s is %s" % (c, ref, unfold(fl, p)[:120]))
        for sgn in "+-":
            w = {"GPS GPSLatitude": True, "GPS GPSLongitude": True, "GPS GPSLatitudeRef": True, "GPS GPSLongitudeRef": True, "@drone-dji:Latitude": True, "@drone-dji:Longitude": True}
            x = xmp0(dj)
            ox = xmp0(COORD["lat" if c == "lon" else "lon"][2])
            t = world(w, {item(x, const(0)): const(sgn), item(ox, const(0)): const("+")})(d)
            p = part(t, i)
            rest = mk("slice_of", x, const(1), tm.NONE, tm.NONE)
            got = lin.norm(p) if p is not None else None
            ok = got == lin.norm(x) or got == lin.add({}, lin.norm(rest), 1 if sgn == "+" else -1)
            rep.expect(ok, "value", "%s:dji:%s" % (c, sgn), f, "%s of a DJI image is %s" % (c, unfold(fl, p)[:120] if p is not None else "?"))


def part(t, i):
    if t.op == "tup" and len(t.args) > i:
        return t.args[i]
    return None


def altitude(prog, rep):
    f = K + ".extract_altitude"
    fl, r, A = meth(prog, "extract_altitude")
    d = fl.deep(r)
    absent(rep, "extract_altitude", fl, r, f)
    lin = sc(fl)
    v = tval("GPS GPSAltitude", 0)
    fr = lin.mul(lin.norm(attr(v, "num")), lin.inv(lin.norm(attr(v, "den")), v))
    rv = tval("GPS GPSAltitudeRef", 0)

    def kind(k):
        def dec(c):
            if c.op == "call" and tm.callee_name(c) == "isinstance":
                return k in tm.show(tm.call_parts(c)[1][1])
            return None
        return dec
    for ref, s in ((None, 1), (0, 1), (1, -1)):
        w = {"@drone-dji:AbsoluteAltitude": False, "GPS GPSAltitude": True, "GPS GPSAltitudeRef": ref is not None}
        t = world(w, {rv: const(ref)}, kind("Ratio"))(d)
        rep.expect(lin.norm(t) == lin.add({}, fr, s), "value", "altitude:%s" % ref, f, "the altitude with reference %s is %s" % (ref, unfold(fl, t)[:100]))
        t = world(w, {rv: const(ref)}, kind("int"))(d)
        rep.expect(lin.norm(t) == lin.add({}, lin.norm(v), s), "value", "altitude:int:%s" % ref, f, "an integer altitude with reference %s is %s" % (ref, unfold(fl, t)[:100]))
    t = world({"@drone-dji:AbsoluteAltitude": True, "GPS GPSAltitude": True, "GPS GPSAltitudeRef": True}, {rv: const(1)})(d)
    rep.expect(lin.norm(t) == lin.norm(xmp0("@drone-dji:AbsoluteAltitude")), "value", "altitude:dji", f, "the altitude of a DJI image is %s" % unfold(fl, t)[:100])
    t = world({"@drone-dji:AbsoluteAltitude": False, "GPS GPSAltitude": False, "GPS GPSAltitudeRef": False})(d)
    rep.expect(t is tm.NONE, "value", "altitude:none", f, "without tag the altitude is %s" % unfold(fl, t)[:60])


def size(prog, rep):
    f = K + ".extract_image_size"
    fl, r, A = meth(prog, "extract_image_size")
    d = fl.deep(r)
    absent(rep, "extract_image_size", fl, r, f)
    a = ("EXIF ExifImageWidth", "EXIF ExifImageLength")
    b = ("Image ImageWidth", "Image ImageLength")
    use = attr(SELF, "use_exif_size")
    for w in worlds(a + b):
        for u in (True, False):
            t = world(w, {use: u})(d)
            src = next((p for p in (a, b) if u and all(w[k] for k in p)), None)
            for i, n in enumerate(("width", "height")):
                p = part(t, i)
                if p is None:
                    raise LookupError("image size not followed")
                p = strip_int(p)
                if src:
                    ok = p is tval(src[i], 0)
                else:
                    ok = p.op == "item" and is_const(p.args[1]) and cval(p.args[1]) == 1 - i and tm.contains(p, lambda z: z is attr(SELF, "image_size_loader") or (z.op == "mcall" and z.args[1] == "image_size_loader"))
                rep.expect(ok, "value", "size:%s:%s" % (n, src[0].split()[0] if src else "image"), f, "with %s the %s is %s" % (sorted(k for k in w if w[k]), n, unfold(fl, p)[:80]))


def strip_int(t):
    while t.op == "call" and tm.callee_name(t) in ("int", "float"):
        t = tm.call_parts(t)[1][0]
    return t


def fileSize(prog, rep):
    """The loader returns height and width, in this order."""
    f = "opensfm.io.image_size_from_fileobject"
    if lookup(prog, f) is None:
        return
    fl, r, A = run(prog, f, {"opensfm.io"}, ["opensfm.io.imread"])
    for leaf, g in cond_leaves(r):
        if leaf.op == "tup" and len(leaf.args) == 2:
            ix = [cval(x.args[1]) if x.op == "item" and x.args[0].op == "attr" and x.args[0].args[1] == "size" and is_const(x.args[1]) else None for x in leaf.args]
            if None in ix:
                ix = [1 - cval(x.args[1]) if x.op == "item" and x.args[0].op == "attr" and x.args[0].args[1] == "shape" and is_const(x.args[1]) else None for x in leaf.args]
            rep.expect(ix == [1, 0], "value", "size:loader", f, "the size is returned as %s" % unfold(fl, leaf)[:80])


def focal(prog, rep):
    f = EX + "compute_focal"
    fl, r, A = run(prog, f, ONLY, ["opensfm.sensors.sensor_data"])
    d = fl.deep(r)
    lin = sc(fl)
    f35, fo, sw, ss = A["focal_35"], A["focal"], A["sensor_width"], A["sensor_string"]
    cases = [("35mm", {mk("cmp", "is", tm.NONE, f35): False, mk("cmp", "is", f35, tm.NONE): False, mk("cmp", "<", const(0), f35): True}, "35"),
             ("zero", {mk("cmp", "is", tm.NONE, f35): False, mk("cmp", "is", f35, tm.NONE): False, mk("cmp", "<", const(0), f35): False, sw: True, fo: True}, "sw"),
             ("sensor", {f35: tm.NONE, sw: True, fo: True}, "sw"), ("lens", {f35: tm.NONE, sw: False, fo: True, ss: True}, "db"), ("none", {f35: tm.NONE, sw: True, fo: False}, "0")]
    c36 = lin.const(36)
    for name, facts, kind in cases:
        keep = {k: v for k, v in facts.items() if not isinstance(v, bool) or k.op in ("cmp",)}
        truths = {k: v for k, v in facts.items() if isinstance(v, bool) and k.op != "cmp"}

        def dec(c):
            if c in truths:
                return truths[c]
            if c.op in ("mcall", "item") and tm.contains(c, lambda z: z is ss):
                return True
            return None
        F = TruthFold(keep, dec, truths)
        t = F(d)
        a, b = part(t, 0), part(t, 1)
        if a is None:
            raise LookupError("focal not followed")
        if kind == "35":
            ok = a is f35 and lin.mul(c36, lin.norm(b)) == lin.norm(f35)
        elif kind == "sw":
            w = lin.mul(lin.norm(fo), lin.inv(lin.norm(sw), sw))
            ok = lin.norm(b) == w and lin.norm(a) == lin.mul(c36, w)
        elif kind == "db":
            w = [z for z in tm.walk(b) if z.op in ("mcall", "item") and tm.contains(z, lambda y: y is ss)]
            ok = bool(w) and lin.norm(b) == lin.mul(lin.norm(fo), lin.inv(lin.norm(w[0]), fo)) and lin.norm(a) == lin.mul(c36, lin.norm(b)) and "sensor_data" in tm.show(w[0], 12)
        else:
            ok = is_const(a) and is_const(b) and cval(a) == 0 and cval(b) == 0
        rep.expect(ok, "value", "focal:" + name, f, "the focal is (%s, %s)" % (unfold(fl, a)[:60], unfold(fl, b)[:60]))
    f = K + ".extract_focal"
    fl, r, A = meth(prog, "extract_focal", ["extract_sensor_width", "extract_make", "extract_model", EX + "compute_focal", EX + "get_tag_as_float", EX + "sensor_string"])
    for e in effects(fl, ("call",), "compute_focal"):
        a = argmap(params(lookup(prog, EX + "compute_focal")), e)
        for p, k in (("focal_35", "EXIF FocalLengthIn35mmFilm"), ("focal", "EXIF FocalLength")):
            lits = {cval(z) for z in tm.walk(fl.deep(a[p])) if is_const(z) and isinstance(cval(z), str)}
            rep.expect(k in lits and not [x for x in lits if x.startswith("EXIF ") and x != k], "value", "focal:arg:" + p, e.where, "%s is read from %s" % (p, sorted(lits)))
        rep.expect(tm.contains(fl.deep(a["sensor_width"]), lambda z: z.op in ("mcall", "call") and "extract_sensor_width" in tm.show(z, 4)), "value", "focal:arg:width", e.where, "the sensor width is %s" % unfold(fl, a["sensor_width"])[:60])
        s = fl.deep(a["sensor_string"])
        sa = [z for z in tm.walk(s) if z.op == "call" and (tm.callee_name(z) or "").endswith("sensor_string")]
        if sa:
            ps = tm.call_parts(sa[0])
            v = list(ps[2].values()) if not ps[1] else ps[1]
            m = {k: tm.show(x) for k, x in ps[2].items()}
            rep.expect("make" in m.get("make", tm.show(v[0])) and "model" in m.get("model", tm.show(v[-1])), "value", "focal:arg:sensor", e.where, "the sensor is looked up as %s" % unfold(fl, s)[:80])
    f = EX + "get_tag_as_float"
    fl, r, A = run(prog, f, ONLY)
    lin = sc(fl)
    x = item(attr(item(A["tags"], A["key"]), "values"), A["index"])
    ins = lambda b: (lambda c: b if c.op == "call" and tm.callee_name(c) == "isinstance" else (True if c.op == "cmp" and c.args[0] == "in" else (False if c.op == "cmp" and c.args[0] == "is" else None)))
    t = world({}, None, ins(True))(fl.deep(r))
    rep.expect(lin.norm(t) == lin.mul(lin.norm(attr(x, "num")), lin.inv(lin.norm(attr(x, "den")), x)), "value", "tag:ratio", f, "a rational tag is %s" % unfold(fl, t)[:80])
    t = world({}, None, ins(False))(fl.deep(r))
    rep.expect(strip_int(t) is x, "value", "tag:number", f, "a tag is %s" % unfold(fl, t)[:80])


class TruthFold(Fold):
    """Facts about the truth of parameters, which keep their value elsewhere."""

    def __init__(self, facts, decide, truths):
        super().__init__(facts, decide)
        self.truths = truths

    def truth(self, c):
        if c in self.truths:
            return TRUE if self.truths[c] else FALSE
        return super().truth(c)


def sensor(prog, rep):
    f = K + ".extract_sensor_width"
    fl, r, A = meth(prog, "extract_sensor_width", ["extract_image_size"])
    d = fl.deep(r)
    absent(rep, "extract_sensor_width", fl, r, f)
    lin = sc(fl)
    assigns = prog.modules["opensfm.exif"].assigns
    X = tval("EXIF FocalPlaneXResolution", 0)
    for unit, mm in ((2, "25.4"), (3, "10"), (4, "1"), (5, "0.001")):
        def dec(c):
            if c.op == "cmp" and c.args[0] == "<":
                # the resolution is positive
                z = c.args[1] if is_const(c.args[1]) else c.args[2]
                return z is c.args[1] if is_const(z) and cval(z) == 0 else None
            if c.op == "call" and tm.callee_name(c) == "isinstance":
                return False
            if c.op == "glob" or c.op == "sym":
                return True
            return None
        w = {"EXIF FocalPlaneResolutionUnit": True, "EXIF FocalPlaneXResolution": True, "EXIF FocalPlaneYResolution": True}
        t = world(w, {tval("EXIF FocalPlaneResolutionUnit", 0): const(unit)}, dec)(d)
        t = globals_of(t, assigns)
        ws = [z for z in tm.walk(t) if z.op == "item" and "extract_image_size" in tm.show(z.args[0], 6)]
        ok = len(set(ws)) == 1 and ws[0].args[1] is const(0)
        want = None
        if ok:
            want = lin.mul(lin.mul(lin.norm(ws[0]), {((), ()): trig.Fraction(mm)}), lin.inv(lin.norm(X), X))
        rep.expect(ok and lin.norm(t) == want, "value", "sensor:%d" % unit, f, "the sensor width with resolution unit %d is %s" % (unit, unfold(fl, t)[:120]))


def globals_of(t, assigns):
    import ast
    sub = {}
    for z in tm.walk(t):
        if z.op in ("glob", "global") or (z.op == "ext" and str(z.args[0]).startswith("opensfm.exif.")):
            n = str(z.args[0]).split(".")[-1]
            v = assigns.get(n)
            v = v[-1] if isinstance(v, list) and v else v
            v = getattr(v, "value", v) if isinstance(v, (ast.Assign, ast.AnnAssign)) else v
            if isinstance(v, ast.Constant):
                sub[z] = const(v.value)
    return Fold(sub)(t) if sub else t


def orientation(prog, rep):
    f = K + ".extract_orientation"
    fl, r, A = meth(prog, "extract_orientation")
    d = fl.deep(r)
    t = world({"Image Orientation": False})(d)
    rep.expect(is_const(t) and cval(t) == 1, "value", "orientation:default", f, "without tag the orientation is %s" % unfold(fl, t)[:60])

    def dec(c):
        if c.op == "cmp" and c.args[0] in ("is", "==") and any(z.op == "call" and tm.callee_name(z) == "type" for z in c.args[1:]):
            return True
        if c.op == "call" and tm.callee_name(c) == "isinstance":
            return True
        if c.op == "cmp" and c.args[0] == "==" and const(0) in c.args[1:]:
            return False
        if c.op == "cmp" and c.args[0] == "<" and is_const(c.args[1]) and cval(c.args[1]) in (0,):
            return True
        return None
    t = world({"Image Orientation": True}, None, dec)(d)
    ks = items(t)[1]
    rep.expect(ks and is_const(ks[-1]) and cval(ks[-1]) == 0 and tm.contains(t, lambda z: z is const("Image Orientation")) and not tm.contains(t, lambda z: z.op == "bin"), "value", "orientation", f, "the orientation is %s" % unfold(fl, t)[:80])


def geo(prog, rep):
    f = K + ".extract_geo"
    fl, r, A = meth(prog, "extract_geo", ["extract_altitude", "extract_dop", "extract_lon_lat"])
    h = fl.h(strip(r))
    if h is None:
        raise LookupError("extract_geo does not return a dictionary")
    seen = {}
    for x in fl.live(h):
        if x.key is not None and is_const(x.key):
            seen.setdefault(cval(x.key), []).append(x)
    src = {"latitude": ("extract_lon_lat", 1), "longitude": ("extract_lon_lat", 0), "altitude": ("extract_altitude", None), "dop": ("extract_dop", None)}
    for k, (m, i) in src.items():
        rep.expect(k in seen, "record", "gps:" + k, f, "%s is not recorded" % k)
        for x in seen.get(k, []):
            v = fl.deep(x.val)
            own = [z for z in tm.walk(v) if z.op in ("mcall", "call") and m in tm.show(z, 3)]
            ok = bool(own) and (i is None or (v.op == "item" and is_const(v.args[1]) and cval(v.args[1]) == i))
            rep.expect(ok, "record", "gps:" + k, f, "%s is %s" % (k, unfold(fl, x.val)[:80]))
            gs = [c for c, p in x.guards if not p and c.op == "cmp" and c.args[0] == "is" and tm.NONE in c.args[1:]]
            src_none = [c for c in gs if m in tm.show(c, 8)]
            rep.expect(bool(src_none), "record", "gps:%s:known" % k, f, "%s is recorded when unknown" % k)
            if i is not None:
                both = {cval(y.args[1]) for c in src_none for y in c.args[1:] if y.op == "item" and is_const(y.args[1])}
                pairs = {y for c in src_none for y in c.args[1:] if y is not tm.NONE and y.op != "item"}
                rep.expect(both >= {0, 1} or bool(pairs), "record", "gps:%s:both" % k, f, "%s is recorded without its other coordinate" % k)
            if k == "altitude" and v is not own[0] if own else False:
                name = tm.callee_name(v) if v.op == "call" else None
                rep.expect(name in ("min", "numpy.minimum") or v.op == "ite", "record", "gps:altitude:cap", f, "the altitude is %s" % unfold(fl, x.val)[:80])


TIMES = [("EXIF DateTimeOriginal", "EXIF SubSecTimeOriginal", "EXIF Tag 0x9011"), ("EXIF DateTimeDigitized", "EXIF SubSecTimeDigitized", "EXIF Tag 0x9012"), ("Image DateTime", "Image SubSecTime", "Image Tag 0x9010")]


def time(prog, rep):
    f = K + ".extract_capture_time"
    fl, r, A = meth(prog, "extract_capture_time")
    d = fl.deep(r)
    absent_time(rep, fl, d, f)
    allk = [k for t in TIMES for k in t] + ["GPS GPSDate", "GPS GPSTimeStamp"]

    def dec(c):
        if c.op == "call" and tm.callee_name(c) == "isinstance":
            return False
        return None
    for n, (dt, ss, off) in enumerate(TIMES):
        for sub in (True, False):
            for o in (True, False):
                w = {k: False for k in allk}
                # the tags of later sources are present too: they must not be used
                for later in TIMES[n:]:
                    w.update({later[0]: True, later[1]: sub, later[2]: o})
                t = world(w, None, dec)(d)
                local(rep, fl, f, t, dt, ss if sub else None, off if o else None)
    w = {k: True for k in allk}
    t = world(w, None, dec)(d)
    got = [z for z in tm.walk(t) if z.op == "item" and z.args[0] is attr(tag("GPS GPSTimeStamp"), "values")]
    order = [cval(z.args[1]) for z in seq_in(t, lambda z: z in got)]
    first = []
    for x in order:
        if x not in first:
            first.append(x)
    rep.expect(first == [0, 1, 2] and read(t) == {"GPS GPSDate", "GPS GPSTimeStamp"}, "time", "gps", f, "the GPS time is built from %s, parts %s of the time stamp" % (sorted(read(t)), first))
    rep.expect(epoch(t), "time", "gps:epoch", f, "the GPS time is %s" % unfold(fl, t)[:100])
    t = world({k: False for k in allk})(d)
    rep.expect(is_const(t) and cval(t) == 0, "time", "none", f, "without tags the capture time is %s" % unfold(fl, t)[:60])


def absent_time(rep, fl, d, f):
    keys = asked(d)
    import itertools
    for combo in itertools.product((0, 1), repeat=4):
        w = {k: False for k in keys}
        for i, t in enumerate(TIMES):
            if combo[i]:
                w[t[0]] = True
        if combo[3]:
            w["GPS GPSDate"] = True
        t = world(w)(d)
        bad = {k for k in read(t) if not w.get(k)}
        rep.expect(not bad, "tags", "capture_time:" + ",".join(sorted(bad)), f, "%s read when absent" % sorted(bad))


def seq_in(t, pred):
    out = []

    def go(z):
        if not isinstance(z, tm.T):
            return
        if pred(z):
            out.append(z)
            return
        for a in z.args:
            go(a)
    go(t)
    return out


def epoch(t):
    """(x - datetime(1970, 1, 1)).total_seconds()"""
    z = t
    if z.op == "mcall" and z.args[1] == "total_seconds":
        z = z.args[0]
        if z.op == "bin" and z.args[0] == "-" and len(z.args) == 3:
            b = z.args[2]
            n, a = (tm.callee_name(b), tm.call_parts(b)[1]) if b.op == "call" else (None, [])
            return n == "datetime.datetime" and [cval(x) for x in a if is_const(x)][:3] == [1970, 1, 1]
    if t.op == "attr" and t.args[1] in ("seconds", "microseconds", "days"):
        return False
    return None if t.op != "mcall" else False


def local(rep, fl, f, t, dt, ss, off):
    name = dt + ("+subsec" if ss else "") + ("+offset" if off else "")
    want = {dt} | ({ss} if ss else set()) | ({off} if off else set())
    rep.expect(read(t) == want, "time", name, f, "the capture time is read from %s" % sorted(read(t)))
    e = epoch(t)
    if e is None:
        raise LookupError("capture time not recognised")
    rep.expect(e, "time", name + ":epoch", f, "the capture time is %s" % unfold(fl, t)[:100])
    if not off:
        rep.expect(not tm.contains(t, lambda z: z.op == "call" and (tm.callee_name(z) or "").endswith("timedelta")), "time", name + ":shift", f, "a time without offset is shifted")
        return
    base = t.args[0].args[1] if e else t
    td = [z for z in tm.walk(base) if z.op == "call" and (tm.callee_name(z) or "").endswith("timedelta")]
    if len(set(td)) != 1 or base.op != "bin" or base.args[0] not in "+-":
        rep.bad("time", name + ":shift", f, "the offset is not subtracted: %s" % unfold(fl, base)[:100])
        return
    direction = 1 if base.args[0] == "+" else -1
    mult = Lin(fl, everything=True)
    o = attr(tag(off), "values")
    p = mult.norm(base)
    kw = tm.call_parts(td[0])[2]
    if tm.call_parts(td[0])[1] or set(kw) - {"hours", "minutes"}:
        raise LookupError("offset not recognised")
    # coefficient of the timedelta in the sum, times the signs inside
    co = [(m, c) for m, c in p.items() if any(x is td[0] for x, _ in (m[0] + m[1]))]
    if len(co) != 1:
        raise LookupError("offset not recognised")
    (m, c) = co[0]
    factors = [x for x, _ in m[0] + m[1] if x is not td[0]]
    for part_, lo, hi in (("hours", 0, 3), ("minutes", 4, 6)):
        if part_ not in kw:
            rep.bad("time", "%s:%s" % (name, part_), f, "the %s of the offset are ignored" % part_)
            continue
        q = Lin(fl, everything=True, keep={"int"}).norm(kw[part_])
        if len(q) != 1:
            raise LookupError("offset not recognised")
        (m2, c2), = q.items()
        atoms = [x for x, _ in m2[0] + m2[1]]
        sl = [z for x in atoms for z in tm.walk(x) if z.op == "slice_of" and z.args[0] is o]
        rng = {(cval(z.args[1]) if is_const(z.args[1]) else None, cval(z.args[2]) if is_const(z.args[2]) else None) for z in sl}
        signed = any(z.op == "item" and z.args[0] is o and z.args[1] is const(0) for x in atoms + factors for z in tm.walk(x)) or any(a in (0, None) for a, b in rng) or any(z.op == "mcall" and z.args[1] == "startswith" for x in atoms + factors for z in tm.walk(x)) or any(z.op == "item" and z.args[1] is const(0) for z in tm.walk(base))
        own = {("hours" if (b is not None and b <= 3) else "minutes") for a, b in rng if (a, b) != (0, 1)}
        rep.expect(own == {part_}, "time", "%s:%s:from" % (name, part_), f, "the %s of the offset are %s" % (part_, unfold(fl, kw[part_])[:80]))
        if (0, 1) in rng or any(z.op == "item" and z.args[0] is o for x in atoms for z in tm.walk(x)):
            first, last = (1, 3) if part_ == "hours" else (4, 6)
        else:
            first, last = (0, 3) if part_ == "hours" else (4, 6)
        digits = [(a, b) for a, b in rng if (a, b) != (0, 1)]
        rep.expect(all(a in (first, 1 if part_ == "hours" else 4, None if part_ == "hours" else 4) and b in (last, None if part_ == "minutes" else 3) for a, b in digits), "time", "%s:%s:digits" % (name, part_), f, "the %s of the offset are characters %s" % (part_, digits))
        rep.expect(signed, "time", "%s:%s:sign" % (name, part_), f, "the %s of the offset lose its sign: %s" % (part_, unfold(fl, kw[part_])[:80]))
        if not factors and len(atoms) == 1 and not tm.contains(atoms[0], lambda z: z.op == "ite"):
            rep.expect(c * c2 < 0, "time", "%s:%s:direction" % (name, part_), f, "the %s of the offset are added" % part_)


def opk(prog, rep):
    f = K + ".extract_opk"
    fl, r, A = meth(prog, "extract_opk", ["opensfm.geo.ecef_from_lla"])
    n = 0
    h = None
    for leaf, g in cond_leaves(r):
        if leaf.op == "obj":
            h = fl.h(leaf)
    if h is None:
        raise LookupError("opk angles not followed")
    vals = {cval(x.key): x.val for x in fl.live(h) if x.key is not None and is_const(x.key)}
    rep.expect({"omega", "phi", "kappa"} <= set(vals), "opk", "fields", f, "the angles are stored as %s" % sorted(map(str, vals)))
    mats = set()
    want = {"omega": ("arctan2", [(-1, 1, 2), (1, 2, 2)]), "phi": ("arcsin", [(1, 0, 2)]), "kappa": ("arctan2", [(-1, 0, 1), (1, 0, 0)])}
    for k, (fn, ent) in want.items():
        v = vals.get(k)
        if v is None:
            continue
        deg = v.op == "call" and (tm.callee_name(v) or "").split(".")[-1] in ("degrees", "rad2deg")
        rep.expect(deg, "opk", k + ":degrees", f, "%s is stored as %s" % (k, unfold(fl, v)[:80]))
        a = tm.call_parts(v)[1][0] if deg else v
        name = (tm.callee_name(a) or "").split(".")[-1] if a.op == "call" else None
        if name is None:
            raise LookupError("opk angles not followed")
        got = [entry(x) for x in tm.call_parts(a)[1]]
        rep.expect(name in (fn, fn.replace("arc", "a")) and [(s, i, j) for _, s, i, j in got] == ent, "opk", k, f, "%s is %s" % (k, unfold(fl, a)[:120]))
        mats |= {m for m, _, _, _ in got}
    if len(mats) != 1:
        rep.bad("opk", "matrix", f, "the angles come from several matrices")
        return
    M = mats.pop()
    # cen . cnb . cbb
    lin = Lin(fl)
    p = lin.norm(M)
    if len(p) != 1:
        raise LookupError("rotation not followed")
    ((s, fac), c), = p.items()
    if len(fac) != 3 or s or c != 1:
        raise LookupError("rotation not followed")
    ang = {}
    for e in fl.effects:
        if e.kind == "call" and (e.name or "").split(".")[-1] in ("radians", "deg2rad"):
            for i, nme in enumerate("ypr"):
                ang[item(e.result, const(i))] = nme
    for z in tm.walk(fl.deep(M)):
        if z.op == "call" and (tm.callee_name(z) or "").split(".")[-1] in ("radians", "deg2rad"):
            for i, nme in enumerate("ypr"):
                ang[item(z, const(i))] = nme
    for z in {z for z in tm.walk(fl.deep(M)) if z.op == "call" and (tm.callee_name(z) or "").split(".")[-1] in ("sin", "cos")}:
        rep.expect(tm.contains(z, lambda y: y.op in ("call", "ext") and ((tm.callee_name(y) if y.op == "call" else str(y.args[0])) or "").split(".")[-1] in ("radians", "deg2rad", "pi")), "opk", "radians", f, "the sine or cosine of degrees: %s" % unfold(fl, z)[:80])
    if not ang:
        raise LookupError("angles not followed")
    tr = trig.Mat(fl, ang)
    N = tr(fac[1][0])
    B = tr(fac[2][0])
    if fac[1][1] == "T":
        N = trig.transpose(N)
    exp = trig.mm(trig.mm(trig.rot("z", "y"), trig.rot("y", "p")), trig.rot("x", "r"))
    if not isinstance(N, list) or len(N) != 3:
        raise LookupError("rotation not followed")
    for i in range(3):
        for j in range(3):
            rep.expect(N[i][j] == exp[i][j], "opk", "ypr:%d%d" % (i, j), f, "entry (%d, %d) of the yaw-pitch-roll rotation is wrong" % (i, j))
    o = trig.const(1)
    rep.expect(B == [[{}, o, {}], [o, {}, {}], [{}, {}, trig.const(-1)]], "opk", "axes", f, "the image axes are exchanged with the body axes differently")
    # columns of cen: north, cross(down, north), down
    cols = fl.h(fac[0][0])
    cen = seq_terms(fl, fac[0][0])
    if cen is None or len(cen) != 3:
        raise LookupError("local frame not followed")
    rep.expect(fac[0][1] == "T", "opk", "frame:columns", f, "the axes of the local frame are not its columns")
    z = seq_terms(fl, cen[2])
    rep.expect(z is not None and [cval(x) for x in z if is_const(x)] == [0, 0, -1], "opk", "frame:down", f, "the vertical axis is %s" % unfold(fl, cen[2])[:60])
    cr = cen[1]
    ok = cr.op == "call" and (tm.callee_name(cr) or "").endswith("cross") and [same_arr(fl, x, y) for x, y in zip(tm.call_parts(cr)[1], (cen[2], cen[0]))] == [True, True]
    rep.expect(ok, "opk", "frame:east", f, "the second axis is %s" % unfold(fl, cr)[:80])
    # north: the difference of a position further north and one further south
    es = effects(fl, ("call",), "ecef_from_lla")
    seen = []
    for e in es:
        a = argmap(["lat", "lon", "alt"], e)
        l2 = Lin(fl, everything=True)
        for k, n_ in (("lat", "latitude"), ("lon", "longitude")):
            ks = {cval(y.args[1]) for y in tm.walk(a[k]) if y.op == "item" and is_const(y.args[1])}
            rep.expect(ks == {n_}, "opk", "frame:" + k, e.where, "%s of the position is %s" % (k, unfold(fl, a[k])[:60]))
        p2 = l2.norm(a["lat"])
        seen.append((e.result, p2.get(((), ()), 0)))
    ks = [k for x, k in seen]
    rep.expect(len(set(ks)) > 1, "opk", "frame:distinct", f, "the north axis is the difference of equal latitudes")
    ups = [x for x, k in seen if k == max(ks) > min(ks)]
    downs = [x for x, k in seen if k == min(ks) < max(ks)]
    if len(ups) == 1 and len(downs) == 1:
        sides = lambda z: tm.contains(fl.deep(z), lambda y: y is ups[0]), lambda z: tm.contains(fl.deep(z), lambda y: y is downs[0])
        up, down = sides
        dif = [z for z in tm.walk(fl.deep(cen[0])) if z.op == "bin" and z.args[0] == "-" and ((up(z.args[1]) and down(z.args[2])) or (down(z.args[1]) and up(z.args[2])))]
        for z in dif:
            rep.expect(up(z.args[1]) and not down(z.args[1]) and down(z.args[2]) and not up(z.args[2]), "opk", "frame:north", f, "the north axis is %s" % unfold(fl, z)[:80])
    # the angles read
    for k, src in (("camera", ("@Camera:Yaw", "@Camera:Pitch", "@Camera:Roll")), ("dji", ("@drone-dji:GimbalYawDegree", "@drone-dji:GimbalPitchDegree", "@drone-dji:GimbalRollDegree"))):
        hits = [h2 for h2 in fl.heap.values() if h2.kind == "list" and [cval(x.val.args[2 + 0].args[1]) if False else None for x in ()] == []]
        found = None
        for h2 in hits:
            el = [x.val for x in h2.log if x.kind == "add"]
            names = [[cval(z.args[1]) for z in tm.walk(v) if z.op == "item" and z.args[0] is item(XMP, const(0)) and is_const(z.args[1])] if isinstance(v, tm.T) else [] for v in el]
            flat = [n[0] for n in names if len(n) == 1]
            if len(flat) == 3 and set(flat) == set(src):
                found = flat
        if found is not None:
            rep.expect(tuple(found) == src, "opk", "read:" + k, f, "yaw, pitch, roll are read from %s" % found)
    gim = lambda z: {cval(y) for y in tm.walk(fl.deep(z)) if is_const(y) and isinstance(cval(y), str) and "Gimbal" in cval(y)}
    sums = []
    for z in {id(z): z for v in [x.val for h2 in fl.heap.values() for x in h2.log] + [y for e in fl.effects for y in e.args] for z in (tm.walk(v) if isinstance(v, tm.T) else ())}.values():
        if z.op == "bin" and z.args[0] in "+-" and any(is_const(y) and cval(y) == 90 for y in z.args[1:]):
            g = gim(z)
            if g:
                sums.append((z.args[0] == "+", g))
    for e in fl.effects:
        if e.kind == "aug" and e.name in "+-" and e.recv is not None and any(is_const(y) and cval(y) == 90 for y in e.args):
            g = gim(e.recv)
            if g:
                sums.append((e.name == "+", g))
        if e.kind == "setitem" and isinstance(e.args[1], tm.T) and any(z.op == "bin" and any(is_const(y) and cval(y) == 90 for y in z.args[1:]) and gim(z) for z in tm.walk(e.args[1])):
            rep.expect(is_const(e.args[0]) and cval(e.args[0]) in (1, -2), "opk", "dji:where", e.where, "the offset angle replaces entry %s" % unfold(fl, e.args[0])[:20])
    rep.expect(bool(sums), "opk", "dji:offset", f, "the pitch of DJI gimbals is not offset by 90 degrees")
    for ok, g in sums:
        rep.expect(ok and g == {"@drone-dji:GimbalPitchDegree"}, "opk", "dji:offset", f, "90 degrees are %s %s" % ("added to" if ok else "subtracted from", sorted(g)))


def same_arr(fl, x, y):
    if x is y:
        return True
    a, b = seq_terms(fl, x), seq_terms(fl, y)
    return a is not None and b is not None and len(a) == len(b) and all(p is q for p, q in zip(a, b))


def seq_terms(fl, t):
    if t.op == "attr" and t.args[1] == "T":
        inner = seq_terms(fl, t.args[0])
        # transposing a vector does nothing
        return inner if inner is not None and all(seq_terms(fl, x) is None for x in inner) else None
    return trig.Mat(fl).seq(t) if t.op in ("obj", "tup") else (seq_terms(fl, tm.call_parts(t)[1][0]) if t.op == "call" and tm.callee_name(t) in trig.ARR and tm.call_parts(t)[1] else None)


def entry(t):
    s = 1
    if t.op == "un" and t.args[0] == "-":
        s, t = -1, t.args[1]
    base, ks = items(t)
    if len(ks) == 1 and ks[0].op == "tup":
        ks = list(ks[0].args)
    if len(ks) != 2 or not all(is_const(k) for k in ks):
        raise LookupError("opk angles not followed")
    return base, s, cval(ks[0]), cval(ks[1])


def record(prog, rep):
    f = K + ".extract_exif"
    ms = {"make": ("extract_make", None), "model": ("extract_model", None), "width": ("extract_image_size", 0), "height": ("extract_image_size", 1), "projection_type": ("extract_projection_type", None),
          "focal_ratio": ("extract_focal", 1), "orientation": ("extract_orientation", None), "capture_time": ("extract_capture_time", None), "gps": ("extract_geo", None), "opk": ("extract_opk", None)}
    fl, r, A = meth(prog, "extract_exif", sorted({m for m, _ in ms.values()}))
    h = fl.h(strip(r))
    if h is None:
        raise LookupError("record not followed")
    vals = {}
    for x in fl.live(h):
        if x.key is not None and is_const(x.key):
            vals[cval(x.key)] = x
    for k, (m, i) in ms.items():
        x = vals.get(k)
        rep.expect(x is not None, "record", k, f, "%s is not recorded" % k)
        if x is None:
            continue
        v = strip(x.val)
        want_call = v if i is None else (v.args[0] if v.op == "item" and is_const(v.args[1]) and cval(v.args[1]) == i else None)
        ok = want_call is not None and want_call.op in ("mcall", "call") and m in tm.show(want_call, 2)[:60]
        rep.expect(ok, "record", k, f, "%s is %s" % (k, unfold(fl, x.val)[:80]))
    for e in effects(fl, ("call", "mcall"), "extract_opk"):
        a = list(argmap(["geo"], e).values())
        rep.expect(a and "extract_geo" in tm.show(a[0], 4), "record", "opk:geo", e.where, "the angles are computed at %s" % (unfold(fl, a[0])[:60] if a else "?"))


def identity(prog, rep):
    """The camera identifier names make, model, size, projection and focal, in this order."""
    f = EX + "camera_id_"
    if lookup(prog, f) is None:
        return
    fl, r, A = run(prog, f, ONLY)
    order = []
    for z in seq_in(fl.deep(r), lambda z: z in A.values()):
        n = next(k for k, v in A.items() if v is z)
        if n not in order:
            order.append(n)
    need = {"make", "model", "width", "height", "projection_type", "focal"}
    rep.expect(need <= set(order), "record", "camera_id:parts", f, "the camera identifier ignores %s" % sorted(need - set(order)))
    for z in tm.walk(fl.deep(r)):
        if z.op == "slice_of" and tm.contains(z.args[0], lambda y: y is A["focal"]) and is_const(z.args[2]):
            rep.expect(cval(z.args[2]) is None or cval(z.args[2]) >= 6 or cval(z.args[2]) < 0, "record", "camera_id:digits", f, "the focal is cut to %s characters" % cval(z.args[2]))
    rep.expect("lower" in tm.show(r, 3) or any(z.op == "mcall" and z.args[1] == "lower" for z in tm.walk(r)), "record", "camera_id:case", f, "the camera identifier depends on letter case")
    f = EX + "camera_id"
    fl, r, A = run(prog, f, ONLY, [EX + "camera_id_"])
    for e in effects(fl, ("call",), "camera_id_"):
        for p, v in argmap(params(lookup(prog, EX + "camera_id_")), e).items():
            k = {"focal": "focal_ratio"}.get(p, p)
            rep.expect(v is item(A["exif"], const(k)), "record", "camera_id:" + p, e.where, "%s of the camera identifier is %s" % (p, unfold(fl, v)[:60]))


def slot(fl, t, calib):
    """Name of the calibration entry a factory argument is, e.g. 'k1', 'aspect', ('k1','k2')."""
    t = strip(t)
    if t.op == "item" and t.args[0] is calib and is_const(t.args[1]):
        return cval(t.args[1])
    if t.op == "mcall" and t.args[0] is calib and t.args[1] == "get":
        return cval(tm.call_parts(t)[1][0])
    if t.op == "bin" and t.args[0] == "/":
        return (slot(fl, t.args[1], calib), "/", slot(fl, t.args[2], calib))
    s = trig.Mat(fl).seq(t) if t.op in ("tup", "obj") else (trig.Mat(fl).seq(tm.call_parts(t)[1][0]) if t.op == "call" and tm.callee_name(t) in trig.ARR else None)
    if s is not None:
        return tuple(slot(fl, x, calib) for x in s)
    return tm.show(t, 4)


def needed(pt):
    """Factory and expected slots in terms of calibration entries."""
    fac, slots = FACTORY[pt]
    out = []
    for s in slots:
        if s == "focal":
            out.append("focal_x" if "aspect_ratio" in slots else "focal")
        elif s == "aspect_ratio":
            out.append(("focal_y", "/", "focal_x"))
        elif isinstance(s, tuple) and s and s[0].startswith("principal_point"):
            out.append(("c_x", "c_y"))
        else:
            out.append(s)
    return fac, out


def camera(prog, rep):
    f = EX + "camera_from_exif_metadata"
    fl, r, A = run(prog, f, ONLY)
    calib = next((e.result for e in fl.effects if e.kind == "call" and e.result is not None and e.result.op == "call" and e.result.args[0] is A["calibration_func"]), None)
    if calib is None:
        raise LookupError("calibration not followed")
    pts = set()
    ptype = None
    for e in fl.effects:
        n = (e.name or "").split(".")[-1]
        if e.kind != "call" or not n.startswith("create_"):
            continue
        pt = n[len("create_"):]
        if pt not in FACTORY:
            continue
        pts.add(pt)
        fac, want = needed(pt)
        got = [slot(fl, x, calib) for x in e.args]
        for x in e.args:
            for z in tm.walk(fl.deep(x)):
                # only some calibrations have a transition
                if z.op == "item" and z.args[0] is calib and is_const(z.args[1]) and cval(z.args[1]) == "transition":
                    rep.bad("camera", "optional:" + pt, e.where, "the transition is required of every calibration")
        rep.expect(got == want, "camera", "factory:" + pt, e.where, "%s receives %s instead of %s" % (n, got, want))
        # chosen for its own projection type
        F = Fold({}, lambda c: None)
        lits = {}
        for c, p in e.guards:
            for z in tm.walk(c):
                if z.op == "cmp" and z.args[0] == "==" and any(is_const(y) and isinstance(cval(y), str) for y in z.args[1:]):
                    v = cval(next(y for y in z.args[1:] if is_const(y)))
                    lits[z] = v
        if pt != "spherical":
            g = tm.cond_of(list(e.guards))
            t = Fold({z: v == pt for z, v in lits.items()}, lambda c: False if "is_panorama" in tm.show(c, 3) else None).truth(g)
            others = [v for v in set(lits.values()) if v != pt and Fold({z: w == v for z, w in lits.items()}, lambda c: False if "is_panorama" in tm.show(c, 3) else None).truth(g) is not FALSE]
            rep.expect(t is not FALSE and not others and pt in lits.values(), "camera", "choice:" + pt, e.where, "%s is used for %s" % (n, others or sorted(set(lits.values()))))
    for pt in FACTORY:
        rep.expect(pt in pts, "camera", "missing:" + pt, f, "cameras of type %s cannot be created" % pt)
    got = {}
    for e in fl.effects:
        if e.kind == "setattr" and e.name in ("id", "width", "height"):
            got.setdefault(e.name, set()).add(strip_int(e.args[0]))
    for n, k in (("id", "camera"), ("width", "width"), ("height", "height")):
        rep.expect(got.get(n) == {item(A["metadata"], const(k))}, "camera", "attr:" + n, f, "the %s of the camera is %s" % (n, [unfold(fl, x)[:40] for x in got.get(n, [])]))


def calibrations(prog, rep):
    f = EX + "calibration_from_metadata"
    fl, r, A = run(prog, f, ONLY, [EX + x for x in ("hard_coded_calibration", "focal_ratio_calibration", "focal_xy_calibration", "default_calibration")])
    d = fl.deep(r)
    keys = {}
    for n in ("focal_ratio_calibration", "focal_xy_calibration", "default_calibration"):
        fl2, r2, A2 = run(prog, EX + n, ONLY)
        for leaf, _ in cond_leaves(r2):
            h = fl2.h(leaf) if leaf.op == "obj" else None
            if h is not None:
                keys[n] = {cval(x.key): x.val for x in fl2.live(h) if x.key is not None and is_const(x.key)}
        ks = keys.get(n)
        if ks is None:
            raise LookupError("%s not followed" % n)
        for k, v in ks.items():
            if k.startswith("focal"):
                ok = tm.contains(v, lambda z: is_const(z) and cval(z) in ("focal_ratio", "focal_x", "default_focal_prior"))
                if n == "default_calibration":
                    ok = ok and tm.contains(v, lambda z: z is const("default_focal_prior"))
                rep.expect(ok, "camera", "%s:%s" % (n, k), EX + n, "%s is %s" % (k, unfold(fl2, v)[:60]))
            elif k in ("c_x", "c_y"):
                lits = {cval(z) for z in tm.walk(v) if is_const(z) and isinstance(cval(z), str)}
                rep.expect(lits <= {k}, "camera", "%s:%s" % (n, k), EX + n, "%s is %s" % (k, unfold(fl2, v)[:60]))
            else:
                rep.expect(is_const(v) and cval(v) == 0, "camera", "%s:%s" % (n, k), EX + n, "%s is %s" % (k, unfold(fl2, v)[:60]))
    # sources consulted for each projection type
    raw = [z for z in tm.walk(d) if z.op == "mcall" and z.args[1] == "lower"]
    if not raw:
        raise LookupError("projection type not followed")
    effs = [e for e in fl.effects if e.kind == "call" and (e.name or "").split(".")[-1].endswith("_calibration")]
    for pt in FACTORY:
        if pt == "spherical":
            continue
        _, want = needed(pt)
        need = set()
        for w in want:
            need |= {x for x in (w if isinstance(w, tuple) else (w,)) if x != "/" and x != "transition"}
        used = []
        for e in effs:
            F = Fold({z: const(pt) for z in raw}, lambda c: None)
            if F.truth(tm.cond_of(list(e.guards))) is not FALSE:
                used.append((e.name or "").split(".")[-1])
        rep.expect("hard_coded_calibration" in used and "default_calibration" in used, "camera", "sources:" + pt, f, "the calibration of %s cameras comes from %s" % (pt, used))
        rank = {"hard_coded_calibration": 0, "default_calibration": 2}
        rep.expect([rank.get(u, 1) for u in used] == sorted(rank.get(u, 1) for u in used), "camera", "sources:%s:order" % pt, f, "the calibration of %s cameras is looked for in %s" % (pt, used))
        for u in used:
            if u in keys:
                rep.expect(need <= set(keys[u]), "camera", "keys:%s:%s" % (pt, u), EX + u, "%s lacks %s of %s cameras" % (u, sorted(need - set(keys[u])), pt))
    # a calibration found in the table is shared: it is not written to
    for e in fl.effects:
        if e.kind in ("setitem", "delitem") or (e.kind == "mcall" and e.name in ("update", "setdefault", "pop")):
            rc = e.recv
            shared = rc is not None and tm.contains(rc, lambda z: z.op == "call" and (tm.callee_name(z) or "").endswith("hard_coded_calibration")) and rc.op != "obj"
            rep.expect(not shared, "camera", "shared", e.where, "the calibration shared by all cameras of a make is changed")


def overrides(prog, rep):
    M = "opensfm.actions.extract_metadata."
    f = M + "run_dataset"
    fl, r, A = run(prog, f, {"opensfm.actions.extract_metadata"}, [M + "_extract_exif", EX + "camera_from_exif_metadata"])
    saves = [e for e in fl.effects if e.kind == "mcall" and e.name == "save_exif"]
    rep.expect(bool(saves), "override", "saved", f, "the metadata is not saved")
    for e in saves:
        a = argmap(["image", "data"], e)
        d = a["data"]
        src = [z for z in tm.walk(fl.deep(d)) if z.op == "call" and (tm.callee_name(z) or "").endswith("_extract_exif")]
        ims = {x for z in src for x in tm.call_parts(z)[1] + list(tm.call_parts(z)[2].values()) if x is a["image"]}
        rep.expect(bool(src) and bool(ims), "override", "own", e.where, "the metadata of %s is %s" % (unfold(fl, a["image"])[:30], unfold(fl, d)[:60]))
    over = lambda t: tm.contains(fl.deep(t), lambda z: z.op in ("mcall", "call") and "load_exif_overrides" in tm.show(z, 3))
    ups = [e for e in fl.effects if e.kind == "mcall" and e.name == "update" and over(mk("tup", *e.args))]
    merged = [h for h in fl.heap.values() if h.kind == "dict" and any(x.kind == "spread" and over(x.val) for x in h.log)]
    if not ups and not merged:
        raise LookupError("overrides not followed")
    for h in merged:
        last = [x for x in h.log][-1]
        rep.expect(last.kind == "spread" and over(last.val), "override", "exif:direction", f, "the overrides are replaced by the metadata")
    for e in ups:
        v = fl.deep(e.args[0])
        rep.expect(all(e.seq < s.seq for s in saves), "override", "exif:before", e.where, "the metadata is saved before it is overridden")
        im = argmap(["image", "data"], saves[0])["image"] if saves else None
        rep.expect(saves and tm.contains(v, lambda z: (z.op == "item" and z.args[1] is im) or (z.op == "mcall" and z.args[1] in ("get", "pop") and tm.call_parts(z)[1][:1] == [im])), "override", "exif:own", e.where, "the overrides applied are %s" % unfold(fl, e.args[0])[:60])
        rep.expect(not tm.contains(e.recv, lambda z: "load_exif_overrides" in tm.show(z, 6)) if e.recv is not None else True, "override", "exif:direction", e.where, "the overrides are updated by the metadata")
    # cameras
    sv = [e for e in fl.effects if e.kind == "mcall" and e.name == "save_camera_models"]
    rep.expect(bool(sv), "override", "cameras", f, "the cameras are not saved")
    new = effects(fl, ("call",), "camera_from_exif_metadata")
    for e in new:
        a = argmap(["metadata", "data", "calibration_func"], e)
        rep.expect(all(e.seq < s.seq for s in sv), "override", "cameras:order", e.where, "cameras are created after they are saved")
    sets = [e for e in fl.effects if e.kind == "setitem"]
    for e in sets:
        v = fl.deep(e.args[1])
        if tm.contains(v, lambda z: z.op == "call" and (tm.callee_name(z) or "").endswith("camera_from_exif_metadata")):
            k = e.args[0]
            rep.expect(all(y.op == "item" and y.args[1] is const("camera") for y in leaves(k)), "override", "cameras:key", e.where, "the camera is stored as %s" % unfold(fl, k)[:60])
        if tm.contains(v, lambda z: "load_camera_models_overrides" in tm.show(z, 8)):
            rep.expect(all(x.seq < e.seq for x in new), "override", "models:order", e.where, "the cameras of the images replace the overrides")
    f = M + "_extract_exif"
    fl, r, A = run(prog, f, {"opensfm.actions.extract_metadata"}, [EX + "extract_exif_from_file", EX + "camera_id"])
    cs = effects(fl, ("call",), "camera_id")
    rep.expect(bool(cs), "override", "id", f, "the camera identifier is not recomputed")
    for e in fl.effects:
        if e.kind == "setitem" and e.args[0] is not const("camera") and is_const(e.args[0]):
            rep.expect(all(e.seq < c.seq for c in cs), "override", "id:after:%s" % cval(e.args[0]), e.where, "%s changes after the camera identifier is computed" % cval(e.args[0]))
            keys = {cval(z) for c, p in e.guards for z in tm.walk(fl.deep(c)) if is_const(z) and isinstance(cval(z), str)}
            opt = {"model": "unknown_camera_models_are_different", "projection_type": "default_projection_type"}.get(cval(e.args[0]))
            if opt:
                rep.expect(opt in keys, "override", "option:" + str(cval(e.args[0])), e.where, "%s is replaced whatever is configured" % cval(e.args[0]))
    for e in effects(fl, ("call",), "extract_exif_from_file"):
        a = argmap(["fileobj", "image_size_loader", "use_exif_size", "name"], e)
        rep.expect(tm.contains(fl.deep(a["use_exif_size"]), lambda z: z is const("use_exif_size")), "override", "use_exif_size", e.where, "the size tags are used when %s" % unfold(fl, a["use_exif_size"])[:60])
        rep.expect(tm.contains(fl.deep(a["image_size_loader"]), lambda z: z is A["image"]) or a["image_size_loader"].op in ("closure", "lambda", "func", "obj"), "override", "size:own", e.where, "the size is loaded by %s" % unfold(fl, a["image_size_loader"])[:60])
        rep.expect(a.get("name") is A["image"] or "name" not in a, "override", "name", e.where, "the name is %s" % (unfold(fl, a["name"])[:40] if a.get("name") is not None else "?"))


def measurements(prog, rep):
    f = RH + "exif_to_metadata"
    fl, r, A = run(prog, f, {"opensfm.reconstruction_helpers"})
    ex = A["exif"]
    gps = [e.result for e in fl.effects if e.kind == "mcall" and e.name == "get" and e.recv is ex and e.args[0] is const("gps")]

    def of(t, k, sub):
        """t is exif[k][sub] (or .get)"""
        def acc(x):
            if x.op == "item" and is_const(x.args[1]):
                return x.args[0], cval(x.args[1])
            if x.op == "mcall" and x.args[1] == "get":
                return x.args[0], cval(tm.call_parts(x)[1][0])
            return None, None
        b, kk = acc(t)
        if sub is None:
            return b is ex and kk == k
        if b is None or kk != sub:
            return False
        b, kk = acc(b)
        return b is ex and kk == k
    want = {"compass_angle": ("compass", "angle"), "compass_accuracy": ("compass", "accuracy"), "capture_time": ("capture_time", None), "sequence_key": ("skey", None), "orientation": ("orientation", None), "gravity_down": ("gravity_down", None), "opk_accuracy": ("opk", "accuracy")}
    seen = set()
    for e in fl.effects:
        if e.kind != "setattr" or e.name != "value" or e.recv is None or e.recv.op != "attr":
            continue
        n = e.recv.args[1]
        seen.add(n)
        v = e.args[0]
        if n in want:
            rep.expect(of(v, *want[n]), "measure", n, e.where, "%s is %s" % (n, unfold(fl, v)[:80]))
        elif n == "gps_accuracy":
            ok = of(v, "gps", "dop") or (is_const(v) and any(p and c.op == "cmp" and c.args[0] == "==" and any(is_const(y) and cval(y) == 0 for y in c.args[1:]) for c, p in e.guards)) or v.op == "ite"
            rep.expect(ok, "measure", n, e.where, "the GPS accuracy is %s" % unfold(fl, v)[:80])
        elif n == "opk_angles":
            s = slot_list(fl, v)
            ok = s is not None and [of(x, "opk", k) for x, k in zip(s, ("omega", "phi", "kappa"))] == [True] * 3
            rep.expect(ok, "measure", n, e.where, "the angles are %s" % ([unfold(fl, x)[:40] for x in s] if s else "?"))
        elif n == "gps_position":
            s = slot_list(fl, v)
            tp = [e2 for e2 in fl.effects if e2.kind == "mcall" and e2.name == "to_topocentric"]
            if len(tp) != 1:
                raise LookupError("GPS position not followed")
            ok = s is not None and [x is item(tp[0].result, const(i)) for i, x in enumerate(s)] == [True] * 3 or tp[0].result is strip(v) or (s is None and tm.contains(v, lambda z: z is tp[0].result))
            rep.expect(ok, "measure", n, e.where, "the GPS position is %s" % unfold(fl, v)[:80])
            a = tp[0].args
            rep.expect(len(a) == 3 and of(a[0], "gps", "latitude") and of(a[1], "gps", "longitude"), "measure", n + ":order", e.where, "the position is computed from %s" % [unfold(fl, x)[:40] for x in a])
            for use in (True, False):
                t = Fold({A["use_altitude"]: use})(fl.deep(a[2]))
                reads = tm.contains(t, lambda z: is_const(z) and cval(z) == "altitude")
                rep.expect(reads == use, "measure", n + ":altitude:%s" % use, e.where, "with use_altitude=%s the altitude is %s" % (use, unfold(fl, t)[:60]))
                if use:
                    rep.expect(not tm.contains(t, lambda z: z.op == "call" and tm.callee_name(z) == "max"), "measure", n + ":altitude:cap", e.where, "the altitude is raised to the maximum")
            keys = {cval(z.args[1]) for c, p in e.guards if p for z in [c] if z.op == "cmp" and z.args[0] == "in"}
            rep.expect({"latitude", "longitude"} <= keys, "measure", n + ":known", e.where, "the GPS position is set without latitude and longitude")
    # a record without orientation is upright; one whose dilution of precision is zero says nothing about accuracy
    for e in fl.effects:
        if e.kind == "setattr" and e.name == "value" and e.recv is not None and e.recv is not None and e.recv.op == "attr" and e.recv.args[1] == "orientation":
            v = e.args[0]
            if v.op == "mcall" and v.args[1] == "get":
                ps = tm.call_parts(v)[1]
                rep.expect(len(ps) > 1 and is_const(ps[1]) and cval(ps[1]) == 1, "measure", "orientation:default", e.where, "without orientation it is %s" % unfold(fl, v)[:60])
    final = None
    for e in fl.effects:
        if e.kind == "setattr" and e.name == "value" and e.recv is not None and e.recv.op == "attr" and e.recv.args[1] == "gps_accuracy":
            zero = {z: const(0) for z in tm.walk(fl.deep(mk("tup", e.args[0], *[c for c, p in e.guards]))) if of(z, "gps", "dop")}
            F = Fold(dict(zero))
            g = [(F(fl.deep(c)), p) for c, p in e.guards]
            if any((c is TRUE) != p for c, p in g if c in (TRUE, FALSE)):
                continue
            final = F(fl.deep(e.args[0]))
    if final is not None:
        rep.expect(not is_const(final) or (cval(final) or 0) > 0, "measure", "gps_accuracy:zero", f, "a dilution of precision of zero gives the accuracy %s" % unfold(fl, final)[:40])
    for n in list(want) + ["gps_position", "gps_accuracy", "opk_angles"]:
        rep.expect(n in seen, "measure", n + ":missing", f, "%s is never set" % n)
    f = RH + "get_image_metadata"
    fl, r, A = run(prog, f, {"opensfm.reconstruction_helpers"}, [RH + "exif_to_metadata"])
    for e in effects(fl, ("call",), "exif_to_metadata"):
        a = argmap(["exif", "use_altitude", "reference"], e)
        rep.expect("load_exif" in tm.show(a["exif"], 3) and tm.contains(a["exif"], lambda z: z is A["image"]), "measure", "image:exif", e.where, "the record is %s" % unfold(fl, a["exif"])[:60])
        rep.expect(tm.contains(a["use_altitude"], lambda z: z is const("use_altitude_tag")), "measure", "image:altitude", e.where, "use_altitude is %s" % unfold(fl, a["use_altitude"])[:60])
        rep.expect("load_reference" in tm.show(a["reference"], 3), "measure", "image:reference", e.where, "the reference is %s" % unfold(fl, a["reference"])[:60])


def slot_list(fl, v):
    v = strip(v)
    if v.op == "call" and tm.callee_name(v) in trig.ARR:
        v = tm.call_parts(v)[1][0]
    return trig.Mat(fl).seq(v) if v.op in ("obj", "tup") else None


def reference(prog, rep):
    f = "opensfm.dataset.invent_reference_from_gps_and_gcp"
    fl, r, A = run(prog, f, {"opensfm.dataset"})
    news = [e for e in fl.effects if e.kind in ("call", "new") and (e.name or "").endswith("TopocentricConverter")]
    if not news:
        raise LookupError("reference not followed")
    for e in news:
        a = argmap(["lat", "lon", "alt"], e)
        for k, n in (("lat", "latitude"), ("lon", "longitude")):
            d = fl.deep(a[k])
            lits = {cval(z.args[1]) for z in tm.walk(d) if z.op == "item" and is_const(z.args[1])} & {"latitude", "longitude", "altitude"}
            rep.expect(lits <= {n}, "reference", k, e.where, "the reference %s is computed from %s" % (k, sorted(lits)))
            for top in leaves(d):
                if top.op == "bin" and top.args[0] in "*/+-":
                    rep.expect(top.args[0] == "/" and all(not any(y.op == "bin" or y.op == "call" for y in leaves(x)) for x in top.args[1:]), "reference", k + ":mean", e.where, "the reference %s is %s" % (k, unfold(fl, top)[:80]))
        alt = a.get("alt")
        rep.expect(alt is not None and is_const(alt) and cval(alt) == 0, "reference", "alt", e.where, "the reference altitude is %s" % (unfold(fl, alt)[:40] if alt is not None else "?"))
    # every position counts in its total with the weight that is added to the total weight
    read = lambda z: {cval(y.args[1]) for y in tm.walk(z) if y.op == "item" and is_const(y.args[1])} & {"latitude", "longitude"}
    steps = {}
    for z in tm.walk(fl.deep(mk("tup", *[x for e in news for x in argmap(["lat", "lon", "alt"], e).values()]))):
        if z.op == "bin" and z.args[0] in "+-":
            for ph, x in ((z.args[1], z.args[2]), (z.args[2], z.args[1])):
                if ph.op == "loopphi":
                    rep.expect(z.args[0] == "+", "reference", "sum", f, "positions are subtracted from their total")
                    steps.setdefault(ph.args[1], []).append(x)
    if not steps:
        raise LookupError("totals of the reference not followed")
    for loop, xs in steps.items():
        ws = [x for x in xs if not read(x)]
        for w in ws:
            dop = [y for y in tm.walk(w) if y.op in ("item", "mcall") and any(is_const(q) and cval(q) == "dop" for q in tm.walk(y))]
            if dop:
                rep.expect(trend(w, set(dop)) == -1, "reference", "weight:trend", f, "less accurate positions do not weigh less: %s" % unfold(fl, w)[:60])
        for x in xs:
            if read(x):
                own = [y for y in tm.walk(x) if y.op == "item" and is_const(y.args[1]) and cval(y.args[1]) in ("latitude", "longitude")]
                good = any(Lin(fl, everything=True).norm(mk("bin", "*", w, own[0])) == Lin(fl, everything=True).norm(x) for w in ws)
                rep.expect(good, "reference", "weight:%s" % cval(own[0].args[1]), f, "%s is added, %s is the weight" % (unfold(fl, x)[:50], ", ".join(unfold(fl, w)[:20] for w in ws)))


def trend(t, xs):
    """1, -1, 0: t grows, falls or does not depend on the (positive) xs; None: not known."""
    if t in xs:
        return 1
    if not any(tm.contains(t, lambda z, x=x: z is x) for x in xs):
        return 0
    if t.op == "bin" and t.args[0] in "+-*/":
        a, b = trend(t.args[1], xs), trend(t.args[2], xs)
        if a is None or b is None:
            return None
        if t.args[0] in "-/":
            b = -b
        return a if b in (0, a) else (b if a == 0 else None)
    if t.op == "un" and t.args[0] == "-":
        a = trend(t.args[1], xs)
        return None if a is None else -a
    if t.op == "call" and (tm.callee_name(t) or "").split(".")[-1] in ("max", "min", "maximum", "minimum", "float", "sqrt"):
        s = {trend(x, xs) for x in tm.call_parts(t)[1]} - {0}
        return s.pop() if len(s) == 1 else None
    return None


def angles(prog, rep):
    f = RH + "rotation_from_angles"
    fl, r, A = run(prog, f, {"opensfm.reconstruction_helpers"}, ["opensfm.geometry.rotation_from_opk"])
    for e in effects(fl, ("call",), "rotation_from_opk"):
        d = fl.deep(mk("tup", *(list(e.args) + list((e.kwargs or {}).values() if isinstance(e.kwargs, dict) else [v for _, v in e.kwargs or ()]))))
        rep.expect("radians" in tm.show(d, 12) or "deg2rad" in tm.show(d, 12) or tm.contains(d, lambda z: z.op == "ext" and str(z.args[0]).split(".")[-1] in ("radians", "deg2rad")), "measure", "opk:radians", e.where, "the angles are used as %s" % unfold(fl, d)[:80])
        rep.expect(tm.contains(d, lambda z: z.op == "attr" and z.args[1] == "opk_angles"), "measure", "opk:own", e.where, "the rotation comes from %s" % unfold(fl, d)[:80])
