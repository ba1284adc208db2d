from sa import terms as tm
from sa.flow import Flow
from sa.match import core, leaves, same, unfold
from sa.terms import attr, const, item, sym
from .cams import FACTORY

TECHNIQUE = "interprocedural value-flow (gated value numbering): reader composed with writer, per projection type"
EXPLANATION = (
    "For every projection type of the camera enum the writer is analysed on a symbolic camera of that type and the "
    "reader on the dictionary/vector the writer builds (constant propagation of the type, helpers inlined). The rule: "
    "the camera is rebuilt by the factory of the same type and every factory slot, and id/width/height, carries "
    "exactly the value of the same parameter of the original camera; no branch falls through or raises."
)


def slot_terms(cam, slot):
    if isinstance(slot, tuple):
        out = []
        for s in slot:
            if s.endswith("]"):
                out.append(item(attr(cam, s[:-3]), const(int(s[-2]))))
            else:
                out.append(attr(cam, s))
        return out
    return attr(cam, slot)


def check_rebuilt(rep, fl, n0, result, cam, pt, rule, where, wid, wh):
    fac, slots = FACTORY[pt]
    ls = leaves(result)
    rep.count("compositions")
    if len(ls) != 1 or tm.callee_name(ls[0]) != "opensfm.pygeometry.Camera." + fac:
        rep.bad(rule, pt + ":factory", where, "a saved %s camera is rebuilt as %s, not by %s" % (pt, unfold(fl, result), fac))
        return
    c = ls[0]
    _, args, kw = tm.call_parts(c)
    args = list(args) + list(kw.values())
    for i, s in enumerate(slots):
        name = "/".join(s) if isinstance(s, tuple) else s
        want = slot_terms(cam, s)
        ok = i < len(args) and same(fl, args[i], want)
        if not ok and i < len(args) and s == ("principal_point[0]", "principal_point[1]"):
            ok = same(fl, args[i], attr(cam, "principal_point"))
        rep.expect(ok, rule, "%s:%s" % (pt, name), where,
                   "parameter %s of a %s camera comes back as %s" % (name, pt, unfold(fl, args[i]) if i < len(args) else "nothing"))
    for a, want in (("id", sym("key")), ("width", wid), ("height", wh)):
        got = None
        for e in fl.effects[n0:]:
            if e.kind == "setattr" and e.name == a and e.recv is c and not [g for g in e.guards if g not in fl.path]:
                got = e.args[0]
        rep.expect(got is not None and same(fl, got, want, ("seq", "flt", "int")), rule, "%s:%s" % (pt, a), where,
                   "%s of a %s camera comes back as %s" % (a, pt, unfold(fl, got) if got is not None else "unset"))
    rep.sample("%s %s -> %s" % (rule, pt, unfold(fl, c)))


def symbolic_camera(fl, pt):
    cam = sym("camera")
    fl.th(cam).attrs.append(fl.entry("set", const("projection_type"), const(pt)))
    return cam


def panorama(fl, args, kwargs, node):
    if args and args[0].op == "const":
        return const(args[0].args[1] in ("spherical", "equirectangular"))
    return None


MODELS = {"opensfm.pygeometry.Camera.is_panorama": panorama}


def check(prog, rep):
    rep.rule("json", "camera_from_json(camera_to_json(c)) restores every parameter, id and size of c, for each projection type")
    rep.rule("vector", "camera_from_vector(camera_to_vector(c)) restores every parameter of c, for each projection type")
    rep.rule("collections", "whole-file readers/writers apply the per-camera functions to every camera under its own id")
    for pt in FACTORY:
        fl = Flow(prog, ext_models=MODELS)
        cam = symbolic_camera(fl, pt)
        d = fl.run("opensfm.io.camera_to_json", {"camera": cam})
        n0 = len(fl.effects)
        c = fl.run("opensfm.io.camera_from_json", {"key": sym("key"), "obj": d})
        check_rebuilt(rep, fl, n0, c, cam, pt, "json", "opensfm/io.py camera_to_json/camera_from_json", attr(cam, "width"), attr(cam, "height"))
        fl = Flow(prog, ext_models=MODELS)
        cam = symbolic_camera(fl, pt)
        v = fl.run("opensfm.io.camera_to_vector", {"camera": cam})
        n0 = len(fl.effects)
        c = fl.run("opensfm.io.camera_from_vector", {"camera_id": sym("key"), "width": sym("w"), "height": sym("h"),
                                                      "projection_type": const(pt), "parameters": v})
        check_rebuilt(rep, fl, n0, c, cam, pt, "vector", "opensfm/io.py camera_to_vector/camera_from_vector", sym("w"), sym("h"))
    # collections
    fl = Flow(prog, opaque=["opensfm.io.camera_to_json", "opensfm.io.camera_from_json"], ext_models=MODELS)
    cams = sym("cameras")
    d = fl.run("opensfm.io.cameras_to_json", {"cameras": cams})
    r = fl.run("opensfm.io.cameras_from_json", {"obj": d})
    each = item(cams, tm.mk("elem", cams, 0))
    h = fl.h(r)
    ents = fl.live(h) if h is not None else []
    ok = False
    for e in ents:
        if e.kind == "set" and len(e.loops) == 1 and core(fl, e.loops[0]) is cams and not e.guards:
            v = e.val
            if tm.callee_name(v) == "opensfm.io.camera_from_json":
                _, a, kw = tm.call_parts(v)
                args = list(a) + list(kw.values())
                w = [x for x in args if tm.callee_name(x) == "opensfm.io.camera_to_json"]
                wk = list(tm.call_parts(w[0])[2].values()) if w else []
                keyok = e.key is attr(each, "id") or e.key is tm.mk("elem", cams, 0)
                ok = keyok and e.key in args and wk == [each]
    rep.expect(ok and len(ents) == 1, "collections", "cameras_to_json/cameras_from_json", "opensfm/io.py",
               "cameras file does not restore each camera under its id: %s" % unfold(fl, r))
    rep.count("projection_types", len(FACTORY))
    rep.minimum("compositions", 20)
    rep.minimum("obligations", 100)
