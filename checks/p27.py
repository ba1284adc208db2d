"""P27: undistorting keeps every image's pose, size, tracks, mask and segmentation together."""

import itertools
import math

from checks.util import argmap, effects, items, lookup, run, strip
from sa import formula as fo
from sa import terms as tm
from sa.fold import Fold
from sa.linalg import Lin
from sa.match import core, leaves, seq_items, unfold
from sa.program import AnalysisBroken
from sa.terms import FALSE, TRUE, attr, cond_of, const, cval, is_const, item, mk, sym

TECHNIQUE = "value-flow analysis of the undistortion: for each camera type, the shots, cameras, observations and images that are stored are traced to the shot they come from; rotations are decided as matrix expressions"
EXPLANATION = (
    "undistort_reconstruction is followed with its helpers for every projection type: what is created, what it is made of, what is stored where. Images, masks and segmentations are followed from the loader to the saver. "
    "The rotations between a panorama and its views are brought to normal form and must be inverse to each other; the six views must look in the six directions of the axes."
)
U = "opensfm.undistort."
KINDS = ["perspective", "brown", "fisheye", "fisheye_opencv", "fisheye62", "fisheye624", "spherical", "equirectangular", "dual", "radial", "simple_radial"]
PANO = {"spherical", "equirectangular"}
ASPECT = {"brown", "fisheye_opencv", "fisheye62", "fisheye624", "radial"}


def check(prog, rep):
    rep.rule("shots", "each undistorted shot has the pose and metadata of its shot, its own id and a perspective camera of the same id, size and focal length")
    rep.rule("kinds", "the camera types whose shots are undistorted are those whose images are")
    rep.rule("saved", "what is saved is what was made: cameras, shots, tracks, and for each shot the ids of its undistorted shots")
    rep.rule("tracks", "an undistorted shot has the observations of its shot, on the same tracks; a view of a panorama has those in its field, where it sees them")
    rep.rule("images", "image, mask and segmentation of a shot are undistorted from its camera to that of its undistorted shot, and saved under its id")
    rep.rule("views", "the six views look in six directions and are sampled from the panorama where they look")
    rep.rule("scale", "images are scaled down as a whole to the largest size, never up")
    for part in (shots, saved, tracks, images, loads, arguments, views, render, scale):
        rep.part(part, prog, rep)
    for n, k in (("shots", 20), ("kinds", 5), ("saved", 3), ("tracks", 4), ("images", 8), ("views", 8), ("scale", 3)):
        rep.minimum(n, k)


def kind_of(kind, more=None):
    def decide(c):
        if c.op == "cmp" and c.args[0] in ("==", "!=", "in", "not in"):
            a, b = c.args[1], c.args[2]
            for x, y in ((a, b), (b, a)):
                if x.op == "attr" and x.args[1] == "projection_type":
                    if c.args[0] in ("==", "!=") and is_const(y):
                        return (cval(y) == kind) == (c.args[0] == "==")
                    if c.args[0] in ("in", "not in") and x is a and y.op == "tup" and all(is_const(z) for z in y.args):
                        return (kind in [cval(z) for z in y.args]) == (c.args[0] == "in")
        if c.op == "call" and (tm.callee_name(c) or "").endswith("is_panorama"):
            return kind in PANO
        return more(c) if more else None

    return decide


def live(fl, e, kind, more=None):
    """Can the effect happen for this kind of camera?"""
    f = Fold(decide=kind_of(kind, more), fl=fl)
    return f.truth(cond_of(list(e.guards))) is not FALSE


def first(fl, t, kind, more=None):
    """The value of a choice for this kind of camera."""
    return Fold(decide=kind_of(kind, more), fl=fl)(t)


def shots(prog, rep):
    fl, r, A = run(prog, U + "undistort_reconstruction", {"opensfm.undistort"})
    rec, data = A["reconstruction"], A["data"]
    made = effects(fl, ("call", "mcall"), "create_shot")
    added = effects(fl, ("call", "mcall"), "add_camera")
    if not made or not added:
        raise AnalysisBroken("no shots are created")
    for kind in KINDS:
        ms = [e for e in made if live(fl, e, kind)]
        cs = [e for e in added if live(fl, e, kind)]
        n = len(ms)
        want = 6 if kind in PANO else None
        if want:
            rep.expect(n == want, "kinds", "views:" + kind, made[0].where, "%d views are made of a panorama" % n)
        elif n == 0:
            continue
        cam = None
        for e in cs:
            a = argmap(["camera"], e)
            cam = core(fl, first(fl, a["camera"], kind))
        if not rep.expect(cam is not None, "shots", "camera:" + kind, made[0].where, "no camera is added for %s" % kind):
            continue
        for e in ms:
            a = argmap(["shot_id", "camera_id", "pose", "rig_camera_id", "rig_instance_id"], e)
            own = None
            sid = first(fl, a["shot_id"], kind)
            srcs = {x.args[0] for x in tm.walk(fl.deep(sid)) if x.op == "attr" and x.args[1] == "id" and from_shots(fl, x.args[0], rec)}
            rep.expect(len(srcs) == 1, "shots", "id:" + kind, e.where, "the id of the undistorted shot is %s" % unfold(fl, sid)[:80])
            if len(srcs) != 1:
                continue
            own = srcs.pop()
            if kind not in PANO:
                for x in leaves(sid):
                    ok = core(fl, x) is attr(own, "id") or starts(fl, x, attr(own, "id"))
                    rep.expect(ok, "shots", "id:" + kind, e.where, "the id of the undistorted shot is %s" % unfold(fl, x)[:80])
                rep.expect(core(fl, a["pose"]) is attr(own, "pose") if "pose" in a else False, "shots", "pose:" + kind, e.where, "the pose is %s" % (unfold(fl, a["pose"])[:80] if "pose" in a else "not given"))
            final_camera(fl, rep, cam, own, kind, e, a)
            new = e.result
            ok = any(x.kind == "setattr" and x.name == "metadata" and x.recv is new and core(fl, x.args[0]) is attr(own, "metadata") and live(fl, x, kind) for x in fl.effects)
            rep.expect(ok, "shots", "metadata:" + kind, e.where, "the metadata of the shot are not taken over")
        if kind in PANO:
            panorama(fl, rep, ms, own, kind)


def from_shots(fl, t, rec):
    b, ks = items(t)
    return (b is attr(rec, "shots") and len(ks) == 1) or (t.op == "elem" and unfold(fl, t).count(".shots"))


def starts(fl, t, s):
    """t is a string that begins with s and goes on with an extension."""
    u = fl.deep(t)
    parts = list(u.args) if u.op in ("fstr", "concat", "join", "cat") else None
    if parts is None:
        return bool(tm.contains(u, lambda x: x is s)) and u.op not in ("ite",)
    parts = [p for p in parts if isinstance(p, tm.T)]
    return bool(parts) and strip(parts[0]) is s


def set_on(fl, o, name, kind):
    """What attribute name of o is set to."""
    v = [e.args[0] for e in sorted(fl.effects, key=lambda e: e.seq) if e.kind == "setattr" and e.name == name and e.recv is o and live(fl, e, kind)]
    return core(fl, first(fl, v[-1], kind)) if v else None


def final_camera(fl, rep, cam, own, kind, e, a):
    oc = attr(own, "camera")
    rd = fo.Read(fl)
    n = tm.callee_name(cam) if cam.op == "call" else None
    if not rep.expect(n is not None and n.endswith("create_perspective"), "shots", "model:" + kind, e.where, "the undistorted camera is %s" % unfold(fl, cam)[:80]):
        return
    ca = tm.call_parts(cam)[1]
    pano = kind in PANO
    try:
        f, k1, k2 = [rd(x) for x in ca]
        fc, ar = rd(attr(oc, "focal")), rd(attr(oc, "aspect_ratio"))
        want = fo.const(0.5) if pano else fo.scale(fo.mul(fc, fo.add(fo.const(1), ar)), 0.5) if kind in ASPECT else fc
        rep.expect(fo.equal(f, want), "shots", "focal:" + kind, e.where, "the focal length of the undistorted camera is %s" % unfold(fl, ca[0])[:80])
        rep.expect(fo.equal(k1, {}) and fo.equal(k2, {}), "shots", "distortion:" + kind, e.where, "the undistorted camera is distorted")
    except (ValueError, LookupError, TypeError) as x:
        rep.bad("shots", "focal:" + kind, e.where, "the camera cannot be read: %s" % str(x)[:60])
    ids, w, h = (set_on(fl, cam, k, kind) for k in ("id", "width", "height"))
    cid = core(fl, first(fl, a["camera_id"], kind))
    if pano:
        rep.expect(w is not None and w is h, "shots", "square:" + kind, e.where, "the views of a panorama are not square")
        rep.expect(cid is attr(cam, "id") or cid is ids, "shots", "camera id:" + kind, e.where, "the view has camera %s" % unfold(fl, cid)[:60])
    else:
        rep.expect(ids is attr(oc, "id"), "shots", "camera id:" + kind, e.where, "the undistorted camera has the id %s" % (unfold(fl, ids)[:60] if ids is not None else None))
        rep.expect(cid is attr(oc, "id") or cid is attr(cam, "id") or cid is ids, "shots", "camera id:" + kind, e.where, "the shot has camera %s" % unfold(fl, cid)[:60])
        rep.expect(w is attr(oc, "width") and h is attr(oc, "height"), "shots", "size:" + kind, e.where, "the undistorted camera has another size")


def panorama(fl, rep, ms, own, kind):
    names = ["shot_id", "camera_id", "pose", "rig_camera_id", "rig_instance_id"]
    inst = {core(fl, argmap(names, e).get("rig_instance_id")) for e in ms}
    sets = [e for e in fl.effects if e.kind == "setattr" and e.name == "pose" and live(fl, e, kind)]
    ok = len(inst) == 1
    ri = inst.pop() if ok else None
    rep.expect(ok, "views", "one instance:" + kind, ms[0].where, "the views of a panorama are in several rig instances")
    if ri is not None:
        holder = ri.args[0] if ri.op == "attr" and ri.args[1] == "id" else None
        mine = [e for e in sets if e.recv is holder]
        rep.expect(bool(mine) and core(fl, mine[-1].args[0]) is attr(own, "pose") and mine[-1].seq > max(e.seq for e in ms), "views", "pose:" + kind, ms[0].where,
                   "the views do not end with the pose of the panorama")
    rc = [core(fl, argmap(names, e).get("rig_camera_id")) for e in ms]
    rep.expect(len(set(rc)) == len(rc), "views", "rig cameras:" + kind, ms[0].where, "several views share a rig camera")
    si = [unfold(fl, argmap(names, e)["shot_id"]) for e in ms]
    rep.expect(len(set(si)) == len(si), "views", "ids:" + kind, ms[0].where, "several views share an id")


def images(prog, rep):
    fl, r, A = run(prog, U + "undistort_image", {"opensfm.undistort"}, [U + "scale_image", U + "render_perspective_view_of_a_panorama"])
    fu, ru, Au = run(prog, U + "undistort_reconstruction", {"opensfm.undistort"})
    made = effects(fu, ("call", "mcall"), "create_shot")
    shot, us, img, inter, size = (A[k] for k in ("shot", "undistorted_shots", "original", "interpolation", "max_size"))

    def there(c):
        if c.op == "cmp" and c.args[0] in ("is", "is not", "==", "!=") and img in c.args[1:] and any(is_const(x) and cval(x) is None for x in c.args[1:]):
            return c.args[0] in ("is not", "!=")
        return None

    for kind in KINDS:
        v = first(fl, r, kind, there)
        refused = any(e.kind == "raise" and Fold(decide=kind_of(kind, there), fl=fl).truth(cond_of(list(e.guards))) is TRUE for e in fl.effects)
        vs = [] if refused else leaves(v)
        does = bool(vs)
        wanted = any(live(fu, e, kind) for e in made)
        rep.expect(does == wanted, "kinds", kind, "undistort_image", "shots of type %s are %sundistorted, their images are %s" % (kind, "" if wanted else "not ", "" if does else "not"))
        for x in vs:
            h = fl.h(x) if x.op == "obj" else None
            sets = [en for en in getattr(h, "log", [])] if h is not None else []
            one = [en for en in sets if live_log(fl, en, kind, there)]
            if not rep.expect(h is not None and h.kind == "dict" and bool(one), "images", "result:" + kind, "undistort_image", "the images are returned as %s" % unfold(fl, x)[:60]):
                continue
            for en in one:
                image(fl, rep, en, shot, us, img, inter, size, kind, there)


def live_log(fl, en, kind, more):
    return Fold(decide=kind_of(kind, more), fl=fl).truth(cond_of(list(en.guards))) is not FALSE


def image(fl, rep, en, shot, us, img, inter, size, kind, there):
    k, v = en.key, first(fl, en.val, kind, there)
    own = k.args[0] if k.op == "attr" and k.args[1] == "id" else None
    b = own.args[0] if own is not None and own.op in ("item", "elem") else None
    if not rep.expect(b is us, "images", "key:" + kind, "undistort_image", "an image is filed under %s" % unfold(fl, k)[:60]):
        return
    v = core(fl, v)
    if rep.expect(v.op == "call" and tm.callee_name(v) == U + "scale_image", "images", "scale:" + kind, "undistort_image", "images are not scaled down"):
        a = call_of(v, ["image", "max_size"])
        rep.expect(a.get("max_size") is size, "images", "scale:" + kind, "undistort_image", "images are scaled to %s" % unfold(fl, a.get("max_size", size))[:60])
        v = first(fl, a["image"], kind, there)
    if kind in PANO:
        n = tm.callee_name(v) if v.op == "call" else None
        if not rep.expect(n == U + "render_perspective_view_of_a_panorama", "images", "view:" + kind, "undistort_image", "the view is %s" % unfold(fl, v)[:60]):
            return
        a = call_of(v, ["image", "panoshot", "perspectiveshot", "interpolation", "borderMode"])
        rep.expect(a.get("panoshot") is shot and a.get("perspectiveshot") is own, "images", "view:" + kind, "undistort_image", "the view is rendered for other shots than its own")
        near = [x for x in tm.walk(a.get("interpolation", const(None))) if x is inter]
        rep.expect(bool(near), "images", "interpolation:" + kind, "undistort_image", "the view is sampled by %s" % unfold(fl, a.get("interpolation", const(None)))[:60])
        src = core(fl, a["image"])
        rep.expect(src.op == "call" and tm.callee_name(src) == "cv2.resize" and tm.call_parts(src)[1][:1] == [img] or src is img, "images", "source:" + kind, "undistort_image", "the view is made of %s" % unfold(fl, src)[:60])
        if src.op == "call":
            rep.expect(call_of(src, ["src", "dsize"]).get("interpolation") is inter, "images", "interpolation:" + kind, "undistort_image", "the panorama is resized by another interpolation")
            d = call_of(src, ["src", "dsize"]).get("dsize")
            wh = seq_items(fl, d) if d is not None else None
            rep.expect(bool(wh) and len(wh) == 2 and ratio(fl, wh), "images", "resize:" + kind, "undistort_image", "the panorama is resized to %s" % (unfold(fl, d)[:60] if d is not None else None))
        return
    n = tm.callee_name(v) if v.op == "call" else None
    if not rep.expect(n == "cv2.remap", "images", "map:" + kind, "undistort_image", "the image is %s" % unfold(fl, v)[:60]):
        return
    a = call_of(v, ["src", "map1", "map2", "interpolation"])
    rep.expect(core(fl, a["src"]) is img, "images", "source:" + kind, "undistort_image", "another image is undistorted")
    rep.expect(a.get("interpolation") is inter, "images", "interpolation:" + kind, "undistort_image", "the image is sampled by another interpolation than asked for")
    m1, m2 = items(a["map1"]), items(a["map2"])
    rep.expect(m1[0] is m2[0] and [cval(x) for x in m1[1]] == [0] and [cval(x) for x in m2[1]] == [1], "images", "maps:" + kind, "undistort_image", "the maps are not the two of one mapping, in their order")
    c = m1[0]
    if rep.expect(c.op == "call" and tm.callee_name(c).endswith("compute_camera_mapping"), "images", "map:" + kind, "undistort_image", "the map is %s" % unfold(fl, c)[:60]):
        a = call_of(c, ["from", "to", "width", "height"])
        rep.expect(a.get("from") is attr(shot, "camera") and a.get("to") is attr(own, "camera"), "images", "cameras:" + kind, "undistort_image", "the map goes from %s to %s" % tuple(unfold(fl, a.get(x, shot))[:40] for x in ("from", "to")))
        sh = attr(img, "shape")
        rep.expect(core(fl, a["width"]) is item(sh, const(1)) and core(fl, a["height"]) is item(sh, const(0)), "images", "size:" + kind, "undistort_image", "the map has the size %s x %s" % tuple(unfold(fl, a[x])[:40] for x in ("width", "height")))


def ratio(fl, wh):
    """width = 2 height, whatever it is"""
    w, h = (fl.deep(x) for x in wh)
    return h.op == "bin" and h.args[0] in ("//", "/") and is_const(h.args[2]) and cval(h.args[2]) == 2 and h.args[1] is w or w.op == "bin" and w.args[0] == "*" and any(is_const(x) and cval(x) == 2 for x in w.args[1:]) and h in w.args[1:] or \
        strip(h).op == "bin" and strip(h).args[1] is w


def call_of(t, names):
    _, a, k = tm.call_parts(t)
    out = dict(k)
    for n, v in zip(names, a):
        out.setdefault(n, v)
    return out


def loads(prog, rep):
    f = U + "undistort_image_and_masks"
    fl, r, A = run(prog, f, {"opensfm.undistort"}, [U + "undistort_image"])
    args = A["arguments"]
    shot, us, data, ud = [item(args, const(i)) for i in range(4)]
    done = set()
    for e in effects(fl, ("mcall",), ("save_undistorted_image", "save_undistorted_mask", "save_undistorted_segmentation")):
        what = e.name.split("_")[-1]
        done.add(what)
        rep.expect(e.recv is ud, "images", "saved:" + what, e.where, "it is not saved with the undistorted data")
        k, v = e.args[0], e.args[1]
        src = None
        if v.op == "item" and v.args[1] is k and k.op == "elem" and k.args[0] is v.args[0]:
            src = v.args[0]
        if not rep.expect(src is not None and src.op == "call" and tm.callee_name(src) == U + "undistort_image", "images", "saved:" + what, e.where, "%s is saved under %s" % (unfold(fl, v)[:60], unfold(fl, k)[:60])):
            continue
        a = call_of(src, ["shot", "undistorted_shots", "original", "interpolation", "max_size"])
        rep.expect(a.get("shot") is shot and a.get("undistorted_shots") is us, "images", "shot:" + what, e.where, "the %s is undistorted for another shot" % what)
        o = core(fl, a.get("original"))
        ok = o.op == "mcall" and o.args[1] == "load_" + what and o.args[0] is data and [core(fl, x) for x in tm.call_parts(o)[1][:1]] == [attr(shot, "id")]
        rep.expect(ok, "images", "source:" + what, e.where, "the %s is made of %s" % (what, unfold(fl, o)[:80]))
        i = a.get("interpolation")
        near = i is not None and unfold(fl, i).endswith("INTER_NEAREST")
        rep.expect(near == (what != "image"), "images", "interpolation:" + what, e.where, "the %s is sampled by %s" % (what, unfold(fl, i)[:40] if i is not None else None))
    for what in ("image", "mask", "segmentation"):
        rep.expect(what in done, "images", "saved:" + what, f, "the undistorted %s is not saved" % what)


def arguments(prog, rep):
    """Each image is undistorted with its own undistorted shots."""
    f = U + "undistort_reconstruction_with_images"
    fl, r, A = run(prog, f, {"opensfm.undistort"}, [U + "undistort_reconstruction", U + "undistort_image_and_masks"])
    es = effects(fl, ("call",), "parallel_map")
    if not es:
        es = effects(fl, ("call",), "undistort_image_and_masks")
    rep.expect(bool(es), "images", "all", f, "no image is undistorted")
    und = [e.result for e in effects(fl, ("call",), "undistort_reconstruction")]
    for e in es:
        lists = [x for x in list(e.args) + list(dict(e.kwargs).values()) if x.op == "obj" and fl.h(x) is not None and fl.h(x).kind == "list"]
        for l in lists:
            for v, _, _ in fl.elements(l) or []:
                t = seq_items(fl, v)
                if not rep.expect(t is not None and len(t) == 4, "images", "arguments", e.where, "the arguments are %s" % unfold(fl, v)[:60]):
                    continue
                s, us, d, u = [core(fl, x) for x in t]
                bs, ks = items(s)
                bu, ku = items(us)
                ok = bs is attr(A["reconstruction"], "shots") and len(ks) == 1 and len(ku) == 1 and ks[0] is ku[0] and bu in und
                rep.expect(ok, "images", "pairs", e.where, "shot %s goes with %s" % (unfold(fl, s)[:60], unfold(fl, us)[:60]))
                rep.expect(d is A["data"] and u is A["udata"], "images", "datasets", e.where, "images go from %s to %s" % (unfold(fl, d)[:40], unfold(fl, u)[:40]))
    for e in effects(fl, ("call",), "undistort_reconstruction"):
        a = argmap(["tracks_manager", "reconstruction", "data", "udata"], e)
        rep.expect(all(a.get(k) is A[k] for k in ("tracks_manager", "reconstruction", "data", "udata")), "images", "forwarded", e.where, "the reconstruction is undistorted from other things than given")


def saved(prog, rep):
    f = U + "undistort_reconstruction"
    fl, r, A = run(prog, f, {"opensfm.undistort"})
    rec, ud = A["reconstruction"], A["udata"]
    made = effects(fl, ("call", "mcall"), "create_shot")
    urecs = set()
    for e in made:
        urecs.add(e.recv)
    rep.expect(len(urecs) == 1, "saved", "one reconstruction", f, "undistorted shots go to %d reconstructions" % len(urecs))
    ur = urecs.pop() if urecs else None
    for e in effects(fl, ("call", "mcall"), "add_camera"):
        rep.expect(e.recv is ur, "saved", "cameras", e.where, "the undistorted camera is added elsewhere")
    es = effects(fl, ("mcall",), "save_undistorted_reconstruction")
    ok = False
    for e in es:
        el = fl.elements(e.args[0]) if e.args and e.args[0].op == "obj" else [(x, (), ()) for x in e.args[0].args] if e.args and e.args[0].op == "tup" else None
        ok |= e.recv is ud and el is not None and [v for v, _, _ in el] == [ur]
        rep.expect(ok and e.seq > max(x.seq for x in made), "saved", "reconstruction", e.where, "the reconstruction saved is %s" % unfold(fl, e.args[0])[:60])
    rep.expect(bool(es), "saved", "reconstruction", f, "the undistorted reconstruction is not saved")
    for k in ("points", "reference"):
        v = [e for e in fl.effects if e.kind == "setattr" and e.name == k and e.recv is ur]
        rep.expect(bool(v) and core(fl, v[-1].args[0]) is attr(rec, k) and not v[-1].guards, "saved", k, f, "the %s of the reconstruction are not taken over" % k)
    adds = effects(fl, ("mcall",), "add_observation")
    tms = {e.recv for e in adds}
    es = effects(fl, ("mcall",), "save_undistorted_tracks_manager")
    for e in es:
        rep.expect(e.recv is ud and tms == {e.args[0]}, "saved", "tracks", e.where, "the tracks saved are not those made")
    rep.expect(bool(es), "saved", "tracks", f, "the undistorted tracks are not saved")
    # shot -> ids of its undistorted shots
    res = [e.result for e in made]
    es = effects(fl, ("mcall",), "save_undistorted_shot_ids")
    rep.expect(bool(es), "saved", "ids", f, "the ids of the undistorted shots are not saved")
    for e in es:
        d = core(fl, e.args[0])
        h = fl.h(d) if d.op == "obj" else None
        log = [x for x in (h.log if h is not None else []) if x.kind == "set"]
        rep.expect(bool(log) and e.recv is ud, "saved", "ids", e.where, "the ids saved are %s" % unfold(fl, d)[:60])
        for x in log:
            k, v = x.key, x.val
            ids = [y for y in tm.walk(fl.deep(v))]
            text = unfold(fl, v, 14)
            keyed = k.op == "attr" and k.args[1] == "id" or k.op == "elem"
            rep.expect(keyed, "saved", "ids", e.where, "undistorted shots are filed under %s" % unfold(fl, k)[:60])
            l = fl.h(v) if v.op == "obj" else None
            vals = [y for y, _, _ in (fl.elements(v) or [])] if l is not None else []
            flat = []
            for y in vals:
                flat += leaves(y)
            rep.expect(bool(flat) and all(y.op == "attr" and y.args[1] == "id" and not (y.args[0].op == "item" and is_const(y.args[0].args[1])) for y in flat), "saved", "ids", e.where, "what is filed is %s" % text[:80])
    # the mapping returned
    d = core(fl, r)
    h = fl.h(d) if d.op == "obj" else None
    for x in (h.log if h is not None else []):
        if x.kind == "set":
            rep.expect(x.key.op == "attr" and x.key.args[1] == "id" and bool(from_shots(fl, x.key.args[0], rec)), "saved", "returned", f, "undistorted shots are returned under %s" % unfold(fl, x.key)[:60])
            for kind in KINDS:
                v = first(fl, x.val, kind)
                for l in leaves(v):
                    got = set()
                    for y, g, _ in (fl.elements(l) or []) if l.op == "obj" else []:
                        got.add(y)
                    want = {e.result for e in made if live(fl, e, kind)}
                    if want:
                        rep.expect(got == want, "saved", "returned:" + kind, f, "%d of %d undistorted shots are returned" % (len(got & want), len(want)))


def tracks(prog, rep):
    f = U + "add_subshot_tracks"
    fl, r, A = run(prog, f, {"opensfm.undistort"})
    tmg, ut, shot, sub = (A[k] for k in ("tracks_manager", "utracks_manager", "shot", "subshot"))
    obs = tm.mcall(tmg, "get_shot_observations", [attr(shot, "id")])

    def known(c):
        if c.op == "cmp" and c.args[0] in ("in", "not in") and c.args[1] is attr(shot, "id"):
            return c.args[0] == "in"
        return None

    es = effects(fl, ("mcall",), "add_observation")
    for kind in ("perspective", "brown", "spherical", "equirectangular"):
        ls = [e for e in es if live(fl, e, kind, known)]
        rep.expect(len(ls) == 1, "tracks", "once:" + kind, f, "observations are added %d times" % len(ls))
        for e in ls:
            s, t, o = [core(fl, x) for x in e.args[:3]]
            rep.expect(e.recv is ut and s is attr(sub, "id"), "tracks", "shot:" + kind, e.where, "observations are added to %s" % unfold(fl, s)[:60])
            ok = t.op == "elem" and core(fl, t.args[0]) is obs and o.op == "item" and core(fl, o.args[0]) is obs and o.args[1] is t
            rep.expect(ok, "tracks", "track:" + kind, e.where, "observation %s is added to track %s" % (unfold(fl, o)[:60], unfold(fl, t)[:60]))
            gs = [g for g in e.guards if Fold(decide=kind_of(kind, known), fl=fl).truth(cond_of([g])) is not TRUE]
            if kind not in PANO:
                rep.expect(not gs, "tracks", "all:" + kind, e.where, "observations are left out when not %s" % (unfold(fl, gs[0][0])[:60] if gs else ""))
                rep.expect(not [x for x in fl.effects if x.kind == "setattr" and x.recv is o and live(fl, x, kind, known)], "tracks", "unchanged:" + kind, e.where, "observations are changed")
            else:
                field(fl, rep, e, gs, o, shot, sub, kind)


def field(fl, rep, e, gs, o, pano, view, kind):
    b = tm.mcall(attr(pano, "camera"), "pixel_bearing", [attr(o, "point")])
    Rp, Rv = (tm.mcall(attr(x, "pose"), "get_rotation_matrix", []) for x in (pano, view))
    lin = Lin(fl, orth={Rp, Rv}, vectors={b})
    M = lin.mul(lin.norm(Rv), lin.norm(attr(Rp, "T")))
    sets = [x for x in fl.effects if x.kind == "setattr" and x.name == "point" and x.recv is o]
    if not rep.expect(len(sets) == 1 and sets[0].seq < e.seq, "tracks", "point:" + kind, e.where, "the position in the view is not set before the observation is added"):
        return
    p = core(fl, sets[0].args[0])
    ok = p.op == "mcall" and p.args[1] == "project" and p.args[0] is attr(view, "camera")
    if not rep.expect(ok, "tracks", "point:" + kind, e.where, "the position in the view is %s" % unfold(fl, p)[:80]):
        return
    x = tm.call_parts(p)[1][0]
    got = lin.norm(x)
    row = lin.mul(lin.norm(b), lin.mul(lin.norm(Rp), lin.norm(attr(Rv, "T"))))
    rep.expect(got in (lin.mul(M, lin.norm(b)), row), "tracks", "rotation:" + kind, e.where, "the bearing in the view is %s" % lin.show(got)[:120])
    # in front and inside: every guard is a comparison of the bearing's depth or the position with the border
    depth, borders = False, set()
    for g, pol in gs:
        for c, q in flat_atoms([(g, pol)]):
            r = bound(fl, c, q)
            if r is None:
                rep.bad("tracks", "field:" + kind, e.where, "observations are left out by %s" % unfold(fl, c)[:80])
                continue
            t, side, v, _ = r
            if t.op == "item" and core(fl, t.args[0]) is core(fl, x) and cval(t.args[1]) == 2 and v == 0 and side == ">":
                depth = True
            elif t.op == "item" and core(fl, t.args[0]) is p and cval(t.args[1]) in (0, 1) and abs(v) == 0.5 and (v > 0) == (side == "<"):
                borders.add((cval(t.args[1]), side))
            else:
                rep.bad("tracks", "field:" + kind, e.where, "observations are left out by %s" % unfold(fl, c)[:80])
    rep.expect(depth, "tracks", "behind:" + kind, e.where, "points behind the view are not left out")
    rep.expect(len(borders) == 4, "tracks", "border:" + kind, e.where, "points outside of the view are not left out on %d sides" % (4 - len(borders)))


def flat_atoms(gs):
    from checks.util import atoms
    return atoms(gs)


def bound(fl, c, pol):
    """c (or its negation) as (term, '<' or '>', number, strict)."""
    if c.op == "not":
        return bound(fl, c.args[0], not pol)
    if c.op != "cmp":
        return None
    op, a, b = c.args
    a, b = number(a), number(b)
    if isinstance(a, float) and not isinstance(b, float):
        op, a, b = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op), b, a
    if not isinstance(b, float) or isinstance(a, float) or op not in ("<", ">", "<=", ">="):
        return None
    if not pol:
        op = {"<": ">=", ">": "<=", "<=": ">", ">=": "<"}[op]
    return a, op[0], b, len(op) == 1


def number(t):
    if is_const(t) and isinstance(cval(t), (int, float)):
        return float(cval(t))
    if t.op == "un" and t.args[0] == "-":
        v = number(t.args[1])
        return -v if isinstance(v, float) else t
    return t


def value(fl, t):
    """A closed number."""
    v = fo.Read(fl)(t)
    if set(v) - {()}:
        raise LookupError(unfold(fl, t))
    return v.get((), 0.0)


def views(prog, rep):
    f = U + "perspective_views_of_a_panorama"
    fl, r, A = run(prog, f, {"opensfm.undistort"}, [U + "add_image_format_extension"])
    rigs = {}
    for e in effects(fl, ("mcall",), "set_rotation_matrix"):
        m = strip(e.args[0])
        b, ks = items(m)
        if not rep.expect(b.op == "call" and tm.callee_name(b).endswith("rotation_matrix"), "views", "rotation", e.where, "the rotation of a view is %s" % unfold(fl, m)[:60]):
            continue
        whole = [x for x in ks if not (x.op == "slice" and cval(x.args[1]) == 3 and (not is_const(x.args[0]) or cval(x.args[0]) in (None, 0)))]
        rep.expect(len(ks) in (0, 2) and not whole, "views", "block", e.where, "the rotation is taken from other rows or columns")
        a = call_of(b, ["angle", "direction", "point"])
        ang = value(fl, a["angle"])
        d = seq_items(fl, core(fl, a["direction"]))
        ax = [value(fl, x) for x in d]
        rigs[e.recv] = rodrigues(ang, ax)
    cams = {}
    for e in effects(fl, ("call",), "RigCamera"):
        if e.args[0] in rigs and is_const(e.args[1]):
            cams[cval(e.args[1])] = rigs[e.args[0]]
    rep.expect(len(cams) == 6, "views", "six", f, "%d views have rotations of their own" % len(cams))
    axes = {tuple(int(round(x)) for x in m[2]) for m in cams.values()}
    exact = all(abs(x - round(x)) < 1e-9 for m in cams.values() for row in m for x in row)
    rep.expect(exact and len(axes) == 6, "views", "directions", f, "the views look in the directions %s" % sorted(axes))
    for n, want in (("front", (0, 0, 1)), ("back", (0, 0, -1)), ("top", (0, -1, 0)), ("bottom", (0, 1, 0)), ("left", (1, 0, 0)), ("right", (-1, 0, 0))):
        if n in cams:
            got = tuple(int(round(x)) for x in cams[n][2])
            if n in ("left", "right"):
                rep.expect(got in ((1, 0, 0), (-1, 0, 0)), "views", n, f, "the view %s looks in the direction %s" % (n, got))
            elif n in ("top", "bottom"):
                rep.expect(got in ((0, 1, 0), (0, -1, 0)), "views", n, f, "the view %s looks in the direction %s" % (n, got))
            else:
                rep.expect(got == want, "views", n, f, "the view %s looks in the direction %s" % (n, got))
    # each rig camera is added under the name it has and used by the shot of that name
    for e in effects(fl, ("mcall",), "create_shot"):
        a = argmap(["shot_id", "camera_id", "pose", "rig_camera_id", "rig_instance_id"], e)
        named = {cval(x) for x in tm.walk(fl.deep(a["rig_camera_id"])) if is_const(x) and cval(x) in cams}
        own = unfold(fl, a["shot_id"], 14)
        rep.expect(len(named) == 1 and own.count("_" + min(named)) >= 1, "views", "name", e.where, "view %s has rig camera %s" % (own[-80:], sorted(named)))
        rep.expect("p:spherical_shot.id" in own, "views", "name", e.where, "the id of the view does not name its panorama")
    fl2, r2, A2 = run(prog, U + "add_image_format_extension", {"opensfm.undistort"})
    for x in leaves(r2):
        rep.expect(x is A2["shot_id"] or starts(fl2, x, A2["shot_id"]), "views", "extension", f, "the id becomes %s" % unfold(fl2, x)[:60])


def rodrigues(t, ax):
    n = math.sqrt(sum(x * x for x in ax))
    x, y, z = (v / n for v in ax)
    c, s = math.cos(t), math.sin(t)
    d = 1 - c
    return [[c + x * x * d, x * y * d - z * s, x * z * d + y * s], [y * x * d + z * s, c + y * y * d, y * z * d - x * s], [z * x * d - y * s, z * y * d + x * s, c + z * z * d]]


def render(prog, rep):
    f = U + "render_perspective_view_of_a_panorama"
    fl, r, A = run(prog, f, {"opensfm.undistort"})
    img, pano, view = A["image"], A["panoshot"], A["perspectiveshot"]
    Rp, Rv = (tm.mcall(attr(x, "pose"), "get_rotation_matrix", []) for x in (pano, view))
    found = None
    for e in effects(fl, ("mcall",), "project_many"):
        if e.recv is attr(pano, "camera"):
            found = e
    if not rep.expect(found is not None, "views", "sampled", f, "the bearings are not projected to the panorama"):
        return
    bs = [e.result for e in effects(fl, ("mcall",), "pixel_bearing_many") if e.recv is attr(view, "camera")]
    if not rep.expect(len(bs) == 1, "views", "sampled", f, "the pixels of the view have no bearings"):
        return
    lin = Lin(fl, orth={Rp, Rv}, vectors=set())
    b = lin.norm(bs[0])
    got = lin.norm(found.args[0])
    want = lin.mul(b, lin.mul(lin.norm(Rv), lin.norm(attr(Rp, "T"))))
    col = lin.mul(lin.mul(lin.norm(Rp), lin.norm(attr(Rv, "T"))), lin.norm(attr(bs[0], "T")))
    rep.expect(got in (want, col), "views", "sampled:rotation", found.where, "the bearings in the panorama are %s" % lin.show(got)[:120])
    for e in effects(fl, ("call",), "normalized_image_coordinates"):
        a = argmap(["pixel_coords", "width", "height"], e)
        rep.expect(a["width"] is attr(attr(view, "camera"), "width") and a["height"] is attr(attr(view, "camera"), "height"), "views", "sampled:size", e.where, "the pixels of the view are normalised by another size")
    n = 0
    for e in effects(fl, ("call",), "denormalized_image_coordinates"):
        a = argmap(["norm_coords", "width", "height"], e)
        n += 1
        rep.expect(a["norm_coords"] is found.result and a["width"] is item(attr(img, "shape"), const(1)) and a["height"] is item(attr(img, "shape"), const(0)), "views", "sampled:source size", e.where,
                   "the positions in the panorama are scaled by another size")
    rep.expect(n > 0, "views", "sampled:source size", f, "the positions in the panorama are not in pixels")
    for x in leaves(r):
        x = core(fl, x)
        if not rep.expect(x.op == "call" and tm.callee_name(x) == "cv2.remap", "views", "sampled:result", f, "the view is %s" % unfold(fl, x)[:60]):
            continue
        a = call_of(x, ["src", "map1", "map2", "interpolation"])
        cols = [[cval(k) for k in items(strip(a[m]))[1]][-1:] for m in ("map1", "map2")]
        rep.expect(a["src"] is img and cols == [[0], [1]] and a.get("interpolation") is A["interpolation"], "views", "sampled:result", f, "the view is sampled at %s of the positions" % cols)


def scale(prog, rep):
    f = U + "scale_image"
    fl, r, A = run(prog, f, {"opensfm.undistort"})
    img, mx = A["image"], A["max_size"]
    w, h = item(attr(img, "shape"), const(1)), item(attr(img, "shape"), const(0))
    for W, H, M, C in itertools.product((100, 37, 1), (100, 80, 3), (200, 100, 50, 10), ((), (3,))):
        env = {w: W, h: H, mx: M, attr(img, "shape"): (H, W) + C, attr(img, "ndim"): 2 + len(C), attr(img, "size"): W * H * 3 ** len(C)}
        factor = M / max(W, H)
        got = leaves(Fold(decide=numeric(fl, env), fl=fl)(r))
        for x in got:
            if x is img:
                rep.expect(factor >= 1 or (round(W * factor), round(H * factor)) == (W, H), "scale", "largest", f, "an image of %dx%d is left larger than %d" % (W, H, M))
                continue
            if not rep.expect(x.op == "call" and tm.callee_name(x) == "cv2.resize", "scale", "resized", f, "the image becomes %s" % unfold(fl, x)[:60]):
                continue
            d = seq_items(fl, call_of(x, ["src", "dsize"])["dsize"])
            a, b = (num(fl, y, env) for y in d)
            rep.expect(factor < 1 and abs(a - W * factor) <= 1 and abs(b - H * factor) <= 1 and max(a, b) <= M, "scale", "resized", f, "an image of %dx%d becomes %sx%s with a largest size of %d" % (W, H, a, b, M))


def num(fl, t, env):
    """Number of a term whose variables are given."""
    t = fl.deep(t) if t not in env else t
    if t in env:
        return env[t]
    if is_const(t):
        return cval(t)
    if t.op == "item":
        b, k = num(fl, t.args[0], env), t.args[1]
        if k.op == "slice":
            return b[slice(*[num(fl, x, env) if isinstance(x, tm.T) else x for x in k.args])]
        return b[num(fl, k, env)]
    if t.op == "slice_of":
        a = [num(fl, x, env) for x in t.args]
        return a[0][slice(*a[1:])]
    if t.op == "tup":
        return tuple(num(fl, x, env) for x in t.args)
    if t.op == "bin":
        a, b = num(fl, t.args[1], env), num(fl, t.args[2], env)
        return {"+": a + b, "-": a - b, "*": a * b}[t.args[0]] if t.args[0] in "+-*" else a / b if t.args[0] == "/" else a // b
    if t.op in ("add", "mul", "sum", "prod"):
        vs = [num(fl, x, env) for x in t.args]
        return sum(vs) if t.op in ("add", "sum") else math.prod(vs)
    if t.op == "un":
        return -num(fl, t.args[1], env) if t.args[0] == "-" else num(fl, t.args[1], env)
    if t.op == "call":
        n = tm.callee_name(t).split(".")[-1]
        a = [num(fl, x, env) for x in tm.call_parts(t)[1]]
        F = {"max": max, "min": min, "int": int, "round": round, "float": float, "floor": math.floor, "ceil": math.ceil, "rint": round, "abs": abs}
        if n in F:
            return F[n](*a)
    if t.op == "ite":
        c = numeric(fl, env)(t.args[0])
        if c is not None:
            return num(fl, t.args[1] if c else t.args[2], env)
    raise LookupError(unfold(fl, t)[:80])


def numeric(fl, env):
    def decide(c):
        if c.op == "cmp" and c.args[0] in ("<", ">", "<=", ">=", "==", "!="):
            try:
                a, b = num(fl, c.args[1], env), num(fl, c.args[2], env)
            except LookupError:
                return None
            return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}[c.args[0]]
        return None

    return decide
