from checks.util import argmap, atoms, effects, implied, items, lookup, outcomes, params, run, strip
from sa import terms as tm
from sa.match import leaves, unfold
from sa.terms import const, cval, is_const, mk

TECHNIQUE = "effect and alias analysis of the set of images still to reconstruct, and of the shots created for an image or rig instance"
EXPLANATION = (
    "The set of remaining images is followed from its creation through the bootstrap loop into grow_reconstruction: a pair may only start a "
    "reconstruction when both images are in it, the shots of a successful bootstrap or resection must leave that same set (in place, on every "
    "path), and the images reported as not reconstructed are what is left. The shots add_shot creates are compared with the ones it returns."
)
R = "opensfm.reconstruction."
M = {"opensfm.reconstruction"}
SHRINK = {"difference_update", "discard", "remove"}


def check(prog, rep):
    rep.rule("start", "a reconstruction starts from two images that are in none yet")
    rep.rule("remove", "images that enter a reconstruction leave the set of remaining images, whatever happens next")
    rep.rule("added", "the shots reported as added are the shots created")
    rep.rule("own", "each created shot has the camera, metadata and rig place of its own image")
    rep.rule("accept", "an image is added only with enough resection inliers, at the pose found for it")
    rep.rule("report", "what is not reconstructed is reported")
    rep.part(incremental, prog, rep)
    rep.part(grow, prog, rep)
    rep.part(candidates, prog, rep)
    rep.part(resect, prog, rep)
    rep.part(add_shot, prog, rep)
    rep.part(relative, prog, rep)
    rep.part(prior, prog, rep)
    rep.minimum("start", 2)
    rep.minimum("remove", 3)
    rep.minimum("own", 4)


def base(t):
    """The set object a value is, seen through the iterations that shrank it in place."""
    while True:
        if t.op == "loopphi":
            t = t.args[2]
        elif t.op == "loopout":
            t = t.args[1]
        elif t.op == "bin" and t.args[0] == "-":
            t = t.args[1]
        elif t.op == "ite":
            a, b = base(t.args[1]), base(t.args[2])
            return a if a is b else t
        else:
            return t


def shrinks(fl):
    """(effect, shrunk set, what is taken out)"""
    out = []
    for e in fl.effects:
        if e.kind == "aug" and e.name == "-" and e.recv is not None:
            out.append((e, base(e.recv), e.args[0]))
        elif e.kind == "mcall" and e.name in SHRINK and e.recv is not None and e.args:
            out.append((e, base(e.recv), e.args[0]))
    return out


def within(fl, gs, allowed):
    """No condition beyond the allowed ones."""
    ok = {(fl.deep(a), p) for a, p in atoms(allowed)}
    return all((fl.deep(a), p) in ok for a, p in atoms(gs))


def opaque(*names):
    return {R + n for n in names}


HEAVY = ("bootstrap_reconstruction", "resect", "bundle", "bundle_local", "bundle_shot_poses", "grow_reconstruction", "retriangulate", "remove_outliers",
         "paint_reconstruction", "compute_image_pairs", "compute_image_pairs_sequential", "triangulate_shot_features", "reconstructed_points_for_images",
         "_get_common_feature_arrays", "log_bundle_stats")


def incremental(prog, rep):
    q = R + "incremental_reconstruction"
    fl, r, A = run(prog, q, M, opaque(*HEAVY))
    boots = effects(fl, ("call",), "bootstrap_reconstruction")
    grows = effects(fl, ("call",), "grow_reconstruction")
    gp = params(lookup(prog, R + "grow_reconstruction"))
    bp = params(lookup(prog, R + "bootstrap_reconstruction"))
    cut = shrinks(fl)
    rep.count("bootstraps", len(boots))
    sets = set()
    for b in boots:
        a = argmap(bp, b)
        for im in ("im1", "im2"):
            ins = [g.args[2] for g, p in atoms(b.guards) if p and g.op == "cmp" and g.args[0] == "in" and g.args[1] is a[im]]
            for g, p in atoms(b.guards):
                if p and g.op == "mcall" and g.args[1] == "issubset" and a[im] in [v for v, gs, L in fl.elements(strip_set(g.args[0])) or [] if not gs]:
                    ins.append(tm.call_parts(g)[1][0])
            good = [g for g in ins if all_images(fl, base(g))]
            rep.expect(bool(good), "start", "incremental_reconstruction:" + im, b.where, "a reconstruction starts from %s whether or not it already is in one" % im)
            sets |= {base(g) for g in good}
        # both points of the same pair
        for n, im in (("p1", "im1"), ("p2", "im2")):
            for v, gs in outcomes(a[n]):
                v = fl.deep(v)
                j = 1 if n == "p1" else 2
                calls = [x for x in tm.walk(v) if x.op == "call" and tm.callee_name(x) == R + "_get_common_feature_arrays"]
                for c in calls:
                    cp = tm.call_parts(c)
                    names = params(lookup(prog, R + "_get_common_feature_arrays"))
                    ca = dict(cp[2])
                    for k, y in zip(names, cp[1]):
                        ca.setdefault(k, y)
                    rep.expect(ca.get("im1") is a["im1"] and ca.get("im2") is a["im2"], "start", "incremental_reconstruction:points", b.where, "the points are of another pair of images")
                    rep.expect(v.op == "item" and v.args[1] is const(j - 1), "start", "incremental_reconstruction:points", b.where, "%s is %s" % (n, unfold(fl, v)))
                if not calls and v.op == "item" and v.args[0].op == "item" and is_const(v.args[1]):
                    k = v.args[0].args[1]
                    ok = cval(v.args[1]) == j and (k.op != "tup" or list(k.args) == [fl.deep(a["im1"]), fl.deep(a["im2"])])
                    rep.expect(ok, "start", "incremental_reconstruction:points", b.where, "%s is %s" % (n, unfold(fl, v)))
    for g in grows:
        a = argmap(gp, g)
        s = base(a["images"])
        rep.expect(s in sets, "remove", "incremental_reconstruction:grow", g.where,
                   "the images added while growing are taken from %s, not from the set the next reconstruction starts from" % unfold(fl, a["images"]))
        rec = a["reconstruction"]
        before = [(e, t, x) for e, t, x in cut if e.seq < g.seq and t in sets and within(fl, e.guards, g.guards) and shots_of(fl, x, rec)]
        before = before or any(y.op == "bin" and y.args[0] == "-" and shots_of(fl, y.args[2], rec) for y in tm.walk(a["images"]))
        rep.expect(bool(before), "remove", "incremental_reconstruction:bootstrap", g.where, "the images of a new reconstruction stay in the set of remaining images")
        kept = [e for e in effects(fl, ("mcall",), "append") if e.args and tm.contains(fl.deep(e.args[0]), lambda y: y.op == "call" and tm.callee_name(y) == R + "grow_reconstruction")
                and "reconstructions" in str(e.recv)]
        rep.count("kept", len(kept))
    for e in fl.effects:
        if e.kind == "setitem" and e.args and e.args[0] is const("not_reconstructed_images"):
            v = strip(e.args[1])
            rep.expect(base(v) in sets or base(strip_set(v)) in sets, "report", "incremental_reconstruction:rest", e.where, "reported as not reconstructed: %s" % unfold(fl, v))


def strip_set(t):
    while t.op == "call" and tm.callee_name(t) in ("sorted", "list", "set", "tuple"):
        t = tm.call_parts(t)[1][0]
    return t


def all_images(fl, t):
    return tm.contains(fl.deep(t), lambda y: y.op == "mcall" and y.args[1] in ("get_shot_ids", "images"))


def shots_of(fl, x, rec):
    """Does x hold all shots of the reconstruction?"""
    x = strip_set(strip(x))
    if x.op == "mcall" and x.args[1] == "keys":
        x = x.args[0]
    if x.op == "elem":
        x = x.args[0]
    return x.op == "attr" and x.args[1] == "shots" and fl.deep(x.args[0]) is fl.deep(rec)


def grow(prog, rep):
    q = R + "grow_reconstruction"
    fl, r, A = run(prog, q, M, opaque(*HEAVY))
    cut = shrinks(fl)
    rs = effects(fl, ("call",), "resect")
    rep.count("resections", len(rs))
    rep.expect(bool(rs), "remove", "grow_reconstruction:resect", q, "no image is ever resected")
    ap = params(lookup(prog, R + "resect"))
    for e in rs:
        ok, new = mk("item", e.result, const(0)), mk("item", e.result, const(1))
        allowed = tuple(e.guards) + ((ok, True),)
        mine = [c for c in cut if c[1] is A["images"] and is_new(fl, c[2], new) and within(fl, c[0].guards, allowed)]
        rep.expect(bool(mine), "remove", "grow_reconstruction:new", e.where, "the images just added are not taken out of the caller's set of remaining images")
        a = argmap(ap, e)
        for p, k in (("threshold", "resection_threshold"), ("min_inliers", "resection_min_inliers")):
            b, ks = items(strip(a[p])) if p in a else (None, [])
            if ks:
                rep.expect([cval(x) for x in ks if is_const(x)][-1:] == [k], "accept", "grow_reconstruction:" + p, e.where, "%s is %s" % (p, unfold(fl, a[p])))
        for t in effects(fl, ("call",), "triangulate_shot_features"):
            ta = argmap(params(lookup(prog, R + "triangulate_shot_features")), t)
            if "shot_ids" in ta:
                rep.expect(is_new(fl, ta["shot_ids"], new), "added", "grow_reconstruction:triangulate", t.where, "the tracks of %s are triangulated" % unfold(fl, ta["shot_ids"]))
    for e in effects(fl, ("call",), "reconstructed_points_for_images"):
        a = argmap(params(lookup(prog, R + "reconstructed_points_for_images")), e)
        rep.expect(base(a["images"]) is A["images"], "remove", "grow_reconstruction:candidates", e.where, "candidates are taken from %s" % unfold(fl, a["images"]))


def is_new(fl, x, new):
    x = strip(x)
    if x.op == "call" and tm.callee_name(x) in ("set", "sorted", "list"):
        x = strip(tm.call_parts(x)[1][0])
    return fl.deep(x) is fl.deep(new) or (x.op == "elem" and fl.deep(x.args[0]) is fl.deep(new))


def candidates(prog, rep):
    q = R + "reconstructed_points_for_images"
    fl, r, A = run(prog, q, M)
    for e in effects(fl, ("call",), "count_tracks_per_shot"):
        x = strip(e.args[1])
        el = fl.elements(x)
        if x is A["images"]:
            rep.expect(False, "start", "reconstructed_points_for_images", e.where, "images already in the reconstruction are candidates again")
            continue
        for v, gs, L in el or []:
            known = mk("cmp", "in", v, mk("attr", A["reconstruction"], "shots"))
            rep.expect(implied(gs, tm.tnot(known)), "start", "reconstructed_points_for_images", e.where, "images already in the reconstruction are candidates again")
    calls = effects(fl, ("call",), "sorted")
    for v in leaves(r):
        if v.op == "call" and tm.callee_name(v) == "sorted":
            _, a, k = tm.call_parts(v)
            rev = k.get("reverse")
            key = k.get("key")
            src = fl.deep(a[0])
            rep.expect(tm.contains(src, lambda y: y.op == "call" and (tm.callee_name(y) or "").endswith("count_tracks_per_shot")), "start", "reconstructed_points_for_images:counts", q, "candidates are %s" % unfold(fl, v))


def resect(prog, rep):
    q = R + "resect"
    fl, r, A = run(prog, q, M, opaque("add_shot", "triangulate_shot_features", "add_observation_to_reconstruction"))
    adds = effects(fl, ("call",), "add_shot")
    names = params(lookup(prog, R + "add_shot"))
    rep.expect(bool(adds), "accept", "resect:adds", q, "no shot is added")
    for e in adds:
        a = argmap(names, e)
        rep.expect(a.get("shot_id") is A["shot_id"], "accept", "resect:shot", e.where, "the shot added is %s" % unfold(fl, a["shot_id"]))
        cm = [(g, p) for g, p in atoms(e.guards) if g.op == "cmp" and A["min_inliers"] in g.args[1:]]
        ok = False
        for g, p in cm:
            left = g.args[1] is A["min_inliers"]
            op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(g.args[0]) if left else g.args[0]
            if not p:
                op = {"<": ">=", "<=": ">", ">": "<=", ">=": "<"}.get(op)
            ok = ok or op == ">="
            n = g.args[2] if left else g.args[1]
            th = tm.contains(fl.deep(n), lambda y: y is A["threshold"])
            rep.expect(th, "accept", "resect:inliers", e.where, "the inliers counted are %s" % unfold(fl, n))
        rep.expect(ok, "accept", "resect:enough", e.where, "an image is added without having at least min_inliers inliers")
        pose = a.get("pose")
        pose_rule(fl, rep, e, pose)
    rets = [e for e in fl.effects if e.kind == "return"]
    res = {e.result for e in adds}
    for e in rets:
        v = e.args[0]
        if v.op != "tup":
            continue
        ok, new = v.args[0], strip(v.args[1])
        for o, gs in outcomes(ok):
            if o is const(True):
                rep.expect(new in res or any(fl.deep(new) is fl.deep(x) for x in res), "added", "resect:result", e.where, "reports %s as added" % unfold(fl, new))
            elif o is const(False):
                rep.expect(not any(a.seq < e.seq and within(fl, a.guards, e.guards) for a in adds), "added", "resect:result", e.where, "reports failure after adding the shot")
    # correspondences: bearing, point and id of the same track
    pts = set()
    ps = effects(fl, ("call",), "absolute_pose_ransac")
    for e in ps:
        rows = []
        a = argmap(params(lookup(prog, "opensfm.multiview.absolute_pose_ransac")), e)
        for x in (a["bs"], a["Xs"]):
            x = strip(x)
            el = fl.elements(x)
            rows.append(el[0] if el and len(el) == 1 and len(el[0]) == 3 else None)
        if None in rows:
            continue
        (b, gb, lb), (X, gX, lX) = rows
        pts.add((tuple(gX), lX))
        kb = {fl.deep(z) for z in tm.walk(fl.deep(b)) if z.op == "elem"}
        kx = {fl.deep(z) for z in tm.walk(fl.deep(X)) if z.op == "elem"}
        rep.expect(bool(kb & kx) and lb == lX, "accept", "resect:pairs", e.where, "bearings and points are not of the same tracks")
        rep.expect(tuple(gb) == tuple(gX), "accept", "resect:pairs", e.where, "bearings and points are collected under different conditions")
        cam = [y.args[0] for y in tm.walk(fl.deep(b)) if y.op == "mcall" and y.args[1] == "pixel_bearing"]
        for c in cam:
            ims = [y for y in tm.walk(c) if y.op == "mcall" and y.args[1] == "load_exif"]
            for y in ims:
                rep.expect(list(tm.call_parts(y)[1]) == [A["shot_id"]], "accept", "resect:camera", e.where, "the camera is that of %s" % unfold(fl, tm.call_parts(y)[1][0]))
    for e in effects(fl, ("call",), "add_observation_to_reconstruction"):
        a = argmap(params(lookup(prog, R + "add_observation_to_reconstruction")), e)
        rep.expect(a.get("shot_id") is A["shot_id"], "accept", "resect:observations", e.where, "the observation is attached to %s" % unfold(fl, a["shot_id"]))
        t = strip(a["track_id"])
        if t.op == "item":
            i = t.args[1]
            el = fl.elements(t.args[0])
            if el and len(el) == 1 and pts:
                rep.expect(tuple(el[0][1:]) in pts, "accept", "resect:ids", e.where, "the track ids are not collected along with the points")
            g = [x for x, p in atoms(e.guards) if p]
            src = [x for x in g if x.op in ("item", "elem") or x.op == "call"]
            same = any(i.op == "idx" and x.op == "elem" and fl.deep(x.args[0]) is fl.deep(i.args[0]) for x in src) or any(x.op == "item" and x.args[1] is i for x in src) or i.op == "elem"
            rep.expect(same or not src, "accept", "resect:observations", e.where, "the observation of track %s is attached for another inlier flag" % unfold(fl, t))
            rep.expect(bool(src) or i.op == "elem", "accept", "resect:observations", e.where, "observations are attached whether or not they are inliers")


def lin(t):
    """(sign, [factors]) of a product of matrices and a vector."""
    t = strip(t)
    if t.op == "un" and t.args[0] in ("-", "USub"):
        s, f = lin(t.args[1])
        return -s, f
    if t.op == "mcall" and t.args[1] == "dot":
        (s1, f1), (s2, f2) = lin(t.args[0]), lin(tm.call_parts(t)[1][0])
        return s1 * s2, f1 + f2
    if t.op == "bin" and t.args[0] == "@":
        (s1, f1), (s2, f2) = lin(t.args[1]), lin(t.args[2])
        return s1 * s2, f1 + f2
    if t.op == "call" and tm.callee_name(t) in ("numpy.dot", "numpy.matmul"):
        (s1, f1), (s2, f2) = [lin(x) for x in tm.call_parts(t)[1][:2]]
        return s1 * s2, f1 + f2
    if t.op == "bin" and t.args[0] == "*" and (t.args[1] is const(-1) or t.args[2] is const(-1)):
        s, f = lin(t.args[2] if t.args[1] is const(-1) else t.args[1])
        return -s, f
    if t.op == "bin" and t.args[0] == "-" and t.args[1] in (const(0), const(0.0)):
        s, f = lin(t.args[2])
        return -s, f
    return 1, [t]


def part(t):
    """('R'|'Rt'|'t', T) for a rotation block, its transpose, or the translation column of a 3x4 matrix T."""
    t = strip(t)
    if t.op == "attr" and t.args[1] == "T" or (t.op == "mcall" and t.args[1] == "transpose"):
        p = part(t.args[0])
        return ({"R": "Rt", "Rt": "R"}.get(p[0]), p[1]) if p else None
    if t.op in ("item", "slice_of") and "3" in str(t.args[1]):
        s = str(t.args[1])
        k = t.args[1]
        if k.op == "tup" and len(k.args) == 2:
            return ("t" if is_const(k.args[1]) else "R", t.args[0])
    return None


def pose_rule(fl, rep, e, pose):
    """The pose is the inverse of the camera to world transform found by the solver."""
    h = fl.h(pose) if pose is not None and pose.op == "obj" else None
    a = (list(h.args) if h is not None else list(tm.call_parts(pose)[1])) if pose is not None and pose.op in ("obj", "call") else []
    if len(a) != 2:
        return
    Rm = part(fl.deep(a[0]))
    s, f = lin(fl.deep(a[1]))
    fs = [part(x) for x in f]
    if Rm is None or any(x is None for x in fs):
        return
    rep.expect(Rm[0] == "Rt", "accept", "resect:rotation", e.where, "the rotation of the pose is that of the camera to world transform")
    rep.expect(s == -1 and [x[0] for x in fs] == ["Rt", "t"], "accept", "resect:translation", e.where, "the translation of the pose is %s" % unfold(fl, a[1]))


def add_shot(prog, rep):
    q = R + "add_shot"
    fl, r, A = run(prog, q, M)
    made = effects(fl, ("mcall", "call"), "create_shot")
    rep.expect(bool(made), "added", "add_shot:creates", q, "no shot is created")
    for e in made:
        names = ["shot_id", "camera_id", "pose", "rig_camera_id", "rig_instance_id"]
        a = argmap(names, e)
        s = a["shot_id"]
        # reported
        ok = False
        for v, gs in outcomes(r):
            if contradict(e.guards, gs):
                continue
            ok = holds(fl, v, s)
            rep.expect(ok, "added", "add_shot:reported", e.where, "the shot %s is created but %s is reported" % (unfold(fl, s), unfold(fl, v)))
        ex = [y for y in tm.walk(fl.deep(a["camera_id"])) if y.op == "mcall" and y.args[1] == "load_exif"]
        for y in ex:
            rep.expect(list(tm.call_parts(y)[1]) == [fl.deep(s)], "own", "add_shot:camera", e.where, "the camera of %s is %s" % (unfold(fl, s), unfold(fl, a["camera_id"])))
        rc = a.get("rig_camera_id")
        if rc is not None:
            b, ks = items(strip(rc))
            rep.expect(b is A["rig_assignments"] and ks == [s, const(1)], "own", "add_shot:rig_camera", e.where, "the rig camera of %s is %s" % (unfold(fl, s), unfold(fl, rc)))
            b, ks = items(strip(a["rig_instance_id"]))
            rep.expect(b is A["rig_assignments"] and ks[1:] == [const(0)] and ks[0] in (s, A["shot_id"]), "own", "add_shot:rig_instance", e.where, "the rig instance of %s is %s" % (unfold(fl, s), unfold(fl, a["rig_instance_id"])))
        else:
            # outside rigs: at the given pose
            rep.expect(strip(a["pose"]) is A["pose"], "own", "add_shot:pose", e.where, "the shot is created at %s" % unfold(fl, a["pose"]))
            rep.expect(s is A["shot_id"], "own", "add_shot:id", e.where, "the shot created is %s" % unfold(fl, s))
        meta = [x for x in fl.effects if x.kind == "setattr" and x.name == "metadata" and x.recv is e.result]
        rep.expect(bool(meta), "own", "add_shot:metadata", e.where, "the created shot gets no metadata")
        for m in meta:
            ys = [y for y in tm.walk(fl.deep(m.args[0])) if y.op in ("call", "mcall") and (tm.callee_name(y) or str(y.args[1])).endswith("get_image_metadata")]
            for y in ys:
                vals = list(tm.call_parts(y)[1]) + list(tm.call_parts(y)[2].values())
                rep.expect(fl.deep(s) in vals, "own", "add_shot:metadata", m.where, "the metadata of %s is %s" % (unfold(fl, s), unfold(fl, m.args[0])))
    for e in effects(fl, ("mcall", "call"), "update_instance_pose_with_shot"):
        rep.expect(list(e.args) == [A["shot_id"], A["pose"]], "own", "add_shot:instance_pose", e.where, "the instance is placed by %s" % ", ".join(unfold(fl, x) for x in e.args))


def contradict(g1, g2):
    a, b = set(atoms(g1)), set(atoms(g2))
    return any((c, not p) in b for c, p in a)


def holds(fl, v, s):
    """Does the collection v contain s?"""
    v = strip(v)
    if v.op == "call" and tm.callee_name(v) in ("set", "frozenset", "sorted"):
        return holds(fl, tm.call_parts(v)[1][0], s)
    if s.op == "elem" and fl.deep(s.args[0]) is fl.deep(v):
        return True
    if v.op == "bin" and v.args[0] == "|":
        return any(holds(fl, x, s) for x in v.args[1:])
    h = fl.h(v) if v.op == "obj" else None
    for en in h.log if h else []:
        if en.kind in ("add", "set") and en.val is not None and fl.deep(en.val) is fl.deep(s):
            return True
        if en.kind in ("spread", "extend") and holds(fl, en.val, s):
            return True
    return False


def relative(prog, rep):
    """The two first images of a reconstruction."""
    q = R + "reconstruction_from_relative_pose"
    fl, r, A = run(prog, q, M, opaque("add_shot", "bundle_shot_poses", "retriangulate", "triangulate_shot_features"))
    names = params(lookup(prog, R + "add_shot"))
    adds = effects(fl, ("call",), "add_shot")
    got = {}
    for e in adds:
        a = argmap(names, e)
        got.setdefault(a["shot_id"], []).append((e, a))
    for p in ("im1", "im2"):
        rep.expect(A[p] in got, "start", "reconstruction_from_relative_pose:" + p, q, "%s is never added" % p)
    first = [e for e, a in got.get(A["im1"], [])]
    for e, a in got.get(A["im2"], []):
        new = [x.result for x in first]
        inn = [g for g, p in atoms(e.guards) if g.op == "cmp" and g.args[0] == "in" and g.args[1] is A["im2"] and not p]
        rep.expect(bool(inn), "start", "reconstruction_from_relative_pose:twice", e.where, "the second image is added again when its rig instance already contains it")
        h = fl.h(a["pose"]) if a["pose"].op == "obj" else None
        args = list(h.args) if h is not None else (list(tm.call_parts(a["pose"])[1]) if a["pose"].op == "call" else [])
        if args:
            rep.expect([strip(x) for x in args] == [A["R"], A["t"]], "accept", "reconstruction_from_relative_pose:pose", e.where, "the second image is placed at %s" % unfold(fl, a["pose"]))
    for e in effects(fl, ("call",), "triangulate_shot_features"):
        a = argmap(params(lookup(prog, R + "triangulate_shot_features")), e)
        t = [fl.deep(x.result) for x in adds]
        rep.expect(any(tm.contains(fl.deep(a["shot_ids"]), lambda y: y is z) for z in t), "added", "reconstruction_from_relative_pose:triangulate", e.where, "the tracks of %s are triangulated" % unfold(fl, a["shot_ids"]))


def prior(prog, rep):
    q = R + "reconstruct_from_prior"
    if lookup(prog, q) is None:
        return
    fl, r, A = run(prog, q, M, opaque("triangulate_shot_features", "paint_reconstruction"))
    adds = effects(fl, ("mcall", "call"), "add_shot")
    rep.expect(bool(adds), "added", "reconstruct_from_prior:shots", q, "the shots of the prior are not taken over")
    for e in adds:
        rep.expect(not atoms(e.guards), "added", "reconstruct_from_prior:all", e.where, "some shots of the prior are left out")
    for e in fl.effects:
        if e.kind == "setitem" and e.args and e.args[0] is const("not_reconstructed_images"):
            v = strip(e.args[1])
            ok = v.op == "bin" and v.args[0] == "-" and all_images(fl, v.args[1]) and tm.contains(fl.deep(v.args[2]), lambda y: y.op == "attr" and y.args[1] == "shots")
            rep.expect(ok or v.op != "bin", "report", "reconstruct_from_prior:rest", e.where, "reported as not reconstructed: %s" % unfold(fl, v))
