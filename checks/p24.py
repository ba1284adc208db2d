from checks.util import argmap, atoms, class_methods, config_keys, effects, implied, items, lookup, outcomes, params, run, strip
from sa import terms as tm
from sa.match import leaves, unfold
from sa.terms import TRUE, cval, is_const

TECHNIQUE = "value-flow analysis of the rays, thresholds and guards of every triangulation and of what is stored from it"
EXPLANATION = (
    "Each triangulation call is found in TrackTriangulator and triangulate_gcp; its origins and bearings are traced per shot to that shot's pose, "
    "camera and observation, its thresholds to the parameters and configuration they must come from, and every stored point or observation must be "
    "guarded by the success of the triangulation it is taken from. remove_outliers must remove exactly the observations above the threshold."
)
R = "opensfm.reconstruction."
C = R + "TrackTriangulator"
TRI = {"triangulate_bearings_midpoint", "triangulate_bearings_dlt", "triangulate_two_bearings_midpoint"}
CONFIG = {"reproj_threshold": "triangulation_threshold", "min_ray_angle_degrees": "triangulation_min_ray_angle", "min_depth": "triangulation_min_depth",
          "iterations": "triangulation_refinement_iterations"}


def check(prog, rep):
    rep.rule("ray", "every ray starts at its shot's origin and follows that shot's bearing of its observation, in one frame")
    rep.rule("limits", "triangulation uses the configured thresholds, the angle in radians")
    rep.rule("gate", "nothing is stored from a triangulation that failed")
    rep.rule("store", "the stored observations are those of the shots that took part, under the right ids")
    rep.rule("outlier", "exactly the observations above the outlier threshold are removed, and points left with fewer than two")
    n = 0
    for m in sorted(class_methods(prog, C)):
        if m.startswith("triangulate"):
            n += method(prog, rep, C + "." + m, C)
    q = "opensfm.multiview.triangulate_gcp"
    n += method(prog, rep, q, None)
    rep.count("triangulations", n)
    rep.part(callers, prog, rep)
    rep.part(handler, prog, rep)
    rep.part(outliers, prog, rep)
    rep.minimum("ray", 8)
    rep.minimum("limits", 12)
    rep.minimum("gate", 5)


# ---------------------------------------------------------------- rays
def per_shot(fl, t):
    """(per-shot values, selections) behind a stack of rows."""
    t = strip(t)
    sel = []
    while t.op == "item":
        sel.append(t.args[1])
        t = strip(t.args[0])
    if t.op != "obj" or fl.h(t) is None:
        return None, None
    el = [e for e in fl.h(t).log if e.kind == "add"]
    if len(el) != len(fl.h(t).log) or not el:
        return None, None
    vals = []
    rows = [strip(e.val) for e in el]
    if all(v.op == "item" and strip(v.args[0]).op == "obj" for v in rows):
        for v in rows:
            sub, s2 = per_shot(fl, v.args[0])
            if sub is None:
                return None, None
            vals += sub
            sel.append((v.args[1], s2))
    else:
        vals = [(v, tuple(e.guards), tuple(e.loops)) for v, e in zip(rows, el)]
    out = []
    for v in vals:
        if v not in out:
            out.append(v)
    return out, tuple(sel)


def shot_of(t):
    """The shot a pose or camera expression belongs to: s.pose..., s.camera..."""
    found = []
    for x in tm.walk(t):
        if x.op == "attr" and x.args[1] in ("pose", "camera", "rig_instance"):
            found.append(x.args[0])
    return found


def pose_call(t, names):
    return t.op == "mcall" and t.args[1] in names and t.args[0].op == "attr" and t.args[0].args[1] == "pose"


def rot_inverse(t):
    """shot when t is the camera-to-world rotation of the shot, else None."""
    if t.op == "attr" and t.args[1] == "T" and pose_call(t.args[0], ("get_rotation_matrix", "get_R_world_to_cam")):
        return t.args[0].args[0].args[0]
    if t.op == "mcall" and t.args[1] == "transpose" and pose_call(t.args[0], ("get_rotation_matrix", "get_R_world_to_cam")):
        return t.args[0].args[0].args[0]
    if pose_call(t, ("get_R_cam_to_world",)):
        return t.args[0].args[0]
    return None


def bearing(t):
    """(frame, rotation shot, camera shot, observed point) of a ray expression."""
    t = strip(t)
    rot = None
    frame = "camera"
    a = None
    if t.op == "mcall" and t.args[1] == "dot":
        a, b = t.args[0], tm.call_parts(t)[1][0]
    elif t.op == "bin" and t.args[0] == "@":
        a, b = t.args[1], t.args[2]
    elif t.op == "call" and tm.callee_name(t) in ("numpy.dot", "numpy.matmul"):
        a, b = tm.call_parts(t)[1][:2]
    if a is not None:
        rot = rot_inverse(strip(a))
        frame = "world"
        if rot is None:
            return ("?", None, None, None)
        t = strip(b)
    if t.op == "mcall" and t.args[1] == "pixel_bearing":
        cam = t.args[0]
        return (frame, rot, cam.args[0] if cam.op == "attr" and cam.args[1] == "camera" else None, strip(tm.call_parts(t)[1][0]))
    return None


def consistent(fl, rep, q, where, o, b, frame):
    """Origins and bearings come from the same shots and observations, in the wanted frame."""
    vo, so = per_shot(fl, o)
    vb, sb = per_shot(fl, b)
    if vo is None or vb is None:
        return
    rep.expect(so == sb, "ray", q + ":rows", where, "origins and bearings are of different observations")
    rep.expect([x[1:] for x in vo] == [x[1:] for x in vb], "ray", q + ":rows", where, "origins and bearings are not collected for the same shots")
    for (x, _, _), (y, _, _) in zip(vo, vb):
        for xo in leaves(x):
            if frame == "world":
                rep.expect(pose_call(xo, ("get_origin",)), "ray", q + ":origin", where, "the ray starts at %s" % unfold(fl, xo))
            else:
                rep.expect(pose_call(xo, ("get_Rt",)) or pose_call(xo, ("get_world_to_cam",)), "ray", q + ":pose", where, "the pose is %s" % unfold(fl, xo))
            s1 = xo.args[0].args[0] if xo.op == "mcall" and xo.args[0].op == "attr" else None
            for yb in leaves(y):
                k = bearing(yb)
                if k is None:
                    continue
                rep.expect(k[0] == frame, "ray", q + ":frame", where, "the ray %s is not in the %s frame" % (unfold(fl, yb), frame))
                rep.expect(frame != "world" or k[1] is s1, "ray", q + ":shot", where, "the ray of %s is rotated with another pose" % unfold(fl, s1 or xo))
                rep.expect(k[2] is s1, "ray", q + ":camera", where, "the ray of %s uses another camera" % unfold(fl, s1 or xo))
                p = k[3]
                if p is not None and s1 is not None:
                    ks = [z for z in tm.walk(fl.deep(s1)) if z.op == "elem"]
                    kp = [z for z in tm.walk(fl.deep(p)) if z.op == "elem"]
                    rep.expect(bool(set(ks) & set(kp)) or not ks, "ray", q + ":observation", where, "the ray of %s uses the point %s" % (unfold(fl, s1), unfold(fl, p)))


def method(prog, rep, q, cls):
    mod = q.split(".")[1]
    fl, r, A = run(prog, q, {"opensfm." + mod}, self_cls=cls)
    short = q.split(".")[-1]
    calls = [e for e in effects(fl, ("call",), TRI)]
    refs = effects(fl, ("call",), "point_refinement")
    flags, points = {}, {}
    for e in calls:
        dlt = e.name.endswith("dlt")
        consistent(fl, rep, short, e.where, e.args[0], e.args[1], "camera" if dlt else "world")
        names = ["o", "b", "reproj_threshold", "angle", "min_depth"]
        a = argmap(names, e)
        limits(fl, rep, short, e, a, A)
        flags[tm.mk("item", e.result, tm.const(0))] = e
        points[tm.mk("item", e.result, tm.const(1))] = e
    for e in refs:
        consistent(fl, rep, short + ":refine", e.where, e.args[0], e.args[1], "world")
    valid = set(flags)
    for e in fl.effects:
        if e.kind == "setitem" and len(e.args) == 2:
            v = strip(e.args[1])
            s = rot_inverse(v) or (v.args[0].args[0] if pose_call(v, ("get_origin", "get_Rt", "get_rotation_matrix")) else None)
            if s is not None:
                k = strip(e.args[0])
                rep.expect(k is s or (k.op == "attr" and k.args[1] == "id" and k.args[0] is s) or (s.op == "item" and s.args[1] is k), "ray", short + ":cache", e.where,
                           "the pose of a shot is kept under %s" % unfold(fl, k))

    def ok_under(gs, taken):
        """Some triangulation behind the value is known to have succeeded."""
        return any(implied(gs, f) for f in valid)

    def tri_in(t):
        return [x for x in tm.walk(fl.deep(t)) if x.op == "call" and (tm.callee_name(x) or "").split(".")[-1] in TRI]

    stores = effects(fl, ("mcall", "call"), "store_track_coordinates")
    obs = effects(fl, ("mcall", "call"), "store_inliers_observation")
    for e in stores:
        rep.expect(strip(e.args[0]) is A["track"], "store", short + ":track", e.where, "the point is stored as %s" % unfold(fl, e.args[0]))
        for v, gs in outcomes(strip(e.args[1])):
            if v.op == "const":
                continue
            g = tuple(e.guards) + gs
            rep.expect(ok_under(g, v), "gate", short + ":point", e.where, "a point is stored though its triangulation may have failed")
            rep.expect(bool(tri_in(v)), "gate", short + ":value", e.where, "the stored point is %s" % unfold(fl, v))
            idx = [x for x in tri_in(v)]
            for x in idx:
                pass
    for e in obs:
        rep.expect(strip(e.args[0]) is A["track"], "store", short + ":track", e.where, "the observation is stored for %s" % unfold(fl, e.args[0]))
        s = strip(e.args[1])
        # an id from the list of ids that goes along with the rays
        sel = None
        if s.op == "item":
            base, sel = strip(s.args[0]), s.args[1]
        elif s.op == "elem":
            base = s.args[0]
        else:
            base = None
        shot_ids(fl, rep, short, e, s, base, calls)
        if sel is not None and sel.op == "elem":
            for v, gs in outcomes(sel.args[0]):
                if v.op == "obj" and not fl.h(v).log:
                    continue
                g = tuple(e.guards) + gs
                rep.expect(ok_under(g, v), "gate", short + ":inliers", e.where, "observations are stored though the triangulation may have failed")
                inlier_rule(fl, rep, short, e, v, A, gs, stores)
        else:
            rep.expect(ok_under(e.guards, None), "gate", short + ":observations", e.where, "observations are stored though the triangulation may have failed")
    if cls is None:
        for e in [x for x in fl.effects if x.kind == "return"]:
            for v, gs in outcomes(e.args[0]):
                if v.op == "const":
                    continue
                rep.expect(ok_under(tuple(e.guards) + gs, v), "gate", short + ":result", e.where, "a point is returned though its triangulation may have failed")
                rep.expect(v in points or bool(refs), "gate", short + ":value", e.where, "the result is %s" % unfold(fl, v))
    robust(fl, rep, short)
    return len(calls)


def shot_ids(fl, rep, q, e, s, base, calls):
    """The shot of a stored observation is one the rays were collected from."""
    if not calls:
        return
    vo, _ = per_shot(fl, calls[0].args[0])
    if vo is None:
        return
    loops = {x for v in vo for x in v[2]}
    if base is not None and base.op == "obj" and fl.h(base) is not None:
        for en in fl.h(base).log:
            if en.kind != "add":
                continue
            v = strip(en.val)
            good = v.op == "elem" and v.args[0] in loops or (v.op == "attr" and v.args[1] == "id") or (v.op == "attr" and v.args[1] == "shot_id")
            good = good and (tuple(en.guards), tuple(en.loops)) in [x[1:] for x in vo]
            rep.expect(good, "store", q + ":ids", e.where, "the ids kept along with the rays are %s" % unfold(fl, v))
    elif s.op == "elem":
        rep.expect(s.args[0] in loops or fl.h(s.args[0]) is not None, "store", q + ":ids", e.where, "the observation of %s is stored" % unfold(fl, s))


def inlier_rule(fl, rep, q, e, v, A, gs, stores):
    """Inliers are the rays within the threshold of the very point stored."""
    d = fl.deep(v)
    cmps = [x for x in tm.walk(d) if x.op == "cmp" and x.args[0] in ("<", "<=", ">", ">=") and A["reproj_threshold"] in x.args[1:]]
    rep.expect(bool(cmps), "store", q + ":threshold", e.where, "inliers are not compared with the reprojection threshold: %s" % unfold(fl, v))
    for c in cmps:
        up = c.args[2] is A["reproj_threshold"]
        rep.expect((c.args[0] in ("<", "<=")) == up, "store", q + ":threshold", e.where, "observations beyond the threshold count as inliers")
    # the same choice of point and inliers
    for s in stores:
        same = [x for x, g in outcomes(strip(s.args[1])) if g == gs or implied(gs, tm.cond_of(list(g)))]
        for x in same:
            x = strip(x)
            if x.op == "const":
                continue
            x = fl.deep(x)
            minus = [strip(z) for y in tm.walk(d) if y.op == "bin" and y.args[0] == "-" for z in y.args[1:]]
            rays = [z for z in minus if "point_refinement" in str(tm.callee_name(z)) or is_tri(z)]
            rep.expect(x is rays[0] if rays else tm.contains(d, lambda y: y is x), "store", q + ":pairing", e.where, "the inliers stored are not those of the stored point")


def is_tri(t):
    return t.op == "item" and t.args[0].op == "call" and (tm.callee_name(t.args[0]) or "").split(".")[-1] in TRI


def robust(fl, rep, q):
    """Random choices cover every pair; the stopping rule counts iterations."""
    for t in {x for e in fl.effects for a in e.args for x in tm.walk(fl.deep(a)) if x.op == "item"}:
        base, k = t.args
        if base.op in ("call", "obj", "list") and tm.contains(k, lambda y: y.op in ("call", "mcall") and "numpy.random.rand" in str(tm.callee_name(y) or "")):
            k = strip(k)
            if k.op == "bin" and k.args[0] == "*":
                size = [x for x in k.args[1:] if not tm.contains(x, lambda y: y.op == "call" and tm.callee_name(y) == "numpy.random.rand")]
                for s in size:
                    ok = s.op == "call" and tm.callee_name(s) == "len"
                    rep.expect(ok, "store", q + ":pairs", q, "some pairs of views are never tried: chosen below %s" % unfold(fl, s))
    for e in fl.effects:
        if e.kind != "break":
            continue
        for g, p in atoms(e.guards):
            if g.op == "cmp" and g.args[0] in ("<", "<=", ">", ">=") and tm.contains(g, lambda y: y.op == "call" and tm.callee_name(y) in ("math.log", "numpy.log")):
                other = [x for x in g.args[1:] if not tm.contains(x, lambda y: y.op == "call" and tm.callee_name(y) in ("math.log", "numpy.log"))]
                for o in other:
                    ok = o.op in ("elem", "idx", "loopphi", "bin") and not tm.contains(o, lambda y: y.op == "item")
                    rep.expect(ok, "store", q + ":iterations", e.where, "the search stops depending on %s, which does not count iterations" % unfold(fl, o))


def limits(fl, rep, q, e, a, A):
    t = a.get("reproj_threshold")
    if t is not None:
        d = fl.deep(t)
        rep.expect(tm.contains(d, lambda y: y is A["reproj_threshold"]) or d is A["reproj_threshold"], "limits", q + ":reproj", e.where, "the reprojection threshold is %s" % unfold(fl, t))
    t = a.get("angle")
    if t is not None:
        rep.expect(radians_of(strip(t)) is A["min_ray_angle_degrees"], "limits", q + ":angle", e.where, "the minimum angle is %s" % unfold(fl, t))
    t = a.get("min_depth")
    if t is not None:
        rep.expect(strip(t) is A["min_depth"], "limits", q + ":depth", e.where, "the minimum depth is %s" % unfold(fl, t))


def radians_of(t):
    if t.op == "call" and tm.callee_name(t) in ("numpy.radians", "numpy.deg2rad", "math.radians"):
        return strip(tm.call_parts(t)[1][0])
    if t.op == "bin":
        for x in tm.walk(t):
            if x.op == "sym" and x.args[0].endswith("degrees"):
                if tm.contains(t, lambda y: "pi" in str(y.args[0]) if y.op in ("ext", "attr") else False) or tm.contains(t, lambda y: is_const(y) and isinstance(cval(y), float) and (abs(cval(y) - 3.14159265) < 1e-6 or abs(cval(y) - 0.0174532925) < 1e-8)):
                    return x
    return None


# ---------------------------------------------------------------- callers, storage
def callers(prog, rep):
    """The triangulation methods get the configuration values they are for."""
    meths = {m: [p for p in params(n) if p != "self"] for m, n in class_methods(prog, C).items() if m.startswith("triangulate")}
    n = 0
    for q in ("triangulate_shot_features", "retriangulate"):
        fl, r, A = run(prog, R + q, {"opensfm.reconstruction"}, {C + "." + m for m in class_methods(prog, C)})
        for e in effects(fl, ("mcall", "call"), set(meths)):
            a = argmap(meths[e.name.split(".")[-1]], e)
            n += 1
            for p, key in CONFIG.items():
                v = a.get(p)
                if v is None:
                    rep.expect(False, "limits", q + ":" + p, e.where, "%s is not given" % p)
                    continue
                b, ks = items(strip(v))
                ok = b is A["config"] and len(ks) == 1 and is_const(ks[0]) and cval(ks[0]) == key
                rep.expect(ok or b is not A["config"], "limits", q + ":" + p, e.where, "%s is %s" % (p, unfold(fl, v)))
            tr = strip(a["track"]) if "track" in a else None
            want = {"triangulate_robust": "ROBUST", "triangulate": "FULL"}.get(e.name.split(".")[-1])
            for g, pol in atoms(e.guards):
                if g.op == "cmp" and g.args[0] == "==" and pol and any(is_const(x) and isinstance(cval(x), str) for x in g.args[1:]):
                    c = [cval(x) for x in g.args[1:] if is_const(x)][0]
                    if c in ("ROBUST", "FULL"):
                        rep.expect(c == want, "limits", q + ":type", e.where, "%s runs for triangulation_type %s" % (e.name, c))
    rep.count("triangulation_calls", n)
    fl, r, A = run(prog, R + "triangulate_shot_features", {"opensfm.reconstruction"}, {C + "." + m for m in class_methods(prog, C)})
    for e in effects(fl, ("mcall", "call"), set(meths)):
        a = argmap(meths[e.name.split(".")[-1]], e)
        tr = a.get("track")
        known = tm.mk("cmp", "in", tr, tm.mk("attr", A["reconstruction"], "points"))
        rep.expect(implied(e.guards, tm.tnot(known)), "store", "triangulate_shot_features:new", e.where, "tracks that already have a point are triangulated again")


def handler(prog, rep):
    H = R + "TrackHandlerTrackManager"
    q = H + ".get_observations"
    fl, r, A = run(prog, q, {"opensfm.reconstruction"}, self_cls=H)
    for v in leaves(r):
        h = fl.h(v) if v.op == "obj" else None
        if h is None:
            continue
        for en in h.log:
            if en.kind == "set":
                ins = [g for g, p in atoms(en.guards) if p and g.op == "cmp" and g.args[0] == "in"]
                ok = any(g.args[1] is en.key and g.args[2].op == "attr" and g.args[2].args[1] == "shots" for g in ins)
                rep.expect(ok, "store", "get_observations:reconstructed", q, "observations of images without a pose take part in triangulation")
                b, ks = items(strip(en.val))
                ok = [fl.deep(k) for k in ks] == [fl.deep(en.key)] and b.op == "mcall" and b.args[1] == "get_track_observations" and list(tm.call_parts(b)[1]) == [A["track_id"]]
                rep.expect(ok, "store", "get_observations:own", q, "the observation of %s is %s" % (unfold(fl, en.key), unfold(fl, en.val)))
    for q, cls in ((H + ".store_inliers_observation", H), (R + "add_observation_to_reconstruction", None)):
        fl, r, A = run(prog, q, {"opensfm.reconstruction"}, self_cls=cls)
        es = effects(fl, ("mcall", "call"), "add_observation")
        rep.expect(bool(es), "store", q.split(".")[-1] + ":adds", q, "the observation is not added")
        for e in es:
            a = argmap(["shot_id", "lm_id", "observation"], e)
            vs = list(a.values())
            rep.expect(vs[:2] == [A["shot_id"], A["track_id"]] or (a.get("shot_id") is A["shot_id"] and A["track_id"] in vs), "store", q.split(".")[-1] + ":ids", e.where,
                       "added to %s" % ", ".join(unfold(fl, v) for v in vs[:2]))
            o = vs[2] if len(vs) > 2 else None
            if o is not None and o.op == "mcall" and o.args[1] == "get_observation":
                rep.expect(list(tm.call_parts(o)[1]) == [A["shot_id"], A["track_id"]], "store", q.split(".")[-1] + ":observation", e.where, "the observation is %s" % unfold(fl, o))
    q = H + ".store_track_coordinates"
    fl, r, A = run(prog, q, {"opensfm.reconstruction"}, self_cls=H)
    for e in effects(fl, ("mcall", "call"), "create_point"):
        rep.expect(list(e.args[:2]) == [A["track_id"], A["coordinates"]], "store", "store_track_coordinates", e.where, "the point created is %s" % ", ".join(unfold(fl, v) for v in e.args))


def outliers(prog, rep):
    q = R + "remove_outliers"
    fl, r, A = run(prog, q, {"opensfm.reconstruction"}, {R + "get_actual_threshold"})
    es = effects(fl, ("mcall", "call"), "remove_observation")
    rep.expect(bool(es), "outlier", "remove_outliers:removes", q, "no observation is removed")
    for e in es:
        gs = list(e.guards)
        cm = [(g, p) for g, p in atoms(gs) if g.op == "cmp" and g.args[0] in ("<", "<=", ">", ">=") and any(threshold(fl, x) for x in g.args[1:])]
        rep.expect(bool(cm), "outlier", "remove_outliers:guard", e.where, "observations are removed without comparing their error with the threshold")
        for g, p in cm:
            th = [i for i, x in enumerate(g.args[1:]) if threshold(fl, x)][0]
            over = (g.args[0] in (">", ">=")) == (th == 1)
            rep.expect(over == p, "outlier", "remove_outliers:sense", e.where, "the observations below the threshold are removed")
            err, lim = g.args[2 - th], g.args[1 + th]
            rep.expect(power(fl, err) == power(fl, lim), "outlier", "remove_outliers:square", e.where, "the error %s is compared with %s" % (unfold(fl, err), unfold(fl, lim)))
            pt = [x for x in tm.walk(fl.deep(err)) if x.op == "attr" and x.args[1] == "reprojection_errors"]
            for x in pt[:1]:
                lm, lk = items(x.args[0])
                sh = [y for y in tm.walk(fl.deep(err)) if y.op == "elem" and y.args[0] is x]
                a = [fl.deep(v) for v in e.args]
                rep.expect(len(a) == 2 and lk[-1:] == [a[1]] and (not sh or a[0] in sh), "outlier", "remove_outliers:which", e.where,
                           "the observation (%s, %s) is removed for the error of another" % tuple(unfold(fl, v) for v in (list(e.args) + list(e.args))[:2]))
    for e in effects(fl, ("mcall", "call"), "remove_landmark"):
        cm = [(g, p) for g, p in atoms(e.guards) if g.op == "cmp" and tm.contains(g, lambda y: y.op == "mcall" and y.args[1] == "number_of_observations")]
        rep.expect(bool(cm), "outlier", "remove_outliers:landmark", e.where, "points are removed whatever the number of their observations")
        for g, p in cm:
            c = [cval(x) for x in g.args[1:] if is_const(x)]
            left = g.args[1].op == "mcall"
            op = g.args[0] if left else {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(g.args[0])
            if not p:
                op = {"<": ">=", "<=": ">", ">": "<=", ">=": "<"}.get(op)
            ok = (op, c[0] if c else None) in (("<", 2), ("<=", 1))
            rep.expect(ok, "outlier", "remove_outliers:landmark", e.where, "points are removed when their number of observations %s %s" % (op, c))
    q = R + "get_actual_threshold"
    fl, r, A = run(prog, q, {"opensfm.reconstruction"}, {R + "get_error_distribution"})
    for v, gs in outcomes(r):
        ks = {cval(x.args[1]) for x in tm.walk(fl.deep(v)) if x.op == "item" and x.args[0] is A["config"] and is_const(x.args[1])}
        types = [cval(x) for g, p in atoms(gs) if p and g.op == "cmp" and g.args[0] == "==" for x in g.args[1:] if is_const(x)]
        want = {"FIXED": {"bundle_outlier_fixed_threshold"}, "AUTO": {"bundle_outlier_auto_ratio"}}
        for t in types:
            if t in want:
                rep.expect(ks == want[t], "outlier", "get_actual_threshold:" + t, q, "the threshold for %s depends on %s" % (t, sorted(ks)))


def threshold(fl, t):
    return tm.contains(fl.deep(t), lambda y: y.op == "call" and tm.callee_name(y) == R + "get_actual_threshold")


def power(fl, t):
    """1 for a length, 2 for its square."""
    t = strip(t)
    if t.op == "bin" and t.args[0] == "**" and is_const(t.args[2]):
        return cval(t.args[2]) * power(fl, t.args[1])
    if t.op == "bin" and t.args[0] == "*" and t.args[1] is t.args[2]:
        return 2
    if t.op == "bin" and t.args[0] == "+":
        return max(power(fl, x) for x in t.args[1:])
    if t.op == "call" and tm.callee_name(t) in ("numpy.linalg.norm", "math.hypot", "numpy.hypot"):
        return 1
    if t.op == "call" and tm.callee_name(t) in ("math.sqrt", "numpy.sqrt"):
        return power(fl, tm.call_parts(t)[1][0]) / 2
    if t.op == "call" and tm.callee_name(t) in ("numpy.sum", "sum", "numpy.dot"):
        a = tm.call_parts(t)[1]
        return 2 if len(a) == 2 and a[0] is a[1] else power(fl, a[0])
    if t.op == "mcall" and t.args[1] == "dot" and tm.call_parts(t)[1] and tm.call_parts(t)[1][0] is t.args[0]:
        return 2
    return 1
