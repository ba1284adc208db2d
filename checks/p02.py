from sa import terms as tm
from sa.flow import Flow
from sa.fold import Fold
from sa.match import core, cover, leaves, may_values, same, tautology, unfold
from sa.terms import NONE, attr, cond_of, const, item, mk, sym, tnot

TECHNIQUE = "interprocedural value-flow: reconstruction reader composed with writer, gates compared as boolean functions"
EXPLANATION = (
    "reconstruction_to_json is analysed on a symbolic reconstruction and reconstruction_from_json on the dictionary it "
    "builds. For every stored part (cameras, biases, rig cameras, rig instances, shots, panorama shots, points, "
    "reference) the rule demands one write per element of the original collection, under its own id, whose value is "
    "exactly the original attribute (representation conversions stripped), under conditions that hold whenever the "
    "attribute is present and, for optional measurements, fail when it is absent (checked as a truth table over the "
    "condition atoms)."
)
W = "opensfm/io.py reconstruction_to_json/reconstruction_from_json"
META = ["orientation", "capture_time", "gps_accuracy", "gps_position", "gravity_down", "compass_angle",
        "compass_accuracy", "opk_angles", "opk_accuracy", "sequence_key"]
VEC = {"rotation": 3, "translation": 3, "coordinates": 3, "color": 3, "gps_position": 3, "gravity_down": 3, "opk_angles": 3}


def under_root(t, root):
    return tm.contains(t, lambda x: x is root)


class Comp:
    """Composition reader(writer(x)) with the helpers to query its effects."""

    def __init__(self, rep, fl, effs, src):
        self.rep, self.fl, self.effs, self.src = rep, fl, effs, src

    def present(self, extra=None):
        """Assumptions: source objects exist; attributes the writer tests for exist."""
        src = self.src

        def f(a):
            if extra is not None:
                v = extra(a)
                if v is not None:
                    return v
            if a.op == "cmp" and a.args[0] == "is" and NONE in a.args[1:]:
                o = a.args[2] if a.args[1] is NONE else a.args[1]
                if under_root(self.fl.deep(o), src):
                    return False
            if a.op == "call" and tm.callee_name(a) == "hasattr" and under_root(a, src):
                return True
            if a.op == "nonempty" and a.args[0].op == "attr":
                return True
            if a.op == "attr" and a.args[0] is src:
                return True  # truthiness of a collection / the reference that is being written
            return None

        return f

    def sets(self, recv, name):
        return [e for e in self.effs if e.kind == "setattr" and e.name == name and e.recv is recv]

    def demand(self, rule, what, recv, name, want, loops, conv=("seq", "flt"), extra=None, absent=None, want_alt=None):
        es = self.sets(recv, name)
        rep, fl = self.rep, self.fl
        if not es:
            rep.expect(False, rule, what, W, "%s is never restored" % what)
            return
        for e in es:
            ok = any(same(fl, e.args[0], w, conv, VEC.get(want_name(w))) for w in [want] + list(want_alt or []))
            rep.expect(ok, rule, what, e.where, "%s is restored from %s" % (what, unfold(fl, e.args[0])))
            if loops is not None:
                rep.expect(tuple(core(fl, l) for l in e.loops) == tuple(loops), rule, what + ":all", e.where,
                           "%s is not restored for every element: runs over %s" % (what, [unfold(fl, l) for l in e.loops]))
        ok, why = cover([e.guards for e in es], self.present(extra))
        rep.expect(ok, rule, what + ":kept", es[-1].where,
                   "%s is lost in some cases (depends on %s)" % (what, ", ".join(unfold(fl, w) for w in why)))
        if absent is not None:
            for e in es:
                ok, why = tautology(tnot(cond_of(e.guards)), self.present(absent))
                rep.expect(ok, rule, what + ":absent", e.where, "an absent %s is restored as present" % what)


def want_name(w):
    if isinstance(w, list):
        return ""
    if w.op == "attr":
        return w.args[1] if w.args[1] != "value" else (w.args[0].args[1] if w.args[0].op == "attr" else "")
    return ""


def has_value(field_t, val):
    def f(a):
        if a is attr(field_t, "has_value"):
            return val
        if a.op == "cmp" and a.args[0] == "is" and NONE in a.args[1:]:
            o = a.args[2] if a.args[1] is NONE else a.args[1]
            while o.op == "call" or o.op == "mcall":
                o = o.args[2] if o.op == "call" else o.args[0]
            if o is attr(field_t, "value"):
                return not val
        return None
    return f


def attrs_of_shot(c, rule, tag, shot_t, src, loops):
    for f in ("scale", "merge_cc"):
        c.demand(rule, tag + f, shot_t, f, attr(src, f), loops)
    c.demand(rule, tag + "covariance", shot_t, "covariance", attr(src, "covariance"), loops)
    for f in ("vertices", "faces"):
        mesh = attr(shot_t, "mesh")
        c.demand(rule, tag + "mesh." + f, mesh, f, attr(attr(src, "mesh"), f), loops)
    ms = c.sets(shot_t, "metadata")
    if len(ms) != 1:
        c.rep.expect(False, rule, tag + "metadata", W, "the measurements of a shot are not restored once (%d)" % len(ms))
        return
    ok, _ = cover([ms[0].guards], c.present())
    c.rep.expect(ok, rule, tag + "metadata:kept", ms[0].where, "measurements are restored only conditionally")
    m = ms[0].args[0]
    for f in META:
        field = attr(attr(src, "metadata"), f)
        c.demand(rule, tag + "metadata." + f, attr(m, f), "value", attr(field, "value"), loops,
                 extra=has_value(field, True), absent=has_value(field, False))


def pose_ok(c, rule, what, pose_t, srcpose, loops):
    made = [e for e in c.effs if e.kind in ("new", "call") and e.result is pose_t and len(e.args) + len(e.kwargs or ()) == 2]
    for k, f in enumerate(("rotation", "translation")):
        if made and not c.sets(pose_t, f):
            e = made[0]
            v = e.args[k] if k < len(e.args) else dict(e.kwargs).get(f, NONE)
            c.rep.expect(same(c.fl, v, attr(srcpose, f), ("seq", "flt"), 3), rule, what + "." + f, e.where, "%s is restored from %s" % (what + "." + f, unfold(c.fl, v)))
            continue
        c.demand(rule, what + "." + f, pose_t, f, attr(srcpose, f), loops)


def check(prog, rep):
    rep.rule("shot", "every attribute of every (panorama) shot is restored from the same attribute")
    rep.rule("rig", "every rig camera and rig instance keeps its pose, id and shot membership")
    rep.rule("parts", "cameras, biases, points and the reference are restored element by element")
    rep.rule("single-shot", "a single shot read back outside a reconstruction keeps the same attributes")
    fl = Flow(prog, opaque=["opensfm.io.camera_to_json", "opensfm.io.camera_from_json"], opaque_prefix=["opensfm.types.Reconstruction."])
    rec = sym("rec")
    d = fl.run("opensfm.io.reconstruction_to_json", {"reconstruction": rec})
    n0 = len(fl.effects)
    out = fl.run("opensfm.io.reconstruction_from_json", {"obj": d})
    effs = fl.effects[n0:]
    c = Comp(rep, fl, effs, rec)

    def col(name):
        t = attr(rec, name)
        return t, item(t, mk("elem", t, 0)), mk("elem", t, 0)

    def calls(method):
        return [e for e in effs if e.kind == "call" and e.recv is out and (e.name or "").endswith("types.Reconstruction." + method)]

    def covers(rule, what, es, base):
        ok, why = cover([e.guards for e in es], c.present())
        rep.expect(ok, rule, what + ":kept", es[0].where if es else W, "%s lost in some cases (depends on %s)" % (what, [unfold(fl, w) for w in why]))
        for e in es:
            rep.expect(tuple(core(fl, l) for l in e.loops) == (base,), rule, what + ":all", e.where, "%s not restored for every element" % what)

    # cameras
    base, each, key = col("cameras")
    es = calls("add_camera")
    covers("parts", "cameras", es, base)
    for e in es:
        cam = list(e.kwargs.values()) + list(e.args)
        ok = False
        if cam and tm.callee_name(cam[0]) == "opensfm.io.camera_from_json":
            kw = tm.call_parts(cam[0])[2]
            vals = list(kw.values())
            inner = [v for v in vals if tm.callee_name(v) == "opensfm.io.camera_to_json"]
            ok = len(inner) == 1 and list(tm.call_parts(inner[0])[2].values()) == [each] and (attr(each, "id") in vals or key in vals)
        rep.expect(ok, "parts", "cameras", e.where, "camera restored as %s" % unfold(fl, cam[0] if cam else NONE))
    # biases
    base, each, key = col("biases")
    es = calls("set_bias")
    covers("parts", "biases", es, base)
    for e in es:
        b = e.kwargs.get("bias")
        ok = False
        if b is not None and b.op == "obj":
            a = list(fl.heap[b.args[0]].args) + [v for _, v in fl.heap[b.args[0]].kwargs]
            ok = len(a) == 3 and all(same(fl, x, attr(each, n), ("seq", "flt"), VEC.get(n)) for x, n in zip(a, ("rotation", "translation", "scale")))
        rep.expect(ok, "parts", "biases", e.where, "bias restored as %s" % (unfold(fl, b) if b is not None else "nothing"))
        rep.expect(core(fl, e.kwargs.get("cam_id", NONE)) is key, "parts", "biases:key", e.where, "bias stored under another camera")
    # rig cameras
    base, each, key = col("rig_cameras")
    es = calls("add_rig_camera")
    covers("rig", "rig_cameras", es, base)
    for e in es:
        rc = e.kwargs.get("rig_camera", NONE)
        ok = rc.op == "obj" and fl.heap[rc.args[0]].args and len(fl.heap[rc.args[0]].args) == 2
        rep.expect(bool(ok), "rig", "rig_camera", e.where, "rig camera restored as %s" % unfold(fl, rc))
        if ok:
            pose, rid = fl.heap[rc.args[0]].args
            rep.expect(rid is attr(each, "id") or rid is key, "rig", "rig_camera.id", e.where, "rig camera id comes from %s" % unfold(fl, rid))
            pose_ok(c, "rig", "rig_camera.pose", pose, attr(each, "pose"), (base,))
    # rig instances
    base, each, key = col("rig_instances")
    es = calls("add_rig_instance")
    covers("rig", "rig_instances", es, base)
    for e in es:
        ri = e.kwargs.get("rig_instance", NONE)
        a = fl.heap[ri.args[0]].args if ri.op == "obj" else ()
        rep.expect(len(a) == 1 and (a[0] is attr(each, "id") or a[0] is key), "rig", "rig_instance.id", e.where, "rig instance restored as %s" % unfold(fl, ri))
        # the pose may be set on the instance before it is added or on the stored one afterwards
        ps = [x for x in effs if x.kind == "setattr" and x.name == "pose" and
              (x.recv is ri or (x.recv.op == "item" and x.recv.args[0] is attr(out, "rig_instances") and x.recv.args[1] in (attr(each, "id"), key)))]
        rep.expect(len(ps) >= 1, "rig", "rig_instance.pose", e.where, "rig instance pose never restored")
        for x in ps[-1:]:
            pose_ok(c, "rig", "rig_instance.pose", x.args[0], attr(each, "pose"), (base,))
    # shots
    for coll, method, tag in (("shots", "create_shot", ""), ("pano_shots", "create_pano_shot", "pano.")):
        base, each, key = col(coll)
        es = calls(method)
        covers("shot", coll, es, base)
        rep.expect(len(es) == 1, "shot", coll + ":once", es[0].where if es else W, "%d creations per %s" % (len(es), coll))
        for e in es:
            st = e.result
            rep.expect(e.kwargs.get("shot_id") in (attr(each, "id"), key), "shot", tag + "id", e.where, "shot id from %s" % unfold(fl, e.kwargs.get("shot_id", NONE)))
            rep.expect(same(fl, e.kwargs.get("camera_id", NONE), attr(attr(each, "camera"), "id")), "shot", tag + "camera", e.where, "shot camera from %s" % unfold(fl, e.kwargs.get("camera_id", NONE)))
            pose_ok(c, "shot", tag + "pose", e.kwargs.get("pose", NONE), attr(each, "pose"), (base,))
            attrs_of_shot(c, "shot", tag, st, each, (base,))
            if coll == "shots":
                ris, ri, rik = col("rig_instances")
                ids = attr(ri, "rig_camera_ids")
                k = mk("elem", ids, 0)
                ss = attr(ri, "shots")
                sk = mk("elem", ss, 0)
                member = item(ss, sk)
                keys = (k, sk, attr(member, "id"))
                held = (item(ids, k), attr(member, "rig_camera_id"), attr(attr(member, "rig_camera"), "id"))

                def there(a):
                    # the shot belongs to an instance
                    if a.op == "cmp" and a.args[0] in ("in", "not in") and a.args[2].op == "obj":
                        return a.args[0] == "in"
                    if a.op == "cmp" and a.args[0] in ("is", "is not") and NONE in a.args[1:] and tm.contains(a, lambda x: x.op == "obj"):
                        return a.args[0] == "is not"
                    return True if a.op in ("nonempty", "truthy") else c.present()(a)

                for a, i in (("rig_camera_id", 1), ("rig_instance_id", 0)):
                    vs = may_values(fl, Fold(decide=there, fl=fl)(e.kwargs.get(a, NONE)))
                    want = held if i else (attr(ri, "id"), rik)
                    rep.expect(len(vs) >= 1 and all(v in want for v in vs), "rig", "membership:" + a, e.where,
                               "%s of a restored shot is %s" % (a, [unfold(fl, v) for v in vs]))
                # the map the ids come from is keyed by the shot it holds
                dicts = [fl.heap[x.args[0]] for x in tm.walk(e.kwargs.get("rig_camera_id", NONE)) if x.op == "obj"]
                keyed = [en for h in dicts for en in h.log if en.kind == "set" and en.key in keys]
                rep.expect(len(keyed) >= 1, "rig", "membership:key", e.where, "rig membership is not keyed by shot")
                for en in keyed:
                    # only shots that are also panorama shots may be left out
                    def assume(a):
                        if a.op == "cmp" and a.args[0] == "in":
                            ds = fl.deep(a.args[2])
                            if tm.contains(ds, lambda x: x is attr(rec, "pano_shots")) or ds.op in ("dict", "set") and not ds.args:
                                return False
                        return c.present()(a)
                    ok, why = cover([en.guards], assume)
                    rep.expect(ok, "rig", "membership:kept", e.where, "rig membership of some shots is dropped (depends on %s)" % [unfold(fl, w) for w in why])
                    rep.expect(tuple(core(fl, l) for l in en.loops) in ((ris, ids), (ris, ss)), "rig", "membership:all", e.where, "rig membership is not restored for every instance")
    # points
    base, each, key = col("points")
    es = calls("create_point")
    covers("parts", "points", es, base)
    for e in es:
        rep.expect(e.kwargs.get("point_id") in (attr(each, "id"), key), "parts", "point.id", e.where, "point id from %s" % unfold(fl, e.kwargs.get("point_id", NONE)))
        rep.expect(same(fl, e.kwargs.get("coord", NONE), attr(each, "coordinates"), dim=3), "parts", "point.coordinates", e.where, "coordinates from %s" % unfold(fl, e.kwargs.get("coord", NONE)))
        c.demand("parts", "point.color", e.result, "color", attr(each, "color"), (base,))
    # reference
    ref = attr(rec, "reference")
    es = [e for e in effs if e.kind == "setattr" and e.name == "reference" and e.recv is out]
    rep.expect(len(es) == 1, "parts", "reference", W, "reference restored %d times" % len(es))
    for e in es:
        ok, why = cover([e.guards], c.present())
        rep.expect(ok, "parts", "reference:kept", e.where, "the reference is dropped in some cases")
        r = e.args[0]
        h = fl.h(r)
        for n in ("lat", "lon", "alt"):
            got = fl.under(cond_of(e.guards), lambda: fl.getattr(r, n))
            rep.expect(same(fl, got, attr(ref, n)), "parts", "reference." + n, e.where, "reference %s restored from %s" % (n, unfold(fl, got)))
    rep.count("effects", len(fl.effects))
    # lists of reconstructions
    fl2 = Flow(prog, opaque=["opensfm.io.reconstruction_to_json", "opensfm.io.reconstruction_from_json"])
    recs = sym("recs")
    j = fl2.run("opensfm.io.reconstructions_to_json", {"reconstructions": recs})
    r = fl2.run("opensfm.io.reconstructions_from_json", {"obj": j})
    h = fl2.h(r)
    ok = h is not None and len(h.log) == 1 and len(h.log[0].loops) == 1 and h.log[0].loops[0] is recs and not h.log[0].guards
    ok = ok and tm.show(h.log[0].val) == "io.reconstruction_from_json(obj=io.reconstruction_to_json(reconstruction=each(recs)))"
    rep.expect(ok, "parts", "all reconstructions", "opensfm/io.py", "list of reconstructions restored as %s" % unfold(fl2, r))
    # a shot on its own
    fl3 = Flow(prog)
    shot = sym("shot")
    j = fl3.run("opensfm.io.shot_to_json", {"shot": shot})
    n0 = len(fl3.effects)
    s2 = fl3.run("opensfm.io.single_shot_from_json", {"key": sym("key"), "obj": j, "camera": sym("cam")})
    c3 = Comp(rep, fl3, fl3.effects[n0:], shot)
    attrs_of_shot(c3, "single-shot", "", s2, shot, ())
    a = fl3.heap[s2.args[0]].args if s2.op == "obj" else ()
    rep.expect(len(a) == 3 and a[0] is sym("key") and a[1] is sym("cam"), "single-shot", "constructor", W, "shot built as %s" % unfold(fl3, s2))
    if len(a) == 3:
        pose_ok(c3, "single-shot", "pose", a[2], attr(shot, "pose"), ())
    rep.minimum("obligations", 190)
