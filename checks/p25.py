from checks.util import argmap, atoms, call_args, cond_leaves, effects, implied, items, lookup, params, run, strip
from sa import terms as tm
from sa.linalg import Lin
from sa.match import unfold
from sa.poses import changes, final, initial
from sa.terms import attr, const, cval, is_const, item, mk, sym

TECHNIQUE = "value-flow analysis with matrix algebra: the poses, points and offsets a function stores are brought to normal form and the equations of the transform decided on them"
EXPLANATION = (
    "For every function that moves a reconstruction, the rotation and translation it leaves in each pose and the coordinates it leaves in each point "
    "are expressed in what it found there; R' A = R and R' b + t' = s t must hold as identities of matrix expressions (A orthogonal where it is a "
    "rotation). The estimators are checked to map reconstruction positions to their own measurements, paired index by index."
)
AL = "opensfm.align."
TO = "opensfm.large.tools."
GE = "opensfm.actions.export_geocoords."


def check(prog, rep):
    rep.rule("pose", "a transformed pose sees the transformed points where the pose saw the points")
    rep.rule("whole", "points, rig instances and rig cameras are all transformed, each by its own value")
    rep.rule("inverse", "an inverted similarity undoes the similarity")
    rep.rule("pairs", "positions of the reconstruction are paired with the measurements of the same shots or points")
    rep.rule("direction", "a similarity is estimated from the reconstruction to the measurements, and used in that direction")
    rep.rule("use", "constraints are used as configured, and a failed or degenerate alignment changes nothing")
    rep.rule("own", "each partial reconstruction receives its own transformation, each camera its own bias")
    rep.rule("axes", "the axes of an image follow its orientation tag")
    rep.rule("geo", "exported coordinates apply one affine map: easting, northing, altitude of latitude and longitude")
    rep.part(pose, prog, rep)
    rep.part(whole, prog, rep)
    rep.part(entry, prog, rep)
    rep.part(degenerate, prog, rep)
    rep.part(constraints, prog, rep)
    rep.part(gcps, prog, rep)
    rep.part(naive, prog, rep)
    rep.part(prior, prog, rep)
    rep.part(bias, prog, rep)
    rep.part(orientation, prog, rep)
    rep.part(planes, prog, rep)
    rep.part(invert, prog, rep)
    rep.part(submodels, prog, rep)
    rep.part(cameras, prog, rep, "add_camera_constraints_soft")
    rep.part(cameras, prog, rep, "add_camera_constraints_hard")
    rep.part(point_constraints, prog, rep)
    rep.part(common, prog, rep)
    rep.part(geocoords, prog, rep)
    rep.part(affine, prog, rep)
    rep.part(dense, prog, rep)
    rep.minimum("pose", 2)
    rep.minimum("whole", 3)
    rep.minimum("pairs", 3)


def pose(prog, rep):
    f = AL + "apply_similarity_pose"
    if lookup(prog, f) is None:
        return
    fl, r, A = run(prog, f, {"opensfm.align"})
    moved(rep, fl, A["pose"], A["s"], A["A"], A["b"], "apply_similarity_pose")


def moved(rep, fl, P, s, M, b, name, orth=True, rigid=True):
    """The pose P is left where y = s M x + b takes it."""
    ch = changes(fl)
    if P not in ch:
        rep.bad("pose", name, name, "the pose is not changed")
        return
    R, o, sub = initial(P)
    lin = Lin(fl, scalars={s} if not is_const(s) else (), orth={R} | ({M} if orth else set()), vectors={b, o}, sub=sub)
    r2, t2, stale = final(lin, ch[P], P)
    m = lin.norm(M)
    where = ch[P][0][2].where
    rep.expect(lin.mul(r2, m) == lin.norm(R), "pose", name + ":rotation", where, "the new rotation is %s" % lin.show(r2))
    want = lin.mul(lin.norm(s), lin.norm(attr(P, "translation")))
    got = lin.add(t2, lin.mul(r2, lin.norm(b)))
    rep.expect(got == want, "pose", name + ":translation", where, "the new translation is %s" % lin.show(t2))
    rep.expect(not stale, "pose", name + ":order", where, "the rotation is set after the translation, which leaves the camera at its old place")
    if any(e.guards for _, _, e in ch[P]):
        g = [x for _, _, e in ch[P] for x in e.guards if not fl_frame(x)]
        rep.expect(not g, "pose", name + ":always", where, "the pose is only moved when %s" % (unfold(fl, g[0][0])[:80] if g else ""))


def fl_frame(g):
    return False


def each_of(t, name):
    """recv is <x>.<name>[each] (a value of the mapping)."""
    return t.op == "item" and t.args[0].op == "attr" and t.args[0].args[1] == name and t.args[1].op == "elem" and t.args[1].args[0] is t.args[0] or (
        t.op == "elem" and t.args[0].op == "mcall" and t.args[0].args[1] == "values" and t.args[0].args[0].op == "attr" and t.args[0].args[0].args[1] == name)


def whole(prog, rep):
    f = AL + "apply_similarity"
    fl, r, A = run(prog, f, {"opensfm.align"})
    s, M, b = A["s"], A["A"], A["b"]
    n = 0
    for e in fl.effects:
        if e.kind == "setattr" and e.name == "coordinates":
            p = e.recv
            rep.expect(each_of(p, "points") and not e.guards, "whole", "points:all", e.where, "not every point is transformed")
            old = attr(p, "coordinates")
            lin = Lin(fl, scalars={s}, orth={M}, vectors={b, old})
            want = lin.add(lin.mul(lin.norm(s), lin.mul(lin.norm(M), lin.norm(old))), lin.norm(b))
            rep.expect(lin.norm(e.args[0]) == want, "whole", "points", e.where, "the point is moved to %s" % lin.show(lin.norm(e.args[0])))
            n += 1
    rep.expect(n > 0, "whole", "points:none", f, "the points are not transformed")
    seen = {}
    for P, seq in changes(fl).items():
        owner = P.args[0] if P.op == "attr" and P.args[1] == "pose" else None
        kind = next((k for k in ("rig_instances", "rig_cameras", "shots") if owner is not None and each_of(owner, k)), None)
        if kind is None:
            rep.bad("whole", "pose:unknown", seq[0][2].where, "%s is moved" % unfold(fl, P)[:80])
            continue
        seen[kind] = P
        rep.expect(all(not e.guards for _, _, e in seq), "whole", kind + ":all", seq[0][2].where, "not all %s are transformed" % kind)
        if kind == "rig_instances":
            moved(rep, fl, P, s, M, b, "rig_instances")
        elif kind == "rig_cameras":
            R, o, sub = initial(P)
            lin = Lin(fl, scalars={s}, orth={R, M}, vectors={b, o}, sub=sub)
            r2, t2, stale = final(lin, seq, P)
            rep.expect(r2 == lin.norm(R), "whole", "rig_cameras:rotation", seq[0][2].where, "the rig camera is rotated to %s" % lin.show(r2))
            rep.expect(t2 == lin.mul(lin.norm(s), lin.norm(attr(P, "translation"))), "whole", "rig_cameras:scale", seq[0][2].where, "the rig camera is moved to %s" % lin.show(t2))
            rep.expect(not stale, "pose", "rig_cameras:order", seq[0][2].where, "the rotation is set after the translation")
        else:
            rep.bad("whole", "shots", seq[0][2].where, "shots are moved besides their rig instances")
    for k in ("rig_instances", "rig_cameras"):
        rep.expect(k in seen, "whole", k, f, "the %s are not transformed" % k)


OPA = [AL + x for x in ("compute_reconstruction_similarity", "apply_similarity", "set_gps_bias", "triangulate_all_gcp", "detect_alignment_constraints",
                        "compute_naive_similarity", "compute_orientation_prior_similarity", "alignment_constraints", "estimate_ground_plane")]


def parts_of(fl, t, src):
    """t is component i of src: i, else None."""
    t = strip(t)
    if t.op == "item" and t.args[0] is src and is_const(t.args[1]):
        return cval(t.args[1])
    return None


def applied(rep, fl, name, src, rec=None):
    """apply_similarity receives the components of src in order."""
    n = 0
    for e in effects(fl, ("call",), "apply_similarity"):
        n += 1
        a = argmap(["reconstruction", "s", "A", "b"], e)
        got = [parts_of(fl, a[k], src(e) if callable(src) else src) if a.get(k) is not None else None for k in ("s", "A", "b")]
        rep.expect(got == [0, 1, 2], "direction", name + ":parts", e.where, "apply_similarity receives %s" % ", ".join(unfold(fl, a[k])[:60] if a.get(k) is not None else "-" for k in ("s", "A", "b")))
        if rec is not None:
            rep.expect(a.get("reconstruction") is rec, "direction", name + ":what", e.where, "%s is moved" % unfold(fl, a["reconstruction"])[:60])
    return n


def entry(prog, rep):
    f = AL + "align_reconstruction"
    fl, r, A = run(prog, f, {"opensfm.align"}, OPA)
    sim = effects(fl, ("call",), "compute_reconstruction_similarity")
    rep.expect(bool(sim), "use", "align_reconstruction:similarity", f, "no similarity is computed")
    for e in sim:
        same_args(rep, fl, e, prog, A, "align_reconstruction")
    n = applied(rep, fl, "align_reconstruction", sim[0].result if sim else None, A["reconstruction"])
    rep.expect(n > 0, "use", "align_reconstruction:applied", f, "the similarity is not applied")
    for e in effects(fl, ("call",), "apply_similarity"):
        ok = sim and (implied(e.guards, sim[0].result) or any(tm.contains(c, lambda y: y is sim[0].result) for c, p in atoms(e.guards)))
        rep.expect(ok, "use", "align_reconstruction:failed", e.where, "the similarity is applied even when none was found")
    for e in effects(fl, ("call",), "set_gps_bias"):
        same_args(rep, fl, e, prog, A, "align_reconstruction")
        rep.expect(implied(e.guards, A["bias_override"]) and any(p and tm.contains(c, lambda y: y is const("bundle_compensate_gps_bias")) for c, p in atoms(e.guards)), "use", "align_reconstruction:bias", e.where, "the GPS bias is set although not asked for")
    for e in sim + effects(fl, ("call",), "set_gps_bias"):
        u = argmap(params(lookup(prog, e.name)), e).get("use_scale")
        # scale is fixed exactly when an instance of a rig has several shots
        ok = False
        if u is not None:
            neg = u.op == "not"
            v = u.args[0] if neg else u
            n = tm.callee_name(v) if v.op == "call" else None
            if n in ("any", "all"):
                el = fl.elements(tm.call_parts(v)[1][0]) or []
                for val, g, l in el:
                    c = tm.tand(tm.cond_of(list(g)), val)
                    big = [x for x in tm.walk(c) if x.op == "cmp" and x.args[0] == "<"]
                    if len(big) != 1:
                        continue
                    odd = sum(x.op == "not" for x in tm.walk(c)) % 2
                    # several: 1 < n, or not n < 2; at most one: n < 2, or not 1 < n
                    several = (big[0].args[1] is const(1) and not odd) or (big[0].args[2] is const(2) and odd)
                    single = (big[0].args[2] is const(2) and not odd) or (big[0].args[1] is const(1) and odd)
                    ok = (n == "any" and neg and several) or (n == "all" and not neg and single)
                    if big and not tm.contains(fl.deep(big[0]), lambda y: y.op == "attr" and y.args[1] == "shots"):
                        ok = False
            else:
                raise LookupError("use_scale not recognised")
        rep.expect(ok, "use", "align_reconstruction:scale", e.where, "scale is estimated when %s" % (unfold(fl, u)[:120] if u is not None else "-"))


def same_args(rep, fl, e, prog, A, name, skip=()):
    a = argmap(params(lookup(prog, e.name)), e)
    for p, v in a.items():
        if p in A and p not in skip:
            rep.expect(v is A[p], "use", "%s:%s:%s" % (name, e.name.split(".")[-1], p), e.where, "%s of %s is %s" % (p, e.name.split(".")[-1], unfold(fl, v)[:60]))


def degenerate(prog, rep):
    f = AL + "compute_reconstruction_similarity"
    fl, r, A = run(prog, f, {"opensfm.align"}, [x for x in OPA if not x.endswith("compute_reconstruction_similarity")])
    for n, method in (("compute_orientation_prior_similarity", "orientation_prior"), ("compute_naive_similarity", "naive")):
        es = effects(fl, ("call",), n)
        rep.expect(bool(es), "use", "method:" + method, f, "%s is never called" % n)
        for e in es:
            same_args(rep, fl, e, prog, A, "compute_reconstruction_similarity")
            lits = {cval(y) for c, p in e.guards for x in tm.walk(fl.deep(c)) if x.op == "cmp" and x.args[0] == "==" for y in x.args[1:] if is_const(y)}
            rep.expect(method in lits, "use", "method:" + method, e.where, "%s is used for %s" % (n, sorted(map(str, lits))))
    for e in effects(fl, ("call",), "detect_alignment_constraints"):
        same_args(rep, fl, e, prog, A, "compute_reconstruction_similarity")
    # what is returned passed the tests
    some = False
    for leaf, g in cond_leaves(r):
        if is_const(leaf) or leaf is tm.UNDEF:
            continue
        some = True
        txt = [fl.deep(c) for c, p in g]
        zero = any(x.op == "cmp" and x.args[0] == "==" and const(0) in x.args[1:] for c in txt for x in tm.walk(c))
        nan = {i for c in txt for x in tm.walk(c) if x.op in ("mcall", "call") and ("isnan" in str(x.args[1]) or "isnan" in (tm.callee_name(x) or "") or "isfinite" in (tm.callee_name(x) or "")) for y in tm.walk(x) if y.op == "item" and is_const(y.args[1]) for i in [cval(y.args[1])]}
        rep.expect(zero, "use", "degenerate:scale", f, "a similarity of scale 0 is returned")
        rep.expect({1, 2} <= nan, "use", "degenerate:nan", f, "a similarity with NaN is returned")
    rep.expect(some, "use", "degenerate:none", f, "no similarity is ever returned")


def constraints(prog, rep):
    f = AL + "alignment_constraints"
    fl, r, A = run(prog, f, {"opensfm.align"}, [x for x in OPA if not x.endswith(".alignment_constraints")])
    for leaf, g0 in cond_leaves(r):
        if leaf.op != "tup" or len(leaf.args) != 2:
            raise LookupError("alignment_constraints returns something else than two lists")
        xs, ys = fl.elements(leaf.args[0]), fl.elements(leaf.args[1])
        if xs is None or ys is None:
            raise LookupError("constraints not followed")
        rep.expect(len(xs) == len(ys), "pairs", f, f, "the two lists of constraints are not filled together")
        kinds = set()
        for (x, g1, l1), (y, g2, l2) in zip(xs, ys):
            x, y = fl.deep(x), fl.deep(y)
            rep.expect(tuple(g1) == tuple(g2), "pairs", f + ":together", f, "a position is added when %s, its measurement when %s" % ([unfold(fl, c)[:60] for c, _ in g1], [unfold(fl, c)[:60] for c, _ in g2]))
            keys = {cval(z.args[1]) for c, p in atoms(g1) if p for z in tm.walk(c) if z.op == "item" and z.args[0] is A["config"]}
            tg = [z for z in tm.walk(x) if z.op == "call" and (tm.callee_name(z) or "").endswith("triangulate_all_gcp")]
            if tg:
                kinds.add("gcp")
                comp = lambda v: {cval(z.args[1]) for z in tm.walk(v) if z.op == "item" and z.args[0] is tg[0]}
                rep.expect(comp(x) == {0} and comp(y) == {1}, "direction", f + ":gcp", f, "the triangulated and the measured positions of the ground control points are exchanged")
                rep.expect("bundle_use_gcp" in keys, "use", f + ":gcp", f, "ground control points are used whatever is configured")
                continue
            kinds.add("gps")
            rep.expect("bundle_use_gps" in keys and any(c is A["use_gps"] and p for c, p in atoms(g1)), "use", f + ":gps", f, "GPS positions are used whatever is configured")
            own = [z.args[0] for z in tm.walk(x) if z.op == "mcall" and z.args[1] == "get_origin"]
            rep.expect(len(own) == 1, "pairs", f + ":origin", f, "the position of the camera is %s" % unfold(fl, x)[:80])
            ri = own[0].args[0] if own and own[0].op == "attr" else None
            rep.expect(ri is not None and any(z.op == "attr" and z.args[1] == "gps_position" and tm.contains(z, lambda w: w is ri) for z in tm.walk(y)), "pairs", f + ":gps", f, "the position of %s is paired with %s" % (unfold(fl, ri)[:60] if ri is not None else "?", unfold(fl, y)[:100]))
            inner = [z for z in tm.walk(ys[0][0] if False else y)]
            vals = [(v, gg) for z in tm.walk(leaf.args[1]) for v, gg in []]
            for z in tm.walk(fl_raw(fl, leaf.args[1])):
                pass
            known(rep, fl, f)
        rep.expect(kinds == {"gcp", "gps"}, "use", f + ":kinds", f, "constraints come from %s" % sorted(kinds))


def fl_raw(fl, t):
    return t


def known(rep, fl, f):
    """GPS values are read where there is one."""
    for h in (fl.heap.values() if isinstance(fl.heap, dict) else fl.heap):
        for x in getattr(h, "log", None) or []:
            v = x.val
            if v is not None and v.op == "attr" and v.args[1] == "value" and v.args[0].op == "attr" and v.args[0].args[1] == "gps_position":
                rep.expect(implied(x.guards, attr(v.args[0], "has_value")), "pairs", f + ":known", f, "the GPS position of a shot is used without checking that it has one")


def gcps(prog, rep):
    f = AL + "triangulate_all_gcp"
    fl, r, A = run(prog, f, {"opensfm.align"}, ["opensfm.multiview.triangulate_gcp"])
    tri = effects(fl, ("call",), "triangulate_gcp")
    for leaf, _ in cond_leaves(r):
        if leaf.op != "tup":
            continue
        xs, ys = fl.elements(leaf.args[0]) or [], fl.elements(leaf.args[1]) or []
        rep.expect(len(xs) == len(ys) and bool(xs), "pairs", f, f, "triangulated and measured positions are not listed together")
        for (x, g1, l1), (y, g2, l2) in zip(xs, ys):
            rep.expect(tuple(g1) == tuple(g2), "pairs", f + ":together", f, "a triangulated position is listed without its measurement")
            x1 = next((z for z in tm.walk(fl.deep(x)) if z.op == "call" and (tm.callee_name(z) or "").endswith("triangulate_gcp")), None)
            pt = None
            if x1 is not None:
                a = call_args(x1, ["point", "shots"])
                pt = a.get("point")
                rep.expect(not is_const(x1) and any(not p and c.op == "cmp" and c.args[0] == "is" and tm.NONE in c.args[1:] for c, p in atoms(g1)), "use", f + ":failed", f, "a point that could not be triangulated is used")
            rep.expect(pt is not None and pt.op == "elem" and tm.contains(fl.deep(y), lambda z: z is pt), "pairs", f + ":own", f, "the triangulation of %s is paired with %s" % (unfold(fl, pt)[:40] if pt is not None else "?", unfold(fl, y)[:100]))
            for z in tm.walk(fl.deep(y)):
                if z.op == "mcall" and z.args[1] == "to_topocentric":
                    a = tm.call_parts(z)[1]
                    ok = len(a) == 1 and a[0].op in ("star", "starred") and tm.contains(a[0], lambda w: w.op == "attr" and w.args[1] == "lla_vec")
                    ks = [cval(w.args[1]) for v in a for w in tm.walk(v) if w.op == "item" and is_const(w.args[1])]
                    rep.expect(ok or ks in (["latitude", "longitude", "altitude"], [0, 1, 2]), "geo", f + ":lla", f, "the measured position is computed from %s" % [unfold(fl, v)[:40] for v in a])


def naive(prog, rep):
    f = AL + "compute_naive_similarity"
    fl, r, A = run(prog, f, {"opensfm.align"}, OPA[:6] + OPA[7:] + ["opensfm.transformations.superimposition_matrix"])
    cs = effects(fl, ("call",), "alignment_constraints")
    for e in cs:
        same_args(rep, fl, e, prog, A, "compute_naive_similarity")
    src = cs[0].result
    X, Y = item(src, const(0)), item(src, const(1))

    def side(t):
        return {"X" if z is X else "Y" for z in tm.walk(fl.deep(t)) if z is X or z is Y}
    for e in effects(fl, ("call",), "superimposition_matrix"):
        a = argmap(["v0", "v1", "scale", "usesvd"], e)
        rep.expect(side(a["v0"]) == {"X"} and side(a["v1"]) == {"Y"}, "direction", f + ":fit", e.where, "the similarity is estimated from %s to %s" % (sorted(side(a["v0"])), sorted(side(a["v1"]))))
        rep.expect(a.get("scale") is A["use_scale"], "use", f + ":scale", e.where, "scale is estimated when %s" % (unfold(fl, a["scale"])[:60] if a.get("scale") is not None else "default"))
        T = e.result
        decomposed(rep, fl, f, r, T, e.where, 3)
    for leaf, g in triples(fl, r):
        s, M, b = leaf
        if is_const(s) and cval(s) == 1.0:
            lin = Lin(fl)
            rep.expect(lin.norm(M) == lin.const(1), "direction", f + ":identity", f, "the translation-only alignment rotates by %s" % unfold(fl, M)[:60])
            pos = b.op == "bin" and b.args[0] == "-" and side(b.args[1]) == {"Y"} and side(b.args[2]) == {"X"}
            rep.expect(pos, "direction", f + ":translation", f, "the translation is %s" % unfold(fl, b)[:100])


def triples(fl, r):
    out = []
    for leaf, g in cond_leaves(r):
        if leaf.op == "tup" and len(leaf.args) == 3:
            ss = [cond_leaves(x) for x in leaf.args]
            conds = {c for x in ss for _, gg in x for c, _ in gg}
            if not conds:
                out.append((leaf.args, g))
            else:
                # one triple for each consistent choice
                for s, gs in ss[0]:
                    for M, gm in ss[1]:
                        for b, gb in ss[2]:
                            k = dict(gs)
                            if all(k.setdefault(c, p) == p for c, p in list(gm) + list(gb)):
                                out.append(((s, M, b), tuple(g) + tuple(k.items())))
    return out


def block(t, T):
    """T[:n,:n] -> ('A', n); T[:n, n] -> ('b', n)."""
    if t.op == "item" and t.args[0] is T and t.args[1].op == "tup" and len(t.args[1].args) == 2:
        a, b = t.args[1].args
        n = cval(a.args[1]) if a.op == "slice" and is_const(a.args[1]) else None
        if a.op == "slice" and b.op == "slice":
            return ("A", n) if is_const(b.args[1]) and cval(b.args[1]) == n else None
        if a.op == "slice" and is_const(b):
            return ("b", n, cval(b))
        if is_const(a) and is_const(b):
            return ("e", cval(a), cval(b))
    return None


def decomposed(rep, fl, f, r, T, where, n):
    """s = det(A)^(1/n), rotation A / s, translation the last column."""
    for (s, M, b), g in triples(fl, r):
        if not any(z is T for z in tm.walk(fl.deep(M))):
            continue
        A = next((z for z in tm.walk(M) if (block(z, T) or ("",))[0] == "A"), None)
        rep.expect(A is not None and block(A, T)[1] == n, "direction", f + ":block", where, "the rotation is taken from %s" % unfold(fl, M)[:80])
        if A is None:
            continue
        det = [z for z in tm.walk(s) if z.op == "call" and (tm.callee_name(z) or "").endswith("linalg.det")]
        ok = s.op == "bin" and s.args[0] == "**" and det and s.args[1] is det[0] and strip(tm.call_parts(det[0])[1][0]) is A and is_const(s.args[2]) and abs(cval(s.args[2]) - 1.0 / n) < 1e-9
        rep.expect(ok, "direction", f + ":scale-of", where, "the scale is %s" % unfold(fl, s)[:100])
        lin = Lin(fl, scalars={s})
        if n == 3:
            rep.expect(lin.mul(lin.norm(s), lin.norm(M)) == lin.norm(A), "direction", f + ":rotation-of", where, "the rotation is %s" % unfold(fl, M)[:100])
            rep.expect(block(strip(b), T) == ("b", 3, 3), "direction", f + ":translation-of", where, "the translation is %s" % unfold(fl, b)[:100])


def prior(prog, rep):
    f = AL + "compute_orientation_prior_similarity"
    fl, r, A = run(prog, f, {"opensfm.align"}, OPA[:6] + OPA[7:] + [AL + "alignment_constraints", "opensfm.transformations.affine_matrix_from_points", "opensfm.multiview.plane_horizontalling_rotation"])
    cs = effects(fl, ("call",), "alignment_constraints")
    for e in cs:
        same_args(rep, fl, e, prog, A, "orientation_prior")
    src = cs[0].result
    X, Y = item(src, const(0)), item(src, const(1))
    rot = effects(fl, ("call",), "plane_horizontalling_rotation")
    Q = rot[0].result if rot else None

    def side(t):
        d = list(tm.walk(fl.deep(t)))
        return {"X" if z is X else "Y" for z in d if z is X or z is Y} | ({"rotated"} if any(z is Q for z in d) else set())
    for e in effects(fl, ("call",), "affine_matrix_from_points"):
        a = argmap(["v0", "v1", "shear", "scale", "usesvd"], e)
        rep.expect(side(a["v0"]) == {"X", "rotated"} and side(a["v1"]) == {"Y"}, "direction", f + ":fit", e.where, "the similarity is estimated from %s to %s" % (sorted(side(a["v0"])), sorted(side(a["v1"]))))
        rep.expect(a.get("scale") is A["use_scale"], "use", f + ":scale", e.where, "scale is estimated whatever is asked for")
        rep.expect(a.get("shear") is const(False), "use", f + ":shear", e.where, "the transform may shear")
        lin = Lin(fl, orth={Q} if Q is not None else ())
        for k, want in (("v0", lin.mul(lin.norm(Q), lin.trans(lin.norm(X)))), ("v1", lin.trans(lin.norm(Y)))):
            if a[k].op == "slice_of":
                rep.expect(lin.norm(a[k].args[0]) == want, "direction", f + ":%s:upright" % k, e.where, "the horizontal alignment uses %s" % lin.show(lin.norm(a[k].args[0])))
        for k in ("v0", "v1"):
            lim = [cval(z.args[2]) for z in tm.walk(a[k]) if z.op == "slice_of" and is_const(z.args[2])]
            rep.expect(lim == [2], "direction", f + ":" + k, e.where, "the horizontal alignment uses the coordinates %s" % lim)
    for (s, M, b), g in triples(fl, r):
        lin = Lin(fl, orth={Q} if Q is not None else ())
        m = lin.norm(M)
        if m != lin.norm(Q):
            T = next((z for z in tm.walk(s) if z.op == "call" and (tm.callee_name(z) or "").endswith("affine_matrix_from_points")), None)
            mono = list(m.items())
            if len(mono) != 1 or len(mono[0][0][1]) != 2 or T is None:
                raise LookupError("rotation of the orientation prior not followed")
            (sc, fac), co = mono[0]
            rep.expect(fac[1] == (Q, "") and co == 1 and not sc, "direction", f + ":rotation", f, "the rotation is %s: the turn around the vertical does not follow the levelling" % lin.show(m))
            turn = next((z for z, _ in fac if z is not Q), None)
            h = fl.h(turn) if turn is not None and turn.op == "obj" else None
            log = [x for x in fl.live(h)] if h is not None else []
            if len(log) != 1:
                raise LookupError("rotation around the vertical not followed")
            ex = s.args[2] if s.op == "bin" and s.args[0] == "**" else None
            T2 = next((z for z in tm.walk(s) if (block(z, T) or ("",))[0] == "A"), None)
            if ex is None and not (s.op == "call" and (tm.callee_name(s) or "").endswith("sqrt")):
                rep.bad("direction", f + ":scale-of", f, "the scale is %s" % unfold(fl, s)[:60])
            else:
                rep.expect((ex is None or abs(cval(ex) - 0.5) < 1e-9) and T2 is not None and block(T2, T) == ("A", 2), "direction", f + ":scale-of", f, "the scale is %s" % unfold(fl, s)[:100])
            l2 = Lin(fl, scalars={s})
            k2 = log[0].key
            span = k2 is not None and k2.op == "tup" and all(y.op == "slice" and is_const(y.args[1]) and cval(y.args[1]) == 2 for y in k2.args)
            rep.expect(span and T2 is not None and l2.mul(l2.norm(s), l2.norm(log[0].val)) == l2.norm(T2), "direction", f + ":turn", f, "the turn around the vertical is %s" % unfold(fl, log[0].val)[:100])
        rep.expect(any(z is Q for z in tm.walk(fl.deep(M))), "direction", f + ":horizontal", f, "the reconstruction is not turned upright: the rotation is %s" % unfold(fl, M)[:80])
        if b.op == "bin" and b.args[0] == "-":
            rep.expect(side(b.args[1]) == {"Y"} and side(b.args[2]) == {"X", "rotated"}, "direction", f + ":translation", f, "the translation is %s" % unfold(fl, b)[:100])
        el = fl.elements(tm.call_parts(b)[1][0]) if b.op == "call" and tm.callee_name(b) == "numpy.array" and tm.call_parts(b)[1] else None
        if el and len(el) == 3:
            T = next((z for z in tm.walk(fl.deep(b)) if z.op == "call" and (tm.callee_name(z) or "").endswith("affine_matrix_from_points")), None)
            got = [block(v, T) for v, _, _ in el[:2]]
            rep.expect(got == [("e", 0, 2), ("e", 1, 2)], "direction", f + ":horizontal-shift", f, "the horizontal translation is (%s, %s)" % (unfold(fl, el[0][0])[:50], unfold(fl, el[1][0])[:50]))
            z = el[2][0]
            ok = z.op == "bin" and z.args[0] == "-" and side(z.args[1]) == {"Y"} and "X" in side(z.args[2]) and any(w is s for w in tm.walk(z.args[2]))
            ax = {cval(k) for w in tm.walk(z) if w.op == "item" and w.args[1].op == "tup" for k in w.args[1].args if is_const(k)} - {None}
            ax = {cval(w.args[1].args[1]) for w in tm.walk(z) if w.op == "item" and w.args[1].op == "tup" and len(w.args[1].args) == 2 and is_const(w.args[1].args[1]) and w.args[1].args[0].op == "slice" and not (w.args[0] is T)}
            rep.expect(ok and ax <= {2}, "direction", f + ":vertical", f, "the vertical translation is %s" % unfold(fl, z)[:120])


def bias(prog, rep):
    f = AL + "set_gps_bias"
    fl, r, A = run(prog, f, {"opensfm.align"}, OPA)
    sims = effects(fl, ("call",), "compute_reconstruction_similarity")
    glob = [e for e in sims if argmap(params(lookup(prog, e.name)), e).get("reconstruction") is A["reconstruction"]]
    rep.expect(bool(glob), "use", f + ":gcp", f, "the reconstruction is not aligned on the ground control points")
    for e in glob:
        a = argmap(params(lookup(prog, e.name)), e)
        rep.expect(a.get("use_gps") is const(False) and a.get("gcp") is A["gcp"], "use", f + ":gcp", e.where, "the reconstruction is aligned with gcp=%s, use_gps=%s" % (unfold(fl, a["gcp"])[:40], unfold(fl, a["use_gps"])[:40]))
        applied(rep, fl, f, e.result, A["reconstruction"])
    sub = [e for e in sims if e not in glob]
    for e in sub:
        a = argmap(params(lookup(prog, e.name)), e)
        rep.expect(a.get("use_gps") is const(True), "use", f + ":gps", e.where, "the bias of a camera is computed without GPS")
        g = fl.elements(a["gcp"]) if a.get("gcp") is not None and a["gcp"].op == "obj" else None
        rep.expect(g == [], "use", f + ":gps-only", e.where, "the bias of a camera is computed with ground control points")
    adds = effects(fl, ("mcall", "call"), {"add_shot"})
    for e in adds:
        x = (list(argmap(["shot"], e).values()) or [None])[0]
        rep.expect(x is not None and x.op == "item" and x.args[0] is attr(A["reconstruction"], "shots"), "own", f + ":shots", e.where, "the bias is computed from %s" % (unfold(fl, x)[:60] if x is not None else "-"))
    for e in effects(fl, ("mcall", "call"), "set_bias"):
        a = argmap(["camera_id", "transform"], e)
        cid, bi = a["camera_id"], next(v for k, v in a.items() if k != "camera_id")
        q = [z for z in [bi] + list(tm.walk(fl.deep(bi))) if z.op == "call" and (tm.callee_name(z) or "").endswith("Similarity")]
        args = None
        if q:
            args = tm.call_parts(q[0])[1]
        elif bi.op == "obj" and fl.h(bi) is not None:
            args = list(fl.h(bi).args or ())
        if not args or len(args) != 3:
            raise LookupError("bias transform not recognised")
        rv, t, s = args
        # everything comes from one similarity, that of this camera
        roots = {z for v in (rv, t, s) for z in tm.walk(v) if z.op == "item" and is_const(z.args[1]) and cval(z.args[1]) in (0, 1, 2) and not is_rod(z)}
        srcs = {z.args[0] for z in roots}
        rep.expect(len(srcs) == 1, "own", f + ":bias", e.where, "the bias mixes %s" % [unfold(fl, x)[:50] for x in srcs])
        if len(srcs) != 1:
            continue
        S = srcs.pop()
        s0, A0, b0 = (item(S, const(i)) for i in range(3))
        ownkey = S.args[1] if S.op == "item" else None
        rep.expect(ownkey is cid or S.op == "call", "own", f + ":camera", e.where, "camera %s receives the bias of %s" % (unfold(fl, cid)[:40], unfold(fl, S)[:60]))
        lin = Lin(fl, scalars={s0}, orth={A0}, vectors={b0})
        one = lin.const(1)
        rep.expect(lin.mul(lin.norm(s), lin.norm(s0)) == one, "inverse", f + ":scale", e.where, "the scale of the bias is %s" % lin.show(lin.norm(s)))
        # s' R' b0 + t' = 0 with R' the inverse rotation
        got = lin.add(lin.norm(t), lin.mul(lin.mul(lin.norm(s), lin.trans(lin.norm(A0))), lin.norm(b0)))
        rep.expect(got == {}, "inverse", f + ":translation", e.where, "the translation of the bias is %s" % lin.show(lin.norm(t)))
        neg = [z for z in tm.walk(rv) if z.op == "un" and z.args[0] == "-"]
        tr = [z for z in tm.walk(rv) if z.op == "attr" and z.args[1] == "T" and z.args[0] is A0]
        rep.expect(len(neg) + len(tr) == 1 and any(z is A0 for z in tm.walk(rv)), "inverse", f + ":rotation", e.where, "the rotation of the bias is %s" % unfold(fl, rv)[:80])


def is_rod(z):
    return z.args[0].op == "call" and (tm.callee_name(z.args[0]) or "").endswith("Rodrigues")


AXES = {1: ("+0", "+1"), 2: ("-0", "+1"), 3: ("-0", "-1"), 4: ("+0", "-1"), 5: ("+1", "+0"), 6: ("-1", "+0"), 7: ("-1", "-0"), 8: ("+1", "-0")}


def orientation(prog, rep):
    f = AL + "get_horizontal_and_vertical_directions"
    for o, want in AXES.items():
        fl, r, A = run(prog, f, {"opensfm.align"}, given={"orientation": const(o)})
        got = []
        for leaf, g in cond_leaves(r):
            if leaf.op == "tup" and not any(implied([], tm.tnot(c) if p else c) for c, p in g):
                got.append([row(x, A["R"]) for x in leaf.args])
        if not got or any(None in x for x in got):
            raise LookupError("axes of orientation %d not followed" % o)
        for x in got:
            ok = tuple(x[:2]) == want and x[2][1] == "2" and (o not in (1, 3, 6, 8) or x[2] == "+2")
            rep.expect(ok, "axes", "orientation:%d" % o, f, "images of orientation %d have their axes at %s" % (o, x))


def row(t, R):
    sign = "+"
    if t.op == "un" and t.args[0] == "-":
        sign, t = "-", t.args[1]
    b, ks = items(t)
    if b is R and ks and is_const(ks[0]):
        return sign + str(cval(ks[0]))
    if t.op == "mcall" and False:
        return None
    return None


def planes(prog, rep):
    f = AL + "estimate_ground_plane"
    fl, r, A = run(prog, f, {"opensfm.align"}, [AL + "get_horizontal_and_vertical_directions", "opensfm.multiview.fit_plane"])
    dirs = effects(fl, ("call",), "get_horizontal_and_vertical_directions")
    for e in dirs:
        a = argmap(["R", "orientation"], e)
        shots = {z for v in a.values() for z in tm.walk(v) if z.op == "item" and z.args[1].op == "elem"}
        rep.expect(len(shots) == 1, "pairs", f + ":own", e.where, "the axes of an image are computed from several images")
        rep.expect(any(z.op == "mcall" and z.args[1] == "get_rotation_matrix" for z in tm.walk(a["R"])), "axes", f + ":frame", e.where, "the axes are taken from %s" % unfold(fl, a["R"])[:60])
        h = [c for c, p in atoms(e.guards) if p and c.op == "attr" and c.args[1] == "has_value"]
        rep.expect(bool(h), "pairs", f + ":known", e.where, "the orientation of an image is used without checking that it has one")
    D = dirs[0].result
    want = {"no_roll": ({"+0"}, {"-1"}), "horizontal": ({"+0", "+2"}, {"-1"}), "vertical": ({"+0", "+1"}, {"-2"})}
    fit = effects(fl, ("call",), "fit_plane")
    got = {}
    for e in fit:
        a = argmap(["points", "vectors", "verticals"], e)
        for i, k in enumerate(("vectors", "verticals")):
            v = strip(a[k])
            for x, g, _ in fl.elements(v) or []:
                for kind in want:
                    if any(p and c.op == "cmp" and c.args[0] == "==" and const(kind) in c.args[1:] for c, p in atoms(g)):
                        sgn, y = ("-", x.args[1]) if x.op == "un" else ("+", x)
                        if y.op == "item" and y.args[0] is D:
                            got.setdefault(kind, (set(), set()))[i].add(sgn + str(cval(y.args[1])))
        pts = strip(a["points"])
        rep.expect(any(z.op == "mcall" and z.args[1] == "get_origin" for z in tm.walk(fl.deep(pts))), "pairs", f + ":points", e.where, "the plane is fitted to %s" % unfold(fl, pts)[:80])
    if got:
        for kind, w in want.items():
            rep.expect(got.get(kind) == w, "axes", f + ":" + kind, f, "with %s, the directions on the ground are %s and the upward ones %s" % ((kind,) + tuple(map(sorted, got.get(kind, (set(), set()))))))


def invert(prog, rep):
    f = TO + "invert_similarity"
    if lookup(prog, f) is None:
        return
    fl, r, A = run(prog, f, {"opensfm.large.tools"})
    inverse(rep, fl, f, r, A["s"], A["A"], A["b"])


def inverse(rep, fl, f, r, s0, A0, b0):
    if r.op != "tup" or len(r.args) != 3:
        raise LookupError("%s returns something else" % f)
    s, M, b = r.args
    lin = Lin(fl, scalars={s0}, orth={A0}, vectors={b0})
    one = lin.const(1)
    rep.expect(lin.mul(lin.norm(s), lin.norm(s0)) == one, "inverse", f + ":scale", f, "the scale is %s" % lin.show(lin.norm(s)))
    rep.expect(lin.mul(lin.norm(M), lin.norm(A0)) == one, "inverse", f + ":rotation", f, "the rotation is %s" % lin.show(lin.norm(M)))
    got = lin.add(lin.norm(b), lin.mul(lin.mul(lin.norm(s), lin.norm(M)), lin.norm(b0)))
    rep.expect(got == {}, "inverse", f + ":translation", f, "the translation is %s" % lin.show(lin.norm(b)))


def ext_of(fl, t):
    """(name, arguments) of the external call that made a value."""
    if t.op == "call":
        return tm.callee_name(t), tm.call_parts(t)[1]
    h = fl.h(t) if t.op == "obj" else None
    if h is not None and h.kind == "ext" and h.cls is not None:
        return h.cls.args[0] if h.cls.args else None, list(h.args)
    return None, []


def seq_of(fl, t):
    n, a = ext_of(fl, t)
    if n in ("numpy.array", "numpy.asarray", "list", "tuple") and a:
        return seq_of(fl, a[0])
    if t.op == "tup":
        return [(v, (), ()) for v in t.args]
    return fl.elements(t) or [] if t.op == "obj" else []


def submodels(prog, rep):
    f = TO + "align_reconstructions"
    fl, r, A = run(prog, f, {"opensfm.large.tools"}, [TO + x for x in ("add_camera_constraints_soft", "add_camera_constraints_hard", "add_point_constraints")])
    n = 0
    for leaf, _ in cond_leaves(r):
        h = fl.h(leaf) if leaf.op == "obj" else None
        for x in fl.live(h) if h is not None else []:
            n += 1
            recs = {z for z in tm.walk(fl.deep(x.val)) if z.op in ("mcall", "call") and (z.args[1] if z.op == "mcall" else tm.callee_name(z) or "") in ("get_reconstruction",)}
            rep.expect(len(recs) == 1 and all(tm.contains(fl.deep(z), lambda w: w is x.key) for z in recs), "own", f, f, "the transformation of %s is computed from %s" % (unfold(fl, x.key)[:40], [unfold(fl, z)[:60] for z in recs]))
            if len(recs) != 1:
                continue
            s0 = next((z for z in tm.walk(x.val) if z.op == "attr" and z.args[1] == "scale"), None)
            rep.expect(s0 is not None, "own", f + ":scale", f, "the scale of the alignment is not used")
            if s0 is None:
                continue
            if x.val.op != "tup" or len(x.val.args) != 3:
                raise LookupError("transformation not followed")
            names = lambda t: [v.args[1] for v, _, _ in seq_of(fl, t) if v.op == "attr"]
            A0 = next((z for z in tm.walk(x.val.args[1]) if z.op == "item" and ext_of(fl, z.args[0])[0] == "cv2.Rodrigues"), None)
            b0 = next((z for z in tm.walk(x.val.args[2]) if len(names(z)) == 3 and ext_of(fl, z)[0] == "numpy.array"), None)
            if A0 is None or b0 is None:
                raise LookupError("transformation not followed")
            inverse(rep, fl, f, x.val, s0, A0, b0)
            rv = ext_of(fl, A0.args[0])[1][0]
            rep.expect(names(b0) == ["tx", "ty", "tz"], "own", f + ":translation", f, "the translation is %s" % names(b0))
            rep.expect(names(rv) == ["rx", "ry", "rz"], "own", f + ":rotation", f, "the rotation is %s" % names(rv))
    rep.expect(n > 0, "own", f + ":none", f, "no transformation is returned")
    for n in ("add_camera_constraints_soft", "add_camera_constraints_hard", "add_point_constraints"):
        for e in effects(fl, ("call",), n):
            a = argmap(params(lookup(prog, TO + n)), e)
            for p in ("reconstruction_shots", "reconstruction_name"):
                rep.expect(a.get(p) is A[p], "use", f + ":" + n, e.where, "%s of %s is %s" % (p, n, unfold(fl, a[p])[:40] if a.get(p) is not None else "missing"))
    run_ = [e for e in fl.effects if e.kind == "mcall" and e.name == "run"]
    get = [e for e in fl.effects if e.kind == "mcall" and e.name == "get_reconstruction"]
    rep.expect(bool(run_) and all(run_[0].seq < e.seq for e in get), "use", f + ":run", f, "the transformations are read before the alignment runs")
    f = TO + "apply_transformations"
    fl, r, A = run(prog, f, {"opensfm.large.tools"}, OPA)
    ap = effects(fl, ("call",), "apply_similarity")
    rep.expect(bool(ap), "own", f + ":none", f, "no reconstruction is moved")
    for e in ap:
        a = argmap(["reconstruction", "s", "A", "b"], e)
        srcs = [strip(a[k]) for k in ("s", "A", "b")]
        base = srcs[0].args[0] if srcs[0].op == "item" else None
        rep.expect(base is not None and [parts_of(fl, a[k], base) for k in ("s", "A", "b")] == [0, 1, 2], "direction", f + ":parts", e.where, "apply_similarity receives %s" % [unfold(fl, x)[:50] for x in srcs])
        key = base.args[1] if base is not None and base.op == "item" else None
        rec = a["reconstruction"]
        ok = key is not None and rec.op == "item" and rec.args[1] is attr(key, "idx")
        rep.expect(ok, "own", f, e.where, "%s is moved by the transformation of %s" % (unfold(fl, rec)[:60], unfold(fl, key)[:40] if key is not None else "?"))
        for s in [x for x in fl.effects if x.kind in ("mcall", "call") and (x.name or "").endswith("save_reconstruction")]:
            b = argmap(["reconstruction", "filename", "minify"], s)
            rep.expect(rec.op == "item" and b.get("reconstruction") is rec.args[0], "own", f + ":saved", s.where, "%s is saved" % unfold(fl, b["reconstruction"])[:60])
            rep.expect(b.get("filename") is not None and is_const(b["filename"]) and cval(b["filename"]) != "reconstruction.json", "use", f + ":file", s.where, "the aligned reconstruction overwrites %s" % (unfold(fl, b["filename"])[:40] if b.get("filename") is not None else "the reconstruction"))


# the Python names of the parameters of the native functions
NATIVE = {
    "add_shot": ["id", "rx", "ry", "rz", "tx", "ty", "tz", "constant"],
    "add_absolute_position_constraint": ["shot_id", "x", "y", "z", "std"],
    "add_relative_absolute_position_constraint": ["rec", "shot_id", "x", "y", "z", "std"],
    "RARelativeMotionConstraint": ["rec", "shot_id", "rx", "ry", "rz", "tx", "ty", "tz"],
}
SRC = {"r": ("rotation",), "t": ("translation",), "p": ("gps_position", "value"), "s": ("gps_accuracy", "value")}


def cameras(prog, rep, n):
    f = TO + n
    fl, r, A = run(prog, f, {"opensfm.large.tools"}, [TO + "connected_reconstructions"])
    cnt = 0
    for e in fl.effects:
        short = (e.name or "").split(".")[-1]
        if short not in NATIVE or e.kind not in ("mcall", "call", "new"):
            continue
        cnt += 1
        a = argmap(NATIVE[short], e)
        shot = None
        for p, v in a.items():
            kind = {"r": "r", "t": "t", "x": "p", "y": "p", "z": "p"}.get(p[0]) if p not in ("rec",) and (p in ("x", "y", "z") or (len(p) == 2 and p[0] in "rt")) else ("s" if p == "std" else None)
            if kind is None:
                continue
            if p[0] == "r":
                kind = "r"
            base, ks = items(v)
            path = []
            t = base
            while t.op == "attr":
                path.append(t.args[1])
                t = t.args[0]
            path = tuple(reversed(path))
            # indexing by keys inside the attribute chain
            want_i = {"x": 0, "y": 1, "z": 2}.get(p[-1]) if kind != "s" else None
            got_i = cval(ks[-1]) if ks and is_const(ks[-1]) else None
            ok = path[-len(SRC[kind]):] == SRC[kind] and (kind == "s" or got_i == want_i)
            rep.expect(ok, "pairs", "%s:%s:%s" % (n, short, p), e.where, "%s of %s is %s" % (p, short, unfold(fl, v)[:80]))
            owners = [z for z in tm.walk(v) if z.op == "item" and z.args[1].op == "elem"]
            if owners:
                shot = shot or max(owners, key=lambda z: len(tm.show(z, 30)))
                rep.expect(any(z is shot for z in owners), "pairs", "%s:%s:own" % (n, short), e.where, "%s mixes several shots" % short)
        sid = a.get("id") if "id" in a else a.get("shot_id")
        if shot is not None and sid is not None:
            rep.expect(tm.contains(fl.deep(sid), lambda z: z is shot.args[1]), "own", "%s:%s:id" % (n, short), e.where, "the values of %s are given to %s" % (unfold(fl, shot)[:60], unfold(fl, sid)[:60]))
    rep.expect(cnt > 0, "pairs", n + ":none", f, "no camera constraint is added")
    for e in effects(fl, ("mcall",), "add_common_camera_constraint"):
        a = argmap(["rec_a", "shot_a", "rec_b", "shot_b", "std_center", "std_rotation"], e)
        for x, y in (("rec_a", "shot_a"), ("rec_b", "shot_b")):
            rep.expect(tm.contains(a[y], lambda z: z is a[x]), "own", n + ":common:" + x, e.where, "shot %s is looked up in reconstruction %s" % (unfold(fl, a[y])[:60], unfold(fl, a[x])[:60]))
        rep.expect(a["rec_a"] is not a["rec_b"], "own", n + ":common", e.where, "a reconstruction is tied to itself")


def point_constraints(prog, rep):
    f = TO + "add_point_constraints"
    fl, r, A = run(prog, f, {"opensfm.large.tools"}, [TO + "connected_reconstructions", TO + "load_reconstruction", "opensfm.reconstruction.resect_reconstruction", "opensfm.multiview.decompose_similarity_transform"])
    res = effects(fl, ("call",), "resect_reconstruction")

    def which(t):
        """Which of the two connected reconstructions a value belongs to."""
        c = {cval(z.args[1]) for z in tm.walk(fl.deep(t)) if z.op == "item" and is_const(z.args[1]) and z.args[0].op == "elem" and z.args[0].args[0].op == "call"}
        return c
    for e in res:
        a = argmap(["reconstruction1", "reconstruction2", "tracks_manager1", "tracks_manager2", "threshold", "min_inliers"], e)
        for p, w in (("reconstruction1", {0}), ("reconstruction2", {1}), ("tracks_manager1", {0}), ("tracks_manager2", {1})):
            rep.expect(which(a[p]) == w, "pairs", f + ":" + p, e.where, "%s is %s" % (p, unfold(fl, a[p])[:80]))
    n = 0
    for e in effects(fl, ("mcall",), "add_common_point_constraint"):
        n += 1
        a = argmap(["rec_a", "xa", "ya", "za", "rec_b", "xb", "yb", "zb", "std"], e)
        for s, w in (("a", 0), ("b", 1)):
            rep.expect(which(a["rec_" + s]) == {w}, "pairs", f + ":rec_" + s, e.where, "the reconstruction is %s" % unfold(fl, a["rec_" + s])[:60])
            for i, ax in enumerate("xyz"):
                v = a[ax + s]
                base, ks = items(v)
                # r.points[t].coordinates[i]
                pt = base.args[0] if base.op == "attr" and base.args[1] == "coordinates" else None
                if pt is None or pt.op != "item" or pt.args[0].op != "attr" or pt.args[0].args[1] != "points":
                    raise LookupError("coordinates of the tied points not recognised")
                key = pt.args[1]
                own = key.op == "item" and is_const(key.args[1]) and cval(key.args[1]) == w and key.args[0].op == "elem" and res and tm.contains(fl.deep(key.args[0]), lambda y: y is item(res[0].result, const(2)))
                ok = which_rec(pt.args[0]) == {w} and len(ks) == 1 and is_const(ks[0]) and cval(ks[0]) == i and own
                rep.expect(ok, "pairs", "%s:%s%s" % (f, ax, s), e.where, "coordinate %s of %s is %s" % (ax, "first" if w == 0 else "second", unfold(fl, v)[-100:]))
        ok = res and any(p and c is item(res[0].result, const(0)) for c, p in atoms(e.guards))
        rep.expect(ok, "use", f + ":failed", e.where, "points are tied although the reconstructions could not be matched")
    rep.expect(n > 0, "pairs", f + ":none", f, "no points are tied")


def which_rec(t):
    out = set()
    for z in tm.walk(t):
        if z.op == "call" and (tm.callee_name(z) or "").endswith("load_reconstruction"):
            for v in tm.call_parts(z)[1] + list(tm.call_parts(z)[2].values()):
                for y in tm.walk(v):
                    if y.op == "item" and is_const(y.args[1]) and y.args[0].op == "elem":
                        out.add(cval(y.args[1]))
    return out


RE = "opensfm.reconstruction."


def common(prog, rep):
    f = RE + "compute_common_tracks"
    fl, r, A = run(prog, f, {"opensfm.reconstruction"}, [RE + "corresponding_tracks"])
    for e in effects(fl, ("call",), "corresponding_tracks"):
        a = argmap(params(lookup(prog, RE + "corresponding_tracks")), e)
        v = list(a.values())
        m = [[y for y in ("tracks_manager1", "tracks_manager2") if tm.contains(x, lambda z: z is A[y])] for x in v]
        rep.expect(m == [["tracks_manager1"], ["tracks_manager2"]], "pairs", f + ":sides", e.where, "the corresponding tracks are those of %s" % m)
        ims = [tm.call_parts(x)[1] for x in v if x.op == "mcall"]
        rep.expect(len({tuple(x) for x in ims}) == 1, "pairs", f + ":image", e.where, "the tracks of different images are compared")
    n = 0
    for leaf, _ in cond_leaves(r):
        for v, g, l in fl.elements(leaf) or []:
            n += 1
            el = list(v.args) if v.op == "tup" else [v, None]
            idx = [cval(x.args[1]) if x is not None and x.op == "item" and is_const(x.args[1]) else None for x in el]
            rep.expect(idx == [0, 1] or v.op == "elem", "pairs", f + ":order", f, "the tracks are listed as %s" % unfold(fl, v)[:80])
            for x, k in zip(el, ("reconstruction1", "reconstruction2")):
                ok = any(p and c.op == "cmp" and c.args[0] == "in" and c.args[1] is x and c.args[2] is attr(A[k], "points") for c, p in atoms(g))
                rep.expect(ok or v.op == "elem", "pairs", f + ":" + k, f, "a track is listed without a point in %s" % k)
    rep.expect(n > 0, "pairs", f + ":none", f, "no common track is found")
    f = RE + "align_two_reconstruction"
    fl, r, A = run(prog, f, {"opensfm.reconstruction"}, ["opensfm.multiview.fit_similarity_transform"])
    for e in effects(fl, ("call",), "fit_similarity_transform"):
        a = argmap(["p1", "p2", "max_iterations", "threshold"], e)
        for p, rec, i in (("p1", "r1", 0), ("p2", "r2", 1)):
            t = fl.deep(a[p])
            own = {k for k in ("r1", "r2") if tm.contains(t, lambda z: z is A[k])}
            ix = {cval(z.args[1]) for z in tm.walk(t) if z.op == "item" and is_const(z.args[1]) and z.args[0].op == "elem"}
            rep.expect(own == {rec} and ix == {i}, "direction", f + ":" + p, e.where, "%s are the points of %s, track %s of each pair" % (p, sorted(own), sorted(ix)))
        rep.expect(a.get("threshold") is A["threshold"], "use", f + ":threshold", e.where, "the threshold is %s" % unfold(fl, a["threshold"])[:40])
    f = RE + "resect_reconstruction"
    fl, r, A = run(prog, f, {"opensfm.reconstruction"}, [RE + "compute_common_tracks", RE + "align_two_reconstruction"])
    for n in ("compute_common_tracks", "align_two_reconstruction"):
        for e in effects(fl, ("call",), n):
            a = argmap(params(lookup(prog, RE + n)), e)
            for p, v in a.items():
                w = {"r1": A["reconstruction1"], "r2": A["reconstruction2"]}.get(p, A.get(p))
                if w is not None:
                    rep.expect(v is w, "pairs", "resect_reconstruction:%s:%s" % (n, p), e.where, "%s of %s is %s" % (p, n, unfold(fl, v)[:60]))
    ct = effects(fl, ("call",), "compute_common_tracks")
    for leaf, g in cond_leaves(r):
        if leaf.op == "tup" and len(leaf.args) == 3 and leaf.args[0] is const(True):
            for v, _, _ in fl.elements(leaf.args[2]) or []:
                rep.expect(v.op == "item" and ct and v.args[0] is ct[0].result, "pairs", "resect_reconstruction:inliers", f, "the inliers are %s" % unfold(fl, v)[:80])


def geocoords(prog, rep):
    f = GE + "_transform_reconstruction"
    only = {"opensfm.actions.export_geocoords"}
    fl, r, A = run(prog, f, only)
    T = A["transformation"]
    seen = set()
    for P, seq in changes(fl).items():
        owner = P.args[0] if P.op == "attr" and P.args[1] == "pose" else None
        kind = next((k for k in ("rig_instances", "shots") if owner is not None and each_of(owner, k)), None)
        seen.add(kind)
        where = seq[0][2].where
        rep.expect(kind == "rig_instances", "geo", "reconstruction:poses", where, "the poses of %s are transformed; those of the images follow from the rig instances" % (kind or unfold(fl, P)[:60]))
        lin, R, o, M, b = geo_lin(fl, T, P, seq)
        r2, t2, stale = final(lin, seq, P)
        rep.expect(lin.mul(r2, lin.norm(M)) == lin.norm(R), "geo", "reconstruction:rotation", where, "the new rotation is %s" % lin.show(r2))
        # the origin must move with the map
        want = lin.add({}, lin.mul(r2, lin.add(lin.mul(lin.norm(M), lin.norm(o)), lin.norm(b))), -1)
        rep.expect(t2 == want, "geo", "reconstruction:origin", where, "the new translation is %s" % lin.show(t2))
        rep.expect(not stale, "pose", "geocoords:order", where, "the rotation is set after the position")
    rep.expect(bool(seen), "geo", "reconstruction:none", f, "no pose is transformed")
    n = 0
    for e in fl.effects:
        if e.kind == "setattr" and e.name == "coordinates":
            n += 1
            mapped(rep, fl, "reconstruction:points", e.where, e.args[0], T, attr(e.recv, "coordinates"))
    rep.expect(n > 0, "geo", "reconstruction:points", f, "the points are not transformed")
    f = GE + "_transform_image_positions"
    fl, r, A = run(prog, f, only, ["opensfm.io.open_wt"])
    rows = 0
    for h in (fl.heap.values() if isinstance(fl.heap, dict) else fl.heap):
        el = [x.val for x in getattr(h, "log", None) or [] if x.kind == "add" and x.val is not None]
        if len(el) >= 4 and el[0].op == "attr" and el[0].args[1] == "id":
            rows += 1
            shot = el[0].args[0]
            for i, v in enumerate(el[1:4]):
                base, ks = items(v)
                rep.expect(ks and is_const(ks[-1]) and cval(ks[-1]) == i, "geo", "positions:%s" % "xyz"[i], f, "column %s is %s" % ("XYZ"[i], unfold(fl, v)[-60:]))
                mapped(rep, fl, "positions:value", f, v.args[0], A["transformation"], tm.mcall(attr(shot, "pose"), "get_origin", []))
    if not rows:
        raise LookupError("rows of the image positions not recognised")


def dense(prog, rep):
    f = GE + "_transform_dense_point_cloud"
    fl, r, A = run(prog, f, {"opensfm.actions.export_geocoords"}, ["opensfm.io.open_rt", "opensfm.io.open_wt"])
    T = A["transformation"]
    M, b = tblocks(fl, T)
    heads = rows = 0
    for e in [x for x in fl.effects if x.kind == "mcall" and x.name == "write"]:
        v = e.args[0]
        if v.op == "elem":
            heads += 1
            continue
        js = [z for z in tm.walk(v) if (z.op == "mcall" and z.args[1] == "join") or z.op == "join"]
        el = None
        for j in js:
            for y in tm.walk(j):
                if y.op == "obj" and fl.elements(y) and len(fl.elements(y)) > max(2, len(el or [])):
                    el = fl.elements(y)
        if not el:
            raise LookupError("points of the dense cloud not recognised")
        rows += 1
        vals = [strip_str(x) for x, _, _ in el]
        rep.expect(len(el) >= 7, "geo", "dense:rest", e.where, "the colors and labels of the points are dropped")
        for i, x in enumerate(vals[:6]):
            ok = x.op == "item" and is_const(x.args[1]) and cval(x.args[1]) == i % 3
            lst = next((y for y in tm.walk(x) if y.op == "obj" and fl.elements(y) and len(fl.elements(y)) == 3), None)
            if lst is None:
                raise LookupError("points of the dense cloud not recognised")
            got = [cval(items(w)[1][-1]) if items(w)[1] and is_const(items(w)[1][-1]) else None for w in [strip_num(q) for q, _, _ in fl.elements(lst)]]
            rep.expect(ok and got == ([0, 1, 2] if i < 3 else [3, 4, 5]), "geo", "dense:%d" % i, e.where, "column %d is component %s of the image of columns %s" % (i, unfold(fl, x.args[1])[:8] if x.op == "item" else "?", got))
            lin = Lin(fl, vectors={b, lst})
            want = lin.mul(lin.norm(M), lin.norm(lst))
            if i < 3:
                want = lin.add(want, lin.norm(b))
            rep.expect(x.op == "item" and lin.norm(x.args[0]) == want, "geo", "dense:value:%d" % i, e.where, "column %d is mapped to %s" % (i, lin.show(lin.norm(x.args[0])) if x.op == "item" else "?"))
    rep.expect(rows > 0 and heads > 0, "geo", "dense:written", f, "the header or the points are not written")


def strip_str(t):
    while t.op == "call" and tm.callee_name(t) in ("str", "repr", "format"):
        t = tm.call_parts(t)[1][0]
    return t


def strip_num(t):
    while t.op == "call" and tm.callee_name(t) in ("float", "int"):
        t = tm.call_parts(t)[1][0]
    return t


def geo_lin(fl, T, P, seq):
    R, o, sub = initial(P)
    M, b = tblocks(fl, T)
    return Lin(fl, orth={R}, vectors={b, o}, sub=sub), R, o, M, b


def tblocks(fl, T):
    s3 = mk("slice", tm.NONE, const(3), tm.NONE)
    return item(T, mk("tup", s3, s3)), item(T, mk("tup", s3, const(3)))


def mapped(rep, fl, key, where, v, T, x):
    M, b = tblocks(fl, T)
    lin = Lin(fl, vectors={b, x})
    want = lin.add(lin.mul(lin.norm(M), lin.norm(x)), lin.norm(b))
    rep.expect(lin.norm(v) == want, "geo", key, where, "%s is mapped to %s" % (unfold(fl, x)[:40], lin.show(lin.norm(v))))


def affine(prog, rep):
    f = GE + "_get_transformation"
    only = {"opensfm.actions.export_geocoords"}
    fl, r, A = run(prog, f, only, [GE + "_transform"])
    rows = [fl.elements(x) for x, _, _ in (fl.elements(strip(r)) or [])]
    if len(rows) != 4 or any(x is None or len(x) != 4 for x in rows):
        raise LookupError("matrix of the transformation not recognised")
    Q = {}
    for i in range(3):
        for j in range(4):
            v = rows[i][j][0]
            lin = Lin(fl, scalars=[z for z in tm.walk(v) if z.op == "item"])
            p = lin.norm(v)
            # every entry is a component i of the image of a basis point
            got = {}
            for (s, _), c in p.items():
                z = s[0][0] if len(s) == 1 else None
                base, ks = items(z) if z is not None else (None, [])
                pt = next((y for y in tm.walk(z) if y.op == "call" and (tm.callee_name(y) or "").endswith("._transform")), None) if z is not None else None
                vec = None
                if pt is not None:
                    a = call_args(pt, ["point", "reference", "projection"])
                    vec = tuple(cval(y) for y, _, _ in (fl.elements(a["point"]) or []) if is_const(y)) or (tuple(cval(y) for y in a["point"].args) if a["point"].op == "tup" else None)
                comp = cval(ks[-1]) if ks and is_const(ks[-1]) else None
                got[(vec, comp)] = int(c)
            unit = tuple(1 if k == j else 0 for k in range(3))
            want = {((0, 0, 0), i): 1} if j == 3 else {(unit, i): 1, ((0, 0, 0), i): -1}
            if any(k[0] is None for k in got):
                raise LookupError("entries of the transformation not recognised")
            rep.expect(got == want, "geo", "matrix:%d,%d" % (i, j), f, "entry (%d, %d) of the transformation is %s" % (i, j, unfold(fl, v)[:100]))
    f = GE + "_transform"
    fl, r, A = run(prog, f, only)
    tl = effects(fl, ("mcall", "call"), "to_lla")
    for e in tl:
        idx = [cval(items(x)[1][-1]) if items(x)[0] is A["point"] and items(x)[1] else None for x in e.args]
        star = len(e.args) == 1 and tm.contains(e.args[0], lambda z: z is A["point"])
        rep.expect(idx == [0, 1, 2] or star, "geo", "transform:point", e.where, "the point is read as %s" % idx)
        lla = e.result
        pr = [x for x in fl.effects if x.kind in ("call", "mcall") and x.seq > e.seq and any(tm.contains(y, lambda z: z is lla) for y in x.args)]
        for x in pr:
            ix = [cval(y.args[1]) if y.op == "item" and y.args[0] is lla else None for y in x.args]
            rep.expect(ix[:2] == [1, 0], "geo", "transform:projection", x.where, "the projection receives %s instead of longitude, latitude" % ix)
        el = [v for v, _, _ in (fl.elements(r) or [])] if r.op == "obj" else list(r.args)
        if pr and len(el) == 3:
            proj = pr[0].result
            ok = el[0] is item(proj, const(0)) and el[1] is item(proj, const(1)) and el[2] is item(lla, const(2))
            rep.expect(ok, "geo", "transform:result", f, "the projected position is %s" % [unfold(fl, v)[-60:] for v in el])
