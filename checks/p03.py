from sa import terms as tm
from sa.flow import Flow
from sa.match import core, cover, may_values, same, seq_items, tautology, unfold
from sa.terms import NONE, attr, cond_of, const, item, mk, sym, tnot

TECHNIQUE = "interprocedural value-flow: ground control point reader composed with writer; text-list reader checked value by value"
EXPLANATION = (
    "read_ground_control_points is analysed on what write_ground_control_points hands to the JSON encoder for a symbolic list of "
    "points; every point, observation, id, coordinate and the altitude gate must come back from its own source. "
    "read_gcp_list is analysed on symbolic lines: the observation of a line must be attached to the point of the same line, with "
    "latitude/longitude/altitude in their own slots and pixel coordinates normalised with that image's width and height."
)
W = "opensfm/io.py ground control points"


def check(prog, rep):
    rep.rule("json", "points written to JSON are read back one by one, with id, position and observations from their own source")
    rep.rule("list", "each line of a GCP text list becomes one observation of the point with that line's coordinates")
    rep.part(json_rt, prog, rep)
    rep.part(text, prog, rep)
    rep.minimum("json", 10)
    rep.minimum("list", 8)


def json_rt(prog, rep):
    box = {}

    def dump(fl, args, kwargs, node):
        box["obj"] = args[0] if args else kwargs.get("obj", kwargs.get("data"))
        return NONE

    def load(fl, args, kwargs, node):
        return box["obj"]

    fl = Flow(prog, ext_models={"json.dump": dump, "json.load": load})
    gcp = sym("gcp")
    fl.run("opensfm.io.write_ground_control_points", {"gcp": gcp, "fileobj": sym("fw")})
    if box.get("obj") is None:
        rep.expect(False, "json", "encode", W, "nothing is handed to the JSON encoder")
        return
    n0 = len(fl.effects)
    out = fl.run("opensfm.io.read_ground_control_points", {"fileobj": sym("fr")})
    effs = fl.effects[n0:]
    pt = mk("elem", gcp, 0)
    obsl = attr(pt, "observations")
    ob = mk("elem", obsl, 0)
    lla = attr(pt, "lla")

    def world(alt, extra=()):
        def f(a):
            if a is lla:
                return True
            if a.op == "nonempty":
                return True
            if a is attr(pt, "has_altitude"):
                return alt
            if a.op == "cmp" and a.args[0] == "is":
                return False
            return None
        return f

    points = [x for x in fl.elements(out) or []]
    rep.expect(len(points) == 1, "json", "points", W, "the reader does not return one point per written point")
    if len(points) != 1:
        return
    v, g, L = points[0]
    rep.expect(tuple(core(fl, l) for l in L) == (gcp,), "json", "points:all", W, "points are read over %s" % [unfold(fl, l) for l in L])
    ok, why = tautology(g, world(None)) if not isinstance(g, (list, tuple)) else cover([g], world(None))
    rep.expect(ok, "json", "points:kept", W, "a point is dropped in some cases (%s)" % [unfold(fl, w) for w in why])

    def sets(recv, name):
        return [e for e in effs if e.kind == "setattr" and e.name == name and e.recv is recv]

    def one(recv, name, want, loops, alts=(None, True, False)):
        es = sets(recv, name)
        rep.expect(bool(es), "json", name, W, "%s is never restored" % name)
        for e in es:
            rep.expect(same(fl, e.args[0], want, ("seq", "flt"), 2), "json", name, e.where, "%s restored from %s" % (name, unfold(fl, e.args[0])))
            rep.expect(tuple(core(fl, l) for l in e.loops) == loops, "json", name + ":all", e.where, "%s restored over %s" % (name, [unfold(fl, l) for l in e.loops]))
        if es:
            for alt in alts:
                ok, why = cover([e.guards for e in es], world(alt))
                rep.expect(ok, "json", name + ":kept", es[0].where, "%s lost in some cases (%s)" % (name, [unfold(fl, w) for w in why]))

    one(v, "id", attr(pt, "id"), (gcp,))
    # position
    es = sets(v, "lla")
    rep.expect(bool(es), "json", "position", W, "the position is never restored")
    for alt in (True, False):
        for e in es:
            val = core(fl, e.args[0])
            def query():
                got = {}
                for k in ("latitude", "longitude", "altitude"):
                    got[k] = fl.get_item(val, const(k))
                return got
            got = fl.under(attr(pt, "has_altitude") if alt else tnot(attr(pt, "has_altitude")), query)
            for k in ("latitude", "longitude") + (("altitude",) if alt else ()):
                rep.expect(any(core(fl, x) is item(lla, const(k)) for x in may_values(fl, got[k])), "json", "position." + k, e.where,
                           "%s restored from %s" % (k, unfold(fl, got[k])))
                rep.expect(all(core(fl, x) is item(lla, const(k)) or x.op in ("raise", "undef", "noreturn") for x in may_values(fl, got[k])),
                           "json", "position." + k + ":only", e.where, "%s may be restored from %s" % (k, unfold(fl, got[k])))
        if es:
            ok, why = cover([e.guards for e in es], world(alt))
            rep.expect(ok, "json", "position:kept", es[0].where, "the position is lost in some cases (%s)" % [unfold(fl, w) for w in why])
    # altitude flag: true exactly when the written point had one
    hs = sets(v, "has_altitude")
    rep.expect(bool(hs), "json", "has_altitude", W, "the altitude flag is never restored")
    for e in hs:
        for alt in (True, False):
            c = fl.truth(e.args[0])
            want = c if alt else tnot(c)
            ok, why = tautology(want, world(alt))
            if not ok:  # the flag may be computed from the restored position
                key = cond_atom(fl, e.args[0], v, es, alt)
                ok = key
            rep.expect(bool(ok), "json", "has_altitude", e.where,
                       "a point %s altitude is restored with flag %s" % ("with" if alt else "without", unfold(fl, e.args[0])))
    # observations
    os_ = sets(v, "observations")
    adds = [e for e in effs if e.kind == "mcall" and e.name in ("add_observation",) and e.recv is v]
    rep.expect(len(os_) + len(adds) >= 1, "json", "observations", W, "observations are never restored")
    o = None
    for e in os_:
        el = fl.elements(e.args[0])
        good = el is not None and len(el) == 1 and tuple(core(fl, l) for l in el[0][2])[-1:] == (obsl,)
        rep.expect(good, "json", "observations", e.where, "observations restored as %s" % unfold(fl, e.args[0]))
        if good:
            o = el[0][0]
            rep.expect(free_guard(fl, el[0][1], world(None)), "json", "observations:kept", e.where, "an observation is dropped in some cases")
    for e in adds:
        rep.expect(tuple(core(fl, l) for l in e.loops) == (gcp, obsl), "json", "observations", e.where, "observations restored over other elements")
        o = e.args[0]
    if o is not None:
        one(o, "shot_id", attr(ob, "shot_id"), (gcp, obsl))
        one(o, "projection", attr(ob, "projection"), (gcp, obsl))


def free_guard(fl, g, assume):
    if isinstance(g, (list, tuple)):
        return cover([g], assume)[0]
    return tautology(g, assume)[0]


def cond_atom(fl, t, v, es, alt):
    """flag computed as `"altitude" in <restored position>`"""
    t = core(fl, t)
    if t.op == "call" and tm.callee_name(t) == "bool":
        t = t.args[2]
    if t.op == "cmp" and t.args[0] == "in" and t.args[1] is const("altitude"):
        return any(t.args[2] in (e.args[0], attr(v, "lla")) for e in es)
    return False


def token(t):
    """Index of the blank-separated token of the current line that t is, else None."""
    k = 0
    if t.op != "item" or not tm.is_const(t.args[1]):
        return None
    k, b = tm.cval(t.args[1]), t.args[0]
    if b.op != "mcall" or b.args[1] != "split":
        return None
    (recv, _), args, kw = tm.call_parts(b)
    if args and args[0] is not NONE:
        return None
    limit = tm.cval(args[1]) if len(args) > 1 and tm.is_const(args[1]) else kw.get("maxsplit", -1)
    if not isinstance(limit, int):
        limit = tm.cval(limit) if tm.is_const(limit) else -1
    inner = token(recv)
    if inner is not None:  # the rest of the line, split again
        return inner + k if (limit < 0 or k < limit) else None
    if recv.op == "mcall" and recv.args[1] == "strip":
        recv = recv.args[0]
    if recv.op == "elem":
        return k
    return None


def fields(t):
    out = set()
    for x in tm.walk(t):
        k = token(x)
        if k is not None:
            out.add(k)
    return out


def num(t, i):
    """t is the number in token i."""
    return t.op == "call" and tm.callee_name(t) in ("float", "numpy.float64") and token(t.args[2]) == i


def text(prog, rep):
    fl = Flow(prog, opaque=["opensfm.features.normalized_image_coordinates"])
    lines, proj, exifs = sym("lines"), sym("projection"), sym("exifs")
    out = fl.run("opensfm.io._read_gcp_list_lines", {"lines": lines, "projection": proj, "exifs": exifs})
    effs = fl.effects
    R = "list"

    def sets(name):
        return [e for e in effs if e.kind == "setattr" and e.name == name]

    def isnan(val):
        def f(a):
            if a.op == "call" and (tm.callee_name(a) or "").endswith("isnan"):
                return val
            return None
        return f

    def nan_leaves(t, val):
        atom = [x for x in tm.walk(t) if x.op == "call" and (tm.callee_name(x) or "").endswith("isnan")]
        if not atom:
            return leaves_of(t)
        return leaves_of(fl.under(atom[0] if val else tnot(atom[0]), lambda: fl.simplify(t)))

    def leaves_of(t):
        from sa.match import leaves
        return leaves(t)

    adds = [e for e in effs if e.kind == "mcall" and e.name == "add_observation"]
    rep.expect(bool(adds), R, "observation", W, "no observation is ever attached to a point")
    pts = sets("lla")
    rep.expect(bool(pts), R, "position", W, "no point gets a position")
    new = {e.recv for e in pts}
    for e in pts:
        val = e.args[0]
        w = e.where
        for k, i in (("latitude", 1), ("longitude", 0)):
            v = fl.at(e, lambda: fl.get_item(val, const(k)))
            for has_proj in (True, False):
                atom = mk("cmp", "is", *sorted([NONE, proj], key=lambda x: x.op != "const"))
                ats = [x for x in tm.walk(v) if x.op == "cmp" and x.args[0] == "is" and NONE in x.args and proj in x.args]
                x = v
                if ats:
                    x = fl.under(tnot(ats[0]) if has_proj else ats[0], lambda: fl.simplify(v))
                for y in leaves_of(x):
                    if y.op == "item" and y.args[0].op == "mcall":
                        (r, m), a, kw = tm.call_parts(y.args[0])
                        ok = r is proj and m == "transform" and len(a) == 2 and num(a[0], 0) and num(a[1], 1) and tm.is_const(y.args[1]) \
                            and tm.cval(y.args[1]) == (0 if k == "latitude" else 1)
                    else:
                        ok = num(y, i)
                    rep.expect(ok, R, "position." + k, w, "%s of a listed point is %s" % (k, unfold(fl, y)))
        alt = fl.at(e, lambda: fl.get_item(val, const("altitude")))
        ok = all(num(y, 2) for y in nan_leaves(alt, False))
        rep.expect(ok, R, "position.altitude", w, "altitude of a listed point is %s" % unfold(fl, alt))
        rep.expect(not any(num(y, 2) for y in nan_leaves(alt, True)), R, "position.altitude:unknown", w, "an unknown altitude is stored as NaN")
        flags = [x for x in sets("has_altitude") if x.recv is e.recv]
        rep.expect(bool(flags), R, "has_altitude", w, "the altitude flag of a listed point is never set")
        for x in flags:
            c = fl.truth(x.args[0])
            for val_ in (True, False):
                ok, _ = tautology(tnot(c) if val_ else c, isnan(val_))
                rep.expect(ok, R, "has_altitude", x.where, "altitude flag is %s for a point %s altitude" % (unfold(fl, x.args[0]), "without" if val_ else "with"))
        ids = [x for x in sets("id") if x.recv is e.recv]
        rep.expect(bool(ids), R, "id", w, "a listed point gets no id")
        for x in ids:
            varies = tm.contains(x.args[0], lambda y: y.op in ("idx", "elem", "loopphi") or tm.callee_name(y) == "len")
            rep.expect(varies, R, "id", x.where, "all listed points get the same id %s" % unfold(fl, x.args[0]))
            wraps = [y for y in tm.walk(x.args[0]) if y.op == "bin" and y.args[0] in ("%", "//", "&", ">>") and not (tm.is_const(y.args[1]) and isinstance(tm.cval(y.args[1]), str))]
            rep.expect(not wraps, R, "id:unique", x.where, "listed points share ids: %s" % unfold(fl, x.args[0]))
    # which point a line contributes to
    keys = []
    for e in adds:
        r = e.recv
        if r in new:
            continue
        if r.op == "item":
            keys.append((r.args[1], e))
    for e in effs:
        if e.kind == "setitem" and e.args and e.args[-1] in new:
            keys.append((e.args[0], e))
    for e in pts:
        for a, v in e.guards:
            if a.op == "cmp" and a.args[0] == "in" and a.args[2].op == "obj":
                keys.append((a.args[1], e))
    rep.count(R, len(keys))
    if keys:
        k0 = keys[0][0]
        for k, e in keys:
            rep.expect(k is k0, R, "grouping", e.where, "points are stored and looked up under different keys")
            rep.expect({0, 1, 2} <= fields(k), R, "grouping:fields", e.where,
                       "lines are grouped by %s, which leaves out a coordinate" % unfold(fl, k))
            rep.expect(not (fields(k) & {3, 4, 5}), R, "grouping:only", e.where, "lines are grouped by more than the position: %s" % unfold(fl, k))
            parts = list(k.args) if k.op == "tup" else [k]
            lossy = [y for x in parts for z in (True, False) for y in nan_leaves(x, z) if y.op != "const" and fields(y)
                     and not any(num(y, i) or token(y) == i for i in range(3)) and y.op not in ("fmt", "strcat", "tup")]
            rep.expect(not lossy, R, "grouping:exact", e.where, "positions that differ are taken for the same one: the key holds %s" % [unfold(fl, y) for y in lossy][:2])
            ok = not any(num(y, 2) for x in parts for y in nan_leaves(x, True))
            rep.expect(ok, R, "grouping:unknown-altitude", e.where, "lines with unknown altitude never match each other (NaN in the key)")
    # the observation itself
    for e in adds:
        o = e.args[0]
        sh = [x for x in sets("shot_id") if x.recv is o]
        pr = [x for x in sets("projection") if x.recv is o]
        rep.expect(len(sh) == 1 and token(sh[0].args[0]) == 5, R, "observation.shot", e.where, "observation names image %s" % [unfold(fl, x.args[0]) for x in sh])
        rep.expect(len(pr) == 1, R, "observation.projection", e.where, "observation projection set %d times" % len(pr))
        for x in pr:
            c = core(fl, x.args[0])
            row = const(0)
            call = c.args[0] if c.op == "item" and c.args[1] is row else None
            ok = call is not None and (tm.callee_name(call) or "").endswith("normalized_image_coordinates")
            rep.expect(ok, R, "observation.projection", x.where, "projection is %s" % unfold(fl, c))
            if ok:
                kw = tm.call_parts(call)[2]
                px = fl.at(x, lambda: seq_items(fl, kw.get("pixel_coords", NONE)))
                px = fl.at(x, lambda: seq_items(fl, px[0])) if px and len(px) == 1 else None
                rep.expect(px is not None and len(px) == 2 and num(px[0], 3) and num(px[1], 4), R, "observation.pixel", x.where,
                           "pixel coordinates come from %s" % unfold(fl, kw.get("pixel_coords", NONE)))
                for d in ("width", "height"):
                    v = kw.get(d, NONE)
                    ok = v.op == "item" and v.args[1] is const(d) and v.args[0].op == "item" and v.args[0].args[0] is exifs and token(v.args[0].args[1]) == 5
                    rep.expect(ok, R, "observation." + d, x.where, "%s used for normalisation is %s" % (d, unfold(fl, v)))

    def listed(a):
        if a.op == "cmp" and a.args[0] == "in" and a.args[2] is exifs:
            return True
        return None
    ok, why = cover([e.guards for e in adds], listed)
    rep.expect(ok, R, "observation:kept", adds[0].where if adds else W, "a line of a known image is dropped (%s)" % [unfold(fl, w) for w in why])
    el = fl.elements(out)
    rep.expect(el is not None and {v for v, _, _ in el} >= new, R, "returned", W, "the points read are not returned: %s" % unfold(fl, out))
