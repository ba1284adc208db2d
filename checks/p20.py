from checks.util import argmap, atoms, call_args, cond_leaves, implied, items, lookup, params, run, strip
from sa import terms as tm
from sa.match import core, leaves, unfold
from sa.terms import const, cval, is_const, mk, sym, tnot

TECHNIQUE = "value-flow analysis of the observations added to tracks (each field traced to the feature it is taken from) and of the conditions that guard them"
EXPLANATION = (
    "Every pymap.Observation built by the tracking module is traced field by field to features[image][feature], for the very image and feature "
    "it is added under; the condition guarding the additions must compare the number of members with min_length and exclude repeated images; "
    "the per-image tables handed from load_features to create_tracks_manager, and the pairwise tables built from tracks, keep their columns."
)
T = "opensfm.tracking."
OBS = ["x", "y", "s", "r", "g", "b", "feature", "segmentation", "instance"]
FIELDS = {"x": ("features", 0), "y": ("features", 1), "s": ("features", 2), "r": ("colors", 0), "g": ("colors", 1), "b": ("colors", 2),
          "segmentation": ("segmentations", None), "instance": ("instances", None)}
SOURCE = {"features": "points", "colors": "colors", "segmentations": "segmentation", "instances": "instances", "depths": "depths"}


def check(prog, rep):
    rep.rule("field", "each field of an observation is that of the feature the observation is about")
    rep.rule("unique", "only groups with at least min_length members and no repeated image become tracks")
    rep.rule("group", "features are grouped by the matches that join them, one track id per group")
    rep.rule("table", "the tables of features, colors, segmentations, instances and depths hold each image's own data")
    rep.rule("common", "common tracks pair the observations of the two images in their order")
    rep.part(observations, prog, rep)
    rep.part(tables, prog, rep)
    rep.part(unionfind, prog, rep)
    rep.part(common, prog, rep)
    rep.minimum("field", 8)
    rep.minimum("table", 4)


def observations(prog, rep):
    q = T + "create_tracks_manager"
    fl, r, A = run(prog, q, {"opensfm.tracking"}, {"opensfm.unionfind.UnionFind"})
    obs = {}
    for e in fl.effects:
        if e.kind in ("call", "new") and e.name == "opensfm.pymap.Observation":
            obs[e.result] = e
    added = [e for e in fl.effects if e.kind in ("mcall", "call") and (e.name or "").split(".")[-1] == "add_observation"]
    rep.count("observations", len(added))
    for e in added:
        a = argmap(["shot_id", "track_id", "observation"], e)
        im, tr, ob = a.get("shot_id"), a.get("track_id"), a.get("observation")
        if ob is None:
            continue
        for leaf in leaves(ob):
            c = construction(fl, leaf, obs)
            if c is not None:
                one(rep, fl, e, im, c, A)
                depth(rep, fl, e, leaf, im, c, A)
        grouping(rep, fl, e, im, tr, A)
        filters(prog, rep, fl, e, A)


def construction(fl, t, obs):
    """Arguments by name of the Observation call behind t."""
    if t.op == "obj":
        h = fl.h(t)
        if h is None:
            return None
        out = dict(h.kwargs) if isinstance(h.kwargs, dict) else dict(h.kwargs or ())
        for n, v in zip(OBS, h.args or ()):
            out.setdefault(n, v)
        return out
    if t.op == "call":
        return call_args(t, OBS)
    return None


def norm(fl, t):
    return strip(core(fl, strip(t)))


def one(rep, fl, e, im, a, A):
    F = strip(a.get("feature")) if a.get("feature") is not None else None
    if F is None:
        return
    # the feature and the image come from the same member
    ok = F.op == "item" and im.op == "item" and F.args[0] is im.args[0] and F.args[1] is const(1) and im.args[1] is const(0)
    if im.op == "item" and F.op == "item":
        rep.expect(ok, "field", "create_tracks_manager:feature", e.where, "the observation of image %s names feature %s" % (unfold(fl, im), unfold(fl, F)))
    for n, (src, col) in FIELDS.items():
        v = a.get(n)
        if v is None:
            rep.expect(n in ("segmentation", "instance") and False, "field", "create_tracks_manager:" + n, e.where, "observations are built without " + n)
            continue
        for leaf, gs in cond_leaves(v):
            leaf = norm(fl, leaf)
            if n in ("segmentation", "instance") and not tm.contains(leaf, lambda y: y.op == "sym" and y.args[0] == "p:" + src):
                ok = no_value(leaf) and any((not p) and g.op == "cmp" and g.args[0] == "in" and g.args[2] is A.get(src) for g, p in atoms(gs))
                rep.expect(ok, "field", "create_tracks_manager:%s-missing" % n, e.where, "%s is %s where the image has %s" % (n, unfold(fl, leaf), src))
                continue
            base, ks = items(leaf)
            want = [im, F] + ([const(col)] if col is not None else [])
            ok = base is A.get(src, sym("p:" + src)) and [strip(k) for k in ks] == want
            rep.expect(ok, "field", "create_tracks_manager:" + n, e.where, "%s is %s" % (n, unfold(fl, leaf)))


def no_value(t):
    return t.op == "attr" and t.args[1] == "NO_SEMANTIC_VALUE" or (t.op == "ext" and t.args[0].endswith("NO_SEMANTIC_VALUE"))


def depth(rep, fl, e, ob, im, a, A):
    F = strip(a.get("feature")) if a.get("feature") is not None else None
    for s in fl.effects:
        if s.kind != "setattr" or s.name != "depth_prior" or s.recv is not ob:
            continue
        for leaf in leaves(s.args[0]):
            d = None
            if leaf.op == "call" and (tm.callee_name(leaf) or "").endswith(".Depth"):
                d = call_args(leaf, ["value", "is_radial", "std_deviation"])
            elif leaf.op == "obj" and fl.h(leaf):
                d = dict(fl.h(leaf).kwargs or ())
                for n, v in zip(["value", "is_radial", "std_deviation"], fl.h(leaf).args or ()):
                    d.setdefault(n, v)
            if not d:
                continue
            v = norm(fl, d.get("value")) if d.get("value") is not None else None
            want = mk("item", mk("item", A["depths"], im), F)
            rep.expect(v is want, "field", "create_tracks_manager:depth", s.where, "the depth prior is %s" % (unfold(fl, v) if v is not None else None))
            if d.get("is_radial") is not None:
                rep.expect(strip(d["is_radial"]) is A.get("depth_is_radial"), "field", "create_tracks_manager:depth-radial", s.where, "is_radial is %s" % unfold(fl, d["is_radial"]))
            sd = d.get("std_deviation")
            if sd is not None:
                rep.expect(tm.contains(fl.deep(sd), lambda y: y is A.get("depth_std_deviation")), "field", "create_tracks_manager:depth-std", s.where, "the deviation is %s" % unfold(fl, sd))
            fin = {tm.callee_name(g): p for g, p in atoms(s.guards) if g.op == "call"}
            ok = fin.get("numpy.isfinite") is True or (fin.get("numpy.isnan") is False and fin.get("numpy.isinf") is False) or not fin
            rep.expect(ok, "field", "create_tracks_manager:depth-finite", s.where, "a depth prior is set under %s" % fin)


def grouping(rep, fl, e, im, tr, A):
    """The track id differs per group and is the same within it."""
    t = strip(tr)
    loops = [L for L in e.loops]
    inner = im.args[0] if im.op == "item" else im
    of = inner.args[0] if inner.op == "elem" else None
    idx, todo, seen = [], [fl.deep(t)], set()
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        idx.append(x)
        if x.op == "idx":  # a position in a list says nothing of its members
            if of is not None and (x.args[0] is of or x.args[0] is fl.deep(of)):
                idx.append(inner)
            continue
        todo += [y for y in x.args if hasattr(y, "op")]
    bad = any(x is y for x in idx if x.op in ("item", "elem") for y in (inner, fl.deep(inner)))
    rep.expect(not bad, "group", "create_tracks_manager:track-id", e.where, "the track id %s is that of a member, not of the group" % unfold(fl, tr))
    if t.op == "const":
        rep.expect(False, "group", "create_tracks_manager:track-id", e.where, "every group gets the track id %s" % unfold(fl, tr))


def filters(prog, rep, fl, e, A):
    ml = A.get("min_length")
    gs = list(e.guards)
    lens, unis = [], []
    for g, p in gs:
        for c, _ in flat_cmps(g, True):
            if c.op == "cmp" and c.args[0] in ("<", "<=", ">", ">=") and ml in c.args[1:]:
                lens.append(c)
            if is_unique_test(fl, c):
                unis.append(c)
    rep.expect(bool(lens), "unique", "create_tracks_manager:length", e.where, "tracks are not compared with min_length")
    rep.expect(bool(unis), "unique", "create_tracks_manager:images", e.where, "tracks that see an image twice are not excluded")
    for c in lens:
        # required: not (n < min_length) and nothing stricter
        op = c.args[0] if c.args[2] is ml else {"<": ">", "<=": ">=", ">": "<", ">=": "<="}[c.args[0]]
        good = {"<": False, ">=": True}.get(op)
        if good is None:
            rep.expect(False, "unique", "create_tracks_manager:length", e.where, "groups with exactly min_length members are treated like the wrong ones (%s)" % op)
        else:
            rep.expect(implied(gs, c if good else tnot(c)), "unique", "create_tracks_manager:length", e.where, "shorter groups than min_length become tracks")
    for c in unis:
        if c.args[0] in ("==", "!="):
            rep.expect(implied(gs, c if c.args[0] == "==" else tnot(c)), "unique", "create_tracks_manager:images", e.where, "groups with repeated images become tracks")


def flat_cmps(g, p):
    """Atoms of a guard with their polarity; inside a not-implied disjunction the polarity is that of the atom in the formula."""
    if g.op == "not":
        return flat_cmps(g.args[0], not p)
    if g.op in ("and", "or"):
        return [x for a in g.args for x in flat_cmps(a, p)]
    return [(g, p)]


def images_only(fl, t):
    """Does the collection hold the image (item 0) of the members?"""
    t = strip(t)
    if t.op == "call" and tm.callee_name(t) in ("set", "frozenset", "sorted"):
        return images_only(fl, tm.call_parts(t)[1][0])
    h = fl.h(t) if t.op == "obj" else None
    if h is None:
        return False
    vs = []
    for en in h.log:
        if h.kind == "dict":
            vs.append(en.key)
        elif en.kind in ("add", "set"):
            vs.append(en.val)
        elif en.kind == "extend":
            if not images_only(fl, en.val):
                return False
            vs.append(None)
    return bool(vs) and all(v is None or image_of(fl, v) for v in vs)


def image_of(fl, v):
    v = strip(fl.deep(v)) if v is not None else None
    return v is not None and v.op == "item" and v.args[1] is const(0)


def distinct(fl, t):
    t = strip(t)
    if t.op == "call":
        return tm.callee_name(t) in ("set", "frozenset", "collections.Counter", "numpy.unique")
    h = fl.h(t) if t.op == "obj" else None
    return h is not None and h.kind in ("set", "dict")


def is_unique_test(fl, c):
    """A comparison that tells groups with a repeated image from the others."""
    if c.op != "cmp":
        return False
    if c.args[0] in ("==", "!=", "<", ">", "<=", ">="):
        ls = [tm.call_parts(x)[1][0] for x in c.args[1:] if x.op == "call" and tm.callee_name(x) == "len"]
        ds = [x for x in ls if distinct(fl, x)]
        return len(ls) == 2 and len(ds) == 1 and images_only(fl, ds[0])
    return c.args[0] in ("in", "not in") and image_of(fl, c.args[1]) and images_only(fl, c.args[2])


def tables(prog, rep):
    q = T + "load_features"
    fl, r, A = run(prog, q, {"opensfm.tracking"})
    order = []
    ims = sym("p:images")
    for leaf in leaves(r):
        parts = list(leaf.args) if leaf.op == "tup" else []
        for i, x in enumerate(parts):
            h = fl.h(x) if x.op == "obj" else None
            names = set()
            for en in (h.log if h else []):
                if en.kind != "set":
                    continue
                v = fl.deep(en.val)
                for y in tm.walk(v):
                    if y.op == "attr" and y.args[1] in SOURCE.values():
                        names.add(y.args[1])
                        break
                loads = [y for y in tm.walk(v) if y.op == "mcall" and y.args[1] == "load_features"]
                for y in loads:
                    args = list(tm.call_parts(y)[1]) + list(tm.call_parts(y)[2].values())
                    rep.expect(fl.deep(en.key) in args, "table", "load_features:%d" % i, q, "the data of %s is stored under %s" % (unfold(fl, args[0]), unfold(fl, en.key)))
                cut = [y for y in tm.walk(v) if y.op in ("slice_of",)]
                rep.expect(not cut, "table", "load_features:%d:rows" % i, q, "only some rows are kept: %s" % unfold(fl, v))
            order.append(names)
    # the caller passes each table as the parameter it is for
    q2 = "opensfm.actions.create_tracks.run_dataset"
    node = lookup(prog, T + "create_tracks_manager")
    names = params(node)
    fl2, _, _ = run(prog, q2, {"opensfm.actions.create_tracks"})
    for e in fl2.effects:
        if e.kind == "call" and e.name == T + "create_tracks_manager":
            a = argmap(names, e)
            for p, attr in SOURCE.items():
                v = a.get(p)
                if v is None:
                    continue
                v = fl2.deep(v)
                if v.op == "item" and v.args[0].op == "call" and tm.callee_name(v.args[0]) == q and is_const(v.args[1]):
                    i = cval(v.args[1])
                    got = order[i] if i < len(order) else set()
                    rep.expect(attr in got, "table", "run_dataset:" + p, e.where, "%s are the %s of the images" % (p, sorted(got)))
            keys = {"min_length": "min_track_length", "depth_is_radial": "depth_is_radial", "depth_std_deviation": "depth_std_deviation_m_default"}
            for p, k in keys.items():
                v = a.get(p)
                if v is None:
                    rep.expect(p != "min_length", "table", "run_dataset:" + p, e.where, p + " is not given")
                    continue
                v = fl2.deep(v)
                ok = v.op == "item" and is_const(v.args[1]) and cval(v.args[1]) == k
                rep.expect(ok or v.op != "item", "table", "run_dataset:" + p, e.where, "%s is %s" % (p, unfold(fl2, v)))


def unionfind(prog, rep):
    C = "opensfm.unionfind.UnionFind"
    q = C + ".union"
    if lookup(prog, q) is None:
        return
    S = sym("self")
    fl, r, A = run(prog, q, {"opensfm.unionfind"}, {C + ".__getitem__"}, self_cls=C)
    n = 0
    for e in fl.effects:
        if e.kind == "setitem" and e.recv is not None and e.recv.op == "attr" and e.recv.args[1] == "parents":
            k, v = fl.deep(e.args[0]), fl.deep(e.args[1])
            n += 1
            is_root = lambda t: tm.contains(t, lambda y: (y.op == "item" and y.args[0] is S) or (y.op == "call" and tm.callee_name(y) == C + ".__getitem__"))
            rep.expect(is_root(k), "group", "UnionFind.union:merged", e.where, "the member %s, not the representative of its set, is linked" % unfold(fl, k))
            rep.expect(is_root(v), "group", "UnionFind.union:into", e.where, "sets are linked to %s, which is no representative" % unfold(fl, v))
    rep.count("unions", n)


def common(prog, rep):
    q = T + "common_tracks"
    if lookup(prog, q) is not None:
        fl, r, A = run(prog, q, {"opensfm.tracking"})
        i1, i2 = A["im1"], A["im2"]
        for leaf in leaves(r):
            parts = list(leaf.args) if leaf.op == "tup" else []
            cols = []
            for x in parts:
                x = strip(x)
                el = fl.elements(x) if x.op == "obj" else None
                cols.append(el)
            if len(cols) != 3 or any(c is None or len(c) != 1 for c in cols):
                continue
            tr = fl.deep(cols[0][0][0])
            for j, im in ((1, i1), (2, i2)):
                v = fl.deep(cols[j][0][0])
                b, ks = items(v.args[0]) if v.op == "attr" else (v, [])
                ok = v.op == "attr" and v.args[1] == "point" and b.op == "mcall" and b.args[1] == "get_shot_observations" and tm.call_parts(b)[1] == (im,) and ks == [tr]
                if b.op == "mcall" and v.op == "attr":
                    ok = ok or (list(tm.call_parts(b)[1])[:1] == [im] and ks == [tr] and v.args[1] == "point")
                rep.expect(ok, "common", "common_tracks:%d" % j, q, "column %d holds %s" % (j, unfold(fl, v)))
            gs = [tuple(fl.deep(g[0]) for g in c[0][1]) for c in cols]
            rep.expect(gs[0] == gs[1] == gs[2], "common", "common_tracks:rows", q, "the three columns are filled under different conditions")
    q = T + "all_common_tracks"
    if lookup(prog, q) is not None:
        fl, r, A = run(prog, q, {"opensfm.tracking"})
        for e in fl.effects:
            if e.kind != "setitem":
                continue
            k, v = fl.deep(e.args[0]), e.args[1]
            ims = [items(x)[1][-1] if x.op == "item" else None for x in (k.args if k.op == "tup" else [])]
            parts = [strip(x) for x in v.args] if v.op == "tup" else [strip(v)]
            for j, x in enumerate(parts):
                el = fl.elements(x) if x.op == "obj" else None
                if not el or len(el) != 1:
                    continue
                w = fl.deep(el[0][0])
                if w.op == "attr":
                    ok = w.args[1] == "point"
                    w = w.args[0]
                else:
                    ok = j == 0
                if w.op == "item" and is_const(w.args[1]):
                    ok = ok and cval(w.args[1]) == j
                    src = w.args[0]
                    calls = [y for y in tm.walk(src) if y.op == "mcall" and y.args[1] == "get_all_common_observations"]
                    for c in calls:
                        ok = ok and tuple(k.args) == tuple(tm.call_parts(c)[1])
                    rep.expect(ok, "common", "all_common_tracks:%d" % j, e.where, "column %d holds %s" % (j, unfold(fl, el[0][0])))
            for g, p in atoms(e.guards):
                d = fl.deep(g)
                if d.op == "cmp" and A["min_common"] in d.args:
                    op = d.args[0] if d.args[1] is A["min_common"] else {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(d.args[0], d.args[0])
                    if not p:
                        op = {"<": ">=", "<=": ">", ">": "<=", ">=": "<"}.get(op, op)
                    rep.expect(op == "<=", "common", "all_common_tracks:min", e.where, "pairs are kept when min_common %s their number of common tracks" % op)
