"""P28: dense reconstruction gives each step the views, poses and options of its own shot, and writes what it says."""

import itertools
import math

import numpy as np

from checks.p27 import call_of
from checks.p29 import unfmt, words
from checks.util import argmap, config_keys, effects, run, strip
from sa import terms as tm
from sa.fold import Fold
from sa.match import seq_items, unfold
from sa.terms import FALSE, TRUE, attr, cond_of, const, cval, is_const, item, mk, sym
from sa.values import decided, value

TECHNIQUE = "value-flow analysis of the dense stage: what each worker is given, what it hands to the estimators and what it stores are traced to the shot, view and option they belong to; sizes, limits and geometry are evaluated over grids"
EXPLANATION = (
    "compute_depthmaps is followed to the argument tuples of its three parallel stages, and each worker is followed with the tuple it is really given. Views handed to an estimator are traced to one shot: its matrices, and images "
    "whose sizes agree for a grid of sizes. The pixels that are kept, the angle limits between neighbours, the depth range and the points of the PLY file are evaluated from the expressions in the source. Nothing of the repository is run."
)
D = "opensfm.dense."
SHOT = sym("the shot")
NEAR = sym("the neighbours")
DATA = sym("the dataset")
LOW, HIGH = sym("the nearest depth"), sym("the farthest depth")
NAMES = ("compute", "clean", "prune")


def check(prog, rep):
    rep.rule("stages", "depth maps are computed, then cleaned, then pruned, then merged, for every shot with neighbours; an error of one shot is logged and stops no other")
    rep.rule("views", "each view has the calibration at its size, the pose, and images of one size, all of one shot; the reference view comes first")
    rep.rule("options", "the estimators are given the configured options and the depth range of the shot before they start")
    rep.rule("stored", "what is stored is what was estimated, in its place and under its shot; what is there already is not made again")
    rep.rule("kept", "a raw depth is kept where it is below the largest depth and its score above the least, and is zero elsewhere")
    rep.rule("neighbours", "neighbours are reconstructed shots that see more than 20 points in common at 3 to 30 degrees, those with most first")
    rep.rule("range", "the depth range is that of the points the shot sees, in its own frame, unless it is configured")
    rep.rule("merged", "the merged cloud has points, normals, colours and labels of all pruned depth maps in the same order")
    rep.rule("ply", "PLY files have the rows and columns their header says, and the points of a depth map are where the shot saw them")
    for part in (stages, workers, masks, neighbours, angle, depths, pairs, merged, depth_ply, cloud_ply, reconstruction_ply):
        rep.part(part, prog, rep)
    for n, k in (("stages", 10), ("views", 20), ("options", 5), ("stored", 10), ("kept", 4), ("neighbours", 10), ("range", 4), ("merged", 4), ("ply", 10)):
        rep.minimum(n, k)


# ------------------------------------------------------------------ the stages
def stages(prog, rep):
    opaque = [D + x for x in ("find_neighboring_images", "compute_depth_range", "common_tracks_double_dict", "merge_depthmaps") + tuple(n + "_depthmap" for n in NAMES)]
    fl, r, A = run(prog, D + "compute_depthmaps", {"opensfm.dense"}, opaque)
    where = "compute_depthmaps"
    got, rec = staged(fl, A)
    names = [x[0] for x in got]
    order = [n for n in names if n in NAMES]
    rep.expect(order == list(NAMES), "stages", "order", where, "the stages run are %s" % names)
    merge = effects(fl, ("call",), "merge_depthmaps")
    save = effects(fl, ("mcall",), "save_point_cloud")
    rep.expect(len(merge) == 1 and bool(got) and merge[0].seq > max(e.seq for n, e, es in got), "stages", "merge-last", where, "depth maps are merged before all are pruned")
    if rep.expect(len(save) == 1 and bool(merge), "merged", "saved", where, "the merged cloud is saved %d times" % len(save)):
        a = save[0].args
        ok = len(a) == 1 and a[0].op == "star" and a[0].args[0] is merge[0].result or [x for x in a] == [item(merge[0].result, const(k)) for k in range(4)]
        kw = dict(save[0].kwargs)
        if not a and all(k in kw for k in ("points", "normals", "colors", "labels")):
            ok = [kw[k] for k in ("points", "normals", "colors", "labels")] == [item(merge[0].result, const(k)) for k in range(4)]
        rep.expect(ok, "merged", "saved:what", where, "what is saved is %s" % [unfold(fl, x)[:60] for x in a])
        f = kw.get("filename")
        rep.expect(f is None or (is_const(f) and cval(f) == "merged.ply"), "merged", "saved:name", where, "the merged cloud is saved as %s" % (f and unfold(fl, f)))
        mk_ = argmap(["data", "reconstruction"], merge[0])
        rep.expect(mk_.get("data") is A["data"] and mk_.get("reconstruction") is rec, "merged", "of", where, "what is merged is %s" % {k: unfold(fl, v)[:40] for k, v in mk_.items()})
    fn = effects(fl, ("call",), "find_neighboring_images")
    if rep.expect(len(fn) == 1, "neighbours", "found", where, "neighbours are looked for at %d places" % len(fn)):
        a = argmap(["shot", "common_tracks", "reconstruction", "num_neighbors"], fn[0])
        s = a["shot"]
        rep.expect(of_shots(s, rec), "neighbours", "of", where, "neighbours are looked for of %s" % unfold(fl, s)[:60])
        c = strip(a["common_tracks"])
        rep.expect(c.op == "call" and (tm.callee_name(c) or "").endswith("common_tracks_double_dict") and A["graph"] in list(dict(tm.call_parts(c)[2]).values()) + list(tm.call_parts(c)[1]), "neighbours", "tracks", where, "common tracks are %s" % unfold(fl, c)[:60])
        rep.expect(a["reconstruction"] is rec and config_keys(fl, a["num_neighbors"]) == {"depthmap_num_neighbors"}, "neighbours", "number", where, "as many neighbours are taken as %s" % unfold(fl, a["num_neighbors"])[:60])
    for e in effects(fl, ("call",), "compute_depth_range"):
        a = argmap(["tracks_manager", "reconstruction", "shot", "config"], e)
        ok = a["tracks_manager"] is A["graph"] and a["reconstruction"] is rec and of_shots(a["shot"], rec) and a["config"].op == "attr" and a["config"].args == (A["data"], "config")
        rep.expect(ok, "range", "of", where, "the depth range is made of %s" % {k: unfold(fl, v)[:40] for k, v in a.items()})
    for n, e, es in got:
        if n not in NAMES:
            continue
        if not rep.expect(len(es) == 1 and es[0][2], "stages", "%s:every" % n, where, "the tasks of the stage are %d groups" % len(es)):
            continue
        v, gs, ls = es[0]
        rep.expect(len(ls) == 1 and roles(fl, v, A, rec) is not None, "stages", "%s:own" % n, where, "a task is %s" % unfold(fl, v)[:120])
        near = [x for x in tm.walk(fl.deep(v)) if x.op == "call" and (tm.callee_name(x) or "").endswith("find_neighboring_images")]
        for k in (0, 1, 2, 5):
            def d(c, k=k):
                if c.op == "cmp" and c.args[0] in ("<", "<=", ">", ">=", "==", "!="):
                    a, b = (k if x.op == "call" and tm.callee_name(x) == "len" else cval(x) if is_const(x) else None for x in c.args[1:3])
                    if a is not None and b is not None:
                        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[c.args[0]]
                return None

            t = Fold(decide=d, fl=fl).truth(cond_of(list(gs)))
            rep.expect(t is (TRUE if k > 1 else FALSE), "stages", "%s:with-neighbours:%d" % (n, k), where, "a shot with %d views %s" % (k, "has no depth map" if k > 1 else "has one"))
        rep.expect(bool(near), "stages", "%s:neighbours" % n, where, "the task has no neighbours")


def of_shots(s, rec):
    return s.op == "item" and s.args[0] is attr(rec, "shots") and s.args[1].op == "elem" and s.args[1].args[0] is attr(rec, "shots")


def staged(fl, A):
    """[(stage, call, tasks)] of the parallel stages, and the reconstruction."""
    out = []
    for e in effects(fl, ("call",), "parallel_map"):
        a = argmap(["func", "args", "num_proc"], e)
        f = a["func"]
        n = f.args[0].split(".")[-1] if f.op == "func" else unfold(fl, f)
        short = [k for k in NAMES if n.startswith(k)]
        out.append((short[0] if short else n, e, fl.elements(a["args"])))
    out.sort(key=lambda x: x[1].seq)
    return out, A["reconstruction"]


def roles(fl, v, A, rec):
    """What a worker is given, by what it is."""
    xs = seq_items(fl, v)
    if xs is None:
        return None
    out, shot = [], None
    for x in xs:
        y = fl.deep(x)
        if x is A["data"]:
            out.append(DATA)
        elif of_shots(x, rec):
            out.append(SHOT)
            shot = x
        elif y.op == "call" and (tm.callee_name(y) or "").endswith("find_neighboring_images"):
            out.append(NEAR)
        elif y.op == "item" and y.args[0].op == "call" and (tm.callee_name(y.args[0]) or "").endswith("compute_depth_range") and is_const(y.args[1]):
            out.append((LOW, HIGH)[cval(y.args[1])])
        else:
            return None
    for x in xs:
        for y in tm.walk(fl.deep(x)):
            if of_shots(y, rec) and y is not shot:
                return None
    return out


def workers(prog, rep):
    opaque = [D + x for x in ("find_neighboring_images", "compute_depth_range", "common_tracks_double_dict", "merge_depthmaps") + tuple(n + "_depthmap" for n in NAMES)]
    fl0, r0, A0 = run(prog, D + "compute_depthmaps", {"opensfm.dense"}, opaque)
    got, rec = staged(fl0, A0)
    for n, e, es in got:
        f = argmap(["func", "args", "num_proc"], e)["func"]
        if n not in NAMES or f.op != "func" or len(es) != 1:
            continue
        ro = roles(fl0, es[0][0], A0, rec)
        if ro is None:
            continue
        q = f.args[0]
        from checks.util import lookup, params
        p = params(lookup(prog, q))
        if not rep.expect(len(p) == 1, "stages", "%s:task" % n, q, "the worker takes %s" % p):
            continue
        fl, r, A = run(prog, q, {"opensfm.dense"}, [D + "depthmap_to_ply", D + "scale_down_image_", D + "color_plane_normals"], given={p[0]: tm.tup(*ro)})
        work = [x for x in fl.effects if x.kind in ("mcall", "call", "raise") and not (x.kind == "mcall" and x.name in ("error", "exception", "format")) and not (x.name or "").startswith("logging")]
        hs = {str(x.name) for x in fl.effects if x.kind == "handler"}
        own = [x for x in work if x.kind == "mcall" and (x.name in ("add_view", "save_raw_depthmap", "save_clean_depthmap", "save_pruned_depthmap", "clean", "prune") or (x.name or "").startswith("compute_"))]
        rep.expect(bool(own) and all(x.caught for x in own) and any("Exception" in h or h in ("*", "None", "BaseException") for h in hs), "stages", "%s:caught" % n, q, "an error of one shot stops the others")
        globals()["work_" + n](prog, rep, fl, q)


def first_seq(es):
    return min(e.seq for e in es) if es else None


def skipped(fl, rep, n, q, exists, es):
    """What is there already is not made again; what is not there is."""
    for there in (True, False):
        def d(c):
            return there if c.op == "mcall" and c.args[1] == exists and c.args[0] is DATA and c.args[3] is attr(SHOT, "id") else None

        for e in es:
            t = Fold(decide=d, fl=fl).truth(cond_of([g for g in e.guards]))
            rep.expect((t is FALSE) == there, "stored", "%s:exists:%d:%s" % (n, there, e.name), q, "a depth map that is %sthere is %s" % ("" if there else "not ", "made again" if there else "not made"))


def estimator(fl, name):
    return [e for e in fl.effects if e.kind in ("call", "new") and (e.name or "").split(".")[-1] == name]


def options(fl, rep, n, q, kind, setters, start):
    """Each setter is called once, with its option, before the work starts."""
    objs = estimator(fl, kind)
    if not rep.expect(len(objs) == 1, "options", "%s:estimator" % n, q, "%d of %s are made" % (len(objs), kind)):
        return None
    o = objs[0].result
    for s, keys in setters.items():
        es = [e for e in effects(fl, ("mcall",), s) if e.recv is o]
        if rep.expect(len(es) == 1 and not es[0].loops, "options", "%s:%s" % (n, s), q, "%s is called %d times" % (s, len(es))):
            e = es[0]
            x = fl.deep(strip(e.args[0]))
            ok = x is item(attr(DATA, "config"), const(keys)) if isinstance(keys, str) else list(e.args[: len(keys)]) == list(keys)
            rep.expect(ok, "options", "%s:%s:value" % (n, s), q, "%s is given %s" % (s, [unfold(fl, y)[:60] for y in e.args]))
            rep.expect(start is not None and e.seq < start, "options", "%s:%s:before" % (n, s), q, "%s is called after the work is done" % s)
    return o


def own(fl, rep, n, q, e, s, K, R, t):
    """The pose and calibration of a view are those of its shot; what size the calibration is for."""
    rep.expect(fl.deep(strip(R)) is tm.mcall(attr(s, "pose"), "get_rotation_matrix", []), "views", "%s:R" % n, q, "the rotation of a view is %s" % unfold(fl, R)[:80])
    t = fl.deep(strip(t))
    rep.expect(t is attr(attr(s, "pose"), "translation") or t is tm.mcall(attr(s, "pose"), "get_translation", []), "views", "%s:t" % n, q, "the translation of a view is %s" % unfold(fl, t)[:80])
    K = fl.deep(strip(K))
    ok = K.op == "mcall" and K.args[1] == "get_K_in_pixel_coordinates" and K.args[0] is attr(s, "camera")
    rep.expect(ok, "views", "%s:K" % n, q, "the calibration of a view is %s" % unfold(fl, K)[:80])
    if not ok:
        return None
    kw = dict(K.args[2]) if isinstance(K.args[2], tuple) else {}
    a = list(K.args[3:])
    w = a[0] if a else kw.get("width")
    h = a[1] if len(a) > 1 else kw.get("height")
    return w or attr(attr(s, "camera"), "width"), h or attr(attr(s, "camera"), "height")


def sizes(fl, t, env):
    """Height and width of an image, its leaves being given."""
    t = fl.deep(strip(t))
    if t in env:
        x = env[t]
        return tuple(x.shape[:2]) if hasattr(x, "shape") else tuple(x)
    if t.op == "ite":
        c = decided(fl, env)(t.args[0])
        if c is None:
            raise LookupError(unfold(fl, t.args[0])[:60])
        return sizes(fl, t.args[1] if c else t.args[2], env)
    x = call_of(t, ["src", "dsize", "dst", "fx", "fy", "interpolation"]) if t.op == "call" and tm.callee_name(t) == "cv2.resize" else None
    if x is not None:
        w, h = (value(fl, deepened(fl, y, env), env) for y in seq_items(fl, x["dsize"]))
        return h, w
    if t.op == "call" and tm.callee_name(t) == "cv2.cvtColor":
        return sizes(fl, tm.call_parts(t)[1][0], env)
    if t.op == "call" and (tm.callee_name(t) or "").split(".")[-1] in ("ones", "zeros", "full"):
        h, w = (value(fl, y, env) for y in seq_items(fl, tm.call_parts(t)[1][0]))
        return h, w
    raise LookupError(unfold(fl, t)[:80])


def deepened(fl, t, env):
    """The expression with the shapes of images replaced by numbers."""
    t = fl.deep(t)

    def go(x):
        if x.op == "item" and x.args[0].op == "attr" and x.args[0].args[1] == "shape" and is_const(x.args[1]):
            return const(int(sizes(fl, x.args[0].args[0], env)[cval(x.args[1])]))
        if not x.args:
            return x
        ys = [go(y) if isinstance(y, tm.T) else y for y in x.args]
        return mk(x.op, *ys) if any(a is not b for a, b in zip(ys, x.args)) else x

    return go(t)


def resized(fl, t):
    """The resizings an image goes through, and what it is made of."""
    out = []
    t = fl.deep(strip(t))
    while t.op == "call" and tm.callee_name(t) in ("cv2.resize", "cv2.cvtColor"):
        x = call_of(t, ["src", "dsize", "dst", "fx", "fy", "interpolation"]) if tm.callee_name(t) == "cv2.resize" else None
        if x is not None:
            i = x.get("interpolation")
            out.append(i.args[0] if i is not None and i.op == "ext" else "cv2.INTER_LINEAR" if i is None else unfold(fl, i)[:40])
            t = x["src"]
        else:
            c = tm.call_parts(t)[1]
            out.append(c[1].args[0] if len(c) > 1 and c[1].op == "ext" else "?")
            t = c[0]
        t = fl.deep(strip(t))
    return out, t


def view_loop(fl, rep, n, q, e, listed=NEAR):
    """The shot of a view: one of the neighbours, in their order."""
    if not rep.expect(len(e.loops) == 1, "views", "%s:each" % n, q, "views are added in %d loops" % len(e.loops)):
        return None, None
    L = e.loops[0]
    base = L.args[0] if L.op == "slice_of" else L
    rep.expect(base is listed, "views", "%s:which" % n, q, "the views are those of %s" % unfold(fl, L)[:80])
    return mk("elem", L, 0), L


def work_compute(prog, rep, fl, q):
    done = [e for e in fl.effects if e.kind == "mcall" and (e.name or "").startswith("compute_")]
    save = effects(fl, ("mcall",), "save_raw_depthmap")
    adds = effects(fl, ("mcall",), "add_view")
    o = options(fl, rep, "compute", q, "DepthmapEstimator", {"set_depth_range": (LOW, HIGH), "set_patchmatch_iterations": "depthmap_patchmatch_iterations", "set_patch_size": "depthmap_patch_size", "set_min_patch_sd": "depthmap_min_patch_sd"}, first_seq(done))
    skipped(fl, rep, "raw", q, "raw_depthmap_exists", save + done)
    if not rep.expect(len(adds) == 1 and adds[0].recv is o and bool(done) and adds[0].seq < first_seq(done), "views", "compute:added", q, "views are added at %d places, or after the depths are computed" % len(adds)):
        return
    if not rep.expect(len(save) == 1 and not save[0].loops, "stored", "raw", q, "the raw depth map is stored %d times" % len(save)):
        return
    # views
    e = adds[0]
    a = argmap(["K", "R", "t", "image", "mask"], e)
    s, L = view_loop(fl, rep, "compute", q, e)
    if s is not None:
        n = item(attr(DATA, "config"), const("depthmap_num_matching_views"))
        ok = L.op == "slice_of" and (is_const(L.args[1]) and cval(L.args[1]) in (None, 0)) and is_const(L.args[3] if len(L.args) > 3 else const(None))
        try:
            ok = ok and all(value(fl, fl.deep(L.args[2]), {n: k}) == k + 1 for k in (0, 1, 3, 6))
        except LookupError:
            ok = False
        rep.expect(ok, "views", "compute:number", q, "the views are those of %s" % unfold(fl, L)[:100])
        wh = own(fl, rep, "compute", q, e, s, a["K"], a["R"], a["t"])
        conv, img = resized(fl, a["image"])
        load = tm.mcall(DATA, "load_undistorted_image", [attr(s, "id")])
        rep.expect(img is load, "views", "compute:image", q, "the image of a view is %s" % unfold(fl, img)[:80])
        grey = [x for x in conv if not x.startswith("cv2.INTER")]
        rep.expect(grey == ["cv2.COLOR_RGB2GRAY"], "views", "compute:grey", q, "the image is made grey by %s" % grey)
        mconv, mimg = resized(fl, a["mask"])
        comb = tm.mcall(DATA, "load_undistorted_combined_mask", [attr(s, "id")])
        rep.expect(tm.contains(mimg, lambda y: y is comb), "views", "compute:mask", q, "the mask of a view is %s" % unfold(fl, mimg)[:80])
        rep.expect(all(x == "cv2.INTER_NEAREST" for x in mconv), "views", "compute:mask:nearest", q, "the mask is resized with %s" % mconv)
        res = item(attr(DATA, "config"), const("depthmap_resolution"))
        for (H, W), R, there in itertools.product(((480, 640), (640, 480), (300, 1000), (7, 5)), (640, 320, 100, 5), (True, False)):
            env = {load: np.zeros((H, W)), comb: np.zeros((H, W)) if there else None, res: R, attr(attr(s, "camera"), "width"): W, attr(attr(s, "camera"), "height"): H}
            if W // max(1, min(W, R)) > H:
                continue
            try:
                h, w = sizes(fl, a["image"], env)
                mh, mw = sizes(fl, a["mask"], env)
                kw, kh = (value(fl, deepened(fl, x, env), env) for x in wh) if wh else (None, None)
            except LookupError as x:
                rep.expect(False, "views", "compute:size", q, "the size is not understood: %s" % x)
                break
            ww = min(W, R)
            rep.expect(w == ww and abs(h - ww * H / W) <= 1 and h <= H, "views", "compute:scaled", q, "an image of %dx%d becomes %sx%s with a resolution of %d" % (W, H, w, h, R))
            rep.expect((mh, mw) == (h, w), "views", "compute:mask:size", q, "an image of %sx%s is given a mask of %sx%s" % (w, h, mw, mh))
            rep.expect(wh is None or (kw == w and abs(kh - h) < 1), "views", "compute:K:size", q, "the calibration of an image of %sx%s is for %sx%s" % (w, h, kw, kh))
    # methods and what is stored
    e = save[0]
    a = argmap(["image", "depth", "plane", "score", "nghbr", "nghbrs"], e)
    rep.expect(a["image"] is attr(SHOT, "id"), "stored", "raw:shot", q, "the raw depth map is stored as that of %s" % unfold(fl, a["image"])[:60])
    method = item(attr(DATA, "config"), const("depthmap_method"))
    for m in ("BRUTE_FORCE", "PATCH_MATCH", "PATCH_MATCH_SAMPLE", "ANOTHER"):
        F = Fold(decide=lambda c: cval(c.args[2 if c.args[1] is method else 1]) == m if c.op == "cmp" and c.args[0] == "==" and method in c.args[1:3] and is_const(c.args[2 if c.args[1] is method else 1]) else None, fl=fl)
        live = [x for x in done if F.truth(cond_of(list(x.guards))) is not FALSE]
        if m == "ANOTHER":
            rep.expect(not live and F.truth(cond_of(list(e.guards))) is FALSE, "options", "method:other", q, "an unknown method is run as %s" % [x.name for x in live])
            continue
        if not rep.expect([x.name for x in live] == ["compute_" + m.lower()], "options", "method:%s" % m, q, "the method %s is run as %s" % (m, [x.name for x in live])):
            continue
        res = fl.deep(live[0].result)
        for k, name in ((1, "plane"), (2, "score"), (3, "nghbr")):
            x = fl.deep(strip(F(a[name])))
            rep.expect(x is item(res, const(k)), "stored", "raw:%s" % name, q, "the %s stored is %s" % (name, unfold(fl, x)[:80]))
        dep = fl.deep(F(a["depth"]))
        low = item(attr(DATA, "config"), const("depthmap_min_correlation_score"))
        for d_, s_ in itertools.product((0.0, 1.5, 2.5, 4.0, 7.0), (-1.0, 0.05, 0.3, 0.9)):
            env = {item(res, const(0)): np.array([[d_]]), item(res, const(2)): np.array([[s_]]), low: 0.1, HIGH: 3.0, LOW: 1.0}
            try:
                v = float(np.asarray(value(fl, dep, env)).ravel()[0])
            except (LookupError, IndexError) as x:
                rep.expect(False, "kept", "depth", q, "the depth stored is not understood: %s" % x)
                break
            want = d_ if d_ < 3.0 and s_ > 0.1 else 0.0
            rep.expect(v == want, "kept", "depth", q, "a depth of %s with a score of %s is stored as %s (limits 3 and 0.1)" % (d_, s_, v))
    ids = fl.elements(a["nghbrs"]) if a["nghbrs"].op == "obj" else []
    ok = len(ids) == 1 and len(ids[0][2]) == 1 and not [g for g in ids[0][1] if g not in e.guards]
    if ok:
        v, g, ls = ids[0]
        L = ls[0]
        ok = v is attr(mk("elem", L, 0), "id") and L.op == "slice_of" and L.args[0] is NEAR and is_const(L.args[1]) and cval(L.args[1]) == 1 and is_const(L.args[2]) and cval(L.args[2]) is None
    rep.expect(ok, "stored", "raw:nghbrs", q, "the neighbours stored are %s" % unfold(fl, a["nghbrs"])[:80])


def stage_views(fl, rep, n, q, o, start, exists, load, names):
    """The views of the cleaner and the pruner; the depth each has."""
    adds = effects(fl, ("mcall",), "add_view")
    if not rep.expect(len(adds) == 1 and adds[0].recv is o and start is not None and adds[0].seq < start, "views", "%s:added" % n, q, "views are added at %d places, or after the work is done" % len(adds)):
        return
    e = adds[0]
    a = argmap(names, e)
    s, L = view_loop(fl, rep, n, q, e)
    if s is None:
        return
    rep.expect(L is NEAR, "views", "%s:all" % n, q, "the views are those of %s" % unfold(fl, L)[:80])
    for there in (True, False):
        def d(c):
            return there if c.op == "mcall" and c.args[1] == exists and c.args[0] is DATA and c.args[3] is attr(s, "id") else None

        t = Fold(decide=d, fl=fl).truth(cond_of([g for g in e.guards if tm.contains(g[0], lambda y: y is s)]))
        rep.expect(t is (TRUE if there else FALSE), "views", "%s:exists:%d" % (n, there), q, "a neighbour %s depth map is %s" % ("with a" if there else "without", "left out" if there else "used"))
    dm = tm.mcall(DATA, load, [attr(s, "id")])
    depth = item(dm, const(0))
    rep.expect(fl.deep(strip(a["depth"])) is depth, "views", "%s:depth" % n, q, "the depth of a view is %s" % unfold(fl, a["depth"])[:80])
    wh = own(fl, rep, n, q, e, s, a["K"], a["R"], a["t"])
    if "plane" in a:
        rep.expect(fl.deep(strip(a["plane"])) is item(dm, const(1)), "views", "%s:plane" % n, q, "the planes of a view are %s" % unfold(fl, a["plane"])[:80])
    img = tm.mcall(DATA, "load_undistorted_image", [attr(s, "id")])
    seg = tm.mcall(DATA, "load_undistorted_segmentation", [attr(s, "id")])
    if "color" in a:
        c, base = resized(fl, a["color"])
        rep.expect(base is img and all(x.startswith("cv2.INTER") for x in c), "views", "%s:colour" % n, q, "the colours of a view are %s" % unfold(fl, a["color"])[:80])
        c, base = resized(fl, a["label"])
        rep.expect(tm.contains(base, lambda y: y is seg), "views", "%s:labels" % n, q, "the labels of a view are %s" % unfold(fl, base)[:80])
        rep.expect(all(x == "cv2.INTER_NEAREST" for x in c), "views", "%s:labels:nearest" % n, q, "labels are resized with %s" % c)
    for (h, w), (H, W), there in itertools.product(((48, 64), (30, 100), (64, 48)), ((480, 640), (100, 200)), (True, False)):
        ex = tm.mcall(DATA, "undistorted_segmentation_exists", [attr(s, "id")])
        env = {depth: np.zeros((h, w)), img: np.zeros((H, W, 3)), seg: np.zeros((H, W)), ex: there, attr(attr(s, "camera"), "width"): W, attr(attr(s, "camera"), "height"): H}
        try:
            got = tuple(value(fl, deepened(fl, x, env), env) for x in wh) if wh else (w, h)
            rest = {k: sizes(fl, a[k], env) for k in ("color", "label") if k in a}
        except LookupError as x:
            rep.expect(False, "views", "%s:size" % n, q, "the size is not understood: %s" % x)
            break
        rep.expect(got == (w, h), "views", "%s:K:size" % n, q, "the calibration of a depth map of %sx%s is for %sx%s" % ((w, h) + tuple(got)))
        for k, v in rest.items():
            rep.expect(tuple(v) == (h, w), "views", "%s:%s:size" % (n, k), q, "a depth map of %sx%s is given %s of %s" % (w, h, k, (v[1], v[0])))


def reference(fl, rep, n, q, exists, es):
    """Without a depth map of the shot itself its neighbour would be taken for it."""
    loads = [e for e in fl.effects if e.kind == "mcall" and e.name == exists.replace("exists", "").replace("raw_depthmap_", "load_raw_depthmap").replace("clean_depthmap_", "load_clean_depthmap") and e.recv is DATA and e.args and e.args[0] is attr(SHOT, "id")]
    for e in es:
        def d(c):
            return False if c.op == "mcall" and c.args[1] == exists and c.args[0] is DATA and c.args[3] is attr(SHOT, "id") else None

        t = Fold(decide=d, fl=fl).truth(cond_of(list(e.guards)))
        ok = t is FALSE or any(x.seq < e.seq and not x.loops for x in loads)
        rep.expect(ok, "stored", "%s:reference" % n, q, "without a depth map of the shot that of its first neighbour is stored as its own")


def work_clean(prog, rep, fl, q):
    done = effects(fl, ("mcall",), "clean")
    save = effects(fl, ("mcall",), "save_clean_depthmap")
    o = options(fl, rep, "clean", q, "DepthmapCleaner", {"set_same_depth_threshold": "depthmap_same_depth_threshold", "set_min_consistent_views": "depthmap_min_consistent_views"}, first_seq(done))
    done = [e for e in done if e.recv is o]
    skipped(fl, rep, "clean", q, "clean_depthmap_exists", save + done)
    stage_views(fl, rep, "clean", q, o, first_seq(done), "raw_depthmap_exists", "load_raw_depthmap", ["K", "R", "t", "depth"])
    if rep.expect(len(save) == 1 and len(done) == 1, "stored", "clean", q, "the clean depth map is stored %d times" % len(save)):
        a = argmap(["image", "depth", "plane", "score"], save[0])
        raw = tm.mcall(DATA, "load_raw_depthmap", [attr(SHOT, "id")])
        want = {"image": attr(SHOT, "id"), "depth": done[0].result, "plane": item(raw, const(1)), "score": item(raw, const(2))}
        for k, w in want.items():
            rep.expect(fl.deep(strip(a[k])) is fl.deep(w), "stored", "clean:%s" % k, q, "the %s stored is %s" % (k, unfold(fl, a[k])[:80]))
        reference(fl, rep, "clean", q, "raw_depthmap_exists", save)


def work_prune(prog, rep, fl, q):
    done = effects(fl, ("mcall",), "prune")
    save = effects(fl, ("mcall",), "save_pruned_depthmap")
    o = options(fl, rep, "prune", q, "DepthmapPruner", {"set_same_depth_threshold": "depthmap_same_depth_threshold"}, first_seq(done))
    done = [e for e in done if e.recv is o]
    skipped(fl, rep, "prune", q, "pruned_depthmap_exists", save + done)
    stage_views(fl, rep, "prune", q, o, first_seq(done), "clean_depthmap_exists", "load_clean_depthmap", ["K", "R", "t", "depth", "plane", "color", "label"])
    if rep.expect(len(save) == 1 and len(done) == 1, "stored", "pruned", q, "the pruned depth map is stored %d times" % len(save)):
        a = argmap(["image", "points", "normals", "colors", "labels"], save[0])
        rep.expect(a["image"] is attr(SHOT, "id"), "stored", "pruned:shot", q, "the pruned points are stored as those of %s" % unfold(fl, a["image"])[:60])
        for k, w in enumerate(("points", "normals", "colors", "labels")):
            rep.expect(fl.deep(strip(a[w])) is item(fl.deep(done[0].result), const(k)), "stored", "pruned:%s" % w, q, "the %s stored are %s" % (w, unfold(fl, a[w])[:80]))
        reference(fl, rep, "prune", q, "clean_depthmap_exists", save)


def masks(prog, rep):
    """Without a mask every pixel is used; without a segmentation every label is zero."""
    for f, load, empty, fill in (("load_combined_mask", "load_undistorted_combined_mask", "none", 1), ("load_segmentation_labels", "load_undistorted_segmentation", "undistorted_segmentation_exists", 0)):
        fl, r, A = run(prog, D + f, {"opensfm.dense"})
        s, d_ = A["shot"], A["data"]
        got = tm.mcall(d_, load, [attr(s, "id")])
        for there in (True, False):
            env = {attr(attr(s, "camera"), "width"): 7.0, attr(attr(s, "camera"), "height"): 5.0, got: np.ones((5, 7)) if there or empty != "none" else None, tm.mcall(d_, empty, [attr(s, "id")]): there}
            x = fl.deep(Fold(decide=decided(fl, env), fl=fl)(r))
            if there:
                rep.expect(x is got, "views", "%s:there" % f, f, "the array is %s" % unfold(fl, x)[:80])
                continue
            n = (tm.callee_name(x) or "").split(".")[-1] if x.op == "call" else ""
            c = {"ones": 1, "zeros": 0}.get(n)
            if n == "full":
                c = value(fl, tm.call_parts(x)[1][1], {})
            try:
                h, w = sizes(fl, x, env)
            except (LookupError, TypeError):
                h = w = None
            rep.expect(c == fill and (h, w) == (5, 7), "views", "%s:none" % f, f, "the array is %s" % unfold(fl, x)[:80])


# ------------------------------------------------------------------ neighbours
def neighbours(prog, rep):
    fl, r, A = run(prog, D + "find_neighboring_images", {"opensfm.dense"}, [D + "angle_between_points"])
    q = "find_neighboring_images"
    shot, ct, rec, num = (A[k] for k in ("shot", "common_tracks", "reconstruction", "num_neighbors"))
    es = fl.elements(r)
    if not rep.expect(len(es) == 2 and es[0][0] is shot and not es[0][1] and not es[0][2], "neighbours", "first", q, "the views are %s" % [unfold(fl, x[0])[:40] for x in es]):
        return
    v, gs, ls = es[1]
    L = ls[-1] if ls else None
    ok = L is not None and L.op == "slice_of" and is_const(L.args[1]) and cval(L.args[1]) in (None, 0) and L.args[2] is num and (len(L.args) < 4 or is_const(L.args[3]) and cval(L.args[3]) in (None, 1)) and not gs
    if not rep.expect(ok, "neighbours", "number-taken", q, "the neighbours are %s" % unfold(fl, L if L is not None else v)[:80]):
        return
    src = L.args[0]
    sort = None
    if src.op == "call" and tm.callee_name(src) == "sorted":
        c, a, k = tm.call_parts(src)
        src, sort = a[0], dict(k)
    else:
        ss = [e for e in effects(fl, ("mcall",), "sort") if e.recv is src]
        if len(ss) == 1 and not ss[0].loops:
            sort = dict(ss[0].kwargs)
    el = fl.elements(src)
    if not rep.expect(len(el) == 1 and sort is not None, "neighbours", "sorted", q, "the neighbours are not sorted"):
        return
    x, g, l = el[0]
    parts = list(x.args) if x.op == "tup" else []
    pos = [k for k, y in enumerate(parts) if y.op == "item" and y.args[0] is attr(rec, "shots")]
    if not rep.expect(len(parts) == 2 and len(pos) == 1, "neighbours", "pairs", q, "a neighbour is %s" % unfold(fl, x)[:80]):
        return
    who, score = parts[pos[0]], parts[1 - pos[0]]
    rep.expect(fl.deep(v) is fl.deep(item(mk("elem", L, 0), const(pos[0]))) or v is mk("elem", L, 0), "neighbours", "shots", q, "what is taken of a neighbour is %s" % unfold(fl, v)[-60:])
    one = sym("one of them")
    key = fl.deep(fl.invoke(sort["key"], [tm.tup(*[const(10 * (k == 1 - pos[0]) + 1) for k in range(2)])], {}, None)) if "key" in sort else None
    rev = is_const(sort.get("reverse", const(False))) and cval(sort.get("reverse", const(False)))
    down = key is not None and ((is_const(key) and cval(key) == 11 and rev) or (is_const(key) and cval(key) == -11 and not rev))
    rep.expect(down, "neighbours", "most-first", q, "neighbours are sorted by %s%s" % (key and unfold(fl, key)[:40], ", descending" if rev else ""))
    oid = who.args[1]
    mine = l[0] if l else None
    mine_ok = mine is not None and tm.contains(fl.deep(mine), lambda y: y is ct) and tm.contains(fl.deep(mine), lambda y: y is attr(shot, "id")) and oid.op == "elem" and oid.args[0] is mine
    rep.expect(mine_ok and len(l) == 1, "neighbours", "candidates", q, "the candidates are %s" % unfold(fl, oid)[:80])
    # the count
    sc = score
    if sc.op == "call" and tm.callee_name(sc) in ("sum", "len") and len(tm.call_parts(sc)[1]) == 1:
        ones = fl.elements(tm.call_parts(sc)[1][0]) or []
        ok = len(ones) == 1 and bool(ones[0][2])
        if not rep.expect(ok, "neighbours", "score", q, "the score is %s" % unfold(fl, sc)[:80]):
            return
        T = ones[0][2][-1]
        one = const(1) if tm.callee_name(sc) == "len" else ones[0][0]
        inside = [c for c in ones[0][1] if tm.contains(fl.deep(c[0]), lambda y: y is fl.deep(mk("elem", T, 0)))]
        for c in reversed(inside):
            one = tm.mk("ite", cond_of([c]), one, const(0))
        base = 0
    else:
        if not rep.expect(sc.op == "loopout" and is_const(sc.args[1]) and cval(sc.args[1]) == 0, "neighbours", "score", q, "the score is %s" % unfold(fl, sc)[:80]):
            return
        T = sc.args[0]
        one, base = sc.args[2], 100
    rep.expect(tm.contains(fl.deep(T), lambda y: y is fl.deep(oid)), "neighbours", "score:tracks", q, "what is counted is each of %s" % unfold(fl, T)[:80])
    tr = mk("elem", T, 0)
    P = attr(item(attr(rec, "points"), tr), "coordinates")
    ang = effects(fl, ("call",), "angle_between_points")
    if rep.expect(len(ang) == 1, "neighbours", "angle", q, "the angle is measured at %d places" % len(ang)):
        a = argmap(["origin", "p1", "p2"], ang[0])
        C = {fl.deep(tm.mcall(attr(y, "pose"), "get_origin", [])) for y in (shot, who)}
        rep.expect(fl.deep(strip(a["origin"])) is fl.deep(P) and {fl.deep(strip(a["p1"])), fl.deep(strip(a["p2"]))} == C, "neighbours", "angle:at", q, "the angle is that at %s between %s and %s" % tuple(unfold(fl, a[k])[:50] for k in ("origin", "p1", "p2")))
        th = ang[0].result
        phi = [y for y in tm.walk(one) if y.op == "loopphi"]
        for deg, seen in itertools.product((0.5, 2.9, 3.1, 15.0, 29.9, 30.1, 90.0, 179.0), (True, False)):
            env = {th: math.radians(deg)}
            env.update({y: 100 for y in phi})

            def d(c):
                if c.op == "cmp" and c.args[0] in ("in", "not in"):
                    if c.args[1] is tr and c.args[2] is attr(rec, "points"):
                        return seen == (c.args[0] == "in")
                return None

            try:
                n = value(fl, Fold(decide=decided(fl, env, d), fl=fl)(one), env) - base
            except LookupError as x:
                rep.expect(False, "neighbours", "counted", q, "the count is not understood: %s" % x)
                break
            rep.expect(n == (1 if seen and 3 < deg < 30 else 0), "neighbours", "counted", q, "a point %s, seen at %.1f degrees, counts %s" % ("reconstructed" if seen else "not reconstructed", deg, n))
    for n, there in itertools.product((0, 20, 21, 500), (True, False)):
        def d(c):
            if c.op == "cmp" and c.args[0] in ("in", "not in") and c.args[1] is oid and c.args[2] is attr(rec, "shots"):
                return there == (c.args[0] == "in")
            return None

        t = Fold(decide=decided(fl, {sc: n}, d), fl=fl).truth(cond_of(list(g)))
        rep.expect(t is (TRUE if n > 20 and there else FALSE), "neighbours", "enough", q, "a shot %s with %d points in common is %sa neighbour" % ("reconstructed" if there else "not reconstructed", n, "" if t is TRUE else "not "))


def angle(prog, rep):
    fl, r, A = run(prog, D + "angle_between_points", {"opensfm.dense"})
    o, a, b = (A[k] for k in ("origin", "p1", "p2"))
    rng = np.random.RandomState(1)
    for k in range(12):
        v = [rng.uniform(-5, 5, 3) for _ in range(3)]
        u, w = v[1] - v[0], v[2] - v[0]
        want = math.acos(max(-1, min(1, np.dot(u, w) / (np.linalg.norm(u) * np.linalg.norm(w)))))
        try:
            got = float(value(fl, r, {o: v[0], a: v[1], b: v[2]}))
        except LookupError as x:
            rep.expect(False, "neighbours", "angle:value", "angle_between_points", "the angle is not understood: %s" % x)
            break
        rep.expect(abs(got - want) < 1e-9, "neighbours", "angle:value", "angle_between_points", "an angle of %.3f is given as %.3f" % (want, got))


def depths(prog, rep):
    fl, r, A = run(prog, D + "compute_depth_range", {"opensfm.dense"})
    q = "compute_depth_range"
    tmn, rec, shot, cfg = (A[k] for k in ("tracks_manager", "reconstruction", "shot", "config"))
    lists = {t for t in tm.walk(r) if t.op == "obj" and fl.h(t) is not None and fl.h(t).kind == "list"}
    lists = [t for t in lists if fl.elements(t) and all(x[2] for x in fl.elements(t))]
    if not rep.expect(len(lists) == 1, "range", "depths", q, "the depths are %d lists" % len(lists)):
        return
    es = fl.elements(lists[0])
    if rep.expect(len(es) == 1 and len(es[0][2]) == 1, "range", "points", q, "depths are collected at %d places" % len(es)):
        v, g, l = es[0]
        rep.expect(l[0] is tm.mcall(tmn, "get_shot_observations", [attr(shot, "id")]), "range", "points:seen", q, "the points are those of %s" % unfold(fl, l[0])[:80])
        tr = mk("elem", l[0], 0)
        p = attr(item(attr(rec, "points"), tr), "coordinates")
        ok = fl.deep(v) is item(tm.mcall(attr(shot, "pose"), "transform", [p]), const(2))
        rep.expect(ok, "range", "points:depth", q, "the depth of a point is %s" % unfold(fl, v)[:80])
        for there in (True, False):
            def d(c):
                return there == (c.args[0] == "in") if c.op == "cmp" and c.args[0] in ("in", "not in") and c.args[1] is tr and c.args[2] is attr(rec, "points") else None

            t = Fold(decide=d, fl=fl).truth(cond_of(list(g)))
            rep.expect(t is (TRUE if there else FALSE), "range", "points:reconstructed", q, "a point that is %sreconstructed is %sused" % ("" if there else "not ", "" if t is TRUE else "not "))
    k0, k1 = (item(cfg, const("depthmap_%s_depth" % n)) for n in ("min", "max"))
    rng = np.random.RandomState(2)
    for n, a, b in itertools.product((1, 5, 40), (0, 2.5), (0, 90.0)):
        z = rng.uniform(3, 30, n)
        env = {lists[0]: list(z), fl.deep(lists[0]): list(z), k0: a, k1: b}
        try:
            got = [float(x) for x in value(fl, r, env)]
        except LookupError as x:
            rep.expect(False, "range", "value", q, "the range is not understood: %s" % x)
            break
        want = [a or np.percentile(z, 10) * 0.9, b or np.percentile(z, 90) * 1.1]
        rep.expect(np.allclose(got, want), "range", "value", q, "with options %s and %s the range is %s, not %s" % (a, b, got, want))


def pairs(prog, rep):
    fl, r, A = run(prog, D + "common_tracks_double_dict", {"opensfm.dense"})
    q = "common_tracks_double_dict"
    es = effects(fl, ("call",), "all_common_tracks_without_features")
    if not rep.expect(len(es) == 1 and A["tracks_manager"] in list(es[0].args) + [v for k, v in dict(es[0].kwargs).items()], "neighbours", "common", q, "common tracks are those of %d calls" % len(es)):
        return
    P = es[0].result
    k = mk("elem", P, 0)
    sets = [e for e in fl.effects if e.kind == "setitem" and e.loops and e.loops[-1] is P]
    got = set()
    for e in sets:
        rc = e.recv
        a = None
        if rc.op == "item":
            a = fl.deep(rc.args[1])
        elif rc.op == "mcall" and rc.args[1] == "setdefault":
            a = fl.deep(rc.args[3])
        elif rc.op == "obj":
            for h in fl.heap.values():
                for x in getattr(h, "log", []):
                    if x.kind == "set" and x.val is rc:
                        a = fl.deep(x.key)
        b, v = fl.deep(e.args[0]), fl.deep(e.args[1])
        if v is fl.deep(item(P, k)) and not e.guards and a is not None:
            got.add((a, b))
    want = {(item(k, const(0)), item(k, const(1))), (item(k, const(1)), item(k, const(0)))}
    rep.expect(got == want, "neighbours", "both-ways", q, "tracks in common are found under %s" % [(unfold(fl, x)[-30:] if x is not None else None, unfold(fl, y)[-30:]) for x, y in got])


def merged(prog, rep):
    fl, r, A = run(prog, D + "merge_depthmaps", {"opensfm.dense"})
    q = "merge_depthmaps"
    data, rec = A["data"], A["reconstruction"]
    F = Fold(decide=lambda c: True if c.op == "nonempty" or (c.op == "truthy") else None, fl=fl)
    t = F(r)
    xs = seq_items(fl, t)
    if not rep.expect(xs is not None and len(xs) == 4, "merged", "four", q, "the cloud is %s" % unfold(fl, t)[:80]):
        return
    s = mk("elem", attr(rec, "shots"), 0)
    load = tm.mcall(data, "load_pruned_depthmap", [s])
    for k, (x, n) in enumerate(zip(xs, ("points", "normals", "colors", "labels"))):
        x = F(x)
        ok = x.op == "call" and (tm.callee_name(x) or "").split(".")[-1] in ("concatenate", "vstack", "hstack") and (tm.callee_name(x).endswith("concatenate") or tm.callee_name(x).endswith("vstack" if k < 3 else "hstack"))
        if not rep.expect(ok and not [1 for kk, vv in dict(tm.call_parts(x)[2]).items() if kk == "axis" and not (is_const(vv) and cval(vv) == 0)], "merged", "%s:joined" % n, q, "the %s are %s" % (n, unfold(fl, x)[:80])):
            continue
        es = fl.elements(tm.call_parts(x)[1][0])
        if rep.expect(len(es) == 1 and len(es[0][2]) == 1, "merged", "%s:each" % n, q, "the %s are of %d groups" % (n, len(es))):
            v, g, l = es[0]
            rep.expect(fl.deep(v) is item(load, const(k)) and fl.deep(l[0]) in (attr(rec, "shots"), fl.deep(attr(rec, "shots"))) or fl.deep(v) is item(load, const(k)), "merged", "%s:of" % n, q, "the %s are %s" % (n, unfold(fl, v)[:80]))
            for there in (True, False):
                def d(c):
                    if c.op == "mcall" and c.args[1] == "pruned_depthmap_exists" and c.args[0] is data:
                        return there
                    return True if c.op in ("nonempty", "truthy") else None

                tt = Fold(decide=d, fl=fl).truth(cond_of(list(g)))
                rep.expect(tt is (TRUE if there else FALSE), "merged", "%s:exists:%d" % (n, there), q, "a shot %s pruned depth map is %s" % ("with a" if there else "without", "left out" if there else "used"))


# ------------------------------------------------------------------ PLY
def header(fl, rep, f, ws):
    """(columns, count word) of a PLY header."""
    ts = [cval(w.term) if is_const(w.term) else w.term for w in ws]
    if "end_header" not in ts:
        rep.expect(False, "ply", "%s:header" % f, f, "the header has no end")
        return None
    n = ts.index("end_header")
    head, body = ws[:n], ws[n + 1:]
    hs = ts[:n]
    rep.expect(hs[:4] == ["ply", "format", "ascii", 1.0] or hs[:4] == ["ply", "format", "ascii", "1.0"], "ply", "%s:format" % f, f, "the file begins with %s" % hs[:4])
    at = [i for i, x in enumerate(hs) if x == "element"]
    if not rep.expect(len(at) == 1 and hs[at[0] + 1] == "vertex", "ply", "%s:element" % f, f, "the header has %d elements" % len(at)):
        return None
    cols = [(hs[i + 2], tuple(head[i].guards), hs[i + 1]) for i, x in enumerate(hs) if x == "property"]
    return cols, head[at[0] + 2].term, body


def depth_ply(prog, rep):
    fl, r, A = run(prog, D + "depthmap_to_ply", {"opensfm.dense", "opensfm.io"})
    f = "depthmap_to_ply"
    hd = header(fl, rep, f, words(fl, Quiet(), f, r))
    if hd is None:
        return
    cols, count, body = hd
    names = [c[0] for c in cols]
    rep.expect(names == ["x", "y", "z", "red", "green", "blue"], "ply", "depth:columns", f, "the columns are %s" % names)
    if not rep.expect(len(body) == 6 and len({(tuple(w.guards), tuple(w.loops)) for w in body}) == 1, "ply", "depth:row", f, "a row has %d words" % len(body)):
        return
    c = unfmt(count)
    rows = fl.elements(tm.call_parts(c)[1][0]) if c.op == "call" and tm.callee_name(c) == "len" else []
    ok = len(rows) == 1 and tuple(rows[0][2]) == tuple(body[0].loops) and tuple(rows[0][1]) == tuple(body[0].guards)
    rep.expect(ok, "ply", "depth:count", f, "the number of rows is %s" % unfold(fl, c)[:60])
    shot, depth, image = A["shot"], A["depth"], A["image"]
    rng = np.random.RandomState(3)
    H, W = 3, 4
    z = rng.uniform(1, 5, (H, W))
    z[1, 2] = 0
    img = rng.randint(0, 255, (H, W, 3))
    K = np.array([[3.0, 0, 1.9], [0, 3.5, 1.2], [0, 0, 1]])
    q_, _ = np.linalg.qr(rng.uniform(-1, 1, (3, 3)))
    tr = rng.uniform(-2, 2, 3)
    env = {depth: z, image: img, tm.mcall(attr(shot, "pose"), "get_rotation_matrix", []): q_, attr(attr(shot, "pose"), "translation"): tr}
    ks = [t for t in tm.walk(fl.deep(tm.tup(*[w.term for w in body] + list(body[0].loops)))) if t.op == "mcall" and t.args[1] == "get_K_in_pixel_coordinates"]
    for k in ks:
        kw = dict(k.args[2]) if isinstance(k.args[2], tuple) else {}
        a = list(k.args[3:])
        a = [a[0] if a else kw.get("width"), a[1] if len(a) > 1 else kw.get("height")]
        try:
            wh = [value(fl, x, env) for x in a]
        except (LookupError, AttributeError):
            wh = None
        rep.expect(k.args[0] is attr(shot, "camera") and wh == [W, H], "ply", "depth:K", f, "the calibration is %s" % unfold(fl, k)[:80])
        env[k] = K
    got = []
    try:
        Ls = list(dict.fromkeys(body[0].loops))
        arrs = [value(fl, fl.deep(L), env) for L in Ls]
        for i in range(len(arrs[0])):
            e2 = dict(env)
            for L, x in zip(Ls, arrs):
                e2[mk("elem", L, 0)] = x[i]
                e2[mk("elem", fl.deep(L), 0)] = x[i]
                e2[mk("idx", L)] = i
            if all(bool(np.all(value(fl, fl.deep(g), e2))) == p for g, p in body[0].guards):
                got.append([float(np.asarray(value(fl, fl.deep(unfmt(w.term)), e2)).ravel()[0]) for w in body])
    except (LookupError, IndexError, TypeError, ValueError) as x:
        rep.expect(False, "ply", "depth:points", f, "the points are not understood: %s" % str(x)[:100])
        return
    want = []
    for i in range(H):
        for j in range(W):
            if z[i, j]:
                want.append(list(q_.T @ (z[i, j] * np.linalg.inv(K) @ [j, i, 1] - tr)) + list(img[i, j]))
    rep.expect(len(got) == len(want), "ply", "depth:rows", f, "%d points are written of %d pixels with a depth" % (len(got), len(want)))
    rep.expect(len(got) == len(want) and np.allclose(got, want), "ply", "depth:points", f, "the points are not where the shot saw them, or have other colours")


class Quiet:
    def expect(self, *a):
        return bool(a[0])


def cloud_ply(prog, rep):
    fl, r, A = run(prog, "opensfm.io.point_cloud_to_ply", {"opensfm.io"})
    f = "point_cloud_to_ply"
    out = []
    for e in fl.effects:
        if e.kind == "mcall" and e.name in ("write", "writelines") and e.recv is A["fp"]:
            out += words(fl, Quiet(), f, e.args[0], e.guards, e.loops)
    hd = header(fl, rep, f, out)
    if hd is None:
        return
    cols, count, body = hd
    names = [c[0] for c in cols]
    want = ["x", "y", "z", "nx", "ny", "nz", "red", "green", "blue", "class"]
    rep.expect(names == want, "ply", "cloud:columns", f, "the columns are %s" % names)
    arrays = [A[k] for k in ("points", "normals", "colors", "labels")]
    rng = np.random.RandomState(4)
    vals = [rng.uniform(-5, 5, (3, 3)), rng.uniform(-1, 1, (3, 3)), np.array([[255, 0, 17], [0, 255, 254], [128, 1, 255]]), np.array([0, 255, 99])]
    env = dict(zip(arrays, vals))
    if not rep.expect(len(body) == 10, "ply", "cloud:row", f, "a row has %d words" % len(body)):
        return
    try:
        rep.expect(value(fl, fl.deep(unfmt(count)), env) == 3, "ply", "cloud:count", f, "the number of rows is %s" % unfold(fl, count)[:60])
        Ls = list(dict.fromkeys(body[0].loops))
        its = [list(value(fl, fl.deep(L), env)) for L in Ls]
        for i in range(min(3, *map(len, its)) if len(its) > 1 else len(its[0])):
            e2 = dict(env)
            for L, x in zip(Ls, its):
                e2[mk("elem", L, 0)] = x[i]
                e2[mk("idx", L)] = i
            g = [float(value(fl, unfmt(w.term), e2)) for w in body]
            w = list(vals[0][i]) + list(vals[1][i]) + list(vals[2][i]) + [vals[3][i]]
            rep.expect(np.allclose(g, w), "ply", "cloud:values", f, "a row is %s" % [unfold(fl, x.term)[-24:] for x in body])
        rep.expect(all(len(x) == 3 for x in its), "ply", "cloud:rows", f, "rows are written for each of %s" % [unfold(fl, x)[:40] for x in Ls])
    except (LookupError, IndexError, TypeError, ValueError) as x:
        rep.expect(False, "ply", "cloud:values", f, "the values are not understood: %s" % str(x)[:100])
    # and read back
    fl, r, A = run(prog, "opensfm.io.point_cloud_from_ply", {"opensfm.io"})
    f = "point_cloud_from_ply"
    xs = seq_items(fl, r)
    if not rep.expect(xs is not None and len(xs) == 4, "ply", "read:four", f, "what is read is %s" % unfold(fl, r)[:60]):
        return
    rows = [["1", "2", "3", "4", "5", "6", "7", "8", "9", "10"], ["-1.5", "0.25", "1e3", "-1", "0", "0.999", "255", "0", "255", "255"], ["0.0000", "-0.0001", "12.3456", "0.577", "-0.577", "0.577", "0", "255", "254", "0"]]
    for k, (x, cols) in enumerate(zip(xs, (slice(0, 3), slice(3, 6), slice(6, 9), slice(9, 10)))):
        sets = [e for e in fl.effects if e.kind == "setitem" and (e.recv is x or fl.deep(e.recv) is fl.deep(x)) and e.loops]
        own_ = distinct(fl, sets, x)
        if not rep.expect(len(own_) == 1, "ply", "read:%d" % k, f, "the array is filled at %d places" % len(own_)):
            continue
        v = own_[0].args[1]
        used = columns(fl, v)
        rep.expect(used == list(range(10))[cols], "ply", "read:%d:columns" % k, f, "array %d is read from columns %s" % (k, used))
        split = [y for y in tm.walk(fl.deep(v)) if y.op == "mcall" and y.args[1] == "split"]
        for row in rows:
            want = [float(z) for z in row[cols]]
            try:
                got = np.ravel(np.asarray(value(fl, v, {**{y: list(row) for y in split}, mk("elem", own_[0].loops[-1], 0): " ".join(row)}), float))
            except (LookupError, TypeError, ValueError, IndexError) as x_:
                rep.expect(False, "ply", "read:%d:values" % k, f, "what is read is not understood: %s" % str(x_)[:80])
                break
            if not rep.expect(got.shape == (len(want),) and np.allclose(got, want), "ply", "read:%d:values" % k, f, "of %s, %s is read for columns %s" % (" ".join(row), got.tolist(), used)):
                break
        i = own_[0].args[0]
        rep.expect(i.op == "idx" and i.args[0] is own_[0].loops[-1], "ply", "read:%d:row" % k, f, "row %s is filled" % unfold(fl, i)[:40])
        L = fl.deep(own_[0].loops[-1])
        ok = L.op == "slice_of" and is_const(L.args[2]) and cval(L.args[2]) is None and tm.contains(L.args[1], lambda y: is_const(y) and cval(y) == "end_header") and L.args[1].op in ("bin", "add") and any(is_const(y) and cval(y) == 1 for y in L.args[1].args if isinstance(y, tm.T))
        rep.expect(ok, "ply", "read:rows", f, "the rows read are %s" % unfold(fl, L)[:80])


def distinct(fl, sets, x):
    return [e for e in sets if e.recv is x]


def columns(fl, v):
    """The columns of a row a value is read from."""
    v = fl.deep(v)
    out = []
    for y in tm.walk(v):
        if y.op == "slice_of" and y.args[0].op == "mcall" and y.args[0].args[1] == "split":
            a, b = (cval(z) if is_const(z) else None for z in y.args[1:3])
            out += list(range(10))[slice(a, b)]
        elif y.op == "item" and y.args[0].op == "mcall" and y.args[0].args[1] == "split" and is_const(y.args[1]):
            out.append(cval(y.args[1]) % 10)
    return sorted(set(out))


def reconstruction_ply(prog, rep):
    f = "reconstruction_to_ply"
    for nocam, nopts, nviews, mgr in itertools.product((True, False), repeat=4):
        fl, r, A = run(prog, "opensfm.io.reconstruction_to_ply", {"opensfm.io"}, given={"no_cameras": const(nocam), "no_points": const(nopts), "point_num_views": const(nviews), "tracks_manager": const("the manager") if mgr else const(None)})
        rec = A["reconstruction"]
        F = Fold(fl=fl)
        ws = [w for w in words(fl, Quiet(), f, r) if F.truth(cond_of(list(w.guards))) is not FALSE]
        hd = header(fl, rep, f, ws)
        if hd is None:
            return
        cols, count, body = hd
        names = [c[0] for c in cols]
        rep.expect(names == ["x", "y", "z", "red", "green", "blue"] + ["views"] * nviews, "ply", "reconstruction:columns", f, "the columns are %s" % names)
        c = unfmt(count)
        rows = fl.elements(tm.call_parts(c)[1][0]) if c.op == "call" and tm.callee_name(c) == "len" else []
        rows = [x for x in rows if F.truth(cond_of(list(x[1]))) is not FALSE]
        kinds = {tuple(x[2]) for x in rows}
        want = (0 if nopts else 1) + (0 if nocam else 1)
        rep.expect(len(kinds) == want, "ply", "reconstruction:kinds", f, "%d kinds of rows are written without cameras=%s, points=%s" % (len(kinds), nocam, nopts))
        total = 0
        for v, g, ls in rows:
            cells = words(fl, Quiet(), f, v)
            total += len(cells)
            rep.expect(len(cells) == len(names), "ply", "reconstruction:row", f, "a row has %d words, the header %d columns" % (len(cells), len(names)))
            if len(ls) == 1 and fl.deep(ls[0]) is attr(rec, "points"):
                p = item(attr(rec, "points"), mk("elem", attr(rec, "points"), 0))
                for i, w in enumerate(cells[:6]):
                    x = strip(fl.deep(unfmt(w.term)))
                    while x.op == "call" and tm.callee_name(x) in ("int", "round", "float"):
                        x = strip(tm.call_parts(x)[1][0])
                    rep.expect(x is item(attr(p, "coordinates" if i < 3 else "color"), const(i % 3)), "ply", "reconstruction:point", f, "column %s of a point is %s" % (names[i], unfold(fl, x)[:60]))
        rep.expect(total == len(body) and {tuple(w.loops) for w in body} == kinds, "ply", "reconstruction:count", f, "the number of rows is %s" % unfold(fl, c)[:60])
