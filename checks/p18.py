import ast

from sa import terms as tm
from sa.flow import Flow
from sa.match import leaves, unfold
from sa.program import AnalysisBroken
from sa.sides import FIELDS, Sides, WRAP, attr_name, full, same_rows, say
from sa.terms import const, is_const, cval, sym

TECHNIQUE = "index-space type checking (which image's features an index, row, mask, camera or pose belongs to) over the value flow"
EXPLANATION = (
    "Every matching function is analysed with its parameters typed by the image they belong to (all features / unmasked features of image 1 "
    "or 2). Every argument passed, every row selection, every camera, mask and pose used must agree, and each returned match list must "
    "hold (feature of the first image, feature of the second image), in the numbering of the full feature files at the public functions."
)
M = "opensfm.matching."


def D(r, s):
    return ("data", r, s)


P_ab = ("pairs", "?a", "?b", None)
FM = [("p1", D("?a", "?A")), ("p2", D("?b", "?B"))]
# name: (parameters, result).  ?a/?b: row spaces, ?A/?B: the image the content belongs to.
SIGS = {
    M + "match_words": ([("f1", D("?a", "?A")), ("words1", D("?a", "?A")), ("f2", D("?b", "?B")), ("words2", D("?b", "?B")), ("config", None)], P_ab),
    M + "match_words_symmetric": ([("f1", D("?a", "?A")), ("words1", D("?a", "?A")), ("f2", D("?b", "?B")), ("words2", D("?b", "?B")), ("config", None)], P_ab),
    M + "match_flann": ([("index", ("index", "?a")), ("f2", D("?b", "?B")), ("config", None)], P_ab),
    M + "match_flann_symmetric": ([("fi", D("?a", "?A")), ("indexi", ("index", "?a")), ("fj", D("?b", "?B")), ("indexj", ("index", "?b")), ("config", None)], P_ab),
    M + "match_brute_force": ([("f1", D("?a", "?A")), ("f2", D("?b", "?B")), ("config", None), ("maskij", ("mat", "?a", "?b"))], P_ab),
    M + "match_brute_force_symmetric": ([("fi", D("?a", "?A")), ("fj", D("?b", "?B")), ("config", None), ("maskij", ("mat", "?a", "?b"))], P_ab),
    M + "robust_match_fundamental": (FM + [("matches", P_ab), ("config", None)], ("tuple", None, P_ab)),
    M + "robust_match_calibrated": (FM + [("camera1", ("cam", "?A")), ("camera2", ("cam", "?B")), ("matches", P_ab), ("config", None)], P_ab),
    M + "robust_match": (FM + [("camera1", ("cam", "?A")), ("camera2", ("cam", "?B")), ("matches", P_ab), ("config", None)], P_ab),
    M + "_match_robust_impl": ([("im1", ("img", "?A")), ("im2", ("img", "?B"))] + FM + [("matches", P_ab), ("camera1", ("cam", "?A")), ("camera2", ("cam", "?B")), ("data", None), ("overriden_config", None)], P_ab),
    M + "compute_inliers_bearings": ([("b1", D("?m", "?A")), ("b2", D("?m", "?B")), ("R", ("rot", "?A", "?B")), ("t", ("tr", "?A", "?B")), ("threshold", None)], ("mask", "?m")),
    M + "compute_inliers_bearing_epipolar": ([("b1", D("?a", "?A")), ("b2", D("?b", "?B")), ("pose", ("rel", "?A", "?B")), ("threshold", None)], ("mat", "?a", "?b")),
    M + "unfilter_matches": ([("matches", P_ab), ("m1", ("filter", "?a")), ("m2", ("filter", "?b"))], ("pairs", "?af", "?bf", None)),
    M + "_match_descriptors_impl": ([("im1", ("img", "?A")), ("im2", ("img", "?B")), ("camera1", ("cam", "?A")), ("camera2", ("cam", "?B")), ("data", None), ("overriden_config", None)],
                                    ("tuple", D("?A", "?A"), D("?B", "?B"), ("pairs", "?A", "?B", None), None)),
    M + "_match_descriptors_guided_impl": ([("im1", ("img", "?A")), ("im2", ("img", "?B")), ("camera1", ("cam", "?A")), ("camera2", ("cam", "?B")), ("relative_pose", ("rel", "?A", "?B")), ("data", None), ("overriden_config", None)],
                                           ("tuple", D("?A", "?A"), D("?B", "?B"), ("pairs", "?A", "?B", None), None)),
    M + "match": ([("im1", ("img", "?A")), ("im2", ("img", "?B")), ("camera1", ("cam", "?A")), ("camera2", ("cam", "?B")), ("data", None), ("config_override", None), ("guided_matching_pose", ("rel", "?A", "?B"))],
                  ("pairs", "?Af", "?Bf", None)),
    M + "match_descriptors": ([("im1", ("img", "?A")), ("im2", ("img", "?B")), ("camera1", ("cam", "?A")), ("camera2", ("cam", "?B")), ("data", None), ("config_override", None)], ("pairs", "?Af", "?Bf", None)),
    M + "match_robust": ([("im1", ("img", "?A")), ("im2", ("img", "?B")), ("matches", ("pairs", "?A", "?B", None)), ("camera1", ("cam", "?A")), ("camera2", ("cam", "?B")), ("data", None), ("config_override", None), ("input_is_masked", None)], ("pairs", "?Af", "?Bf", None)),
    M + "apply_adhoc_filters": ([("data", None), ("matches", P_ab), ("im1", ("img", "?A")), ("camera1", ("cam", "?A")), ("p1", D("?a", "?A")), ("im2", ("img", "?B")), ("camera2", ("cam", "?B")), ("p2", D("?b", "?B"))], P_ab),
    M + "_non_static_matches": (FM + [("matches", P_ab)], P_ab),
    M + "_not_on_pano_poles_matches": (FM + [("matches", P_ab), ("camera1", ("cam", "?A")), ("camera2", ("cam", "?B"))], P_ab),
    M + "_not_on_vermont_watermark": (FM + [("matches", P_ab), ("im1", ("img", "?A")), ("im2", ("img", "?B")), ("data", None)], P_ab),
    M + "_not_on_blackvue_watermark": (FM + [("matches", P_ab), ("im1", ("img", "?A")), ("im2", ("img", "?B")), ("data", None)], P_ab),
}
EXT = {
    "opensfm.pyfeatures.match_using_words": ([("f1", D("?a", "?A")), ("words1", D("?a", "?A")), ("f2", D("?b", "?B")), ("words2", D("?b", "?B")), ("ratio", None), ("checks", None)], P_ab),
    "opensfm.pygeometry.triangulate_two_bearings_midpoint_many": ([("b1", D("?m", "?A")), ("b2", D("?m", "?B")), ("R", ("rot", "?A", "?B")), ("t", ("tr", "?A", "?B"))], ("tri", "?m", "?A")),
    "opensfm.pygeometry.epipolar_angle_two_bearings_many": ([("b1", D("?a", "?A")), ("b2", D("?b", "?B")), ("R", ("rot", "?A", "?B")), ("t", ("tr", "?A", "?B"))], ("mat", "?a", "?b")),
    "opensfm.multiview.relative_pose_ransac": ([("b1", D("?m", "?A")), ("b2", D("?m", "?B"))], ("rel", "?A", "?B")),
    "opensfm.multiview.relative_pose_optimize_nonlinear": ([("b1", D("?m", "?A")), ("b2", D("?m", "?B")), ("t", ("tr", "?A", "?B")), ("R", ("rot", "?A", "?B"))], ("rel", "?A", "?B")),
}
# a function's parameters as its callers give them: (a, b) rows and (A, B) images
PUBLIC = {M + "match", M + "match_descriptors", M + "match_robust"}
CORE = {M + "match": 2, M + "match_robust": 1, M + "robust_match_calibrated": 1, M + "match_brute_force": 1, M + "unfilter_matches": 1, M + "match_descriptors": 1, M + "match_words_symmetric": 1}


def subst(pat, b):
    if isinstance(pat, str) and pat.startswith("?"):
        return full(b[pat[:-1]]) if pat.endswith("f") else b[pat]
    if isinstance(pat, tuple):
        return tuple([pat[0]] + [subst(p, b) for p in pat[1:]])
    return pat


def check(prog, rep):
    rep.rule("args", "arguments, row selections, cameras, masks and poses agree on the image they belong to")
    rep.rule("result", "a returned match list holds (feature of the first image, feature of the second image)")
    rep.rule("unmasked", "the public functions return indices into the full feature files")
    rep.rule("loader", "loaders return the rows kept by the image's own mask exactly when asked to")
    rep.rule("ratio", "the ratio test compares the nearest with the second nearest neighbour")
    rep.rule("keys", "matches are indexed and stored under the pair of images they join")
    sigs, names = {}, {}
    for q, (params, result) in SIGS.items():
        f = lookup(prog, q)
        if f is None:
            continue
        pars = param_names(f)
        ren = [(pars[i] if i < len(pars) else p, t) for i, (p, t) in enumerate(params)]
        sigs[q] = (ren, result)
    sigs_all = dict(EXT)
    sigs_all.update(sigs)
    opaque = set(sigs)
    done = 0
    runs = []
    for q in sorted(sigs):
        if any(p == "input_is_masked" for p, _ in sigs[q][0]):
            runs += [(q, True), (q, False)]
        else:
            runs.append((q, None))
    for q, inmask in runs:
        fl = Flow(prog, only={"opensfm.matching"}, opaque=opaque - {q})
        fl.record_returns = True
        pars, result = sigs[q]
        masked = {"?a": "1", "?b": "2", "?A": "1", "?B": "2", "?m": "M"}
        env, args = {}, {}
        for p, t in pars:
            args[p] = sym("p:" + p)
            if p == "input_is_masked":
                args[p] = const(inmask)
            if t is not None:
                ty = subst(t, masked)
                if inmask is False and ty[0] == "pairs":
                    ty = ("pairs", "1f", "2f", None)
                if ty[0] == "pairs":
                    ty = ty[:3] + ("matches",)
                env[args[p]] = ty
        fl.run(q, args)
        special = ("frames",) if q.endswith("compute_inliers_bearings") else ()

        def report(what, t, msg, q=q):
            rep.bad("args", "%s:%s" % (short(q), what), q, msg)
        sd = Sides(fl, env, sigs_all, report, special)
        visit_all(fl, sd)
        want = subst(result, masked)
        for r in [e for e in fl.effects if e.kind == "return" and len(e.fn) == 1]:
            for leaf, gs in ret_leaves(fl, r.args[0], r.guards):
                ty = sd.visit(leaf)
                if ty is None:
                    continue
                check_result(rep, q, sd, fl, ty, want, gs, leaf)
                done += 1
        ratio_test(rep, q, fl, sd)
        rep.count("typed", sd.checked)
        rep.count("functions")
    rep.part(loaders, prog, rep)
    rep.count("result-types", done)
    rep.minimum("typed", 25)
    rep.minimum("result-types", 8)
    rep.part(pair_keys, prog, rep, sigs_all)


def param_names(node):
    return [a.arg for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs]


def short(q):
    return q.split(".")[-1]


def ret_leaves(fl, t, guards):
    out = []
    for v, c in cond_leaves(t, list(guards)):
        out.append((v, c))
    return out


def cond_leaves(t, gs):
    if t.op == "call" and tm.callee_name(t) in WRAP:
        _, a, _ = tm.call_parts(t)
        if a and a[0].op in ("ite", "call"):
            return cond_leaves(a[0], gs)
    if t.op == "ite":
        return cond_leaves(t.args[1], gs + [(t.args[0], True)]) + cond_leaves(t.args[2], gs + [(t.args[0], False)])
    return [(t, gs)]


def check_result(rep, q, sd, fl, ty, want, gs, leaf):
    if ty[0] == "tuple" and want[0] == "tuple":
        for x, w, i in zip(ty[1:], want[1:], range(9)):
            if x is not None and w is not None:
                check_result(rep, q + "[%d]" % i, sd, fl, x, w, gs, leaf)
        return
    if ty[0] == "tuple":
        # (index list, ...) given for one value: not a list of matches
        return
    if ty[0] == "mask" and want[0] == "mask":
        rep.expect(ty[1] == want[1] or ty[1] is None, "result", short(q), q, "the returned mask covers %s, not %s" % (say(ty[1]), say(want[1])))
        return
    if ty[0] != want[0]:
        return
    if want[0] == "data":
        rep.expect(ty[2] in (None, want[2]) and ty[1] in (None, want[1]), "result", short(q), q, "the returned features are %s, expected %s" % (say(ty), say(want)))
        return
    if want[0] == "mat":
        rep.expect(ty[1:] == want[1:], "result", short(q), q, "the returned mask is %s, expected %s" % (say(ty), say(want)))
        return
    if want[0] != "pairs":
        return
    a, b = ty[1], ty[2]
    if a is None or b is None:
        return
    side = lambda s: s[0] if isinstance(s, str) else s
    rep.expect((side(a), side(b)) == (side(want[1]), side(want[2])), "result", short(q), q, "matches are returned as (%s, %s)" % (say(a), say(b)))
    if q in PUBLIC:
        if (a, b) == (want[1], want[2]):
            rep.count("unmasked")
            rep.count("obligations")
        else:
            ok = excused(fl, sd, gs)
            rep.expect(ok, "unmasked", short(q), q, "indices of the masked features are returned without converting them to all features")


def excused(fl, sd, gs):
    """A path on which the features are not masked: some mask is None, or the input is declared unmasked."""
    for g, pol in gs:
        for a, p in split_guard(g, pol):
            a = fl.deep(a)
            if a.op == "sym" and not p:
                return True
            if a.op == "cmp" and a.args[0] in ("is", "is not", "==", "!="):
                for x, y in ((a.args[1], a.args[2]), (a.args[2], a.args[1])):
                    ty = sd.T(x)
                    if ty and ty[0] == "filter" and y is tm.NONE:
                        isnone = (a.args[0] in ("is", "==")) == p
                        if isnone:
                            return True
            ty = sd.T(a)
            if ty and ty[0] == "filter" and not p:
                return True
            if a.op in ("and", "or") and not p and a.op == "and":
                # not (m1 and m2 and masked): every conjunct concerns the masking
                if all(concerns_mask(sd, x) for x in a.args):
                    return True
    return False


def concerns_mask(sd, x):
    if x.op == "not":
        return concerns_mask(sd, x.args[0])
    if x.op == "sym":
        return True
    if x.op == "cmp":
        return any((sd.T(y) or ("",))[0] == "filter" for y in x.args[1:] if isinstance(y, tm.T))
    return (sd.T(x) or ("",))[0] == "filter"


def split_guard(g, pol):
    if g.op == "not":
        return split_guard(g.args[0], not pol)
    if g.op == "and" and pol:
        return [x for a in g.args for x in split_guard(a, True)]
    if g.op == "or" and not pol:
        return [x for a in g.args for x in split_guard(a, False)]
    return [(g, pol)]


# -- ratio test ----------------------------------------------------------

def ratio_test(rep, q, fl, sd):
    """d1 < r d2 on nearest and second distances, with r squared for squared distances."""
    if short(q) not in ("match_flann", "match_brute_force", "match_words"):
        return
    seen = []
    for x in sd.seen:
        if x.op == "cmp" and x.args[0] in ("<", "<=", ">", ">="):
            l, r = x.args[1], x.args[2]
            if x.args[0] in (">", ">="):
                l, r = r, l
            if mentions_ratio(fl, l) or mentions_ratio(fl, r):
                seen.append((x, l, r))
    for x, l, r in seen:
        near, k1 = neighbour(fl, l)
        far, k2 = neighbour(fl, r)
        if near is None or far is None:
            continue
        squared = short(q) == "match_flann"
        ok = near == 0 and far == 1 and not (mentions_ratio(fl, l)) and (k2 == (2 if squared else 1))
        rep.expect(ok, "ratio", short(q), q, "the ratio test compares neighbour %s with ratio^%s times neighbour %s" % (near, k2, far))


def mentions_ratio(fl, t):
    return tm.contains(fl.deep(t), lambda y: is_const(y) and cval(y) == "lowes_ratio")


def neighbour(fl, t):
    """(which neighbour's distance, power of the ratio factor)"""
    k, n = 0, None

    def rec(x):
        nonlocal k, n
        if x.op == "bin" and x.args[0] == "*":
            rec(x.args[1])
            rec(x.args[2])
        elif x.op == "bin" and x.args[0] == "**" and mentions_ratio(fl, x.args[1]) and is_const(x.args[2]):
            k += cval(x.args[2])
        elif mentions_ratio(fl, x):
            k += 1
        else:
            i = index_of(x)
            if i is not None:
                n = i
    rec(t)
    return n, k


def index_of(x):
    if x.op == "attr":
        return index_of(x.args[0])
    if x.op == "item":
        k = x.args[1]
        if k.op == "tup" and k.args and is_const(k.args[-1]):
            return cval(k.args[-1])
        if is_const(k):
            return cval(k)
    return None


# -- results per pair -----------------------------------------------------

def lookup(prog, q):
    try:
        return prog.func(q)[1]
    except AnalysisBroken:
        return None


def pair_keys(prog, rep, sigs):
    worker = {}
    q = M + "match_arguments"
    if lookup(prog, q) is not None:
        ps = param_names(lookup(prog, q))
        fl = Flow(prog, only={"opensfm.matching"})
        fl.run(q, {p: sym("p:" + p) for p in ps})
        base = sym("p:" + ps[0])
        for e in fl.effects:
            if e.kind != "yield" or e.args[0].op != "tup":
                continue
            for i, x in enumerate(e.args[0].args):
                x = fl.deep(x)
                f = from_item(x)
                if f and f[0].op == "elem" and f[0].args[0] is base and f[1] in (0, 1):
                    worker[i] = ("img", "12"[f[1]])
                elif x.op == "sym" and str(x.args[0])[2:] in ("cameras", "exifs", "poses"):
                    worker[i] = ({"cameras": "cams"}.get(x.args[0][2:], x.args[0][2:]),)
    q = M + "match_unwrap_args"
    if lookup(prog, q) is not None and worker and M + "match" in sigs:
        fl = Flow(prog, only={"opensfm.matching"}, opaque=set(sigs))
        A = sym("args")
        r = fl.run(q, {param_names(lookup(prog, q))[0]: A})
        env = {tm.mk("item", A, const(i)): t for i, t in worker.items()}

        def report(what, t, msg):
            rep.bad("keys", "match_unwrap_args:" + what, "opensfm.matching.match_unwrap_args", msg)
        sd = Sides(fl, env, sigs, report)
        visit_all(fl, sd)
        rep.count("typed", sd.checked)
        for leaf in leaves(r):
            ty = sd.visit(leaf)
            if ty and ty[0] == "tuple" and len(ty) == 4 and ty[3] and ty[3][0] == "pairs" and ty[1] and ty[2]:
                rep.expect((full(ty[1][1]), full(ty[2][1])) == ty[3][1:3], "keys", "match_unwrap_args", q, "returns images (%s, %s) with matches (%s, %s)" % (
                    ty[1][1], ty[2][1], say(ty[3][1]), say(ty[3][2])))
    q = M + "match_images_with_pairs"
    if lookup(prog, q) is not None:
        stop = set(sigs) | {M + n for n in ("match_unwrap_args", "match_arguments", "log_projection_types")}
        fl = Flow(prog, only={"opensfm.matching"}, opaque=stop)
        fl.run(q, {p: sym("p:" + p) for p in param_names(lookup(prog, q))})
        for e in fl.effects:
            if e.kind == "setitem":
                k, v = fl.deep(e.args[0]), fl.deep(e.args[1])
                parts = list(k.args) if k.op == "tup" else []
                ps, pv = [from_item(x) for x in parts], from_item(v)
                if len(ps) == 2 and None not in ps and pv is not None:
                    ok = ps[0][0] is ps[1][0] is pv[0] and (ps[0][1], ps[1][1], pv[1]) == (0, 1, 2)
                    rep.expect(ok, "keys", short(q), e.where, "results are indexed by items %s of the worker's result, with item %s as matches" % ([p[1] for p in ps], pv[1]))
    q = M + "save_matches"
    if lookup(prog, q) is not None:
        saved(prog, rep, q)
    linked(prog, rep)
    stored(prog, rep)


def visit_all(fl, sd):
    for e in fl.effects:
        for v in list(e.args) + list(e.kwargs.values()) + ([e.recv] if e.recv is not None else []) + ([e.result] if e.result is not None else []):
            sd.visit(v)
        for g, _ in e.guards:
            sd.visit(g)
        if e.kind == "setitem" and e.recv is not None and len(e.args) == 2:
            ty, kt = sd.T(e.recv), sd.T(e.args[0])
            r = {"data": 1, "pairs": 3, "idx": 2, "mask": 1}.get(ty[0]) if ty else None
            if r is not None and ty[r] is not None and kt and kt[0] == "idx" and kt[1] is not None:
                sd.ok(same_rows(kt[1], ty[r]), "fill", e.recv, "values for %s are written at indices into %s" % (say(ty[r]), say(kt[1])))


def saved(prog, rep, q):
    """Matches stored under [a][b] hold (feature of a, feature of b)."""
    ps = param_names(lookup(prog, q))
    fl = Flow(prog, only={"opensfm.matching"})
    fl.run(q, {p: sym("p:" + p) for p in ps})
    P = sym("p:" + ps[2])
    key = tm.mk("elem", P, 0)
    env = {key: ("tuple", ("img", "1"), ("img", "2")), tm.mk("item", key, const(0)): ("img", "1"), tm.mk("item", key, const(1)): ("img", "2"),
           tm.mk("item", P, key): ("pairs", "1f", "2f", None)}
    sd = Sides(fl, env, {}, lambda *a: rep.bad("keys", "save_matches:" + a[0], q, a[2]))
    n = 0
    for e in fl.effects:
        if e.kind == "setitem" and e.recv is not None:
            v = sd.visit(fl.at(e, e.args[1]) if False else e.args[1])
            ks = key_chain(fl, sd, e)
            if v and v[0] == "pairs" and None not in v[1:3] and len(ks) == 2 and all(ks):
                n += 1
                rep.expect((full(ks[0]), full(ks[1])) == v[1:3], "keys", "save_matches", e.where, "matches (%s, %s) are stored as those of image %s with image %s" % (
                    say(v[1]), say(v[2]), ks[0], ks[1]))
    rep.count("stored", n)


def key_chain(fl, sd, e):
    """The image keys of t[a][b] = v."""
    ks = [e.args[0]]
    x = e.recv
    while x.op == "item":
        ks.insert(0, x.args[1])
        x = x.args[0]
    ts = [sd.visit(k) for k in ks]
    if len(ks) == 1:
        t = ts[0]
        if t and t[0] == "tuple" and len(t) == 3:
            return [y[1] if y and y[0] == "img" else None for y in t[1:]]
    return [t[1] if t and t[0] == "img" else None for t in ts]


def linked(prog, rep):
    """Tracking: matches are read under their pair and joined with the pair's own images."""
    q = "opensfm.tracking.load_matches"
    if lookup(prog, q) is not None:
        ps = param_names(lookup(prog, q))
        fl = Flow(prog, only={"opensfm.tracking"})
        fl.run(q, {p: sym("p:" + p) for p in ps})
        for e in fl.effects:
            if e.kind != "setitem" or len(e.args) != 2:
                continue
            k, v = fl.deep(e.args[0]), fl.deep(e.args[1])
            if k.op == "tup" and len(k.args) == 2 and v.op == "item" and v.args[0].op == "mcall":
                (_, name), a, kw = tm.call_parts(v.args[0])
                args = list(a) + list(kw.values())
                if name == "load_matches" and args:
                    rep.expect(k.args[0] is args[0] and k.args[1] is v.args[1], "keys", "tracking.load_matches", e.where,
                               "the matches of (%s, %s) are indexed as (%s, %s)" % (unfold(fl, args[0]), unfold(fl, v.args[1]), unfold(fl, k.args[0]), unfold(fl, k.args[1])))
    q = "opensfm.tracking.create_tracks_manager"
    if lookup(prog, q) is not None:
        ps = param_names(lookup(prog, q))
        fl = Flow(prog, only={"opensfm.tracking"})
        fl.run(q, {p: sym("p:" + p) for p in ps})
        mt = [p for p in ps if p == "matches"] or [ps[4]]
        P = sym("p:" + mt[0])
        key = tm.mk("elem", P, 0)
        env = {key: ("tuple", ("img", "1"), ("img", "2")), tm.mk("item", key, const(0)): ("img", "1"), tm.mk("item", key, const(1)): ("img", "2"),
               tm.mk("item", P, key): ("pairs", "1f", "2f", None)}
        env[tm.mk("item", P, tm.mk("tup", tm.mk("item", key, const(0)), tm.mk("item", key, const(1))))] = ("pairs", "1f", "2f", None)
        sd = Sides(fl, env, {}, lambda *a: None)
        for e in fl.effects:
            if e.kind in ("mcall", "call") and (e.name or "").split(".")[-1] == "union" and len(e.args) == 2:
                for x in e.args:
                    x = fl.deep(x)
                    if x.op != "tup" or len(x.args) != 2:
                        continue
                    im, f = sd.visit(x.args[0]), sd.visit(x.args[1])
                    if im and f and im[0] == "img" and f[0] == "idx":
                        rep.expect(full(im[1]) == f[1], "keys", "create_tracks_manager", e.where, "a feature of %s is linked as one of image %s" % (say(f[1]), im[1]))


def stored(prog, rep):
    """DataSet.find_matches: matches read from the second image's file are turned round."""
    q = "opensfm.dataset.DataSet.find_matches"
    cands = [q2 for m, q2, n, c in prog.all_functions() if n.name == "find_matches" and m.name.startswith("opensfm.dataset")]
    for q in cands:
        node = [n for m, q2, n, c in prog.all_functions() if q2 == q][0]
        if not any(isinstance(x, ast.Return) for x in ast.walk(node)):
            continue
        ps = param_names(node)[1:]
        fl = Flow(prog, only={"opensfm.dataset"}, opaque={q.rsplit(".", 1)[0] + ".load_matches", q.rsplit(".", 1)[0] + ".matches_exists"})
        r = fl.run(q, {p: sym("p:" + p) for p in ps}, self_t=sym("self"))
        env = {sym("p:" + ps[0]): ("img", "1"), sym("p:" + ps[1]): ("img", "2")}
        sd = Sides(fl, env, {}, lambda *a: None)
        for leaf in leaves(r):
            ty = sd.visit(leaf)
            if ty and ty[0] == "pairs":
                rep.expect(ty[1:3] == ("1f", "2f"), "keys", "find_matches", q, "returns (%s, %s)" % (say(ty[1]), say(ty[2])))


FL = "opensfm.feature_loading.FeatureLoader."


def loaders(prog, rep):
    """FeatureLoader: masked=True gives the rows the mask of the same image keeps, masked=False gives all of them."""
    C = FL[:-1]
    sigs = {FL + "load_mask": ([("self", None), ("data", None), ("image", ("img", "?A"))], ("filter", "?A")),
            "opensfm.features.build_flann_index": ([("descriptors", ("data", "?a", "?A")), ("config", None)], ("index", "?a"))}
    n = 0
    for name in ("load_all_data", "load_bearings", "load_words", "load_features_index"):
        f = lookup(prog, FL + name)
        if f is None:
            continue
        for masked in (True, False):
            ps = param_names(f)[1:]
            args = {p: sym("p:" + p) for p in ps}
            if "masked" not in args:
                continue
            args["masked"] = const(masked)
            S = sym("self")
            fl = Flow(prog, only={"opensfm.feature_loading", "opensfm.features"}, opaque={FL + "load_mask", "opensfm.features.build_flann_index"}, types={S: C})
            r = fl.run(FL + name, args, self_t=S)
            env = {}
            for p in ps:
                if p == "image":
                    env[args[p]] = ("img", "1")
                if p == "camera":
                    env[args[p]] = ("cam", "1")
            sd = Sides(fl, env, sigs, lambda w, t, m: rep.bad("args", "%s:%s" % (name, w), FL + name, m))
            sd.own = C
            for v, gs in cond_leaves(r, []):
                if any(sd.present(g) is (not p) for g, p in gs):
                    continue
                ty = sd.visit(v)
                parts = list(ty[1:]) if ty and ty[0] == "tuple" else [ty]
                for x in parts:
                    if x and x[0] in ("fd", "data", "index") and x[1] is not None:
                        n += 1
                        want = "1" if masked else "1f"
                        rep.expect(x[1] == want, "loader", "%s:masked=%s" % (name, masked), FL + name, "gives the features of %s" % say(x[1]))
            rep.count("typed", sd.checked)
    rep.minimum("loader", 4)
    # FeaturesData.mask and SemanticData.mask keep the same rows of every field
    for q, fields in (("opensfm.features.FeaturesData.mask", "fd"), ("opensfm.features.SemanticData.mask", "sem")):
        f = lookup(prog, q)
        if f is None:
            continue
        S = sym("self")
        m = sym("p:mask")
        fl = Flow(prog, only={"opensfm.features"}, opaque={"opensfm.features.SemanticData.mask"} - {q}, types={S: q.rsplit(".", 1)[0]})
        r = fl.run(q, {param_names(f)[1]: m}, self_t=S)
        sd = Sides(fl, {S: (fields, "1f", "1"), m: ("filter", "1")}, {"opensfm.features.SemanticData.mask": ([("self", ("sem", "1f", "1")), ("mask", ("filter", "1"))], ("sem", "1", "1"))},
                   lambda w, t, msg: rep.bad("args", "%s:%s" % (q, w), q, msg))
        for leaf in leaves(r):
            h = fl.h(leaf) if leaf.op == "obj" else None
            for e in (h.attrs if h else []):
                if attr_name(e) not in FIELDS:
                    continue
                for v, gs in cond_leaves(e.val, []):
                    ty = sd.visit(v)
                    if any(sd.present(g) is (not p) for g, p in gs):
                        continue
                    own = [x for x in tm.walk(fl.deep(v)) if x.op == "attr" and x.args[0] is S]
                    if own or ty:
                        ok = (ty is None or ty[1] == "1") and (not own or any(x.args[1] == attr_name(e) for x in own))
                        rep.expect(ok and (ty is not None), "loader", "%s:%s" % (short(q.rsplit(".", 1)[0]), attr_name(e)), q, "field %s of the masked features is %s" % (attr_name(e), unfold(fl, v)))


def from_item(x):
    if x.op == "item" and is_const(x.args[1]):
        return x.args[0], cval(x.args[1])
    return None
