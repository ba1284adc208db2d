from checks.util import argmap, atoms, call_args, cond_leaves, implied, lookup, params, run, strip
from sa import terms as tm
from sa.match import core, leaves, unfold
from sa.terms import cval, is_const, item, mk, sym, tnot

TECHNIQUE = "value-flow analysis of the pairs each strategy emits (which list each side is taken from, under which conditions) and of the options that reach it"
EXPLANATION = (
    "Every pair a strategy adds is decomposed into its two images and the condition of the addition: one must be a reference image, the other a "
    "candidate, different, and written in sorted order. Neighbour searches must index the list their rows were filled from, row by row, and drop "
    "missing neighbours. The configuration keys are followed to the parameters of the strategies, and the union of their results to the report."
)
M = "opensfm.pairs_selection."
ONLY = {"opensfm.pairs_selection"}
# strategy -> parameter -> configuration key
KEYS = {
    "match_candidates_by_distance": {"max_neighbors": "matching_gps_neighbors", "max_distance": "matching_gps_distance"},
    "match_candidates_by_graph": {"rounds": "matching_graph_rounds"},
    "match_candidates_by_time": {"max_neighbors": "matching_time_neighbors"},
    "match_candidates_by_order": {"max_neighbors": "matching_order_neighbors"},
    "match_candidates_with_bow": {"max_neighbors": "matching_bow_neighbors", "max_gps_distance": "matching_bow_gps_distance",
                                  "max_gps_neighbors": "matching_bow_gps_neighbors", "enforce_other_cameras": "matching_bow_other_cameras"},
    "match_candidates_with_vlad": {"max_neighbors": "matching_vlad_neighbors", "max_gps_distance": "matching_vlad_gps_distance",
                                   "max_gps_neighbors": "matching_vlad_gps_neighbors", "enforce_other_cameras": "matching_vlad_other_cameras"},
}
GPS = {"matching_gps_neighbors", "matching_gps_distance", "matching_graph_rounds"}


def check(prog, rep):
    rep.rule("sides", "a pair joins a reference image and a different candidate image")
    rep.rule("sorted", "a strategy writes every pair in sorted order, so that it is kept once")
    rep.rule("rows", "a neighbour search returns rows of the list it was filled from, and its missing neighbours are dropped")
    rep.rule("disabled", "a strategy with no neighbours selects nothing")
    rep.rule("window", "sequence neighbours are those within half the number of neighbours")
    rep.rule("options", "each configured number reaches the strategy it is named after")
    rep.rule("all", "all pairs are matched when every strategy is off, the union of the strategies otherwise")
    rep.rule("result", "every selected pair is returned once, reference image first")
    rep.rule("gps", "positions use latitude, longitude and orientation angles in their own order and units")
    rep.rule("nearest", "appearance neighbours are taken nearest first, each with its own distance")
    for f in ("distance", "time", "order"):
        rep.part(simple, prog, rep, "match_candidates_by_" + f)
    rep.part(graph, prog, rep)
    rep.part(tree, prog, rep, "match_candidates_by_distance")
    rep.part(tree, prog, rep, "match_candidates_by_time")
    rep.part(window, prog, rep)
    rep.part(metadata, prog, rep)
    rep.part(ordered, prog, rep)
    rep.part(points, prog, rep)
    rep.part(gps, prog, rep)
    for f in ("bow", "vlad"):
        rep.part(affinity, prog, rep, f)
    rep.part(preempt, prog, rep)
    rep.part(distances, prog, rep)
    rep.part(histograms, prog, rep)
    rep.part(nearest, prog, rep)
    rep.minimum("sides", 4)
    rep.minimum("options", 10)


def pair(fl, t, gs=()):
    """[(a, b, guards, sorted?)] of a term that is a pair of images."""
    t = fl.deep(t) if t.op == "obj" else t
    s = t
    if s.op == "call" and (tm.callee_name(s) or "") in ("tuple", "sorted", "list"):
        name, srt = s, False
        while s.op == "call" and (tm.callee_name(s) or "") in ("tuple", "sorted", "list"):
            srt = srt or tm.callee_name(s) == "sorted"
            s = tm.call_parts(s)[1][0]
        el = [x for x in seq(fl, s)]
        if len(el) == 2:
            return [(el[0], el[1], tuple(gs), srt)]
    if s.op == "call" and (tm.callee_name(s) or "").endswith("sorted_pair"):
        a = call_args(s, ["im1", "im2"])
        return [(a["im1"], a["im2"], tuple(gs), True)]
    out = []
    for leaf, g in cond_leaves(t):
        if leaf.op == "call":
            out += pair(fl, leaf, tuple(gs) + g)
            continue
        el = seq(fl, leaf)
        if len(el) != 2:
            if leaf.op == "tup" or leaf.op == "obj":
                out.append((None, None, tuple(gs) + g, False))
            else:
                out.append((item(leaf, tm.const(0)), item(leaf, tm.const(1)), tuple(gs) + g, False))
            continue
        a, b = el
        # (x if x < y else y, y if x < y else x)
        for c, x, y in zipped(a, b):
            g2 = tuple(gs) + g + c
            ok = implied(g2, mk("cmp", "<", x, y)) or implied(g2, tnot(mk("cmp", "<", y, x)))
            out.append((x, y, g2, ok))
    return out


def zipped(a, b):
    out = []
    for x, g in cond_leaves(a):
        for y, h in cond_leaves(b):
            known = dict(g)
            if any(c in known and known[c] != p for c, p in h):
                continue
            out.append((tuple(g) + tuple(h), x, y))
    return out


def seq(fl, t):
    if t.op in ("tup", "list"):
        return list(t.args)
    el = fl.elements(t) if t.op == "obj" else None
    if el is not None and all(not g and not l for _, g, l in el):
        return [v for v, _, _ in el]
    return []


def origin(t, ref, cand):
    """Which list an image is taken from: 'ref', 'cand' or None."""
    t = strip(t)
    if t.op in ("elem", "item"):
        b = base_list(t.args[0])
        if b is ref:
            return "ref"
        if b is cand:
            return "cand"
    return None


def as_is(t):
    """Without conversions that keep the order."""
    while t.op == "call" and (tm.callee_name(t) or "") in ("list", "tuple", "iter", "enumerate"):
        t = tm.call_parts(t)[1][0]
    return t


def base_list(t):
    while True:
        if t.op == "call" and (tm.callee_name(t) or "") in ("list", "tuple", "set", "sorted", "iter", "frozenset"):
            t = tm.call_parts(t)[1][0]
            continue
        if t.op in ("join", "alias", "slice_of"):
            t = t.args[0]
            continue
        return t


def emitted(fl, r):
    """The members of the returned collection."""
    out = []
    for leaf, gs in cond_leaves(r):
        if leaf.op != "obj":
            continue
        for v, g, l in fl.elements(leaf) or []:
            out.append((v, tuple(gs) + tuple(g), l))
    return out


def simple(prog, rep, f):
    fl, r, A = run(prog, M + f, ONLY, {M + "get_representative_points"})
    ref, cand = A["images_ref"], A["images_cand"]
    n = 0
    for v, g, _ in emitted(fl, r):
        for a, b, g2, srt in pair(fl, v, g):
            n += 1
            sides(rep, f, a, b, g2, srt, ref, cand)
    rep.expect(n > 0, "sides", f + ":none", f, "%s selects no pair" % f)
    off(rep, fl, r, f, {p: A[p] for p in A if p in ("max_neighbors", "max_distance")})


def sides(rep, f, a, b, g, srt, ref, cand):
    if a is None:
        rep.bad("sides", f, f, "%s selects something that is not a pair" % f)
        return
    o = {origin(a, ref, cand), origin(b, ref, cand)}
    rep.expect(o == {"ref", "cand"}, "sides", f, f, "%s pairs %s with %s" % (f, tm.show(a)[:120], tm.show(b)[:120]))
    rep.expect(distinct(g, a, b), "sides", f + ":self", f, "%s may pair an image with itself" % f)
    rep.expect(srt, "sorted", f, f, "%s writes the pair (%s, %s) unsorted" % (f, tm.show(a)[:80], tm.show(b)[:80]))


def distinct(g, a, b):
    for x, y in ((a, b), (b, a)):
        if implied(g, tnot(mk("cmp", "==", x, y))) or implied(g, mk("cmp", "<", x, y)):
            return True
    return False


def off(rep, fl, r, f, ps):
    """With every number of neighbours at zero or below, nothing is selected."""
    from sa.match import tautology
    from sa.terms import cond_of

    def zero(at):
        # with p = 0: decide comparisons of p with constants, and the truth of p
        if at in ps.values():
            return False
        if at.op == "nonempty" and at.args[0] in ps.values():
            return False
        if at.op == "cmp" and len(at.args) == 3:
            o, x, y = at.args
            v = lambda t: 0 if t in ps.values() else (cval(t) if is_const(t) and isinstance(cval(t), (int, float)) else None)
            if v(x) is not None and v(y) is not None:
                try:
                    return {"<": v(x) < v(y), "<=": v(x) <= v(y), "==": v(x) == v(y), ">": v(x) > v(y), ">=": v(x) >= v(y), "!=": v(x) != v(y)}[o]
                except KeyError:
                    return None
        return None
    ok = True
    for v, g, _ in emitted(fl, r):
        if not tautology(tnot(cond_of(list(g))), zero, 14)[0]:
            ok = False
    rep.expect(ok, "disabled", f, f, "%s selects pairs when it is switched off" % f)


def tree(prog, rep, f):
    """Rows of the search tree against the list its results index."""
    fl, r, A = run(prog, M + f, ONLY, {M + "get_representative_points"})
    ref, cand = A["images_ref"], A["images_cand"]
    trees = [e for e in fl.effects if e.kind in ("call", "new") and (e.name or "").split(".")[-1] in ("cKDTree", "KDTree")]
    qs = [e for e in fl.effects if e.kind == "mcall" and e.name == "query"]
    if not trees or not qs:
        rep.part(missing, f)
        return
    rows = None
    for e in trees:
        arr = strip(e.args[0])
        rows = filled(fl, arr, cand)
        what = rows if rows is not None else "nothing recognisable"
        rep.expect(rows is not None, "rows", f + ":fill", e.where, "the rows of the search tree are not filled with each candidate in turn (%s)" % (tm.show(what)[:100] if rows is not None else unfold(fl, arr)[:160]))
        h = fl.h(arr) if arr.op == "obj" else None
        z = h.args[0] if h is not None and h.args else (tm.call_parts(arr)[1][0] if arr.op == "call" and tm.call_parts(arr)[1] else None)
        if z is not None and z.op == "tup" and rows is not None:
            rep.expect(z.args[0] is length(cand), "rows", f + ":size", e.where, "the search tree has %s rows, not one per candidate" % unfold(fl, z.args[0]))
    for e in qs:
        a = argmap(["x", "k", "eps", "p", "distance_upper_bound"], e)
        x = a.get("x")
        inner = [y for y, _, l in (fl.elements(x) or [])] if x is not None and x.op == "obj" else (seq(fl, x) if x is not None else [])
        if len(inner) == 1:
            x = inner[0]
        if rows is not None and x is not None:
            w = [swap(rows, cand, el) for el in tm.walk(x) if el.op == "elem" and base_list(el.args[0]) is ref]
            rep.expect(any(strip(y) is strip(x) for y in w), "rows", f + ":query", e.where, "the neighbours of an image are searched around %s" % unfold(fl, x)[:160])
        k = a.get("k")
        if k is not None:
            count(rep, fl, f, e, k, A)
        if "max_distance" in A:
            d = a.get("distance_upper_bound")
            ok = d is not None and any(y is A["max_distance"] for y in tm.walk(d)) and all(y is A["max_distance"] or (is_const(y) and cval(y) and cval(y) >= 1e6) for y, _ in cond_leaves(strip(d)))
            rep.expect(ok, "rows", f + ":bound", e.where, "the search is bounded by %s" % (unfold(fl, d) if d is not None else "nothing"))
    for v, g, _ in emitted(fl, r):
        for a, b, g2, _s in pair(fl, v, g):
            c = a if origin(a, ref, cand) == "cand" else b
            if c is None or c.op != "item":
                continue
            j = c.args[1]
            ok = tm.contains(fl.deep(j), lambda y: y.op == "mcall" and y.args[1] == "query") and (
                implied(g2, mk("cmp", "<", j, length(cand))) or implied(g2, tnot(mk("cmp", "<=", length(cand), j))))
            rep.expect(ok, "rows", f + ":missing", f, "the row %s is used without checking that the neighbour exists" % unfold(fl, j)[:100])
            rep.expect(column(j) == 1, "rows", f + ":index", f, "the candidate is looked up by %s, not by the row found" % unfold(fl, j)[:100])


def missing(f):
    raise LookupError("%s: no search tree found" % f)


def column(j):
    """Which component of the query result an index is."""
    for y in tm.walk(j):
        if y.op == "item" and is_const(y.args[1]) and any(z.op == "mcall" and z.args[1] == "query" for z in tm.walk(y.args[0])):
            return cval(y.args[1])
    return None


def length(x):
    return tm.call(tm.mk("ext", "len"), [x])


def swap(v, cand, new):
    m = {y: new for y in tm.walk(v) if y.op == "elem" and base_list(y.args[0]) is cand}
    return tm.subst(v, m)


def filled(fl, arr, cand):
    """The value of the row of each candidate, when row i belongs to candidate i."""
    if arr.op == "call" and (tm.callee_name(arr) or "").split(".")[-1] in ("array", "asarray", "vstack", "stack", "zeros", "empty"):
        a = tm.call_parts(arr)[1]
        if a and a[0].op == "obj":
            return filled(fl, a[0], cand)
    h = fl.h(arr) if arr.op == "obj" else None
    if h is None:
        return None
    sets = [x for x in h.log if x.kind in ("setitem", "set", "item")] or [x for x in h.log if x.key is not None]
    if sets:
        out = None
        for x in sets:
            k = x.key
            if k.op == "idx" and as_is(k.args[0]) is cand:
                els = [y for y in tm.walk(x.val) if y.op == "elem" and as_is(y.args[0]) is cand]
                if els:
                    out = x.val
                    continue
            if k.op == "elem" and k.args[0].op == "call" and tm.callee_name(k.args[0]) == "range":
                v = tm.subst(x.val, {item(cand, k): mk("elem", cand, 0)})
                if any(y.op == "elem" and y.args[0] is cand for y in tm.walk(v)):
                    out = v
                    continue
            return None
        return out
    el = fl.elements(arr)
    if el and len(el) == 1 and not any(tm.contains(c, lambda y: y.op == "elem") for c, _ in el[0][1]):
        v = el[0][0]
        inner = [y for y, _, l in (fl.elements(v) or [])] if v.op == "obj" else seq(fl, v)
        v = inner[0] if len(inner) == 1 else v
        if any(y.op == "elem" and as_is(y.args[0]) is cand for y in tm.walk(v)):
            return v
    return None


def count(rep, fl, f, e, k, A):
    """One more neighbour is asked for when the image is its own nearest neighbour."""
    cand, n = A["images_cand"], A["max_neighbors"]
    vals = {}
    for leaf, g in cond_leaves(k):
        own = [p for x, p in atoms(g) if x.op == "cmp" and x.args[0] == "in" and base_list(x.args[2]) is cand]
        other = [x for x, p in atoms(g) if x.op == "cmp" and x.args[0] == "in" and base_list(x.args[2]) is not cand]
        rep.expect(not other, "rows", f + ":count", e.where, "the number of neighbours asked for depends on %s" % (unfold(fl, other[0])[:80] if other else ""))
        vals.setdefault(own[0] if own else None, []).append(leaf)
    if True not in vals:
        own = plus(vals.get(None, [None])[0])
        rep.expect(own > 0, "rows", f + ":count", e.where, "an image that is a candidate itself takes the place of one of its neighbours")
    else:
        a, b = vals[True][0], vals.get(False, [None])[0]
        rep.expect(b is not None and plus(a) == plus(b) + 1, "rows", f + ":count", e.where, "the number of neighbours asked for is %s for a candidate, %s otherwise" % (unfold(fl, a)[:80], unfold(fl, b)[:80] if b is not None else "-"))
    rep.expect(tm.contains(k, lambda y: y is n), "rows", f + ":k", e.where, "the number of neighbours asked for is %s, whatever is configured" % unfold(fl, k)[:80])


def plus(t):
    if t is None:
        return 0
    if t.op == "bin" and t.args[0] == "+":
        return sum(cval(x) for x in t.args[1:] if is_const(x) and isinstance(cval(x), int))
    if t.op == "bin" and t.args[0] == "-" and is_const(t.args[2]):
        return -cval(t.args[2])
    return 0


def window(prog, rep):
    f = "match_candidates_by_order"
    fl, r, A = run(prog, M + f, ONLY)
    ref, cand, n = A["images_ref"], A["images_cand"], A["max_neighbors"]
    pos = mk("idx", ref)
    for v, g, _ in emitted(fl, r):
        for a, b, g2, _s in pair(fl, v, g):
            c = a if origin(a, ref, cand) == "cand" else b
            if c is None or c.op not in ("item", "elem"):
                continue
            span = None
            if c.op == "item" and c.args[1].op == "elem" and c.args[1].args[0].op == "call" and tm.callee_name(c.args[1].args[0]) == "range":
                span = tm.call_parts(c.args[1].args[0])[1][:2]
            elif c.op == "elem" and c.args[0].op == "slice_of":
                span = list(c.args[0].args[1:3])
            if span is None or len(span) != 2:
                raise LookupError("window of %s not recognised" % f)
            lo, hi = span
            # evaluate the limits at sample numbers of neighbours
            ok = True
            for k in (1, 2, 3, 8):
                for i in (0, 1, 5, 20):
                    for size in (30, 22):
                        env = {n: k, pos: i, length(cand): size}
                        x, y = value(lo, env), value(hi, env)
                        h = (k + 1) // 2
                        ok = ok and x is not None and y is not None and x == max(0, i - h) and y in (min(size, i + h), min(size, i + h + 1))
            rep.expect(ok, "window", f, f, "the sequence neighbours of image i are those from %s to %s" % (unfold(fl, lo)[:100], unfold(fl, hi)[:100]))


def value(t, env):
    """Constant folding under an assignment of numbers."""
    if t in env:
        return env[t]
    if is_const(t):
        return cval(t)
    if t.op == "call" and tm.callee_name(t) in ("min", "max", "int", "abs"):
        a = [value(x, env) for x in tm.call_parts(t)[1]]
        if any(x is None for x in a):
            return None
        return {"min": min, "max": max, "int": int, "abs": abs}[tm.callee_name(t)](*a)
    if t.op == "call" and tm.callee_name(t) in ("math.ceil", "math.floor"):
        import math
        a = value(tm.call_parts(t)[1][0], env)
        return None if a is None else getattr(math, tm.callee_name(t)[5:])(a)
    if t.op == "bin" and len(t.args) >= 3:
        a = [value(x, env) for x in t.args[1:]]
        if any(x is None for x in a):
            return None
        r = a[0]
        for x in a[1:]:
            try:
                r = {"+": lambda p, q: p + q, "-": lambda p, q: p - q, "*": lambda p, q: p * q, "//": lambda p, q: p // q, "/": lambda p, q: p / q, "%": lambda p, q: p % q, "**": lambda p, q: p ** q}[t.args[0]](r, x)
            except (KeyError, ZeroDivisionError):
                return None
        return r
    if t.op == "un":
        a = value(t.args[1], env)
        return -a if t.args[0] == "-" and a is not None else None
    if t.op == "ite":
        c = truth(t.args[0], env)
        return None if c is None else value(t.args[1] if c else t.args[2], env)
    return None


def truth(c, env):
    if c in env:
        return bool(env[c])
    if is_const(c):
        return bool(cval(c))
    if c.op == "not":
        a = truth(c.args[0], env)
        return None if a is None else not a
    if c.op in ("and", "or"):
        v = [truth(x, env) for x in c.args]
        if c.op == "and":
            return False if False in v else (None if None in v else True)
        return True if True in v else (None if None in v else False)
    if c.op == "cmp":
        a, b = value(c.args[1], env), value(c.args[2], env)
        if a is None or b is None:
            return None
        return {"==": a == b, "<": a < b, "is": a is b}.get(c.args[0])
    v = value(c, env)
    return None if v is None else bool(v)


def graph(prog, rep):
    f = "match_candidates_by_graph"
    fl, r, A = run(prog, M + f, ONLY, {M + "get_representative_points"})
    ref, cand = A["images_ref"], A["images_cand"]
    pts = [e for e in fl.effects if e.kind == "call" and (e.name or "").endswith("get_representative_points")]
    imgs = (argmap(["images", "exifs", "reference"], pts[0]).get("images")) if pts else None
    n = 0
    for v, g, _ in emitted(fl, r):
        for a, b, g2, srt in pair(fl, v, g):
            n += 1
            ok = a is not None and a.op == "item" and b.op == "item" and a.args[0] is b.args[0] and imgs is not None and (a.args[0]) is imgs
            rep.expect(ok, "rows", f + ":index", f, "an edge is translated to images by another list than the one the points were computed for")
            rep.expect(a is not None and distinct(g2, a, b), "sides", f + ":self", f, "an edge may join an image with itself")
            rep.expect(srt, "sorted", f, f, "the pair of an edge is not written in sorted order")
            if a is not None:
                rep.expect(crossing(g2, a, b, ref, cand), "sides", f, f, "an edge is kept without checking that it joins a candidate and a reference image")
    rep.expect(n > 0, "sides", f + ":none", f, "no edge is ever selected")
    off(rep, fl, r, f, {"rounds": A["rounds"]})
    # rows of the triangulation follow the points
    P = pts[0].result if pts else None
    for h in fl.heap.values() if isinstance(fl.heap, dict) else fl.heap:
        if getattr(h, "log", None) is None:
            continue
        for x in h.log:
            if x.key is not None and x.key.op == "idx" and P is not None and x.val is not None and tm.contains(fl.deep(x.val), lambda y: y is P):
                rep.expect(tm.contains(fl.deep(x.key), lambda y: y is P) or (x.key.args[0]) is imgs, "rows", f + ":fill", f, "row %s receives %s" % (unfold(fl, x.key)[:80], unfold(fl, x.val)[:120]))


def member(c, x, lst):
    return c.op == "cmp" and c.args[0] == "in" and c.args[1] is x and base_list(c.args[2]) is lst


def crossing(g, a, b, ref, cand):
    """The conditions force (a in cand and b in ref) or (b in cand and a in ref)."""
    from sa.match import tautology
    from sa.terms import cond_of, tand, tor
    c = cond_of(list(g))
    at = {}
    for x in tm.walk(c):
        for y, l, k in ((a, cand, 0), (b, ref, 1), (b, cand, 2), (a, ref, 3)):
            if member(x, y, l):
                at[k] = x
    if len(at) < 4:
        return False
    return tautology(tor(tnot(c), tor(tand(at[0], at[1]), tand(at[2], at[3]))), lambda z: None, 16)[0]


def metadata(prog, rep):
    f = "match_candidates_from_metadata"
    fl, r, A = run(prog, M + f, ONLY, {M + k for k in KEYS} | {M + "ordered_pairs", M + "has_gps_info"})
    ref, cand = A["images_ref"], A["images_cand"]
    # the configuration in force: the dataset's with the overrides on top, in a copy
    upd = [e for e in fl.effects if e.kind == "mcall" and e.name == "update" and any(tm.contains(fl.deep(x), lambda y: y is A["config_override"]) for x in e.args)]
    own = tm.attr(A["data"], "config")
    for e in upd:
        rep.expect(e.recv is not own, "options", "override:copy", e.where, "the overrides are written into the configuration of the dataset")
    merged = {e.recv for e in upd}
    calls = {}
    for e in fl.effects:
        n = (e.name or "").split(".")[-1]
        if n in KEYS and e.kind == "call":
            calls.setdefault(n, []).append(e)
    every = {}
    for n, keys in KEYS.items():
        rep.expect(n in calls, "all", n + ":called", f, "%s is never run" % n)
        for e in calls.get(n, []):
            a = argmap(params(lookup(prog, M + n)), e)
            for p, want in (("images_ref", ref), ("images_cand", cand), ("exifs", A["exifs"]), ("data", A["data"])):
                if p in a:
                    rep.expect(a[p] is want, "sides", "%s:%s" % (n, p), e.where, "%s receives %s as %s" % (n, unfold(fl, a[p])[:80], p))
            for p, key in keys.items():
                v = a.get(p)
                src = [(x, y) for x in tm.walk(fl.deep(v)) for y in [keyed(x)] if y] if v is not None else []
                src = list(dict.fromkeys(src))
                main = [y for x, y in src]
                rep.expect(main and set(main) == {key}, "options", "%s:%s" % (n, p), e.where, "%s of %s comes from %s, not from %s" % (p, n, sorted(set(main)) or "no option", key))
                for x, y in src:
                    every[y] = v if y not in every else every[y]
                    ok = x.args[0] in merged or any(tm.contains(fl.deep(x.args[0]), lambda z: z is A["config_override"]) for _ in (0,))
                    rep.expect(ok, "options", "override:" + key, e.where, "%s is read from a configuration without the overrides" % key)
                if key in GPS and v is not None:
                    zero = [leaf for leaf, g in cond_leaves(v) if is_const(leaf) and cval(leaf) == 0 and any(not p and gpscond(fl, c) for c, p in atoms(g))]
                    rep.expect(bool(zero), "gps", n + ":unknown", e.where, "%s is not switched off when images lack GPS" % n)
    # which branch runs
    op = [e for e in fl.effects if e.kind == "call" and (e.name or "").endswith(".ordered_pairs")]
    for e in op:
        a = argmap(["pairs", "images_ref"], e)
        rep.expect(a.get("images_ref") is ref, "result", "ordered:images", e.where, "the pairs are ordered by %s" % (unfold(fl, a["images_ref"])[:60] if a.get("images_ref") is not None else "nothing"))
        branches(rep, fl, f, a.get("pairs"), calls, ref, cand)
    rep.expect(bool(op), "result", "ordered", f, "the selected pairs are not put in order")
    if r.op == "tup" and len(r.args) == 2 and op:
        rep.expect(any(r.args[0] is e.result for e in op), "result", "returned", f, "the pairs returned are %s" % unfold(fl, r.args[0])[:80])


def keyed(x):
    if x.op == "item" and is_const(x.args[1]) and isinstance(cval(x.args[1]), str) and cval(x.args[1]).startswith("matching_"):
        return cval(x.args[1])
    if x.op == "mcall" and x.args[1] == "get":
        a = tm.call_parts(x)[1]
        if a and is_const(a[0]) and str(cval(a[0])).startswith("matching_"):
            return cval(a[0])
    return None


def gpscond(fl, c):
    return tm.contains(fl.deep(c), lambda y: y.op in ("func", "call", "ext") and "has_gps_info" in str(y.args[0] if y.op != "call" else tm.callee_name(y)))


def branches(rep, fl, f, t, calls, ref, cand):
    keys = sorted({k for v in KEYS.values() for p, k in v.items() if p in ("max_neighbors", "max_distance", "rounds")})
    allpairs, union = [], []
    for leaf, g in cond_leaves(t):
        el = fl.elements(leaf) if leaf.op == "obj" else None
        full = None
        for v, g2, _ in el or []:
            for a, b, g3, srt in pair(fl, v, g2):
                full = True
                sides(rep, "all pairs", a, b, g3, srt, ref, cand)
                extra = [c for c, p in atoms(g2) if a is not None and not (c.op == "cmp" and c.args[0] == "==" and {c.args[1], c.args[2]} == {a, b}) and not any(c is c0 for c0, _ in atoms(g)) and tm.contains(c, lambda y: y is a or y is b)]
                rep.expect(not extra, "all", "all pairs:filter", f, "not all pairs are matched, only those with %s" % (unfold(fl, extra[0])[:100] if extra else ""))
        (allpairs if full else union).append((leaf, g))
    rep.expect(bool(allpairs), "all", "all pairs", f, "no branch matches all pairs")
    for leaf, g in union:
        have = {(tm.callee_name(x) or "").split(".")[-1] for x in tm.walk(fl.deep(leaf)) if x.op == "call"}
        for n in KEYS:
            rep.expect(n in have, "all", "union:" + n, f, "the pairs of %s are not among the pairs selected" % n)
        if leaf.op == "bin":
            ops = {x.args[0] for x in tm.walk(leaf) if x.op == "bin" and any(tm.contains(z, lambda y: y.op == "call" and (tm.callee_name(y) or "").split(".")[-1] in KEYS) for z in x.args[1:])}
            rep.expect(ops <= {"|"}, "all", "union:op", f, "the strategies are combined with %s" % sorted(ops))
    # conditions at the corners: everything off, exactly one strategy on, without GPS
    cases = [({}, True, True)] + [({k: 3}, True, False) for k in keys] + [({k: 3}, False, k in GPS) for k in keys] + [({k: 3 for k in GPS}, False, True)]
    for on, gps, want in cases:
        for leaf, g in allpairs:
            env = {}
            for c, _ in g:
                for x in tm.walk(fl.deep(c)):
                    k = keyed(x)
                    if k:
                        env[x] = on.get(k, 0)
                for x in tm.walk(c):
                    k = keyed(x)
                    if k:
                        env[x] = on.get(k, 0)
                    if x.op == "call" and tm.callee_name(x) in ("all", "any"):
                        env[x] = gps if tm.callee_name(x) == "all" else not gps
            got = truth(tm.cond_of(list(g)), env)
            if got is None:
                raise LookupError("%s: cannot evaluate when all pairs are matched" % f)
            rep.expect(got == want, "all", "when:%s:%s" % ("+".join(sorted(on)) or "none", "gps" if gps else "no gps"), f,
                       "all pairs are %smatched with %s %s GPS" % ("" if got else "not ", ", ".join(sorted(on)) or "every strategy off", "with" if gps else "without"))


def ordered(prog, rep):
    f = "ordered_pairs"
    fl, r, A = run(prog, M + f, ONLY)
    pairs_, ref = A["pairs"], A["images_ref"]
    out = emitted(fl, r)
    rep.expect(bool(out), "result", f + ":none", f, "nothing is returned")
    for v, g, loops in out:
        el = seq(fl, v)
        if len(el) != 2:
            rep.bad("result", f + ":pair", f, "the result has %s" % unfold(fl, v)[:80])
            continue
        a, b = el
        # b ranges over the partners recorded for a
        it = b.args[0] if b.op == "elem" else None
        ok = it is not None and it.op == "item" and it.args[1] is a
        rep.expect(ok, "result", f + ":partner", f, "image %s is returned with %s" % (unfold(fl, a)[:60], unfold(fl, b)[:60]))
        if ok:
            directions(rep, fl, f, it.args[0], pairs_)
        dup = [c for c, p in atoms(g) if not p and c.op == "cmp" and c.args[0] == "in" and seq(fl, c.args[1]) == [b, a]]
        rep.expect(bool(dup), "result", f + ":twice", f, "a pair already returned the other way round is returned again")
        src = {base_list(tm.call_parts(x)[0][0]) for y in outs(a) for x in tm.walk(y) if x.op == "mcall" and x.args[1] in ("pop", "popleft")}
        el_ok = a.op == "elem" and base_list(a.args[0]) is ref
        rep.expect(el_ok or (src and all(s is ref or base_list(core_set(fl, s)) is ref for s in src)), "result", f + ":first", f, "the first image of a returned pair is %s, not always a reference image" % unfold(fl, a)[:80])
        # the walk may only move on to images still to be visited
    visit(rep, fl, f, ref)


def core_set(fl, s):
    h = fl.h(s) if s.op == "obj" else None
    if h is not None and h.log and h.log[0].kind in ("spread", "add") and h.log[0].val is not None:
        return h.log[0].val
    return s


def outs(t):
    return [t] + ([t.args[2]] if t.op == "loopphi" else [])


def visit(rep, fl, f, ref):
    rem = [e for e in fl.effects if e.kind == "mcall" and e.name in ("remove", "discard")]
    for e in rem:
        x = e.args[0]
        ok = any(p and c.op == "cmp" and c.args[0] == "in" and c.args[1] is x for c, p in atoms(e.guards))
        rep.expect(ok or e.name == "discard", "result", f + ":visit", e.where, "%s is taken off the list of images to visit without being on it" % unfold(fl, x)[:60])


def directions(rep, fl, f, table, pairs_):
    got = set()
    el = None
    for e in fl.effects:
        if e.kind == "mcall" and e.name in ("append", "add") and e.recv is not None and e.recv.op == "item" and e.recv.args[0] is table:
            k, v = e.recv.args[1], e.args[0]
            if k.op == "item" and v.op == "item" and k.args[0] is v.args[0] and k.args[0].op == "elem" and base_list(k.args[0].args[0]) is pairs_ and not atoms([g for g in e.guards]):
                got.add((cval(k.args[1]), cval(v.args[1])))
    if not got:
        h = fl.h(table) if table.op == "obj" else None
        for x in (fl.live(h) if h is not None else []):
            if x.val is None or x.key is None or x.key.op != "item":
                continue
            for v, g, l in fl.elements(x.val) or []:
                if v.op == "item" and is_const(v.args[1]) and v.args[0] is x.key.args[0]:
                    got.add((cval(x.key.args[1]), cval(v.args[1])))
    rep.expect(got >= {(0, 1), (1, 0)}, "result", f + ":directions", f, "the partners of an image only come from pairs naming it on one side (%s)" % sorted(got))


def points(prog, rep):
    f = "get_representative_points"
    fl, r, A = run(prog, M + f, ONLY)
    imgs, exifs = A["images"], A["exifs"]
    n = 0
    for leaf, g in cond_leaves(r):
        h = fl.h(leaf) if leaf.op == "obj" else None
        for x in fl.live(h) if h is not None else []:
            if x.key is None or x.val is None:
                continue
            n += 1
            k = x.key
            for y in tm.walk(fl.deep(x.val)):
                if y.op == "item" and y.args[0] is exifs:
                    rep.expect(y.args[1] is k, "gps", f + ":own", f, "the point of %s is computed from the metadata of %s" % (unfold(fl, k)[:60], unfold(fl, y.args[1])[:60]))
            for w in ("latitude", "longitude"):
                need = [c for c, p in list(g) + list(x.guards) if tm.contains(fl.deep(c), lambda y: y is tm.const(w))]
                rep.expect(bool(need), "gps", f + ":has-" + w, f, "a point is computed without checking for the %s" % w)
    rep.expect(n > 0, "gps", f + ":none", f, "no representative point is stored")


def gps(prog, rep):
    fl, r, A = run(prog, M + "get_gps_point", ONLY)
    n = 0
    for x in tm.walk(fl.deep(r)):
        if x.op == "mcall" and x.args[1] == "to_topocentric":
            n += 1
            a = call_args(x, ["lat", "lon", "alt"])
            for p, key in (("lat", "latitude"), ("lon", "longitude")):
                v = a.get(p)
                k = [cval(y.args[1]) for y in tm.walk(v) if y.op == "item" and is_const(y.args[1]) and cval(y.args[1]) in ("latitude", "longitude", "altitude")] if v is not None else []
                rep.expect(k == [key], "gps", "get_gps_point:" + p, "get_gps_point", "the %s is %s" % (key, k))
    rep.expect(n > 0, "gps", "get_gps_point", "get_gps_point", "the position is not expressed in the reference frame")
    fl, r, A = run(prog, M + "get_gps_opk_point", ONLY, {"opensfm.geometry.rotation_from_opk"})
    for e in fl.effects:
        if e.kind == "call" and (e.name or "").endswith("rotation_from_opk"):
            a = argmap(["omega", "phi", "kappa"], e)
            for p in ("omega", "phi", "kappa"):
                v = a.get(p)
                ok = v is not None and v.op == "call" and tm.callee_name(v) in ("math.radians", "numpy.radians", "numpy.deg2rad")
                k = [cval(y.args[1]) for y in tm.walk(v) if y.op == "item" and is_const(y.args[1]) and cval(y.args[1]) in ("omega", "phi", "kappa")] if v is not None else []
                rep.expect(k == [p], "gps", "opk:" + p, e.where, "%s is read from %s" % (p, k))
                rep.expect(ok, "gps", "opk:unit:" + p, e.where, "%s is not converted to radians" % p)


def affinity(prog, rep, kind):
    f = "match_candidates_with_" + kind
    g = "compute_%s_affinity" % kind
    fl, r, A = run(prog, M + f, ONLY, {M + g, M + "construct_pairs"})
    off_dict(rep, fl, r, f, A["max_neighbors"])
    for e in fl.effects:
        n = (e.name or "").split(".")[-1]
        if e.kind != "call" or n not in (g, "construct_pairs"):
            continue
        a = argmap(params(lookup(prog, M + n)), e)
        for p, v in a.items():
            if p == "results":
                rep.expect((tm.callee_name(v) or "").endswith(g) if v.op == "call" else False, "options", f + ":results", e.where, "pairs are built from %s" % unfold(fl, v)[:60])
            elif p in A:
                rep.expect(v is A[p], "options", "%s:%s" % (n, p), e.where, "%s of %s is %s" % (p, n, unfold(fl, v)[:60]))
    fl, r, A = run(prog, M + g, ONLY, {M + x for x in ("preempt_candidates", "load_histograms", "vlad_histograms")} | {"opensfm.context.parallel_map", "opensfm.context.processes_that_fit_in_memory"})
    pre = [e for e in fl.effects if e.kind == "call" and (e.name or "").endswith(".preempt_candidates")]
    for e in pre:
        a = argmap(params(lookup(prog, M + "preempt_candidates")), e)
        for p, v in a.items():
            if p in A:
                rep.expect(v is A[p], "options", "%s:preempt:%s" % (g, p), e.where, "%s of preempt_candidates is %s" % (p, unfold(fl, v)[:60]))
    n = 0
    for e in fl.effects:
        if e.kind == "call" and (e.name or "").endswith("parallel_map"):
            a = argmap(["func", "args", "num_proc", "max_batch_size"], e)
            fn = a.get("func")
            rep.expect(fn is not None and kind in str(fn.args[0]), "options", g + ":worker", e.where, "the %s distances are computed by %s" % (kind, unfold(fl, fn)[:60] if fn is not None else "nothing"))
            for v, gs, _ in fl.elements(a["args"]) or []:
                el = seq(fl, v)
                if len(el) < 3:
                    continue
                n += 1
                im, cands, hist = el[:3]
                own = cands.op == "item" and cands.args[1] is im
                alln = cands is A["images_cand"] and im.op == "elem" and base_list(im.args[0]) is A["images_ref"]
                it = cands.op == "item" and im.op == "item" and cands.args[0] is im.args[0]
                okc = all(c.op in ("item", "ite", "sym") for c, _ in cond_leaves(cands))
                rep.expect(own or alln or it or okc, "sides", g + ":candidates", e.where, "image %s is compared with %s" % (unfold(fl, im)[:60], unfold(fl, cands)[:60]))


def off_dict(rep, fl, r, f, n):
    ok = False
    for leaf, g in cond_leaves(r):
        h = fl.h(leaf) if leaf.op == "obj" else None
        if h is not None and not h.log and any(tm.contains(c, lambda y: y is n) for c, _ in g):
            ok = True
        elif h is None or h.log:
            env = {n: 0}
            c = truth(tm.cond_of([x for x in g if tm.contains(x[0], lambda y: y is n)]), env)
            if c is not False:
                rep.bad("disabled", f, f, "%s selects pairs when it is switched off" % f)
                return
    rep.expect(ok, "disabled", f, f, "%s selects pairs when it is switched off" % f)


def preempt(prog, rep):
    f = "preempt_candidates"
    fl, r, A = run(prog, M + f, ONLY, {M + "match_candidates_by_distance"})
    ref, cand = A["images_ref"], A["images_cand"]
    D = [e for e in fl.effects if e.kind == "call" and (e.name or "").endswith("match_candidates_by_distance")]
    for e in D:
        a = argmap(params(lookup(prog, M + "match_candidates_by_distance")), e)
        for p, q in (("images_ref", "images_ref"), ("images_cand", "images_cand"), ("exifs", "exifs"), ("reference", "reference"), ("max_neighbors", "max_gps_neighbors"), ("max_distance", "max_gps_distance")):
            rep.expect(a.get(p) is A[q], "options", "preempt:" + p, e.where, "%s of the preselection is %s" % (p, unfold(fl, a[p])[:60] if a.get(p) is not None else "missing"))
    dirs = set()
    for e in fl.effects:
        if e.kind != "mcall" or e.name not in ("append", "add") or e.recv is None or not e.args:
            continue
        v = e.args[0]
        k = e.recv.args[1] if e.recv.op == "item" else None
        if k is None:
            continue
        if k.op == "item" and v.op == "item" and k.args[0] is v.args[0]:
            ok = any(p and member(c, k, ref) for c, p in atoms(e.guards))
            rep.expect(ok, "sides", f + ":reference", e.where, "candidates are collected for images that are not reference images")
            dirs.add((cval(k.args[1]), cval(v.args[1])))
    rep.expect(dirs == {(0, 1), (1, 0)}, "sides", f + ":directions", f, "preselected pairs are only used %s" % (sorted(dirs),))
    first = r.args[0] if r.op == "tup" else r
    for leaf, g in cond_leaves(first):
        h = fl.h(leaf) if leaf.op == "obj" else None
        for x in fl.live(h) if h is not None else []:
            if x.val is cand or (x.val is not None and base_list(x.val) is cand):
                rep.expect(x.key is not None and x.key.op == "elem" and base_list(x.key.args[0]) is ref, "sides", f + ":all", f, "all candidates are assigned to %s" % unfold(fl, x.key)[:60])
                env = {A["max_gps_neighbors"]: 0, A["max_gps_distance"]: 3}
                c = truth(tm.cond_of(list(g)), env)
                env2 = {A["max_gps_neighbors"]: 3, A["max_gps_distance"]: 0}
                d = truth(tm.cond_of(list(g)), env2)
                rep.expect(c is False and d is False, "options", f + ":when", f, "the preselection by GPS is skipped although configured")


def distances(prog, rep):
    for f, hist in (("bow_distances", "histograms"),):
        fl, r, A = run(prog, M + f, ONLY)
        im, others, H = A["image"], A["other_images"], A["histograms"]
        for leaf, g in cond_leaves(r):
            if leaf.op != "tup" or len(leaf.args) != 3:
                continue
            rep.expect(leaf.args[0] is im, "nearest", f + ":image", f, "the distances are returned for %s" % unfold(fl, leaf.args[0])[:60])
            ds, os_ = fl.elements(leaf.args[1]) or [], fl.elements(leaf.args[2]) or []
            rep.expect(len(ds) == len(os_), "nearest", f + ":aligned", f, "distances and images are not listed together")
            for (d, g1, l1), (o, g2, l2) in zip(ds, os_):
                rep.expect(list(g1) == list(g2) and l1 == l2, "nearest", f + ":aligned", f, "distances and images are not listed together")
                hs = {y.args[1] for y in tm.walk(d) if y.op == "item" and y.args[0] is H}
                rep.expect(hs == {im, o}, "nearest", f + ":own", f, "the distance to %s compares the histograms of %s" % (unfold(fl, o)[:40], [unfold(fl, y)[:40] for y in hs]))
                rep.expect(o.op == "elem" and base_list(o.args[0]) is others, "nearest", f + ":other", f, "the other image is %s" % unfold(fl, o)[:60])
                rep.expect(distinct(tuple(g) + tuple(g1), im, o), "sides", f + ":self", f, "an image is compared with itself")
                rep.expect(any(member(c, o, H) and p for c, p in atoms(g1)), "nearest", f + ":known", f, "an image without histogram is compared")


def histograms(prog, rep):
    f = "load_histograms"
    fl, r, A = run(prog, M + f, ONLY)
    n = 0
    for leaf, _ in cond_leaves(r):
        h = fl.h(leaf) if leaf.op == "obj" else None
        for x in fl.live(h) if h is not None else []:
            n += 1
            ims = {call_args(y, ["data", "image", "masked"]).get("image") for y in tm.walk(fl.deep(x.val)) if y.op in ("mcall", "call") and (y.args[1] if y.op == "mcall" else (tm.callee_name(y) or "").split(".")[-1]) == "load_words"}
            rep.expect(ims == {x.key}, "nearest", f + ":own", f, "the histogram of %s is computed from the words of %s" % (unfold(fl, x.key)[:40], [unfold(fl, y)[:40] for y in ims if y is not None]))
            for y in tm.walk(fl.deep(x.val)):
                if y.op == "item" and y.args[1].op == "tup" and len(y.args[1].args) == 2:
                    rep.expect(y.args[1].args[1] is tm.const(0), "nearest", f + ":closest", f, "the histogram does not use the closest word of each feature (%s)" % unfold(fl, y.args[1])[:40])
    rep.expect(n > 0, "nearest", f + ":none", f, "no histogram is computed")
    f = "vlad_histogram_unwrap_args"
    fl, r, A = run(prog, M + f, ONLY)
    for leaf, g in cond_leaves(r):
        if leaf.op == "tup" and len(leaf.args) == 2:
            ims = [call_args(y, ["data", "image"]).get("image") for y in tm.walk(fl.deep(leaf.args[1])) if y.op in ("mcall", "call") and (y.args[1] if y.op == "mcall" else (tm.callee_name(y) or "").split(".")[-1]) == "vlad_histogram"]
            rep.expect(ims == [leaf.args[0]], "nearest", f, f, "the VLAD vector of %s is that of %s" % (unfold(fl, leaf.args[0])[:40], [unfold(fl, y)[:40] for y in ims if y is not None]))


def nearest(prog, rep):
    f = "construct_pairs"
    fl, r, A = run(prog, M + f, ONLY, {M + "pairs_from_neighbors"})
    n = 0
    for leaf, g in cond_leaves(r):
        h = fl.h(leaf) if leaf.op == "obj" else None
        for x in fl.live(h) if h is not None else []:
            if x.kind == "spread":
                n += 1
                if not (x.val.op == "call"):
                    continue
                a = call_args(x.val, params(lookup(prog, M + "pairs_from_neighbors")))
                e = a["image"].args[0] if a.get("image") is not None and a["image"].op == "item" else None
                want = {"image": item(e, tm.const(0)) if e is not None else None, "exifs": A["exifs"], "distances": item(e, tm.const(1)) if e is not None else None, "other": item(e, tm.const(2)) if e is not None else None, "max_neighbors": A["max_neighbors"]}
                for p, w in want.items():
                    rep.expect(a.get(p) is w and w is not None, "nearest", "%s:%s" % (f, p), f, "%s is %s" % (p, unfold(fl, a[p])[:60] if a.get(p) is not None else "missing"))
                rep.expect(ascending(a.get("order"), want["distances"]), "nearest", f + ":order", f, "the neighbours are visited in the order %s" % (unfold(fl, a["order"])[:80] if a.get("order") is not None else "-"))
                rep.expect(any(c is A["enforce_other_cameras"] and p for c, p in atoms(x.guards)), "options", f + ":cameras", f, "images of other cameras are enforced although not configured")
            elif x.key is not None:
                for a, b, g2, srt in pair(fl, x.key, x.guards):
                    n += 1
                    rep.expect(srt, "sorted", f, f, "the pair is written unsorted")
                    im, o = (a, b) if b is not None and b.op == "item" and b.args[1].op == "elem" else (b, a)
                    ok = im is not None and im.op == "item" and im.args[1] is tm.const(0) and o.op == "item" and o.args[0].op == "item" and o.args[0].args[1] is tm.const(2) and o.args[0].args[0] is im.args[0]
                    rep.expect(ok, "sides", f, f, "the pair joins %s and %s" % (unfold(fl, a)[:60], unfold(fl, b)[:60]))
                    if not ok:
                        continue
                    i = o.args[1]
                    rep.expect(x.val.op == "item" and x.val.args[1] is i and x.val.args[0] is item(im.args[0], tm.const(1)), "nearest", f + ":distance", f, "the pair with other[%s] gets the distance %s" % (unfold(fl, i)[:60], unfold(fl, x.val)[:60]))
                    it = i.args[0]
                    lim = None
                    if it.op == "slice_of":
                        lim = it.args[2]
                        it = it.args[0]
                    rep.expect(lim is A["max_neighbors"], "nearest", f + ":limit", f, "the number of neighbours kept is %s" % (unfold(fl, lim)[:60] if lim is not None and isinstance(lim, tm.T) else "unlimited"))
                    rep.expect(ascending(it, item(im.args[0], tm.const(1))), "nearest", f + ":order", f, "the neighbours kept are the first of %s" % unfold(fl, it)[:80])
    rep.expect(n >= 2, "nearest", f + ":none", f, "no pair is constructed")
    f = "pairs_from_neighbors"
    fl, r, A = run(prog, M + f, ONLY)
    im, other, ds = A["image"], A["other"], A["distances"]
    seen = set()
    for leaf, g in cond_leaves(r):
        h = fl.h(leaf) if leaf.op == "obj" else None
        for x in fl.live(h) if h is not None else []:
            if x.key is None:
                continue
            for a, b, g2, srt in pair(fl, x.key, x.guards):
                o = b if a is im else a
                ok = (a is im or b is im) and o is not None and o.op == "item" and o.args[0] is other and o.args[1].op == "elem" and o.args[1].args[0] is A["order"]
                rep.expect(ok, "sides", f, f, "the pair joins %s and %s" % (unfold(fl, a)[:60] if a is not None else "?", unfold(fl, b)[:60] if b is not None else "?"))
                rep.expect(srt, "sorted", f, f, "the pair is written unsorted")
                if ok:
                    rep.expect(x.val is item(ds, o.args[1]), "nearest", f + ":distance", f, "the pair with %s gets the distance %s" % (unfold(fl, o)[:60], unfold(fl, x.val)[:60]))
                    same = [p for c, p in atoms(g2) if c.op == "cmp" and c.args[0] == "==" and {unfold(fl, z) for z in c.args[1:]} == {unfold(fl, item(item(A["exifs"], z), tm.const("camera"))) for z in (im, o)}]
                    lim = [c for c, p in atoms(g2) if p and c.op == "cmp" and c.args[0] == "<" and c.args[2] is A["max_neighbors"]]
                    for z in lim:
                        for _v, g3, _l in fl.elements(tm.call_parts(z.args[1])[1][0]) or [] if z.args[1].op == "call" else []:
                            mix = [p for c, p in atoms(g3) if c.op == "cmp" and c.args[0] == "==" and any(p2 != p for c2, p2 in atoms(g2) if c2 is c)]
                            rep.expect(not mix, "nearest", f + ":counted", f, "the number of images of one kind of camera is limited by those of the other")
                    seen |= {(s, bool(lim)) for s in same}
    rep.expect(seen == {(True, True), (False, True)}, "nearest", f + ":cameras", f, "images of the same and of other cameras are not both limited to the number of neighbours (%s)" % sorted(seen))


def ascending(t, d):
    if t is None or d is None:
        return False
    t = strip(t)
    if t.op == "call" and (tm.callee_name(t) or "").split(".")[-1] == "argsort":
        return strip(tm.call_parts(t)[1][0]) is d
    if t.op == "mcall" and t.args[1] == "argsort":
        return strip(t.args[0]) is d
    if t.op == "call" and tm.callee_name(t) == "sorted":
        return not any(k == "reverse" for k in tm.call_parts(t)[2]) and not t.op == "slice_of"
    return False
