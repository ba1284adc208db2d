from checks.util import argmap, atoms, effects, items, lookup, run, strip
from sa import terms as tm
from sa.fold import Fold, worlds
from sa.grid import FULL, Grid, Rows, Unread, full
from sa.linalg import Lin
from sa.match import leaves, unfold
from sa.terms import attr, const, cval, is_const, item, mk

TECHNIQUE = "value-flow analysis with column-wise polynomial normal forms: pixel/normalized/upright coordinate maps are compared entry by entry with their definition; selections and orders applied to parallel arrays are compared as index chains"
EXPLANATION = (
    "Coordinate conversions are evaluated column by column to polynomials over widths, heights and coordinates and compared with the definition "
    "(for every EXIF orientation, with and without an explicit target size). The arrays saved with the features are decomposed into a source and a chain "
    "of selections, which must be the same for all of them. The queue protocol is followed from the tuples put in to the parameters of the detection."
)
F = "opensfm.features."
FP = "opensfm.features_processing."
M = "opensfm.masking."
TYPES = ("SIFT", "SURF", "AKAZE", "HAHOG", "ORB")


def check(prog, rep):
    rep.rule("normalized", "normalized coordinates: origin at the image centre, unit the larger side, pixel centres at half")
    rep.rule("inverse", "denormalizing undoes normalizing")
    rep.rule("upright", "upright coordinates follow the EXIF orientation")
    rep.rule("mask", "a feature is masked by the pixel it lies on")
    rep.rule("combine", "a pixel is kept when every mask keeps it")
    rep.rule("extract", "points, sizes and colours belong to the image the detection ran on")
    rep.rule("aligned", "points, descriptors, colours, segmentation and words of an image are selected and ordered alike")
    rep.rule("skip", "features are recomputed when forced or when features or needed words are missing")
    rep.rule("queue", "every image is read once and reaches the detection with its own data; all workers are told to stop")
    rep.part(normalized, prog, rep)
    rep.part(denormalized, prog, rep)
    rep.part(upright, prog, rep)
    rep.part(lookup_mask, prog, rep)
    rep.part(baked, prog, rep)
    rep.part(segmentation, prog, rep)
    rep.part(combined, prog, rep)
    rep.part(sources, prog, rep)
    rep.part(resized, prog, rep)
    rep.part(extraction, prog, rep)
    rep.part(keypoints, prog, rep)
    rep.part(detection, prog, rep)
    rep.part(masked, prog, rep)
    rep.part(reading, prog, rep)
    rep.part(consuming, prog, rep)
    rep.part(planning, prog, rep)
    rep.part(panorama, prog, rep)
    rep.minimum("normalized", 2)
    rep.minimum("inverse", 2)
    rep.minimum("upright", 16)
    rep.minimum("extract", 10)
    rep.minimum("aligned", 4)


def larger(t, w, h):
    """t is max(w, h), whatever the casts."""
    if t.op != "call" or tm.callee_name(t) != "max":
        return False
    a = tm.call_parts(t)[1]
    return {strip(x) for x in a} == {w, h} and len(a) == 2


class Px(Grid):
    """Grid in which the larger side is one symbol."""

    def __init__(self, fl, rows, w, h, fold=None, **kw):
        super().__init__(fl, rows, **kw)
        self.w, self.h, self.fold = w, h, fold or Fold()
        self.S = tm.sym("larger side")

    def __call__(self, t):
        t = self.fold(t)
        if larger(t, self.w, self.h):
            return self.lin.atom(self.S)
        if t.op == "ite":
            c = self.fold.truth(t.args[0])
            if c.op == "cmp" and c.args[0] == "<" and {strip(c.args[1]), strip(c.args[2])} == {self.w, self.h}:
                a, b = strip(t.args[1]), strip(t.args[2])
                big, small = (c.args[2], c.args[1])
                if a is strip(big) and b is strip(small):
                    return self.lin.atom(self.S)
        return super().__call__(t)

    def always(self, e):
        """Does the write happen: True, False, None (unknown).  What the result presupposes is taken as given."""
        return state(self.fold, [x for x in e.guards if x not in self.given])

    given = ()

    def key(self, t):
        return self.fold(t)


def arr(fl, t):
    return fl.deep(t) if t.op not in ("obj",) else t


def normalized(prog, rep):
    f = F + "normalized_image_coordinates"
    fl, r, A = run(prog, f, {"opensfm.features"})
    c, w, h = list(A.values())
    g = Px(fl, {c: 2}, w, h)
    v = g.replay()(r)
    for i, s in ((0, w), (1, h)):
        want = norm_of(g, g(item(c, mk("tup", FULL, const(i)))), s)
        got = v.col(i) if isinstance(v, Rows) else None
        rep.expect(got == want, "normalized", "to:%d" % i, f, "coordinate %d becomes %s" % (i, g.lin.show(got) if got is not None else "?"))


def norm_of(g, p, s):
    lin = g.lin
    return lin.mul(lin.add(lin.add(p, half(lin)), lin.mul(half(lin), lin.norm(s)), -1), lin.inv(lin.atom(g.S), g.S))


def half(lin):
    from fractions import Fraction
    return {((), ()): Fraction(1, 2)}


def denormalized(prog, rep):
    f = F + "denormalized_image_coordinates"
    fl, r, A = run(prog, f, {"opensfm.features"})
    c, w, h = list(A.values())
    g = Px(fl, {c: 2}, w, h)
    v = g.replay()(r)
    for i, s in ((0, w), (1, h)):
        got = v.col(i) if isinstance(v, Rows) else None
        p = g(item(c, mk("tup", FULL, const(i))))
        back = norm_of(g, got, s) if got is not None else None
        rep.expect(back == p, "inverse", "from:%d" % i, f, "coordinate %d becomes %s, which normalizes to %s" % (i, g.lin.show(got) if got is not None else "?", g.lin.show(back) if back is not None else "?"))


# x and y of the upright image as (axis, mirrored) of the stored one
EXIF = {1: ((0, 0), (1, 0)), 2: ((0, 1), (1, 0)), 3: ((0, 1), (1, 1)), 4: ((0, 0), (1, 1)), 5: ((1, 0), (0, 0)), 6: ((1, 1), (0, 0)), 7: ((1, 1), (0, 1)), 8: ((1, 0), (0, 1))}


def upright(prog, rep):
    f = "opensfm.upright.opensfm_to_upright"
    for o in range(1, 9):
        for new in (False, True):
            fl, r, A = run(prog, f, {"opensfm.upright"}, given={"orientation": const(o)} if new else {"orientation": const(o), "new_width": tm.NONE, "new_height": tm.NONE})
            c, w, h = A["coords"], A["width"], A["height"]
            nw, nh = A["new_width"], A["new_height"]
            facts = {mk("cmp", "is", tm.NONE, x): False for x in (nw, nh) if x is not tm.NONE}
            facts.update({mk("cmp", "is", x, tm.NONE): False for x in (nw, nh) if x is not tm.NONE})
            g = Px(fl, {c: 2}, w, h, Fold(facts))
            v = g.replay()(r)
            lin = g.lin
            n = [lin.add(lin.mul(lin.mul(lin.atom(g.S), lin.inv(lin.norm(s), s)), g(item(c, mk("tup", FULL, const(i))))), half(lin)) for i, s in ((0, w), (1, h))]
            size = (nw, nh) if new else ((w, h) if o < 5 else (h, w))
            for i in (0, 1):
                ax, mirror = EXIF[o][i]
                u = lin.add(lin.const(1), n[ax], -1) if mirror else n[ax]
                want = lin.mul(lin.norm(size[i]), u)
                got = v.col(i) if isinstance(v, Rows) else None
                rep.expect(got == want, "upright", "%d:%s:%s" % (o, "xy"[i], "given" if new else "own"), f,
                           "orientation %d: the upright %s is %s" % (o, "xy"[i], lin.show(got)[:160] if got is not None else "?"))


def pixel(fl, t):
    """t = picture[y, x] with whole pixels: (picture, points, kind of rounding) or None."""
    t = fl.deep(t) if t.op != "item" else t
    t = strip(t)
    if t.op != "item" or t.args[1].op != "tup" or len(t.args[1].args) != 2:
        return None
    pts, kinds = [], []
    for k, col in zip(t.args[1].args, (1, 0)):
        ks = []
        while True:
            if k.op == "mcall" and k.args[1] in ("astype", "round"):
                ks.append(k.args[1])
                k = k.args[0]
            elif k.op == "call" and tm.callee_name(k) in ("numpy.round", "numpy.floor", "numpy.rint", "int", "numpy.around"):
                ks.append(tm.callee_name(k).split(".")[-1])
                k = tm.call_parts(k)[1][0]
            elif k.op == "item" and k.args[1].op == "tup" and len(k.args[1].args) == 2 and full(k.args[1].args[0]) and is_const(k.args[1].args[1]):
                if cval(k.args[1].args[1]) != col:
                    return (t.args[0], None, "axes")
                k = k.args[0]
            else:
                break
        pts.append(k)
        kinds.append("round" if any(x in ("round", "rint", "around") for x in ks) else "floor")
    if pts[0] is not pts[1] or kinds[0] != kinds[1]:
        return (t.args[0], None, "mixed")
    return t.args[0], pts[0], kinds[0]


UP = "opensfm.upright.opensfm_to_upright"
UPP = ["coords", "width", "height", "orientation", "new_width", "new_height"]


def positions(fl, t):
    """The arguments of the upright conversion a term is."""
    if t.op == "call" and tm.callee_name(t) == UP:
        return tm.call_parts(t)[2] if not tm.call_parts(t)[1] else None
    return None


def first_two(t, P):
    b, ks = items(t)
    return t is P or (b is P and len(ks) == 2 and full(ks[0]) and ks[1].op == "slice" and ks[1].args[1] is const(2) and ks[1].args[0] in (tm.NONE, const(0)))


def lookup_of(rep, rule, name, fl, val, picture, points, size, orient, where, fold):
    val = strip(fold(val))
    px = pixel(fl, val)
    if px is None:
        rep.bad(rule, name + ":lookup", where, "the value is %s" % unfold(fl, val)[:100])
        return
    pic, pts, kind = px
    rep.expect(fold(pic) is picture, rule, name + ":picture", where, "%s is looked up" % unfold(fl, pic)[:80])
    rep.expect(pts is not None, rule, name + ":axes", where, "the picture is not indexed by row (y) and column (x) of the same points")
    if pts is None:
        return
    rep.expect(kind == "floor", rule, name + ":floor", where, "the pixel is rounded: the last one would fall outside")
    kw = positions(fl, fold(pts))
    if kw is None:
        rep.bad(rule, name + ":upright", where, "the pixel positions are %s" % unfold(fl, pts)[:100])
        return
    kw = {k: fold(v) for k, v in kw.items()}
    rep.expect(first_two(kw.get("coords"), points), rule, name + ":points", where, "the positions of %s" % unfold(fl, kw.get("coords"))[:80])
    rep.expect(kw.get("width") in size[0] and kw.get("height") in size[1], rule, name + ":size", where, "the image has size %s x %s" % (unfold(fl, kw["width"])[:60], unfold(fl, kw["height"])[:60]))
    rep.expect(kw.get("orientation") in orient, rule, name + ":orientation", where, "the orientation is %s" % unfold(fl, kw["orientation"])[:60])
    sh = attr(picture, "shape")
    ok = kw.get("new_width") is item(sh, const(1)) and kw.get("new_height") is item(sh, const(0))
    rep.expect(ok, rule, name + ":new", where, "the picture has size %s x %s" % tuple(unfold(fl, kw[k])[:60] if k in kw else "?" for k in ("new_width", "new_height")))


def sized(x):
    """Width and height of an image array, as they may be spelled."""
    sh = attr(x, "shape")
    return {item(sh, const(1)), item(mk("slice_of", sh, tm.NONE, const(2), tm.NONE), const(1))}, {item(sh, const(0)), item(mk("slice_of", sh, tm.NONE, const(2), tm.NONE), const(0))}


def exif_of(e):
    return {item(e, const("width"))}, {item(e, const("height"))}, {item(e, const("orientation")), mk("mcall", e, "get", (const("orientation"), const(1)), ())}


def orientations(e, terms):
    """Ways of reading the orientation tag among the given terms."""
    out = set()
    for t in terms:
        for z in tm.walk(t):
            if z is item(e, const("orientation")):
                out.add(z)
            if z.op == "mcall" and z.args[1] == "get" and z.args[0] is e:
                a = tm.call_parts(z)[1]
                if a and is_const(a[0]) and cval(a[0]) == "orientation" and (len(a) == 1 or is_const(a[1]) and cval(a[1]) == 1):
                    out.add(z)
    return out


def nones(*ts):
    d = {}
    for t, v in ts:
        d[mk("cmp", "is", tm.NONE, t)] = v
        d[mk("cmp", "is", t, tm.NONE)] = v
    return d


def lookup_mask(prog, rep):
    f = M + "load_features_mask"
    fl, r, A = run(prog, f, {"opensfm.masking"}, [UP])
    data, image, P, mi = A["data"], A["image"], A["points"], A["mask_image"]
    ne = lambda c: True if c.op == "nonempty" and c.args[0] is P else None
    fold = Fold(nones((P, False), (mi, False)), ne)
    v = fl.deep(fold(fl.deep(r)))
    ex = mk("mcall", data, "load_exif", image)
    ex = next((e.result for e in effects(fl, ("mcall",), "load_exif") if e.recv is data and e.args[0] is image), None)
    if ex is None:
        rep.bad("mask", "features:exif", f, "the size of the image is not taken from its own record")
        return
    lookup_of(rep, "mask", "features", fl, ext_arg(fl, v), mi, P, ({item(ex, const("width"))}, {item(ex, const("height"))}), orientations(ex, [v]), f, fold)
    # no mask at all
    lm = next((e for e in effects(fl, ("mcall",), "load_mask") if e.recv is data), None)
    ig = next((e for e in effects(fl, ("mcall",), "segmentation_ignore_values") if e.recv is data), None)
    sg = next((e for e in effects(fl, ("mcall",), "load_segmentation") if e.recv is data), None)
    for e, n in ((lm, "mask"), (ig, "values"), (sg, "segmentation")):
        rep.expect(e is not None and e.args and e.args[0] is image, "mask", "own:" + n, f, "the %s is not that of the image" % n)
    if not (lm and ig and sg):
        return
    for has_m, has_v, has_s in ((0, 0, 0), (0, 1, 0), (1, 0, 0), (0, 1, 1), (1, 1, 0), (1, 1, 1)):
        facts = nones((P, False), (mi, True), (lm.result, not has_m), (sg.result, not has_s))
        facts[ig.result] = bool(has_v)
        t = Fold(facts, lambda c: True if c.op == "nonempty" and c.args[0] is P else (bool(has_v) if c.op == "nonempty" and c.args[0] is ig.result else (False if c.op == "cmp" and c.args[0] == "is" and tm.NONE in c.args[1:] and any(x.op in ("mcall", "loopout", "bin", "obj") for x in c.args[1:] if isinstance(x, tm.T)) else None)))
        v = t(fl.deep(r))
        uses_m = tm.contains(v, lambda x: x is lm.result)
        uses_s = tm.contains(v, lambda x: x is sg.result)
        what = "with%s mask and with%s segmentation" % ("" if has_m else "out", "" if has_v and has_s else "out")
        rep.expect(uses_m == bool(has_m) and uses_s == bool(has_v and has_s), "combine", "used:%d%d%d" % (has_m, has_v, has_s), f, "%s the features are selected by %s" % (what, unfold(fl, v)[:120]))
        if not has_m and not (has_v and has_s):
            n = tm.callee_name(strip_keep(v))
            rep.expect(n == "numpy.ones", "combine", "none:%d%d%d" % (has_m, has_v, has_s), f, "%s the features are selected by %s" % (what, unfold(fl, v)[:120]))


def strip_keep(t):
    return t.args[0] if t.op == "mcall" and t.args[1] == "astype" else t


def ext_arg(fl, v):
    v = strip(v)
    if v.op == "obj":
        h = fl.h(v)
        if h is not None and h.kind == "ext" and h.args:
            return fl.deep(h.args[0])
    if v.op == "cmp" or v.op == "not":
        for x in tm.walk(v):
            if x.op == "item" and x.args[1].op == "tup":
                return x
    return v


def baked(prog, rep):
    f = FP + "bake_segmentation"
    fl, r, A = run(prog, f, {"opensfm.features_processing"}, [UP])
    im, P, ex = A["image"], A["points"], A["exif"]
    srcs = [A["segmentation"], A["instances"]]
    fold = Fold(nones((srcs[0], False), (srcs[1], False)))
    vals = slots(fl, r, fold)
    if vals is None or len(vals) != 2:
        rep.bad("mask", "baked:result", f, "the labels are %s" % unfold(fl, fl.deep(r))[:100])
        return
    for v, s, n in zip(vals, srcs, ("segmentation", "instances")):
        w, h = sized(im)
        lookup_of(rep, "mask", "baked:" + n, fl, v, s, P, (w, h), orientations(ex, [fl.deep(v)]), f, fold)
    fold = Fold(nones((srcs[0], True), (srcs[1], True)))
    vals = slots(fl, r, fold)
    rep.expect(vals is not None and all(v is tm.NONE for v in vals), "mask", "baked:missing", f, "without segmentation the labels are %s" % (", ".join(unfold(fl, v)[:40] for v in vals) if vals else "?"))


def slots(fl, r, fold):
    """Final elements of a short list or tuple, writes into its slots included."""
    r = strip(r)
    if r.op == "tup":
        return [fold(fl.deep(x)) for x in r.args]
    if r.op != "obj":
        return None
    h = fl.h(r)
    if h is None:
        return None
    if h.kind == "ext" or h.kind == "iter":
        return slots(fl, h.args[0], fold) if h.args else None
    sets = [e for e in fl.effects if e.kind == "setitem" and e.recv.op == "obj" and any(l.val is e.args[1] for l in h.log)]
    out = []
    for l in h.log:
        if l.kind != "add":
            return None
        if any(e.args[1] is l.val and tuple(e.guards) == tuple(l.guards) for e in sets):
            continue  # recorded by its index below
        on = state(fold, l.guards)
        if on is None:
            return None
        if on:
            out.append(l.val)
    for e in sets:
        on = state(fold, e.guards)
        if on is False:
            continue
        k = e.args[0]
        if on is None or not is_const(k) or not isinstance(cval(k), int) or not -len(out) <= cval(k) < len(out):
            return None
        out[cval(k)] = e.args[1]
    return [fold(fl.deep(x)) for x in out]


def state(fold, guards):
    """Whether guards hold: True, False or None."""
    vs = [fold.truth(g) if p else tm.tnot(fold.truth(g)) for g, p in guards]
    if any(v is tm.FALSE for v in vs):
        return False
    return True if all(v is tm.TRUE for v in vs) else None


def segmentation(prog, rep):
    f = M + "mask_from_segmentation"
    fl, r, A = run(prog, f, {"opensfm.masking"})
    seg, vals = list(A.values())
    d = strip(fl.deep(r))
    ok = False
    said = unfold(fl, d)[:120]
    if d.op == "loopout":
        it, init, nxt = d.args[:3]
        whole = it is vals or strip(it) is vals
        b = strip(init)
        ones = tm.callee_name(b) == "numpy.ones" if b.op == "call" else False
        if b.op == "obj":
            h = fl.h(b)
            ones = h.kind == "ext" and h.cls.args[0] in ("numpy.ones",)
        keep = False
        if nxt.op == "bin" and nxt.args[0] in ("&", "*") and any(x.op == "loopphi" for x in nxt.args[1:]):
            for x in nxt.args[1:]:
                x = strip(x)
                if x.op == "not":
                    c = x.args[0]
                    keep = c.op == "cmp" and c.args[0] == "==" and seg in c.args[1:] and any(z.op == "elem" for z in c.args[1:])
        ok = whole and ones and keep
    if d.op == "call" and tm.callee_name(d) == "numpy.isin":
        _, a, k = tm.call_parts(d)
        ok = a[:1] == (seg,) and strip(a[1]) is vals and is_const(dict(k).get("invert", const(False))) and cval(dict(k)["invert"]) is True
    if not ok:
        for e in fl.effects:
            if e.kind == "setitem" and e.args[0].op == "cmp" and e.args[0].args[0] == "==" and seg in e.args[0].args[1:] and is_const(e.args[1]) and cval(e.args[1]) == 0 and not e.guards and len(e.loops) == 1 and e.loops[0] is vals:
                b = strip(e.recv)
                n = tm.callee_name(b) if b.op == "call" else (fl.h(b).cls.args[0] if b.op == "obj" and fl.h(b).kind == "ext" else None)
                ok = n == "numpy.ones" and strip(r) is b
    rep.expect(ok, "combine", "segmentation", f, "the mask is %s" % said)


def combined(prog, rep):
    f = M + "combine_masks"
    fl, r, A = run(prog, f, {"opensfm.masking"})
    a, b = list(A.values())
    for ha in (0, 1):
        for hb in (0, 1):
            fold = Fold(nones((a, not ha), (b, not hb)), lambda c: None)
            v = fold(fl.deep(r))
            if not (ha and hb):
                want = a if ha else b if hb else tm.NONE
                v = strip(v)
                rep.expect(v is want or not (ha or hb) and v in (a, b), "combine", "%d%d" % (ha, hb), f, "the combined mask is %s" % unfold(fl, v)[:100])
                continue
            for same in worlds([z for z in dict.fromkeys(x for x in tm.walk(v) if x.op == "cmp" and x.args[0] == "==" and any(y.op == "attr" and y.args[1] == "shape" for y in x.args[1:]))], 4):
                t = Fold({**nones((a, False), (b, False)), **same})(v)
                k = kept(fl, t)
                src = None if k is None else {origin(x, a, b) for x in k}
                rep.expect(src == {a, b}, "combine", "both", f, "a pixel is kept when %s" % unfold(fl, t)[:120])
    # sizes
    n = 0
    for e in effects(fl, ("call",), "cv2.resize"):
        n += 1
        kw = dict(e.kwargs)
        size = e.args[1] if len(e.args) > 1 else kw.get("dsize")
        inter = kw.get("interpolation")
        sz = strip(size) if size is not None else None
        ok = sz is not None and sz.op == "tup" and [is_const(x.args[1]) and cval(x.args[1]) if x.op == "item" else None for x in sz.args] == [1, 0] and sz.args[0].args[0] is sz.args[1].args[0]
        rep.expect(ok, "combine", "resize:size", e.where, "a mask is resized to %s, not to (width, height)" % (unfold(fl, sz)[:80] if sz is not None else "?"))
        rep.expect(inter is not None and "INTER_NEAREST" in tm.show(inter), "combine", "resize:nearest", e.where, "a mask is interpolated")
    rep.count("combine", n)


def kept(fl, t):
    """The arrays all of which must be non-zero for t to be non-zero, or None."""
    while t.op == "mcall" and t.args[1] == "astype":
        t = t.args[0]
    if t.op == "not" and t.args[0].op == "cmp" and t.args[0].args[0] == "==":
        x = [y for y in t.args[0].args[1:] if not (is_const(y) and cval(y) == 0)]
        return {x[0]} if len(x) == 1 else None
    if t.op == "cmp" and t.args[0] == "<" and is_const(t.args[1]) and cval(t.args[1]) == 0:
        return {t.args[2]}
    if t.op == "bin" and t.args[0] in ("&", "*"):
        ks = [kept(fl, x) for x in t.args[1:]]
        return None if any(k is None for k in ks) else set().union(*ks)
    if t.op == "and":
        ks = [kept(fl, x) for x in t.args]
        return None if any(k is None for k in ks) else set().union(*ks)
    if t.op == "call":
        n, a = tm.callee_name(t), tm.call_parts(t)[1]
        if n in ("numpy.logical_and", "numpy.minimum", "numpy.fmin"):
            return set().union(*[(kept(fl, x) or {x}) for x in a])
        if n in ("bool", "numpy.array", "numpy.asarray") and a:
            return kept(fl, a[0]) or {a[0]}
    return None


def origin(t, a, b):
    """The mask an array is, possibly resized."""
    t = strip(t)
    if t in (a, b):
        return t
    if t.op == "call" and tm.callee_name(t) == "cv2.resize":
        return origin(tm.call_parts(t)[1][0], a, b)
    if t.op == "ite":
        x, y = origin(t.args[1], a, b), origin(t.args[2], a, b)
        return x if x is y else None
    return None


def sources(prog, rep):
    """Baked labels that the features do not use for masking are still combined with the mask image (see P18); here: whose files."""
    f = M + "_load_combined_mask"
    if lookup(prog, f) is None:
        return
    fl, r, A = run(prog, f, {"opensfm.masking"})
    image = A.get("image")
    for e in fl.effects:
        if e.kind == "mcall" and e.recv is A.get("data") and e.name in ("load_mask", "load_segmentation", "segmentation_ignore_values"):
            rep.expect(e.args and e.args[0] is image, "mask", "own:" + e.name, e.where, "%s of another image" % e.name)


def resized(prog, rep):
    f = F + "resized_image"
    fl, r, A = run(prog, f, {"opensfm.features"})
    im, mx = list(A.values())
    ws, hs = sized(im)
    lin = Lin(fl, everything=True)
    n = 0
    for e in effects(fl, ("call",), "cv2.resize"):
        n += 1
        kw = dict(e.kwargs)
        size = kw.get("dsize", e.args[1] if len(e.args) > 1 else None)
        src = e.args[0] if e.args else kw.get("src")
        rep.expect(src is im, "extract", "resize:image", e.where, "%s is resized" % unfold(fl, src)[:60] if src is not None else "nothing is resized")
        size = strip(size) if size is not None else None
        parts = list(size.args) if size is not None and size.op == "tup" and len(size.args) == 2 else None
        if parts is None:
            rep.bad("extract", "resize:size", e.where, "the size is %s" % (unfold(fl, size)[:80] if size is not None else "?"))
            continue
        scale = []
        for p, own in zip(parts, (ws, hs)):
            p = strip(p)
            num, den = (p.args[1], p.args[2]) if p.op == "bin" and p.args[0] in ("//", "/") and len(p.args) == 3 else (p, None)
            fac = list(num.args[1:]) if num.op == "bin" and num.args[0] == "*" else [num]
            mine = [x for x in fac if x in own]
            rest = [x for x in fac if x not in own]
            rep.expect(len(mine) == 1, "extract", "resize:sides", e.where, "one side of the resized image is %s" % unfold(fl, p)[:80])
            scale.append((tuple(sorted(tm.show(x) for x in rest)), tm.show(den) if den is not None else ""))
        rep.expect(len(set(scale)) == 1, "extract", "resize:aspect", e.where, "width and height are scaled differently: %s" % unfold(fl, size)[:120])
    rep.expect(n > 0, "extract", "resize:none", f, "images are never resized")
    for t, gs in [(x, ()) for x in leaves(fl.deep(r))]:
        t = strip(t)
        ok = t is im or t.op == "call" and tm.callee_name(t) == "cv2.resize"
        rep.expect(ok, "extract", "resize:result", f, "the result is %s" % unfold(fl, t)[:80])


EXT = [F + "extract_features_" + x.lower() for x in TYPES]


def extraction(prog, rep):
    f = F + "extract_features"
    RS = F + "resized_image"
    fl, r, A = run(prog, f, {"opensfm.features"}, EXT + [RS])
    im, cfg, pano = list(A.values())
    ty = item(cfg, const("feature_type"))
    writes = [e.seq for e in fl.effects if e.kind in ("setitem", "aug")]
    first = min(writes) if writes else None
    for kind in TYPES:
        for p in (False, True):
            for look in ("gray", "gray3", "colour"):
                def dec(c, kind=kind, p=p, look=look):
                    if c is pano:
                        return p
                    if c.op != "cmp":
                        return None
                    o = [x for x in c.args[1:] if is_const(x)]
                    v = [x for x in c.args[1:] if not is_const(x)]
                    if len(o) != 1 or len(v) != 1:
                        return None
                    x, k = v[0], cval(o[0])
                    if c.args[0] == "==":
                        if x.op == "mcall" and x.args[1] == "upper" and x.args[0] is ty:
                            return k == kind
                        if x.op == "attr" and x.args[1] == "ndim":
                            return k == ndim(x.args[0], look, im, RS)
                        if x.op == "item" and x.args[0].op == "attr" and x.args[0].args[1] == "shape" and x.args[1] is const(2):
                            return k == (3 if look == "colour" else 1)
                    if c.args[0] == "<" and c.args[2] is x and k == 2:
                        return True
                    if c.args[0] == "in" and x is c.args[1]:
                        return True
                    return None
                fold = Fold({pano: p}, dec)
                v = fold(fl.deep(r))
                w = "%s:%s:%s" % (kind, "panorama" if p else "image", look)
                if v.op != "tup" or len(v.args) != 3:
                    rep.bad("extract", w, f, "the result is %s" % unfold(fl, v)[:120])
                    continue
                pts, desc, col = v.args
                ex = pts.args[0] if pts.op == "item" else None
                if ex is None or pts.args[1] is not const(0) or tm.callee_name(ex) != F + "extract_features_" + kind.lower():
                    rep.bad("extract", w + ":points", f, "the points are %s" % unfold(fl, pts)[:120])
                    continue
                kw = tm.call_parts(ex)[2]
                rep.expect(desc is item(ex, const(1)), "extract", w + ":descriptors", f, "the descriptors are %s" % unfold(fl, desc)[:100])
                rep.expect(kw.get("config") is cfg, "extract", w + ":config", f, "the configuration is not passed on")
                fc = item(cfg, const("feature_min_frames_panorama" if p else "feature_min_frames"))
                rep.expect(kw.get("features_count") is fc, "extract", w + ":count", f, "the number of features is %s" % unfold(fl, kw["features_count"])[:80])
                g, small = picture(fl, kw["image"], im, RS)
                if small is None:
                    rep.bad("extract", w + ":image", f, "the detection runs on %s" % unfold(fl, kw["image"])[:120])
                    continue
                size = item(cfg, const("feature_process_size_panorama" if p else "feature_process_size"))
                rep.expect(tm.call_parts(small)[2].get("max_size") is size, "extract", w + ":size", f, "the image is resized to %s" % unfold(fl, small)[:100])
                rep.expect((g == "RGB2GRAY") == (look == "colour"), "extract", w + ":gray", f, "the image is converted by %s" % g)
                c = strip(col)
                if look != "colour":
                    inner = c
                    if c.op == "mcall" and c.args[1] == "reshape":
                        inner = strip(c.args[0])
                    if inner.op == "call" and tm.callee_name(inner) in ("numpy.repeat", "numpy.tile"):
                        inner = tm.call_parts(inner)[1][0]
                        c = inner
                    else:
                        rep.bad("extract", w + ":gray-colours", f, "the colours of a gray image are %s" % unfold(fl, col)[:100])
                        continue
                px = pixel(fl, c)
                if px is None:
                    rep.bad("extract", w + ":colours", f, "the colours are %s" % unfold(fl, c)[:120])
                    continue
                pic, at, kd = px
                b = picture(fl, pic, im, RS)[1]
                rep.expect(b is small and not gray(fl, pic), "extract", w + ":colour-image", f, "the colours are taken from %s" % unfold(fl, pic)[:100])
                rep.expect(at is pts, "extract", w + ":colour-points", f, "the colours are taken at %s" % (unfold(fl, at)[:100] if at is not None else "x, y instead of y, x"))
                # coordinates
                shp = [x for e in fl.effects if e.kind == "setitem" for y in e.args for x in tm.walk(fold(fl.deep(y))) if x.op == "item" and x.args[0].op == "attr" and x.args[0].args[1] == "shape"]
                wd = next((x for x in shp if x.args[1] is const(1) and picture(fl, x.args[0].args[0], im, RS)[1] is small), None)
                ht = next((x for x in shp if x.args[1] is const(0) and picture(fl, x.args[0].args[0], im, RS)[1] is small), None)
                if wd is None or ht is None:
                    rep.bad("extract", w + ":frame", f, "the points are not normalized with the size of the image the detection ran on")
                    continue
                gr = Px(fl, {pts: 4}, wd, ht, fold)
                gr.given = [x for e in fl.effects if e.kind == "return" and e.fn == (f,) for x in e.guards]
                q = {j: gr(item(pts, mk("tup", FULL, const(j)))) for j in (0, 1, 2)}
                val = gr.replay()(pts)
                for j, s in ((0, wd), (1, ht)):
                    rep.expect(val.col(j) == norm_of(gr, q[j], s), "extract", w + ":xy%d" % j, f, "coordinate %d of a feature becomes %s" % (j, gr.lin.show(val.col(j))[:120]))
                rep.expect(val.col(2) == gr.lin.mul(q[2], gr.lin.inv(gr.lin.atom(gr.S), gr.S)), "extract", w + ":scale", f, "the size of a feature becomes %s" % gr.lin.show(val.col(2))[:120])
    for e in fl.effects:
        if e.kind == "mcall" and e.name in ("round", "astype") and first is not None and e.recv is not None and any(x.op == "call" and tm.callee_name(x) in EXT for x in tm.walk(fl.deep(e.recv))):
            rep.expect(e.seq < first, "extract", "colours:before", e.where, "colours are looked up with coordinates that are already normalized")


def ndim(x, look, im, RS):
    if look == "gray" and (x is im or tm.callee_name(x) == RS):
        return 2
    return 3


def gray(fl, t):
    return tm.contains(t, lambda x: x.op == "call" and tm.callee_name(x) == "cv2.cvtColor")


def picture(fl, t, im, RS):
    """(conversion, resized image) a picture comes from."""
    g = None
    while True:
        t = strip(t)
        n = tm.callee_name(t) if t.op == "call" else None
        if n == "cv2.cvtColor":
            a = tm.call_parts(t)[1]
            g = tm.show(a[1]).split("COLOR_")[-1]
            t = a[0]
        elif n in ("numpy.expand_dims", "numpy.squeeze", "numpy.atleast_3d"):
            t = tm.call_parts(t)[1][0]
        elif t.op == "item" and t.args[1].op == "tup" and any(x is tm.NONE for x in t.args[1].args):
            t = t.args[0]
        elif n == RS:
            k = tm.call_parts(t)[2]
            return g, t if k.get("image") is im else None
        else:
            return g, None


def keypoints(prog, rep):
    """OpenCV keypoints become x, y, size, angle."""
    n = 0
    for x in ("sift", "surf", "orb"):
        f = F + "extract_features_" + x
        if lookup(prog, f) is None:
            continue
        fl, r, A = run(prog, f, {"opensfm.features"})
        for h in list(fl.heap.values()):
            for l in h.log if h.kind in ("list", "iter") else []:
                v = l.val
                if l.kind != "add" or v is None or v.op != "tup" or not any(x.op == "attr" and x.args[1] in ("size", "angle") for x in v.args):
                    continue
                n += 1
                kp = next(x.args[0] for x in v.args if x.op == "attr" and x.args[1] in ("size", "angle"))
                want = (item(attr(kp, "pt"), const(0)), item(attr(kp, "pt"), const(1)), attr(kp, "size"), attr(kp, "angle"))
                rep.expect(v.args == want, "extract", x + ":keypoint", f, "a keypoint becomes %s" % unfold(fl, v)[:200])
                src = kp.args[0] if kp.op == "elem" else None
                ok = src is not None and src.op == "item" and src.args[1] is const(0) and src.args[0].op == "mcall" and src.args[0].args[1] in ("compute", "detectAndCompute")
                rep.expect(ok, "extract", x + ":described", f, "the points returned are %s, not those that were described" % unfold(fl, kp)[:100])
    rep.expect(n >= 3, "extract", "keypoints", F + "extract_features_sift", "keypoints are not converted")


def chain(fl, t):
    """(source, [selections]) of an array."""
    ks = []
    t = strip(t)
    while True:
        if t.op == "item":
            k = t.args[1]
            if is_const(k):
                break
            if k.op == "tup" and len(k.args) == 2 and full(k.args[1]):
                k = k.args[0]
            ks.append(k)
            t = strip(t.args[0])
            continue
        break
    return t, list(reversed(ks))


BS, LM, XF, PANO = FP + "bake_segmentation", M + "load_features_mask", F + "extract_features", FP + "is_high_res_panorama"


def detection(prog, rep):
    f = FP + "detect"
    fl, r, A = run(prog, f, {"opensfm.features_processing"}, [BS, LM, XF, PANO, "opensfm.bow.load_bows"])
    image, arr_, sg, ins, data, force = (A[k] for k in ("image", "image_array", "segmentation_array", "instances_array", "data", "force"))
    cfg = attr(data, "config")
    bake = item(cfg, const("features_bake_segmentation"))
    save = [e for e in fl.effects if e.kind == "mcall" and e.recv is data and e.name == "save_features"]
    words = [e for e in fl.effects if e.kind == "mcall" and e.recv is data and e.name == "save_words"]
    if not save or not words:
        rep.bad("aligned", "saved", f, "features or words are not saved")
        return
    ex = next((e for e in effects(fl, ("call",), "extract_features")), None)
    a = argmap(["image", "config", "is_panorama"], ex)
    rep.expect(a["image"] is arr_ and a["config"] is cfg, "aligned", "extract", ex.where, "features of %s are extracted" % unfold(fl, a["image"])[:60])
    k = tm.call_parts(a["is_panorama"])[2] if a["is_panorama"].op == "call" else {}
    rep.expect(k.get("image_key") is image and k.get("image_array") is arr_, "aligned", "panorama", ex.where, "panorama settings of %s" % unfold(fl, a["is_panorama"])[:80])
    X = ex.result
    seen = set()
    for e in save:
        rep.expect(e.args[0] is image, "aligned", "own", e.where, "features are saved for %s" % unfold(fl, e.args[0])[:60])
    for b in (False, True):
        for hi in (False, True):
            def dec(c, b=b, hi=hi):
                if c is bake:
                    return b
                if c.op == "cmp" and c.args[0] == "is" and tm.NONE in c.args[1:]:
                    o = next((x for x in c.args[1:] if x is not tm.NONE), None)
                    if o is None:
                        return True
                    if o.op == "item" and o.args[0].op == "call" and tm.callee_name(o.args[0]) == BS:
                        return not (o.args[1] is const(0) or hi)
                    if o.op in ("obj", "item"):
                        return False
                return None
            fold = Fold({bake: b}, dec)
            for e in save:
                parts = fields(fl, e.args[1], fold)
                w = "baked" if b else "masked"
                if parts is None:
                    rep.bad("aligned", w, e.where, "the features saved are %s" % unfold(fl, fl.deep(e.args[1]))[:120])
                    continue
                P, ks = chain(fl, parts["points"])
                rep.expect(P is item(X, const(0)), "aligned", w + ":points", e.where, "the points saved are %s" % unfold(fl, P)[:100])
                for n, i in (("descriptors", 1), ("colors", 2)):
                    Q, qs = chain(fl, parts[n])
                    rep.expect(Q is item(X, const(i)), "aligned", w + ":" + n, e.where, "the %s saved are %s" % (n, unfold(fl, Q)[:100]))
                    rep.expect(qs == ks, "aligned", w + ":" + n + ":order", e.where, "the %s are selected by %s, the points by %s" % (n, [unfold(fl, x)[:60] for x in qs], [unfold(fl, x)[:60] for x in ks]))
                # what the selections are
                cur = P
                for x in ks:
                    y = x
                    if y.op == "call" and tm.callee_name(y) == LM:
                        kw = tm.call_parts(y)[2]
                        rep.expect(kw.get("points") is cur and kw.get("image") is image and kw.get("data") is data, "aligned", w + ":mask", e.where, "the mask is computed for %s" % unfold(fl, y)[:100])
                        seen.add("mask%d" % b)
                    else:
                        z = order_of(fl, y)
                        if z is not None:
                            ok = order_source(fl, z, cur)
                            rep.expect(ok, "aligned", w + ":sort", e.where, "the order is that of %s" % unfold(fl, z)[:100])
                        else:
                            rep.bad("aligned", w + ":selection", e.where, "the features are selected by %s" % unfold(fl, y)[:100])
                    cur = item(cur, x)
                if not b:
                    rep.expect(any(x.op == "call" and tm.callee_name(x) == LM for x in ks), "aligned", w + ":masked", e.where, "masked features are kept")
                    rep.expect(parts["semantic"] is tm.NONE, "aligned", w + ":semantic", e.where, "segmentation is saved without being baked")
                else:
                    s = fields(fl, parts["semantic"], fold)
                    if s is None:
                        rep.bad("aligned", w + ":semantic", e.where, "the segmentation saved is %s" % unfold(fl, parts["semantic"])[:100])
                    else:
                        for n, i in (("segmentation", 0), ("instances", 1)):
                            if n == "instances" and not hi:
                                rep.expect(s[n] is tm.NONE, "aligned", w + ":no-instances", e.where, "missing instances become %s" % unfold(fl, s[n])[:80])
                                continue
                            Q, qs = chain(fl, s[n])
                            ok = Q.op == "item" and Q.args[0].op == "call" and tm.callee_name(Q.args[0]) == BS and Q.args[1] is const(i)
                            rep.expect(ok, "aligned", w + ":" + n, e.where, "the %s saved is %s" % (n, unfold(fl, Q)[:100]))
                            rep.expect(qs == ks, "aligned", w + ":" + n + ":order", e.where, "the %s is selected by %s" % (n, [unfold(fl, x)[:60] for x in qs]))
                            if ok:
                                kw = tm.call_parts(Q.args[0])[2]
                                own = kw.get("image") is arr_ and kw.get("points") is P and kw.get("segmentation") is sg and kw.get("instances") is ins
                                own = own and kw["exif"].op == "mcall" and kw["exif"].args[1] == "load_exif" and image in tm.call_parts(kw["exif"])[1]
                                rep.expect(own, "aligned", w + ":labels", e.where, "labels are baked from %s" % unfold(fl, Q.args[0])[:160])
                for we in words:
                    rep.expect(we.args[0] is image, "aligned", "words:own", we.where, "words are saved for %s" % unfold(fl, we.args[0])[:60])
                    v = fold(fl.deep(we.args[1]))
                    if v.op != "mcall" or v.args[1] != "map_to_words":
                        rep.bad("aligned", "words", we.where, "the words are %s" % unfold(fl, v)[:100])
                        continue
                    wa = tm.call_parts(v)[1]
                    Q, qs = chain(fl, wa[0])
                    rep.expect(Q is item(X, const(1)) and qs == ks, "aligned", w + ":words", we.where, "words are computed from %s in the order %s" % (unfold(fl, Q)[:60], [unfold(fl, x)[:40] for x in qs]))
                    kw = dict(zip(("descriptors", "n_words", "matcher_type"), wa))
                    kw.update(tm.call_parts(v)[2])
                    rep.expect(kw.get("n_words") is item(cfg, const("bow_words_to_match")) and kw.get("matcher_type") is item(cfg, const("bow_matcher_type")), "aligned", "words:settings", we.where, "words are computed with %s" % unfold(fl, v)[-120:])
    # when
    have = {k: next((e.result for e in fl.effects if e.kind == "mcall" and e.recv is data and e.name == k and e.args[:1] == (image,) or e.kind == "mcall" and e.recv is data and e.name == k and list(e.args[:1]) == [image]), None) for k in ("features_exist", "words_exist")}
    for k, t in have.items():
        rep.expect(t is not None, "skip", k, f, "%s is not asked for the image" % k)
    if None in have.values():
        return
    for F_, W_, fo, wm, nb in [(x & 1, x >> 1 & 1, x >> 2 & 1, x >> 3 & 1, x >> 4 & 1) for x in range(32)]:
        need = wm or nb
        facts = {have["features_exist"]: bool(F_), have["words_exist"]: bool(W_), force: bool(fo)}

        def dec(c, wm=wm, nb=nb):
            if c.op == "cmp":
                s = [x for x in c.args[1:] if not is_const(x)]
                o = [cval(x) for x in c.args[1:] if is_const(x)]
                if len(s) == 1 and c.args[0] == "==" and o == ["WORDS"] and any(x.op == "item" and x.args[1] is const("matcher_type") for x in tm.walk(s[0])):
                    return bool(wm)
                if len(s) == 1 and any(x.op == "item" and x.args[1] is const("matching_bow_neighbors") for x in tm.walk(s[0])):
                    if c.args[0] == "<" and c.args[1] is not s[0] and o == [0]:
                        return bool(nb)
                    if c.args[0] == "==" and o == [0]:
                        return not nb
                    if c.args[0] == "<" and c.args[1] is s[0] and o in ([1],):
                        return not nb
            return None
        fold = Fold(facts, dec)
        want = bool(fo or not F_ or need and not W_)
        st = "%s%s%s%s%s" % ("F" if F_ else "-", "W" if W_ else "-", "f" if fo else "-", "w" if wm else "-", "n" if nb else "-")
        on = [runs(fold, e) for e in save]
        rep.expect(on == [want] if len(on) == 1 else any(on) == want, "skip", "features:" + st, f,
                   "features %s, words %s, forced %s, needed %s: features are %s" % (bool(F_), bool(W_), bool(fo), bool(need), "recomputed" if any(on) else "skipped" if not any(x is None for x in on) else "undecided"))
        on = [runs(fold, e) for e in words]
        rep.expect((any(on) if None not in on else None) == (want and bool(need)), "skip", "words:" + st, f, "words are %s when %sneeded" % ("computed" if any(on) else "not computed", "" if need else "not "))


def runs(fold, e):
    return state(fold, e.guards)


def order_of(fl, y):
    """The array whose sorted order y is."""
    y = strip(y)
    if y.op == "item" and y.args[1].op == "slice":
        y = strip(y.args[0])
    if y.op == "slice_of":
        y = strip(y.args[0])
    if y.op == "un" or y.op == "obj":
        return None
    if y.op == "call" and tm.callee_name(y) == "numpy.argsort":
        return tm.call_parts(y)[1][0]
    if y.op == "mcall" and y.args[1] == "argsort":
        return y.args[0]
    return None


def order_source(fl, z, cur):
    """z is the size column of the array sorted."""
    z = strip(z)
    return z.op == "item" and z.args[1].op == "tup" and len(z.args[1].args) == 2 and full(z.args[1].args[0]) and z.args[1].args[1] is const(2) and z.args[0] is cur


def fields(fl, t, fold):
    """The attributes of a new object."""
    for x in leaves(fold(t)):
        if x.op == "obj":
            h = fl.h(x)
            if h is not None and h.kind == "inst":
                return {k: fold(v) if fold(v).op == "obj" else fold(fl.deep(v)) for k, v in attributes(fl, h).items()}
    return None


def attributes(fl, h):
    out = {}
    for l in h.attrs:
        if l.kind == "set" and is_const(l.key):
            out[cval(l.key)] = l.val
    return out


def masked(prog, rep):
    """FeaturesData.mask applies one mask to all arrays."""
    for cls, whole in (("FeaturesData", ("points", "descriptors", "colors", "depths")), ("SemanticData", ("segmentation", "instances"))):
        f = F + cls + ".mask"
        fl, r, A = run(prog, f, {"opensfm.features"}, [F + "SemanticData.mask"] if cls == "FeaturesData" else [], self_cls=F + cls)
        S = tm.sym("self")
        m = list(A.values())[0]
        fold = Fold({}, lambda c: (False if c.op == "cmp" and c.args[0] == "is" and tm.NONE in c.args[1:] else True if c is attr(S, "semantic") or c.op == "nonempty" else None))
        v = fields(fl, r, fold)
        if v is None:
            rep.bad("aligned", cls + ".mask", f, "masking returns %s" % unfold(fl, fl.deep(r))[:100])
            continue
        for n in whole:
            rep.expect(v.get(n) is item(attr(S, n), m), "aligned", "%s.mask:%s" % (cls, n), f, "masking makes %s %s" % (n, unfold(fl, v[n])[:80] if n in v else "?"))
        if cls == "SemanticData":
            rep.expect(v.get("labels") is attr(S, "labels"), "aligned", "SemanticData.mask:labels", f, "masking changes the labels")
        else:
            s = v.get("semantic")
            ok = s is not None and m in set(tm.walk(s)) and attr(S, "semantic") in set(tm.walk(s))
            rep.expect(ok, "aligned", "FeaturesData.mask:semantic", f, "masking makes the segmentation %s" % (unfold(fl, s)[:80] if s is not None else "?"))


RI, RD, DT = FP + "read_images", FP + "run_detection", FP + "detect"


def kinds(fl, t, A, el):
    """What a position of the queued tuple holds, with and without baked segmentation."""
    out = {}
    for b in (False, True):
        fold = Fold({}, lambda c: b if c.op == "item" and c.args[1] is const("features_bake_segmentation") else None)
        v = fold(fl.deep(t))
        out[b] = ("image" if v is el else "data" if v is A["data"] else "force" if v is A["force"] else
                  v.args[1] if v.op == "mcall" and v.args[0] is A["data"] and list(tm.call_parts(v)[1]) == [el] else "none" if v is tm.NONE else unfold(fl, v)[:60])
    return out[False], out[True]


WANT = {"image": ("image", "image"), "image_array": ("load_image", "load_image"), "segmentation_array": ("none", "load_segmentation"),
        "instances_array": ("none", "load_instances"), "data": ("data", "data"), "force": ("force", "force")}


def reading(prog, rep):
    fl, r, A = run(prog, RI, {"opensfm.features_processing"}, [FP + "Counter.increment", FP + "Counter.value"])
    q = A["queue"]
    puts = [e for e in fl.effects if e.kind == "mcall" and e.recv is q and e.name == "put"]
    data = [e for e in puts if e.args and e.args[0] is not tm.NONE]
    stop = [e for e in puts if e.args and e.args[0] is tm.NONE]
    rep.expect(len(data) == 1 and not [g for g in data[0].guards], "queue", "put", RI, "images are queued %d times, or only under a condition" % len(data))
    rep.expect(len(stop) >= 1, "queue", "marker", RI, "no end marker is queued")
    for e in stop:
        ok = e.guards and any(tm.contains(fl.deep(g), lambda x: x is A["expected"]) and p for g, p in atoms(e.guards))
        rep.expect(ok, "queue", "marker:when", e.where, "the end marker is not queued when all expected images were read")
        rep.expect(data and e.seq > data[0].seq, "queue", "marker:order", e.where, "the end marker is queued before the last image")
    inc = [e for e in fl.effects if e.kind in ("call", "mcall") and e.name and e.name.split(".")[-1] == "increment"]
    rep.expect(len(inc) == 1 and not inc[0].guards and inc[0].loops == (data[0].loops if data else ()), "queue", "count", RI, "images read are not counted one by one")
    if not data:
        return
    t = fl.deep(data[0].args[0])
    loops = data[0].loops
    rep.expect(len(loops) == 1 and loops[0] is A["images"], "queue", "each", data[0].where, "not each image given is queued")
    el = mk("elem", A["images"])
    el = next((x for x in tm.walk(t) if x.op == "elem" and x.args[0] is A["images"]), el)
    fl2, r2, A2 = run(prog, RD, {"opensfm.features_processing"}, [DT])
    det = effects(fl2, ("call",), "detect")
    rep.expect(len(det) == 1, "queue", "detect", RD, "an image queued is detected %d times" % len(det))
    if len(det) != 1 or t.op != "tup":
        rep.bad("queue", "tuple", RI, "what is queued is %s" % unfold(fl, t)[:100]) if t.op != "tup" else None
        return
    names = [a.arg for a in prog.func(DT)[1].args.args]
    a = argmap(names, det[0])
    for n, want in WANT.items():
        v = a.get(n)
        if v is None:
            rep.bad("queue", "handed:" + n, det[0].where, "%s is not handed to the detection" % n)
            continue
        i = cval(v.args[1]) if v.op == "item" and is_const(v.args[1]) else None
        if not isinstance(i, int) or i >= len(t.args):
            rep.bad("queue", "handed:" + n, det[0].where, "%s is %s" % (n, unfold(fl2, v)[:80]))
            continue
        k = kinds(fl, t.args[i], A, el)
        rep.expect(k == want, "queue", "handed:" + n, det[0].where, "the detection receives %s as %s" % (" or ".join(dict.fromkeys(k)), n))


def consuming(prog, rep):
    fl, r, A = run(prog, RD, {"opensfm.features_processing"}, [DT])
    q = list(A.values())[0]
    gets = [e for e in fl.effects if e.kind == "mcall" and e.recv is q and e.name == "get"]
    rep.expect(len(gets) == 1 and len(gets[0].loops) == 1, "queue", "get", RD, "images are not taken one by one from the queue")
    back = [e for e in fl.effects if e.kind == "mcall" and e.recv is q and e.name == "put"]
    ok = len(back) == 1 and back[0].args[0] in (tm.NONE, gets[0].result if gets else None) and any(p and c.op == "cmp" and c.args[0] == "is" for c, p in atoms(back[0].guards))
    rep.expect(ok, "queue", "pass-on", RD, "the end marker is not passed on to the other workers")
    for e in effects(fl, ("call",), "detect"):
        extra = [(c, p) for c, p in atoms(e.guards) if not (c.op == "cmp" and c.args[0] == "is" and tm.NONE in c.args[1:]) and c.op not in ("exc", "loopran")]
        extra = [(c, p) for c, p in extra if not is_const(c)]
        rep.expect(not extra, "queue", "all", e.where, "an image taken from the queue is only detected when %s" % (unfold(fl, extra[0][0])[:60] if extra else ""))


def planning(prog, rep):
    f = FP + "run_features_processing"
    fl, r, A = run(prog, f, {"opensfm.features_processing"}, [RI, RD, FP + "average_image_size", FP + "average_processing_size"])
    data, images, force = A["data"], A["images"], A["force"]
    lin = Lin(fl, everything=True, keep={"int"})
    qs = effects(fl, ("call",), "Queue")
    for e in qs:
        t = fl.deep(e.args[0]) if e.args else const(0)
        rep.expect(at_least(t, 2), "queue", "room", e.where, "the queue may hold less than an image and the end marker: %s" % unfold(fl, t)[:80])
    for e in effects(fl, ("call",), "read_images"):
        a = argmap(["queue", "data", "images", "counter", "expected", "force"], e)
        el = slots(fl, a["images"], Fold({}, lambda c: None))
        one = a["expected"] is const(1)
        own = raw(fl, a["images"])
        rep.expect(own is not None and len(own) == 1 and own[0].op == "elem" and own[0].args[0] is images and one and e.loops == (images,), "queue", "single", e.where, "a single process does not read image by image")
        rep.expect(a["force"] is force and a["data"] is data, "queue", "single:args", e.where, "read_images receives other data")
        after = [x for x in effects(fl, ("call",), "run_detection") if x.seq > e.seq and x.loops == e.loops]
        rep.expect(bool(after), "queue", "single:detect", e.where, "an image read is not detected")
        left = [x for x in fl.effects if x.kind == "mcall" and x.name == "get" and x.recv is a["queue"] and x.loops == e.loops and after and x.seq > after[0].seq]
        rep.expect(bool(left), "queue", "single:marker", e.where, "the end marker of an image is left for the next one")
    pm = effects(fl, ("call",), "parallel_map")
    for e in pm:
        a = argmap(["func", "args", "num_proc", "max_batch_size"], e)
        n = 0
        for v, gs, loops in logged(fl, a["args"]):
            v = fl.deep(v)
            if v.op != "tup" or not is_const(v.args[0]):
                rep.bad("queue", "work", e.where, "a worker receives %s" % unfold(fl, v)[:80])
                continue
            n += 1
            if cval(v.args[0]) == "producer":
                t = v.args[1]
                if t.op != "tup" or len(t.args) != 6:
                    rep.bad("queue", "producer", e.where, "a reader receives %s" % unfold(fl, t)[:80])
                    continue
                rep.expect(t.args[1] is data and t.args[5] is force, "queue", "producer:args", e.where, "a reader receives other data")
                rep.expect(tm.callee_name(t.args[4]) == "len" and tm.call_parts(t.args[4])[1][0] is images, "queue", "producer:expected", e.where, "readers expect %s images" % unfold(fl, t.args[4])[:60])
                chunk(rep, fl, lin, t.args[2], images, loops, e.where)
        rep.expect(n >= 2, "queue", "workers", e.where, "there are no readers or no detectors")
    rep.expect(len(pm) >= 1, "queue", "parallel", f, "images are not processed in parallel")
    # dispatch
    g = FP + "process"
    fl, r, A = run(prog, g, {"opensfm.features_processing"}, [RI, RD])
    arg = list(A.values())[0]
    for e in effects(fl, ("call",), "read_images"):
        a = argmap(["queue", "data", "images", "counter", "expected", "force"], e)
        for i, n in enumerate(["queue", "data", "images", "counter", "expected", "force"]):
            v = a.get(n)
            ok = v is not None and v.op == "item" and v.args[1] is const(i) and tm.contains(v, lambda x: x is item(arg, const(1)))
            rep.expect(ok, "queue", "process:" + n, e.where, "a reader takes %s for %s" % (unfold(fl, v)[:60] if v is not None else "?", n))
        rep.expect(dispatched(e, arg, "producer"), "queue", "process:producer", e.where, "reading is not what a producer does")
    for e in effects(fl, ("call",), "run_detection"):
        rep.expect(dispatched(e, arg, "consumer"), "queue", "process:consumer", e.where, "detecting is not what a consumer does")
    rep.expect(bool(effects(fl, ("call",), "run_detection")) and bool(effects(fl, ("call",), "read_images")), "queue", "process", g, "workers do not read or do not detect")
    counting(prog, rep)


def counting(prog, rep):
    """Counter.value() is the number of increments: its own reads are taken off again."""
    c = FP + "Counter"
    fl, r, A = run(prog, c + ".value", {"opensfm.features_processing"}, self_cls=c)
    S = tm.sym("self")
    lin = Lin(fl, everything=True)
    nx = [e for e in fl.effects if e.kind == "call" and e.name == "next"]
    if nx:
        src = nx[0].args[0]
        inc = run(prog, c + ".increment", {"opensfm.features_processing"}, self_cls=c)[0]
        ups = [e for e in inc.effects if e.kind == "call" and e.name == "next" and e.args[0] is src and not e.guards]
        rep.expect(len(ups) == 1 and len(nx) == 1, "queue", "counter:increment", c, "an image read is not counted once")
        sets = [e for e in fl.effects if e.kind == "setattr" and e.recv is S]
        n = lin.add(lin.norm(nx[0].result), lin.norm(fl.deep(r)), -1)
        mine = next((e for e in sets if lin.norm(attr(S, e.name)) == n), None)
        rep.expect(mine is not None, "queue", "counter:value", c, "the count is %s" % unfold(fl, fl.deep(r))[:80])
        if mine is not None:
            rep.expect(lin.norm(mine.args[0]) == lin.add(n, lin.const(1)) and not mine.guards, "queue", "counter:reads", mine.where, "reads of the counter are counted as %s" % unfold(fl, mine.args[0])[:60])
    rep.count("queue", 1)


def dispatched(e, arg, kind):
    for c, p in atoms(e.guards):
        if c.op == "cmp" and c.args[0] == "==":
            k = [cval(x) for x in c.args[1:] if is_const(x)]
            if p and k == [kind]:
                return True
            if not p and k and k != [kind] and k[0] in ("producer", "consumer"):
                return True
    return False


def raw(fl, t):
    t = strip(t)
    if t.op == "tup":
        return list(t.args)
    h = fl.h(t) if t.op == "obj" else None
    if h is not None and h.kind == "list":
        return [l.val for l in h.log if l.kind == "add"]
    return None


def logged(fl, t):
    h = fl.h(t) if t.op == "obj" else None
    return [(l.val, l.guards, l.loops) for l in h.log if l.kind == "add"] if h is not None else []


def at_least(t, n):
    t = strip(t)
    if is_const(t):
        return isinstance(cval(t), (int, float)) and (cval(t) >= n or cval(t) <= 0 and n is None)
    if t.op == "call" and tm.callee_name(t) == "max":
        return any(at_least(x, n) for x in tm.call_parts(t)[1])
    if t.op == "call" and tm.callee_name(t) == "min":
        return all(at_least(x, n) for x in tm.call_parts(t)[1])
    if t.op == "ite":
        return at_least(t.args[1], n) and at_least(t.args[2], n)
    if t.op == "bin" and t.args[0] == "+":
        return any(is_const(x) and cval(x) >= n for x in t.args[1:])
    return False


def chunk(rep, fl, lin, t, images, loops, where):
    """images[i c : (i + 1) c] for every i below the number of chunks."""
    if t.op != "slice_of" or t.args[0] is not images or len(loops) != 1:
        rep.bad("queue", "chunk", where, "a reader receives %s" % unfold(fl, t)[:80])
        return
    lo, hi = lin.norm(t.args[1]), lin.norm(t.args[2])
    c = lin.add(hi, lo, -1)
    i = [x for x in tm.walk(t.args[1]) if x.op == "elem" and x.args[0] is loops[0]]
    if not i:
        rep.bad("queue", "chunk:step", where, "the part does not depend on the reader")
        return
    ok = lin.mul(lin.norm(i[0]), c) == lo and not any(x is i[0] for m in c for x, _ in m[0])
    rep.expect(ok, "queue", "chunk:step", where, "reader i receives images %s to %s" % (lin.show(lo)[:60], lin.show(hi)[:60]))
    # the number of chunks times their size covers the images
    rg = loops[0]
    n = tm.call_parts(rg)[1] if rg.op == "call" and tm.callee_name(rg) == "range" else (fl.h(rg).args if rg.op == "obj" and fl.h(rg) is not None else [])
    n = fl.deep(n[0]) if len(n) == 1 else None
    cs = [x for m in c for x, _ in m[0]]
    C = cs[0] if len(cs) == 1 else None
    if n is None or C is None:
        rep.bad("queue", "chunk:count", where, "the number of readers or the size of their parts is not read")
        return
    rep.expect(covers(lin, n, C, images), "queue", "chunk:count", where, "%s parts of %s images may not cover all images" % (unfold(fl, n)[:80], unfold(fl, C)[:80]))


def ceil_of(t):
    t = t.args[0] if t.op == "call" and tm.callee_name(t) == "int" else t
    if t.op == "call" and tm.callee_name(t) in ("math.ceil", "numpy.ceil", "int"):
        a = tm.call_parts(t)[1][0]
        if tm.callee_name(t) == "int":
            return ceil_of(a)
        if a.op == "bin" and a.args[0] == "/" and len(a.args) == 3:
            return a.args[1], a.args[2]
    return None


def covers(lin, n, C, images):
    """n * C >= len(images)."""
    if n.op == "call" and tm.callee_name(n) == "min":
        return all(covers(lin, x, C, images) for x in tm.call_parts(n)[1])
    if n.op == "call" and tm.callee_name(n) == "max":
        return any(covers(lin, x, C, images) for x in tm.call_parts(n)[1])
    N = lambda t: t.op == "call" and tm.callee_name(t) == "len" and tm.call_parts(t)[1][0] is images
    k = ceil_of(C)
    if k is not None and N(k[0]) and k[1] is n:
        return True
    k = ceil_of(n)
    return k is not None and N(k[0]) and k[1] is C


def panorama(prog, rep):
    f = PANO
    fl, r, A = run(prog, f, {"opensfm.features_processing"})
    data, key, im = A["data"], A["image_key"], A["image_array"]
    ex = next((e.result for e in effects(fl, ("mcall",), "load_exif") if e.recv is data and list(e.args) == [key]), None)
    if ex is None:
        rep.bad("extract", "panorama:exif", f, "the record of the image is not read")
        return
    ws, hs = sized(im)
    for has, arr_ in ((True, True), (False, True), (False, False)):
        fold = Fold(nones((im, not arr_)), lambda c: (has if c is ex or c.op == "nonempty" and c.args[0] is ex else None))
        v = fold(fl.deep(r))
        n = "panorama:%s" % ("record" if has else "array" if arr_ else "neither")
        if not has and not arr_:
            rep.expect(v is tm.FALSE or is_const(v) and not cval(v), "extract", n, f, "an unknown image is a panorama when %s" % unfold(fl, v)[:80])
            continue
        W, H = ({item(ex, const("width"))}, {item(ex, const("height"))}) if has else (ws, hs)
        ok = False
        proj = False
        for x in tm.walk(v):
            if x.op == "cmp" and x.args[0] == "==":
                for p, q in ((x.args[1], x.args[2]), (x.args[2], x.args[1])):
                    if strip(p) in W and strip(q).op == "bin" and strip(q).args[0] == "*" and const(2) in strip(q).args and any(strip(z) in H for z in strip(q).args[1:]):
                        ok = True
            if x.op in ("call", "mcall") and "is_panorama" in tm.show(x)[:400]:
                proj = proj or any(z is item(ex, const("camera")) for z in tm.walk(x))
        rep.expect(ok, "extract", n, f, "an image is a panorama when %s" % unfold(fl, v)[:100])
        rep.expect(proj == has, "extract", n + ":projection", f, "the projection of the camera of the image is %s" % ("not asked" if has else "asked without record"))
