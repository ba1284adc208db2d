"""P29: exported scenes describe the reconstruction in the conventions of their format."""

import itertools
import math

from checks.p27 import first, kind_of, live
from checks.util import argmap, effects, items, run, strip
from sa import formula as fo
from sa import terms as tm
from sa.fold import Fold
from sa.match import core, leaves, tautology, unfold
from sa.program import AnalysisBroken
from sa.terms import FALSE, TRUE, attr, cond_of, const, cval, is_const, item, mk

TECHNIQUE = "value-flow analysis of the exporters: every word written to a Bundler, NVM, OpenMVS, PMVS or COLMAP file is traced to the shot, camera, point or observation it describes, brought to a formula and compared with the format's convention; indices, counts and the lists they refer to are matched"
EXPLANATION = (
    "The lines of each file are taken apart into words with the loops and conditions they are written under. In each iteration the words must be, in the format's order, the formulas of that format over the item of the loop: its own camera, pose, "
    "coordinates, colour and the observations of its own track. An index written must number the list whose items are written; a count must count them, under the same conditions."
)
B = "opensfm.actions."
TABLES = ("shots", "points", "cameras")


def check(prog, rep):
    rep.rule("camera", "an exported image is described by its own camera: focal length in pixels, principal point and distortion in the order of the format")
    rep.rule("pose", "an exported image has its own pose in the convention of the format")
    rep.rule("point", "an exported point has its own coordinates and colour")
    rep.rule("observation", "a point is seen by the exported images that observe its own track, with their observation of it in the coordinates of the format")
    rep.rule("index", "indices number the list of the images, points or cameras as they are written")
    rep.rule("count", "declared counts are those of what is written")
    rep.rule("layout", "the words are written in the order of the format and apart from each other")
    rep.rule("content", "text and binary files have the same content; images and masks are those of their image")
    rep.rule("pairs", "the matches of a pair of images go from its first image to its second")
    for part in (bundler, nvm, openmvs, pmvs, colmap_cameras, colmap_database, colmap_matches, colmap_scene_cameras, colmap_scene_points, colmap_scene_images, quaternion, callers):
        rep.part(part, prog, rep)
    for n, k in (("camera", 60), ("pose", 18), ("point", 5), ("observation", 30), ("index", 30), ("count", 15), ("layout", 60), ("content", 20), ("pairs", 25)):
        rep.minimum(n, k)


# ------------------------------------------------------------------ reading


def canon(fl, t, memo=None):
    """Ids stand for what they identify: attr(shots[k], "id") is k, and so are casts of it."""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    memo[t] = t
    r = t
    if t.op == "obj" or not any(isinstance(a, tm.T) for a in t.args):
        pass
    else:
        new = [canon(fl, a, memo) if isinstance(a, tm.T) else a for a in t.args]
        r = tm.ite(*new) if t.op == "ite" else mk(t.op, *new)
        if r.op == "attr" and r.args[1] == "id":
            b, ks = items(r.args[0])
            if b.op == "attr" and b.args[1] in TABLES and len(ks) == 1:
                r = ks[0]
        elif r.op == "call" and tm.callee_name(r) in ("str", "int", "float") and r.args[1] == 1:
            r = r.args[2]
        elif r.op == "mcall" and r.args[1] in ("keys",) and r.args[2] == 0:
            r = r.args[0]
        elif r.op == "item" and r.args[0].op == "elem" and tm.callee_name(r.args[0].args[0] if r.args[0].args[0].op == "call" else r) == "enumerate" and is_const(r.args[1]):
            e = r.args[0]
            x = e.args[0].args[2]
            r = mk("elem", x, e.args[1]) if cval(r.args[1]) == 1 else mk("idx", x)
        elif r.op == "item" and r.args[0].op == "obj":
            v = stored(fl, r.args[0], r.args[1])
            r = v if v is not None else r
    memo[t] = r
    return r


def stored(fl, d, k):
    """The value a table filled in one loop holds for k; positions stay what they are."""
    h = fl.h(d)
    if h is None or h.kind != "dict":
        return None
    if is_const(k) and all(e.key is not None and is_const(e.key) for e in h.log):
        v = [e.val for e in h.log if cval(e.key) == cval(k)]
        return v[-1] if v else None
    if len(h.log) != 1 or h.log[0].kind != "set":
        return None
    e = h.log[0]
    key, val = canon(fl, e.key), canon(fl, e.val)
    if tm.contains(val, lambda x: x.op in ("idx", "loopphi") or (x.op == "call" and tm.callee_name(x) == "len")):
        return None
    return tm.subst(val, {key: k}) if key.op == "elem" else None


class Word:
    def __init__(self, term, guards=(), loops=()):
        self.term, self.guards, self.loops = term, tuple(guards), tuple(loops)


def is_join(t):
    return t.op == "mcall" and t.args[1] == "join" and is_const(t.args[0])


def text_of(fl, t):
    """Parts of a text: constants and values."""
    if t.op == "call" and tm.callee_name(t) == "str" and t.args[1] == 1:
        return text_of(fl, t.args[2]) if t.args[2].op in ("strcat", "fstr") or is_join(t.args[2]) else [t.args[2]]
    if t.op in ("strcat", "fstr"):
        return [y for x in t.args for y in text_of(fl, x)]
    return [t]


def words(fl, rep, what, t, guards=(), loops=()):
    """The words of a text, in order."""
    out, open_ = [], False
    for p in text_of(fl, t):
        if is_const(p) and isinstance(cval(p), str):
            s = cval(p)
            if s and not s[0].isspace() and open_:
                rep.expect(False, "layout", "%s:words" % what, what, "%r follows a value without a space" % s[:20])
            out += [Word(const(number(x)), guards, loops) for x in s.split()]
            open_ = bool(s) and not s[-1].isspace() if s else open_
            continue
        if p.op == "mcall" and p.args[1] == "join":
            sep = cval(p.args[0])
            rep.expect(isinstance(sep, str) and sep and sep.isspace(), "layout", "%s:words" % what, what, "words are joined by %r" % (sep,))
            got = sequence(fl, p.args[3], guards, loops)
            for v, g, l in got:
                out += words(fl, rep, what, v, g, l)
            open_ = True
            continue
        if open_:
            rep.expect(False, "layout", "%s:words" % what, what, "%s follows a word without a space" % unfold(fl, p)[:60])
        out.append(Word(unfmt(p), guards, loops))
        open_ = True
    return out


def number(x):
    try:
        return int(x)
    except ValueError:
        return x


def unfmt(t):
    while t.op == "fmt" or (t.op == "call" and tm.callee_name(t) == "format"):
        t = t.args[0] if t.op == "fmt" else tm.call_parts(t)[1][0]
    return t


def sequence(fl, t, guards=(), loops=()):
    """[(value, guards, loops)] of what a list holds, in order, with what was set in it replaced."""
    t = core(fl, t)
    h = fl.h(t)
    if h is None or h.kind not in ("list", "iter"):
        x = mk("elem", t, 0)
        return [(x, tuple(guards), tuple(loops) + (t,))]
    out = []
    ents = list(h.log)
    for e in ents:
        if e.kind == "set":
            i = place(fl, t, e, out)
            if i is None:
                raise LookupError("what is set in %s" % unfold(fl, t)[:60])
            new = tm.subst(e.val, {item(t, e.key): out[i][0]})
            out[i] = (new, out[i][1], out[i][2])
            continue
        g = tuple(e.guards)
        l = tuple(e.loops)
        g = tuple(guards) + tuple(x for x in g if x not in guards)
        l = tuple(loops) + tuple(x for x in l if x not in loops)
        if e.kind == "spread":
            out += sequence(fl, e.val, g, l)
        elif e.kind == "add":
            out.append((e.val, g, l))
        else:
            raise LookupError("what is done to %s" % unfold(fl, t)[:60])
    return out


def place(fl, t, e, out):
    """Which item a list is set at: a number, or where a count stands that what is set starts from."""
    if is_const(e.key) and isinstance(cval(e.key), int):
        k = cval(e.key)
        return k if 0 <= k < len(out) and not any(out[i][2] for i in range(k + 1)) else None
    if tm.contains(e.key, lambda x: x.op == "call" and tm.callee_name(x) == "len" and x.args[2] is t):
        c = [i for i, (v, g, l) in enumerate(out) if not l and tm.callee_name(canon1(v)) == "len" and implied_by(g, e.guards)]
        return c[-1] if c else None
    return None


def canon1(t):
    while t.op == "call" and tm.callee_name(t) in ("str", "int") and t.args[1] == 1:
        t = t.args[2]
    return t


def implied_by(g, h):
    return all(x in h for x in g)


class Scene(fo.Read):
    """Formulas over the quantities of one shot, camera, point or observation."""

    def __init__(self, fl, more=None, at=None):
        super().__init__(fl, more)
        self.at = dict(at or {})  # vector -> component read for each of its elements

    def vector(self, t, n=3):
        return [fo.var(item(t, const(i))) for i in range(n)]

    def read(self, t):
        if t.op == "elem" and t.args[0] in self.at:
            return self.component(t.args[0], self.at[t.args[0]])
        if t.op == "item" and is_const(t.args[1]) and isinstance(cval(t.args[1]), int):
            s = self.sets(t.args[0], cval(t.args[1]))
            if s is not None:
                return self(s)
        return super().read(t)

    def sets(self, v, j):
        return None

    def component(self, v, j):
        for e in sorted(self.fl.effects, key=lambda e: -e.seq):
            if e.kind == "setitem" and e.recv is v and is_const(e.args[0]) and cval(e.args[0]) == j:
                return Scene(self.fl, self.atoms)(e.args[1])
        x = Scene(self.fl, self.atoms)(v)
        if isinstance(x, list):
            return x[j]
        return Scene(self.fl, self.atoms)(item(v, const(j)))

    def other(self, t):
        t = canon(self.fl, t)
        if t in self.atoms:
            return self.atoms[t]
        if t.op == "attr" and t.args[1] in ("translation", "rotation", "coordinates", "color", "point", "principal_point"):
            n = 2 if t.args[1] in ("point", "principal_point") else 3
            return self.vector(t, n)
        if t.op == "mcall" and t.args[2] == 0 and t.args[1] in ("get_origin",):
            return self.vector(t)
        if t.op == "mcall" and t.args[2] == 0 and t.args[1] in ("get_rotation_matrix",):
            return [self.vector(item(t, const(i))) for i in range(3)]
        if t.op == "mcall" and t.args[1] == "undistorted_image_size":
            return self.vector(t, 2)
        if t.op == "call" and tm.callee_name(t).split(".")[-1] == "quaternion_from_matrix":
            return self.vector(t, 4)
        if t.op in ("item", "elem"):
            return super().other(t)
        return fo.var(t)

    def call(self, t):
        n = tm.callee_name(t)
        a = tm.call_parts(t)[1]
        if n in ("max", "min", "numpy.maximum", "numpy.minimum"):
            ps = self(a[0]) if len(a) == 1 else [self(x) for x in a]
            if isinstance(ps, list) and all(isinstance(p, dict) for p in ps):
                return fo.fun(n[-7:] if "." in n else n, *sorted(ps, key=fo.key))
        if n in ("int", "float", "str") and len(a) == 1:
            return self(a[0])
        return super().call(t)


def kinded(fl, t, kind):
    return first(fl, t, kind)


def formulas(fl, rep, what, ws, kind=None):
    """Formulas of words; a word repeated over a vector of three stands for three."""
    out = []
    for w in ws:
        v = [l for l in w.loops if is_vector(fl, l)]
        t = kinded(fl, w.term, kind) if kind else w.term
        if v:
            for j in range(3):
                out.append(Scene(fl, at={v[-1]: j})(t))
        else:
            out.append(Scene(fl)(t))
    return out


def is_vector(fl, l):
    """A loop over the components of a vector, not over things."""
    l = canon(fl, l)
    while l.op in ("un",) or (l.op == "call" and tm.callee_name(l) in ("numpy.array", "numpy.asarray", "list")):
        l = l.args[1] if l.op == "un" else l.args[2]
    b, ks = items(l)
    if b.op == "mcall" and b.args[1] in ("get_rotation_matrix", "get_origin"):
        return True
    return l.op == "attr" and l.args[1] in ("translation", "rotation", "coordinates", "color", "point")


def scene_loops(fl, w):
    return tuple(l for l in w.loops if not is_vector(fl, l))


def groups(fl, ws):
    """Consecutive words written in the same iterations under the same conditions."""
    out = []
    for w in ws:
        k = (scene_loops(fl, w), w.guards)
        if not out or out[-1][0] != k:
            out.append((k, []))
        out[-1][1].append(w)
    return out


def compare(fl, rep, rule, construct, where, got, want, what):
    try:
        ok = len(got) == len(want) and all(isinstance(g, dict) and fo.equal(g, x) for g, x in zip(got, want))
        said = ", ".join(fo.show(g)[:40] if isinstance(g, dict) else "a list" for g in got[:6])
    except (TypeError, ValueError, LookupError) as e:
        ok, said = False, str(e)
    rep.expect(ok, rule, construct, where, "%s: %s" % (what, said[:160]))


def shot_vars(fl, s, at=None):
    """Formulas of the quantities of the shot s."""
    rd = Scene(fl)
    p, c = attr(s, "pose"), attr(s, "camera")
    R = tm.mcall(p, "get_rotation_matrix", [])
    w, h = rd(attr(c, "width")), rd(attr(c, "height"))
    return {
        "R": rd(R), "t": rd(attr(p, "translation")), "o": rd(tm.mcall(p, "get_origin", [])), "q": None, "f": rd(attr(c, "focal")), "ar": rd(attr(c, "aspect_ratio")),
        "k1": rd(attr(c, "k1")), "k2": rd(attr(c, "k2")), "w": w, "h": h, "size": fo.fun("max", *sorted([w, h], key=fo.key)), "Rt": R,
    }


def focal(v, kind):
    f = v["f"]
    return fo.scale(fo.mul(f, fo.add(fo.const(1), v["ar"])), 0.5) if kind == "brown" else f


def equivalent(a, b):
    """Do two conditions always agree?"""
    if a is b:
        return True
    both = tm.tor(tm.tand(a, b), tm.tand(tm.tnot(a), tm.tnot(b)))
    return tautology(both, lambda x: None)[0]


def own_guards(fl, gs, outer=()):
    return cond_of([(canon(fl, g), p) for g, p in gs if (g, p) not in outer])


def counted(fl, t):
    """(what, condition): how many items of what fulfil the condition."""
    t = canon1(t)
    if t.op == "call" and tm.callee_name(t) == "len":
        x = canon(fl, t.args[2])
        h = fl.h(x)
        if h is not None and h.kind in ("list", "dict", "set", "iter"):
            ents = [e for e in h.log if e.kind in ("add", "set")]
            if len(ents) == 1 and len(h.log) == 1 and ents[0].loops:
                e = ents[0]
                gs = [g for g in e.guards if g not in h.guards]
                return canon(fl, e.loops[-1]), own_guards(fl, gs)
            return x, TRUE
        return x, TRUE
    if t.op == "loopout" and is_const(canon1(t.args[1])) and cval(canon1(t.args[1])) == 0:
        cs = []
        for v, gs in cases(t.args[2]):
            d = step(v)
            if d is None:
                return None
            if d == 1:
                cs.append(cond_of(gs))
        return canon(fl, t.args[0]), canon(fl, tm.tor(*cs)) if cs else FALSE
    if t.op == "bin" and t.args[0] in "+-" and len(t.args) == 3:
        a, b = counted(fl, t.args[1]), counted(fl, t.args[2])
        if a and b and a[0] is b[0]:
            return a[0], tm.tand(a[1], tm.tnot(b[1])) if t.args[0] == "-" else tm.tor(a[1], b[1])
    if t.op == "call" and tm.callee_name(t) == "sum" and t.args[1] == 1:
        return None
    return None


def cases(t, gs=()):
    if t.op == "ite":
        return cases(t.args[1], gs + ((t.args[0], True),)) + cases(t.args[2], gs + ((t.args[0], False),))
    return [(t, gs)]


def step(v):
    """What a counter grows by in one iteration."""
    if v.op == "loopphi":
        return 0
    if v.op == "bin" and v.args[0] == "+" and len(v.args) == 3:
        a, b = v.args[1:]
        if a.op != "loopphi":
            a, b = b, a
        if a.op == "loopphi" and is_const(b) and cval(b) == 1:
            return 1
    return None


def numbering(fl, d):
    """(list, condition) a table of numbers numbers, or None: the number of its key among the items of the list that fulfil the condition."""
    h = fl.h(d)
    if h is None or h.kind != "dict" or len(h.log) != 1:
        return None
    e = h.log[0]
    if e.kind != "set" or not e.loops:
        return None
    L = canon(fl, e.loops[-1])
    key, v = canon(fl, e.key), canon1(e.val)
    if key.op != "elem" or canon(fl, key.args[0]) is not L:
        return None
    g = own_guards(fl, [x for x in e.guards if x not in h.guards])
    if v.op == "idx":
        if canon(fl, v.args[0]) is L:
            return (L, TRUE)
        o = v.args[0]
        c = counted(fl, tm.call(mk("ext", "len"), [o])) if o.op == "obj" else None
        return c
    if v.op == "call" and tm.callee_name(v) == "len" and v.args[2] is d:
        return (L, g)
    if v.op == "loopphi" and canon(fl, v.args[1]) is L and is_const(v.args[2]) and cval(v.args[2]) == 0:
        nxt = fl.phi_next.get(v)
        if nxt is None:
            return None
        on = []
        for x, gs in cases(nxt):
            s = step(x)
            if s is None:
                return None
            if s == 1:
                on.append(cond_of(gs))
        c = canon(fl, tm.tor(*on)) if on else FALSE
        return (L, c) if equivalent(c, g) else None
    return None


def membership(fl, key, in_shots, in_list):
    """Decide conditions on whether the image `key` has a shot and is among those exported."""

    def decide(c):
        c = canon(fl, c)
        if c.op == "cmp" and c.args[0] in ("in", "not in") and canon(fl, c.args[1]) is key:
            x = canon(fl, c.args[2])
            if x.op == "attr" and x.args[1] == "shots":
                v = in_shots
            elif x.op == "obj" and fl.h(x).kind in ("dict", "set", "list"):
                v = in_shots and in_list if from_shots(fl, x) else in_list
            else:
                v = in_list
            return v == (c.args[0] == "in")
        if c.op == "cmp" and c.args[0] in ("is", "is not", "==", "!=") and any(is_const(x) and cval(x) is None for x in c.args[1:]):
            return c.args[0] in ("is not", "!=")
        return None

    return decide


def from_shots(fl, d):
    h = fl.h(d)
    return all(any(tm.contains(canon(fl, l), lambda x: x.op == "attr" and x.args[1] == "shots") for l in e.loops) for e in h.log)


def seen(fl, rep, fmt, w, key, listed=True):
    """An image is written among those that see a point exactly when it has a shot and is exported."""
    for s, l in itertools.product((True, False), repeat=2):
        v = Fold(decide=membership(fl, key, s, l), fl=fl).truth(cond_of([g for g in w.guards if tm.contains(canon(fl, g[0]), lambda x: x is key)]))
        want = s and l
        if not listed and not l:
            continue
        rep.expect((v is TRUE) if want else (v is FALSE), "observation", "%s:which:%d%d" % (fmt, s, l), fmt,
                   "images %s are %swritten among those that see a point" % ("that are exported" if want else "without a shot" if not s else "that are not exported", "not " if want else ""))


def observed(fl, rep, fmt, M, key, point_key):
    """The observations are those of the point's own track."""
    ok = M.op == "mcall" and M.args[1] == "get_track_observations" and M.args[2] == 1 and canon(fl, M.args[3]) is point_key
    rep.expect(ok, "observation", "%s:track" % fmt, fmt, "the observations are %s" % unfold(fl, M)[:120])
    ok = key.op == "elem" and key.args[0] is M
    rep.expect(ok, "observation", "%s:image" % fmt, fmt, "the image that observes is %s" % unfold(fl, key)[:120])
    return item(M, key)


def opened(fl, e):
    """Name of the file an effect writes to."""
    return unfold(fl, e.recv)


def texts(fl, name=None):
    return [e for e in effects(fl, ("mcall",), ("write", "writelines")) if name is None or name in opened(fl, e)]


# ------------------------------------------------------------------ Bundler


def bundler(prog, rep):
    m = B + "export_bundler"
    fl, r, A = run(prog, m + ".export_bundler", {m})
    ls, tk = A["image_list"], A["track_manager"]
    out = texts(fl, "bundle_file_path")
    if len(out) != 1:
        raise AnalysisBroken("one file of the scene")
    ws = words(fl, rep, "bundler", out[0].args[0])
    rec = mk("elem", A["reconstructions"], 0)
    gs = [g for g in groups(fl, ws)]
    body = [(k, x) for k, x in gs if k[0]]
    head = [w for k, x in gs for w in x if len(k[0]) == 1]
    nums = [w for w in head if not (is_const(w.term) and isinstance(cval(w.term), str))]
    shots, points = attr(rec, "shots"), attr(rec, "points")
    cams = [(k, x) for k, x in gs if len(k[0]) == 2 and canon(fl, k[0][1]) is ls]
    pts = [(k, x) for k, x in gs if len(k[0]) == 2 and canon(fl, k[0][1]) is points]
    rep.expect(len(nums) == 2, "layout", "bundler:head", "export_bundler", "the head has %d numbers" % len(nums))
    for i, w in enumerate(nums[:2]):
        c = counted(fl, w.term)
        rep.expect(c is not None and c[0] is (ls, points)[i] and equivalent(c[1], TRUE), "count", "bundler:%s" % ("images", "points")[i], "export_bundler",
                   "the number of %s is %s" % (("images", "points")[i], unfold(fl, w.term)[:80]))
    key = mk("elem", ls, 0)
    s = item(shots, key)
    v = shot_vars(fl, s)
    for there in (True, False):
        for kind in ("perspective", "brown"):
            def more(c):
                if c.op == "cmp" and c.args[0] in ("in", "not in") and canon(fl, c.args[1]) is key and canon(fl, c.args[2]) is shots:
                    return there == (c.args[0] == "in")
                return None

            mine = [w for k, x in cams for w in x if Fold(decide=kind_of(kind, more), fl=fl).truth(cond_of(w.guards)) is not FALSE]
            got = formulas(fl, rep, "bundler", [Word(Fold(decide=kind_of(kind, more), fl=fl)(w.term), w.guards, w.loops) for w in mine])
            if not there:
                compare(fl, rep, "layout", "bundler:missing:%s" % kind, "export_bundler", got, [fo.const(0)] * 15, "an image without a shot is written as")
                continue
            zero = fo.const(0)
            f = fo.mul(focal(v, kind), v["size"])
            dist = got[1:3]
            compare(fl, rep, "camera", "bundler:focal:%s" % kind, "export_bundler", got[:1], [f], "the focal length is")
            if kind != "brown":
                compare(fl, rep, "camera", "bundler:distortion:%s" % kind, "export_bundler", dist, [v["k1"], v["k2"]], "the distortion is")
            R = v["R"]
            want = R[0] + [fo.neg(x) for x in R[1]] + [fo.neg(x) for x in R[2]] + [v["t"][0], fo.neg(v["t"][1]), fo.neg(v["t"][2])]
            compare(fl, rep, "pose", "bundler:%s" % kind, "export_bundler", got[3:], want, "the pose is not the shot's with y and z reversed")
    pk = mk("elem", points, 0)
    p = item(points, pk)
    rd = Scene(fl)
    got = formulas(fl, rep, "bundler", [w for k, x in pts for w in x[:2]])
    compare(fl, rep, "point", "bundler", "export_bundler", got, rd(attr(p, "coordinates")) + rd(attr(p, "color")), "a point is written as")
    views(fl, rep, "bundler", gs, points, pk, shots, (ls, TRUE), bundler_xy, [w for k, x in pts for w in x[2:]])
    # the list of images
    lst = texts(fl, "list_file_path")
    rep.expect(len(lst) == 1, "content", "bundler:list", "export_bundler", "%d files of image names are written" % len(lst))
    for e in lst:
        lw = words(fl, rep, "bundler list", e.args[0])
        ok = len(lw) == 1 and canon(fl, lw[0].term) is key and not [g for g in lw[0].guards]
        rep.expect(ok, "index", "bundler:list", "export_bundler", "the file of image names lists %s" % ", ".join(unfold(fl, w.term)[:40] for w in lw[:3]))
    rep.count("obligations", 2)


def views(fl, rep, fmt, gs, points, pk, shots, listed, xy, tail):
    """The number of views and the views of a point."""
    vs = [(k, x) for k, x in gs if len(k[0]) > 1 and any(canon(fl, l).op == "mcall" and canon(fl, l).args[1] == "get_track_observations" for l in k[0])]
    w = [y for k, x in vs for y in x]
    if not rep.expect(len(w) == 4, "layout", "%s:view" % fmt, fmt, "a view has %d words" % len(w)):
        return
    M = canon(fl, w[0].loops[-1])
    key = mk("elem", M, 0)
    obs = observed(fl, rep, fmt, M, key, pk)
    ix = w[0].term
    while ix.op == "call" and tm.callee_name(ix) in ("int", "str"):
        ix = ix.args[2]
    n = numbering(fl, ix.args[0]) if ix.op == "item" else None
    rep.expect(n is not None and n[0] is listed[0] and equivalent(n[1], listed[1]), "index", "%s:number" % fmt, fmt,
               "the index of an image is not its number among those written: %s" % unfold(fl, ix)[:80])
    rep.expect(ix.op == "item" and canon(fl, ix.args[1]) is key, "index", "%s:image" % fmt, fmt, "the index is that of another image")
    rep.expect(canon(fl, w[1].term) is attr(obs, "id"), "observation", "%s:feature" % fmt, fmt, "the feature is %s" % unfold(fl, w[1].term)[:80])
    got = [Scene(fl)(x.term) for x in w[2:]]
    compare(fl, rep, "observation", "%s:pixel" % fmt, fmt, got, xy(fl, obs, item(shots, key), key), "the coordinates of an observation are")
    seen(fl, rep, fmt, w[0], key)
    # how many views
    cs = [counted(fl, y.term) for y in tail if tm.callee_name(canon1(y.term)) == "len"]
    own = tm.tand(*[canon(fl, g) if q else tm.tnot(canon(fl, g)) for g, q in w[0].guards if tm.contains(canon(fl, g), lambda x: x is key)])
    rep.expect(len(cs) == 1 and cs[0] is not None and cs[0][0] is M and equivalent(own, restrict(cs[0][1], key)), "count", "%s:views" % fmt, fmt, "the number of views is not that of the views written")


def restrict(c, key):
    """The parts of a condition about key."""
    parts = c.args if c.op == "and" else (c,)
    return tm.tand(*[x for x in parts if tm.contains(x, lambda y: y is key)])


def bundler_xy(fl, obs, s, key):
    v = shot_vars(fl, s)
    p = Scene(fl)(attr(obs, "point"))
    return [fo.mul(p[0], v["size"]), fo.neg(fo.mul(p[1], v["size"]))]


# ------------------------------------------------------------------ NVM


def nvm(prog, rep):
    m = B + "export_visualsfm"
    fl, r, A = run(prog, m + ".export", {m})
    rec, tk, ud = A["reconstruction"], A["tracks_manager"], A["udata"]
    shots, points = attr(rec, "shots"), attr(rec, "points")
    out = texts(fl)
    if len(out) != 1:
        raise AnalysisBroken("one file is written")
    ws = words(fl, rep, "nvm", out[0].args[0])
    gs = groups(fl, ws)
    where = "export_visualsfm"
    cams = [(k, x) for k, x in gs if len(k[0]) == 1 and canon(fl, k[0][0]) is shots]
    pts = [(k, x) for k, x in gs if len(k[0]) == 1 and canon(fl, k[0][0]) is points]
    if len(cams) != 1 or not pts:
        raise AnalysisBroken("the images and points of the file")
    (k, x), sk = cams[0], mk("elem", shots, 0)
    listed = (shots, own_guards(fl, k[1]))
    exported(fl, rep, "nvm", k[1], sk)
    s = item(shots, sk)
    v = shot_vars(fl, s)
    if not rep.expect(len(x) == 11, "layout", "nvm:image", where, "an image has %d words" % len(x)):
        return
    name = canon(fl, x[0].term)
    ok = any(y.op == "mcall" and y.args[1] == "_undistorted_image_file" and canon(fl, y.args[3]) is sk for y in tm.walk(name))
    rep.expect(ok, "content", "nvm:file", where, "the file of an image is %s" % unfold(fl, name)[:100])
    size = Scene(fl)(tm.mcall(ud, "undistorted_image_size", [sk]))
    big = fo.fun("max", *sorted(size, key=fo.key))
    for kind in ("perspective", "brown"):
        got = formulas(fl, rep, "nvm", x[1:9], kind)
        compare(fl, rep, "camera", "nvm:focal:%s" % kind, where, got[:1], [fo.mul(focal(v, kind), big)], "the focal length is")
    q = [y for w in x[2:6] for y in tm.walk(canon(fl, w.term)) if y.op == "call" and tm.callee_name(y).endswith("quaternion_from_matrix")]
    ok = bool(q) and all(list(dict(tm.call_parts(y)[2]).values())[:1] + list(tm.call_parts(y)[1])[:1] == [v["Rt"]] for y in q)
    rep.expect(ok, "pose", "nvm:rotation", where, "the quaternion is of %s" % (unfold(fl, q[0])[:100] if q else None))
    if q:
        compare(fl, rep, "pose", "nvm:rotation", where, got[1:5], Scene(fl)(q[0]), "the quaternion is written as")
    compare(fl, rep, "pose", "nvm:origin", where, got[5:8], v["o"], "the position is")
    rest = formulas(fl, rep, "nvm", x[9:])
    rep.expect(len(rest) == 2 and fo.equal(rest[-1], fo.const(0)), "layout", "nvm:end", where, "the line of an image does not end with 0")
    heads = [w for kk, xx in gs if not kk[0] for w in xx]
    head = [w for w in heads if counted(fl, w.term)]
    c = [counted(fl, w.term) for w in head]
    rep.expect(len(c) >= 1 and c[0][0] is shots and equivalent(c[0][1], listed[1]), "count", "nvm:images", where, "the number of images is %s" % (unfold(fl, head[0].term)[:80] if c else None))
    pk = mk("elem", points, 0)
    p = item(points, pk)
    pw = [w for kk, xx in pts for w in xx]
    rd = Scene(fl)
    compare(fl, rep, "point", "nvm", where, formulas(fl, rep, "nvm", pw[:2]), rd(attr(p, "coordinates")) + rd(attr(p, "color")), "a point is written as")
    # the points that are written are those counted
    g = [z for z in pw[0].guards if tm.contains(fl.deep(z[0]), lambda y: y is pk)]
    pc = [z for z in c[1:] if z[0] is points]
    ok = len(pc) == 1 and equivalent(pc[0][1], own_guards(fl, g))
    rep.expect(ok, "count", "nvm:points", where, "the number of points is not that of those written")
    zero = [w for w in heads if any(not q and canon(fl, z) is A["with_points"] for z, q in w.guards)]
    ok = len(zero) == 1 and fo.equal(Scene(fl)(zero[0].term), fo.const(0))
    rep.expect(ok, "count", "nvm:none", where, "without points their number is %s" % [unfold(fl, w.term)[:30] for w in zero])

    def xy(fl, obs, s, key):
        hw = Scene(fl)(tm.mcall(ud, "undistorted_image_size", [key]))
        z = fo.fun("max", *sorted(hw, key=fo.key))
        o = Scene(fl)(attr(obs, "point"))
        return [fo.add(fo.scale(hw[1 - i], 0.5), fo.mul(o[i], z)) for i in (0, 1)]

    views(fl, rep, "nvm", gs, points, pk, shots, listed, xy, pw[2:])


def exported(fl, rep, fmt, gs, key):
    """All images are exported, or those that are listed."""
    for l in (True, False):
        v = Fold(decide=membership(fl, key, True, l), fl=fl).truth(own_guards(fl, gs))
        rep.expect(v is (TRUE if l else FALSE), "index", "%s:exported:%d" % (fmt, l), fmt, "images %s are %sexported" % ("listed" if l else "not listed", "not " if l else ""))

    def none(c):
        if c.op == "cmp" and c.args[0] in ("is", "is not", "==", "!=") and any(is_const(x) and cval(x) is None for x in c.args[1:]):
            return c.args[0] in ("is", "==")
        return None

    v = Fold(decide=none, fl=fl).truth(own_guards(fl, gs))
    rep.expect(v is TRUE, "index", "%s:all" % fmt, fmt, "without a list not all images are exported")


# ------------------------------------------------------------------ OpenMVS


def openmvs(prog, rep):
    m = B + "export_openmvs"
    fl, r, A = run(prog, m + ".export", {m})
    where = "export_openmvs"
    rec, tk, ud = A["reconstruction"], A["tracks_manager"], A["udata"]
    shots, points, cameras = (attr(rec, k) for k in ("shots", "points", "cameras"))
    cs, ss, ps = (effects(fl, ("mcall",), k) for k in ("add_camera", "add_shot", "add_point"))
    if len(cs) != 1 or len(ss) != 1 or len(ps) != 1:
        raise AnalysisBroken("cameras, shots and points are handed to the exporter")
    rd = Scene(fl)
    # cameras
    e, ck = cs[0], mk("elem", cameras, 0)
    c = item(cameras, ck)
    a = argmap(["id", "K", "width", "height"], e)
    rep.expect(canon(fl, a["id"]) is ck, "camera", "openmvs:id", where, "the camera is added as %s" % unfold(fl, a["id"])[:60])
    w, h, f = (rd(attr(c, k)) for k in ("width", "height", "focal"))
    F = fo.mul(f, fo.fun("max", *sorted([w, h], key=fo.key)))
    half = lambda x: fo.scale(fo.sub(x, fo.const(1)), 0.5)
    z, one = fo.const(0), fo.const(1)
    K = rd(a["K"])
    flat = [x for row in K for x in row] if isinstance(K, list) and all(isinstance(x, list) for x in K) else []
    compare(fl, rep, "camera", "openmvs:K", where, flat, [F, z, half(w), z, F, half(h), z, z, one], "the calibration is")
    compare(fl, rep, "camera", "openmvs:size", where, [rd(a["width"]), rd(a["height"])], [w, h], "the size is")
    # shots
    e, sk = ss[0], mk("elem", shots, 0)
    s = item(shots, sk)
    v = shot_vars(fl, s)
    a = argmap(["path", "mask", "id", "camera", "R", "C"], e)
    rep.expect(canon(fl, a["id"]) is sk, "index", "openmvs:shot", where, "the shot is added as %s" % unfold(fl, a["id"])[:60])
    rep.expect(canon(fl, a["camera"]) in (attr(attr(s, "camera"), "id"),), "camera", "openmvs:shot", where, "the shot's camera is %s" % unfold(fl, a["camera"])[:60])
    rep.expect(canon(fl, strip(a["R"])) is v["Rt"], "pose", "openmvs:rotation", where, "the rotation is %s" % unfold(fl, a["R"])[:80])
    compare(fl, rep, "pose", "openmvs:origin", where, rd(a["C"]), v["o"], "the position is")
    for n, g, q in (("path", "_undistorted_image_file", False), ("mask", "_undistorted_mask_file", True)):
        for x in leaves(a[n]):
            x = canon(fl, x)
            if q and is_const(x):
                rep.expect(cval(x) == "", "content", "openmvs:no mask", where, "without a mask its file is %r" % (cval(x),))
                continue
            y = [z for z in tm.walk(x) if z.op == "mcall" and z.args[1].startswith("_undistorted")]
            ok = len(y) == 1 and y[0].args[1] == g and y[0].args[0] is ud and canon(fl, y[0].args[3]) is sk
            ok = ok and not (tm.contains(x, lambda z: is_const(z) and cval(z) is None))
            rep.expect(ok, "content", "openmvs:%s" % n, where, "the %s of a shot is %s" % (n, unfold(fl, x)[:80]))
    def there(val):
        def decide(c):
            if c.op == "call" and tm.callee_name(c).endswith(("isfile", "exists")):
                return val
            x = c.args[0] if c.op == "nonempty" else c
            return True if x.op == "mcall" and x.args[1] == "_undistorted_mask_file" else None

        return decide

    got = {val: Fold(decide=there(val), fl=fl)(a["mask"]) for val in (True, False)}
    for val in (True, False):
        x = [canon(fl, y) for y in leaves(got[val])]
        ok = all((not is_const(y)) if val else (is_const(y) and cval(y) == "") for y in x)
        rep.expect(ok, "content", "openmvs:mask:%d" % val, where, "with%s a mask file the mask is %s" % ("" if val else "out", [unfold(fl, y)[:40] for y in x]))
    model = lambda c: True if c.op == "cmp" and c.args[0] == "==" and any(is_const(x) and cval(x) == "perspective" for x in c.args[1:]) else None
    gs = [(g, p) for g, p in e.guards if not tm.contains(g, lambda x: x.op == "attr" and x.args[1] == "projection_type")]
    exported(fl, rep, "openmvs", gs, sk)
    kinds = {k: (live(fl, cs[0], k), live(fl, e, k)) for k in ("perspective", "brown", "fisheye", "spherical")}
    for k, (x, y) in kinds.items():
        rep.expect(x == y, "camera", "openmvs:kinds:%s" % k, where, "cameras of type %s are %sadded, their shots are %s" % (k, "" if x else "not ", "" if y else "not"))
    rep.expect(all(kinds["perspective"]), "camera", "openmvs:perspective", where, "perspective cameras are not exported")
    # points
    e, pk = ps[0], mk("elem", points, 0)
    p = item(points, pk)
    a = argmap(["X", "shots"], e)
    compare(fl, rep, "point", "openmvs", where, rd(a["X"]), rd(attr(p, "coordinates")), "the point is")
    got = sequence(fl, a["shots"])
    if rep.expect(len(got) == 1 and got[0][2], "observation", "openmvs:views", where, "the images of a point are %s" % unfold(fl, a["shots"])[:80]):
        val, g, l = got[0]
        M = canon(fl, l[-1])
        key = mk("elem", M, 0)
        observed(fl, rep, "openmvs", M, canon(fl, val), pk)
        conds = [(canon(fl, x), q) for x, q in g]
        mem = [x for x, q in conds if x.op == "cmp" and x.args[0] == "in" and canon(fl, x.args[1]) is key]
        ok = False
        for x in mem:
            o = x.args[2]
            c = counted(fl, tm.call(mk("ext", "len"), [o])) if o.op == "obj" else None
            full = own_guards(fl, ss[0].guards)
            ok = ok or (c is not None and c[0] is shots and equivalent(c[1], full) and added_key(fl, o) is sk)
        rep.expect(ok, "observation", "openmvs:exported", where, "the images that see a point are not those that were exported")
        want = tm.tand(*[x if q else tm.tnot(x) for x, q in conds])
        rep.expect(len(mem) == 1 and equivalent(restrict(want, key), mem[0]), "observation", "openmvs:all", where, "not all exported images that see a point are given")


def added_key(fl, o):
    h = fl.h(o)
    e = h.log[0]
    return canon(fl, e.key if h.kind == "dict" else e.val)


# ------------------------------------------------------------------ PMVS


def pmvs(prog, rep):
    m = B + "export_pmvs"
    fl, r, A = run(prog, m + ".export", {m})
    where = "export_pmvs"
    rec, graph, data, ud = (A[k] for k in ("reconstruction", "image_graph", "data", "udata"))
    shots = attr(rec, "shots")
    sk = mk("elem", shots, 0)
    s = item(shots, sk)
    im, tx = effects(fl, ("call",), "imwrite"), effects(fl, ("call",), "savetxt")
    if len(im) != 1 or len(tx) != 1:
        raise AnalysisBroken("an image and a projection are written for each shot")
    im, tx = im[0], tx[0]
    listed = (shots, own_guards(fl, im.guards))
    exported(fl, rep, "pmvs", im.guards, sk)
    rep.expect(im.guards == tx.guards, "content", "pmvs:both", where, "images and projections are written for other shots")

    def number_of(t):
        """(list, condition) a number counts in, for the shot itself."""
        t = unfmt(canon1(t))
        if t.op == "item" and t.args[0].op == "obj" and canon(fl, t.args[1]) is sk:
            return numbering(fl, t.args[0])
        if t.op == "idx" and t.args[0].op == "obj":
            return counted(fl, tm.call(mk("ext", "len"), [t.args[0]]))
        if t.op == "idx":
            return canon(fl, t.args[0]), TRUE
        if t.op == "loopphi":
            return canon(fl, t.args[1]), tm.tor(*[cond_of(gs) for v, gs in cases(fl.phi_next[t]) if step(v) == 1])
        return None

    def is_number(t):
        n = number_of(t)
        return n is not None and n[0] is listed[0] and equivalent(canon(fl, n[1]), listed[1])

    # file names
    for e, path, ext, folder in ((im, im.args[0], ".jpg", "visualize"), (tx, tx.args[0], ".txt", "txt")):
        h = fl.h(path) if path.op == "obj" else None
        name = h.args[0] if h is not None and h.args else path
        if name.op == "call" and tm.callee_name(name) == "open":
            name = tm.call_parts(name)[1][0]
        fm = [x for x in tm.walk(name) if x.op == "fmt" and not tm.contains(x, lambda y: y is A["index"])]
        ok = len(fm) == 1 and is_number(fm[0]) and fm[0].args[1] == "08d"
        rep.expect(ok, "index", "pmvs:%s" % folder, where, "the file of a shot is %s" % unfold(fl, name)[:120])
        cs = [cval(x) for x in tm.walk(name) if is_const(x) and isinstance(cval(x), str)]
        rep.expect(ext in cs and folder in cs, "content", "pmvs:%s" % folder, where, "the file of a shot is %s" % unfold(fl, name)[:120])
    # the image
    pic = im.args[1]
    big = [x for x in tm.walk(pic) if x.op == "call" and tm.callee_name(x).endswith("resized_image")]
    rep.expect(len(big) == 1 and pic is big[0], "content", "pmvs:image", where, "the image written is %s" % unfold(fl, pic)[:80])
    a = dict(tm.call_parts(pic)[2]) if pic.op == "call" else {}
    src = a.get("image", pic)
    for und in (True, False):
        d = lambda c: und if c is A["undistorted"] else None
        x = Fold(decide=d, fl=fl)(src)
        loads = [y for y in tm.walk(fl.deep(x)) if y.op == "mcall" and y.args[1] in ("load_undistorted_image", "load_image")]
        want = (ud, "load_undistorted_image") if und else (data, "load_image")
        ok = bool(loads) and all(y.args[0] is want[0] and y.args[1] == want[1] and canon(fl, y.args[3]) is sk for y in loads)
        rep.expect(ok, "content", "pmvs:source:%d" % und, where, "the image is %s" % [unfold(fl, y)[:60] for y in loads])
        n = swaps(x)
        rep.expect(n % 2 == 1, "content", "pmvs:colours:%d" % und, where, "red and blue of the image are exchanged")
        if not und:
            c = [y for y in tm.walk(x) if y.op == "call" and tm.callee_name(y) == "cv2.undistort"]
            ok = len(c) == 1
            if ok:
                ca = tm.call_parts(c[0])[1]
                v = shot_vars(fl, s)
                ok = size_of(fl, ca[1], attr(s, "camera"), ca[0])
                rep.expect(ok, "camera", "pmvs:calibration", where, "the image is undistorted with %s" % unfold(fl, ca[1])[:80])
                compare(fl, rep, "camera", "pmvs:distortion", where, Scene(fl)(ca[2]), [v["k1"], v["k2"], fo.const(0), fo.const(0)], "the image is undistorted with")
            rep.expect(bool(c), "camera", "pmvs:undistort", where, "the image is not undistorted")
    # the projection
    P = tx.args[1]
    b = None
    if P.op == "mcall" and P.args[1] == "dot":
        b = P.args[0], P.args[3]
    elif P.op == "bin" and P.args[0] == "@":
        b = P.args[1], P.args[2]
    elif P.op == "call" and tm.callee_name(P).split(".")[-1] in ("dot", "matmul"):
        b = tuple(tm.call_parts(P)[1])
    if rep.expect(b is not None, "pose", "pmvs:product", where, "the projection is %s" % unfold(fl, P)[:80]):
        rep.expect(size_of(fl, b[0], attr(s, "camera"), pic), "camera", "pmvs:projection", where, "the projection is made with the calibration %s" % unfold(fl, b[0])[:80])
        t = b[1]
        rows = t.op == "slice_of" and is_const(t.args[2]) and cval(t.args[2]) == 3 and (not is_const(t.args[1]) or cval(t.args[1]) in (None, 0))
        if t.op == "item" and t.args[1].op in ("tup", "tuple") and len(t.args[1].args) == 2:
            a, b2 = t.args[1].args
            none = lambda x: is_const(x) and cval(x) in (None, 0)
            rows = a.op == "slice" and none(a.args[0]) and is_const(a.args[1]) and cval(a.args[1]) == 3 and b2.op == "slice" and none(b2.args[0]) and is_const(b2.args[1]) and cval(b2.args[1]) is None
        rows = rows or (t.op == "mcall" and t.args[1] == "get_Rt")
        ok = rows and canon(fl, t.args[0]) is tm.mcall(attr(s, "pose"), "get_world_to_cam", []) or canon(fl, t) is tm.mcall(attr(s, "pose"), "get_Rt", [])
        rep.expect(ok, "pose", "pmvs", where, "the projection is made with the pose %s" % unfold(fl, t)[:80])
    # who sees what others see
    vis = [e for e in texts(fl, "vis.dat")]
    out = []
    for e in vis:
        out += words(fl, rep, "vis.dat", e.args[0], e.guards, e.loops)
    gs = groups(fl, out)
    head = [w for k, x in gs if not k[0] for w in x]
    n = [counted(fl, unfmt(w.term)) for w in head[1:]]
    rep.expect(len(n) == 1 and n[0] is not None and n[0][0] is shots and equivalent(canon(fl, n[0][1]), listed[1]), "count", "pmvs:images", where, "the number of images is not that of those written")
    mine = [w for k, x in gs if len(k[0]) == 1 for w in x]
    adj = [w for k, x in gs if len(k[0]) == 2 for w in x]
    if rep.expect(len(mine) == 2 and len(adj) == 1, "layout", "pmvs:vis", where, "a line of vis.dat has %d and %d words" % (len(mine), len(adj))):
        rep.expect(is_number(mine[0].term), "index", "pmvs:line", where, "the line is of image %s" % unfold(fl, mine[0].term)[:60])
        ln = canon1(mine[1].term)
        ok = ln.op == "call" and tm.callee_name(ln) == "len"
        t = adj[0].term
        around = canon(fl, adj[0].loops[-1])
        ok2 = around.op == "item" and around.args[0] is graph and canon(fl, around.args[1]) is sk
        rep.expect(ok2, "observation", "pmvs:neighbours", where, "the images that see the same are looked for in %s" % unfold(fl, around)[:60])
        o = mk("elem", around, 0)
        ok3 = t.op == "item" and canon(fl, t.args[1]) is o and t.args[0].op == "obj"
        nb = numbering(fl, t.args[0]) if ok3 else None
        rep.expect(nb is not None and nb[0] is shots and equivalent(canon(fl, nb[1]), listed[1]), "index", "pmvs:neighbours", where, "the images that see the same are written as %s" % unfold(fl, t)[:60])
        c = counted(fl, ln) if ok else None
        gg = [g for g in adj[0].guards if tm.contains(canon(fl, g[0]), lambda y: y is o)]
        rep.expect(c is not None and c[0] is around and equivalent(restrict(canon(fl, c[1]), o), own_guards(fl, gg)), "count", "pmvs:neighbours", where, "the number of images that see the same is not that of those written")
        for there in (True, False):
            def d(c, there=there):
                raw, c = c, canon(fl, c)
                if c.op == "cmp" and c.args[0] in ("in", "not in") and c.args[1] is o:
                    # an image that is not exported is still one of the reconstruction
                    w = counted(fl, tm.call(mk("ext", "len"), [raw.args[2] if raw.op == "cmp" else c.args[2]]))
                    wide = w is not None and w[0] is shots and not equivalent(w[1], listed[1])
                    return (there or wide) == (c.args[0] == "in")
                return None if not (c.op == "cmp" and c.args[0] in ("<", "<=", ">", ">=")) else True

            v = Fold(decide=d, fl=fl).truth(cond_of(gg))
            rep.expect(v is (TRUE if there else FALSE), "observation", "pmvs:exported:%d" % there, where, "images that are %sexported are %swritten as neighbours" % ("" if there else "not ", "not " if there else ""))
    opt = [w for e in texts(fl, "pmvs_txt") for w in words(fl, rep, "pmvs_txt", e.args[0], e.guards, e.loops)]
    i = [j for j, w in enumerate(opt) if is_const(w.term) and cval(w.term) == "timages"]
    if rep.expect(len(i) == 1 and len(opt) > i[0] + 3, "layout", "pmvs:timages", where, "no images are given to PMVS"):
        a, b, c = (unfmt(w.term) for w in opt[i[0] + 1:i[0] + 4])
        n = counted(fl, c)
        ok = is_const(a) and cval(a) == -1 and is_const(b) and cval(b) == 0 and n is not None and n[0] is shots and equivalent(canon(fl, n[1]), listed[1])
        rep.expect(ok, "count", "pmvs:timages", where, "the images given to PMVS are %s" % " ".join(unfold(fl, x)[:40] for x in (a, b, c)))


def swaps(t):
    """How often the colours of an image are reversed on the way."""
    n = 0
    while isinstance(t, tm.T):
        if t.op == "item":
            k = t.args[1]
            last = k.args[-1] if k.op == "tup" else k
            if last.op == "slice" and is_const(last.args[2]) and cval(last.args[2]) == -1:
                n += 1
            t = t.args[0]
        elif t.op == "call" and tm.callee_name(t).split(".")[-1] in ("undistort", "cvtColor", "ascontiguousarray", "resized_image"):
            n += tm.callee_name(t).endswith("cvtColor")
            a = tm.call_parts(t)
            t = a[1][0] if a[1] else dict(a[2]).get("image")
        else:
            return n
    return n


def size_of(fl, K, camera, pic):
    """K is the calibration of the camera for the size of the picture."""
    if not (K.op == "mcall" and K.args[1] == "get_K_in_pixel_coordinates" and canon(fl, K.args[0]) is canon(fl, camera)):
        return False
    a = [canon(fl, x) for x in tm.call_parts(K)[1]]
    sh = attr(canon(fl, pic), "shape")

    def side(x, i):
        if x.op != "item" or not is_const(x.args[1]) or cval(x.args[1]) != i:
            return False
        y = x.args[0]
        return y is sh or (y.op == "slice_of" and y.args[0] is sh)

    return len(a) == 2 and side(a[0], 1) and side(a[1], 0)


# ------------------------------------------------------------------ COLMAP

C = B + "export_colmap"
MODELS = {"brown": ("FULL_OPENCV", 6), "perspective": ("RADIAL", 3), "fisheye": ("RADIAL_FISHEYE", 9), "fisheye_opencv": ("OPENCV_FISHEYE", 5)}


def params_of(fl, c, kind):
    """Parameters of a camera in COLMAP's order."""
    rd = Scene(fl)
    g = {k: rd(attr(c, k)) for k in ("k1", "k2", "k3", "k4", "p1", "p2", "aspect_ratio", "focal", "width", "height")}
    n = fo.fun("max", *sorted([g["width"], g["height"]], key=fo.key))
    pp = rd(attr(c, "principal_point"))
    f = fo.mul(g["focal"], n)
    fy = fo.mul(f, g["aspect_ratio"])
    mid = [fo.scale(g["width"], 0.5), fo.scale(g["height"], 0.5)]
    cc = [fo.add(mid[i], fo.mul(n, pp[i])) for i in (0, 1)]
    z = fo.const(0)
    return {
        "perspective": [f] + mid + [g["k1"], g["k2"]], "fisheye": [f] + mid + [g["k1"], g["k2"]],
        "brown": [f, fy] + cc + [g["k1"], g["k2"], g["p1"], g["p2"], g["k3"], z, z, z],
        "fisheye_opencv": [f, fy] + cc + [g["k1"], g["k2"], g["k3"], g["k4"]],
    }[kind]


def colmap_cameras(prog, rep):
    fl, r, A = run(prog, C + ".camera_to_colmap_params", {C})
    for kind in MODELS:
        v = leaves(kinded(fl, r, kind))
        if not rep.expect(len(v) == 1 and v[0].op in ("tup", "obj"), "camera", "colmap:%s" % kind, "camera_to_colmap_params", "cameras of type %s have no parameters" % kind):
            continue
        got = Scene(fl)(v[0])
        compare(fl, rep, "camera", "colmap:%s" % kind, "camera_to_colmap_params", got if isinstance(got, list) else [], params_of(fl, A["camera"], kind), "the parameters of a %s camera are" % kind)
        bad = [e for e in fl.effects if e.kind == "raise" and Fold(decide=kind_of(kind), fl=fl).truth(cond_of(list(e.guards))) is not FALSE]
        rep.expect(not bad, "camera", "colmap:%s" % kind, "camera_to_colmap_params", "cameras of type %s are refused" % kind)
    for kind in ("spherical", "dual", "fisheye62", "fisheye624", "radial", "simple_radial"):
        ok = any(e.kind == "raise" and Fold(decide=kind_of(kind), fl=fl).truth(cond_of(list(e.guards))) is TRUE for e in fl.effects)
        rep.expect(ok, "camera", "colmap:%s" % kind, "camera_to_colmap_params", "cameras of type %s are exported as another" % kind)


def model(fl, t, kind, i):
    """Is the term the COLMAP model (name 0, number 1) of the kind of its camera?"""
    t = canon1(t)
    if t.op == "item" and t.args[0].op == "obj" and t.args[1].op == "attr" and t.args[1].args[1] == "projection_type":
        t = stored(fl, t.args[0], const(kind)) or t
    return is_const(t) and cval(t) == MODELS[kind][i]


def expand(fl, t, kind):
    """Items of an argument list; starred sequences opened."""
    out = []
    t = kinded(fl, t, kind) if kind else t
    if t.op == "star":
        return expand(fl, t.args[0], kind)
    if t.op == "tup":
        for x in t.args:
            out += expand(fl, x, kind) if x.op == "star" else [(x, (), ())]
        return out
    return stream(fl, t)


def stream(fl, t, guards=(), loops=()):
    """What a sequence holds: [(value, guards, loops)]; sequences grown in a loop and parts of others opened."""
    t = core(fl, t)
    if t.op == "tup":
        return [(x, guards, loops) for x in t.args]
    if t.op == "call" and tm.callee_name(t) in ("list", "tuple"):
        return stream(fl, t.args[2], guards, loops)
    if t.op == "bin" and t.args[0] == "+":
        return [y for x in t.args[1:] for y in stream(fl, x, guards, loops)]
    if t.op == "loopphi":
        return []
    if t.op == "loopout":
        out = stream(fl, t.args[1], guards, loops)
        for v, gs in cases(t.args[2]):
            out += stream(fl, v, guards + gs, loops + (t.args[0],))
        return out
    if t.op == "ite":
        ls = [stream(fl, x, guards, loops) for x in leaves(t)]
        if len({len(x) for x in ls}) == 1:
            return [(x if x is y else tm.ite(t.args[0], x, y), g, l) for (x, g, l), (y, _, _) in zip(ls[0], ls[-1])]
        raise LookupError("sequences of different lengths: %s" % unfold(fl, t)[:60])
    h = fl.h(t) if t.op == "obj" else None
    if h is not None and h.kind in ("list", "iter", "tuple"):
        out = []
        for e in h.log:
            g = guards + tuple(x for x in e.guards if x not in h.guards)
            l = loops + tuple(x for x in e.loops if x not in h.loops)
            if e.kind == "spread":
                out += stream(fl, e.val, g, l)
            elif e.val.op == "elem" and e.loops and e.val.args[0] is e.loops[-1] and grown(fl, e.val.args[0]):
                out += stream(fl, e.val.args[0], g, tuple(x for x in l if x is not e.loops[-1]))
            else:
                out.append((e.val, g, l))
        return out
    if t.op == "call" and "quaternion" in (tm.callee_name(t) or ""):
        return [(item(t, const(i)), guards, loops) for i in range(4)]
    return [(item(t, const(i)), guards, loops) for i in range(3)] if is_vector(fl, t) else [(mk("elem", t, 0), guards, loops + (t,))]


def grown(fl, t):
    return t.op in ("loopout",) or (t.op == "obj" and fl.h(t).kind in ("list", "iter")) or (t.op == "bin" and t.args[0] == "+")


def specs(fl, t, guards=(), loops=()):
    """Conversions of a format: [(letter, guards, loops)]; None where a text stands between."""
    if is_const(t):
        out, s = [], cval(t)
        for i, w in enumerate(s.replace("\n", " \n ").split(" ")):
            if w == "\n":
                out.append(("\n", guards, loops))
            elif w.startswith("%"):
                out.append((w[-1], guards, loops))
            elif w:
                out.append((w, guards, loops))
        return out
    if t.op in ("strcat", "fstr"):
        return [y for x in t.args for y in specs(fl, x, guards, loops)]
    if t.op == "bin" and t.args[0] == "+":
        return [y for x in t.args[1:] for y in specs(fl, x, guards, loops)]
    if t.op == "loopphi":
        return []
    if t.op == "loopout":
        out = specs(fl, t.args[1], guards, loops)
        for v, gs in cases(t.args[2]):
            out += specs(fl, v, guards + gs, loops + (t.args[0],))
        return out
    raise LookupError("format %s" % unfold(fl, t)[:60])


def printed(fl, rep, what, e, kind=None):
    """[(letter, value, guards, loops)] a formatted line consists of."""
    t = kinded(fl, e.args[0], kind) if kind else e.args[0]
    if t.op != "bin" or t.args[0] != "%":
        raise LookupError("the line %s" % unfold(fl, t)[:80])
    ss = [x for x in specs(fl, t.args[1]) if x[0] != "\n"]
    vs = expand(fl, t.args[2], kind)
    lines = [x for x in specs(fl, t.args[1])]
    same = lambda a, b: equivalent(own_guards(fl, a), own_guards(fl, b))
    ok = len(ss) == len(vs) and all(tuple(canon(fl, l) for l in s[2]) == tuple(canon(fl, l) for l in v[2] if l not in e.loops) and same([g for g in s[1]], [g for g in v[1] if g not in e.guards]) for s, v in zip(ss, vs))
    rep.expect(ok, "layout", "%s:format" % what, what, "the format of a line has other words than the line")
    return [(s[0],) + tuple(v) for s, v in zip(ss, vs)] if len(ss) == len(vs) else [], lines


SIZES = "cbBhHiIlLqQfd"


def packed(fl, rep, what, e, kind=None):
    """[(letter, value, guards, loops)] of what a write packs."""
    t = kinded(fl, e.args[0], kind) if kind else e.args[0]
    if not (t.op == "call" and (tm.callee_name(t) or "").endswith("pack")):
        return [("text", t, e.guards, e.loops)]
    a = tm.call_parts(t)[1]
    vals = [y for x in a[1:] for y in (expand(fl, x, kind) if x.op == "star" else [(x, (), ())])]
    f = a[0]
    if f.op in ("strcat", "fstr"):
        s = ""
        for x in f.args:
            if is_const(x):
                s += str(cval(x))
            elif tm.callee_name(canon1(unfmt(x))) == "len":
                s += str(len(expand(fl, canon1(unfmt(x)).args[2], kind)))
            else:
                raise LookupError("format %s" % unfold(fl, f)[:60])
    else:
        s = cval(f)
    rep.expect(s[:1] == "<", "layout", "%s:order" % what, what, "the bytes of %r are not in little-endian order" % s)
    out, n = [], ""
    for ch in s.lstrip("<>=!@"):
        if ch.isdigit():
            n += ch
        else:
            out += [ch] * int(n or 1)
            n = ""
    if len(vals) == 1 and len(out) == 3 and vals[0][2]:
        v = vals[0]
        vals = [(tm.subst(v[0], {mk("elem", v[2][-1], k): item(v[2][-1], const(j)) for k in (0, 1)}), v[1], ()) for j in range(3)]
    rep.expect(len(out) == len(vals), "layout", "%s:packed" % what, what, "%d values are packed as %r" % (len(vals), s))
    return [(c,) + ((v[0], tuple(e.guards) + v[1], tuple(e.loops) + v[2])) for c, v in zip(out, vals)]


def bins(fl, name):
    es = [e for e in effects(fl, ("mcall",), "write") if e.recv.op == "mcall" and e.recv.args[1] == "open_wb"]
    return sorted(es, key=lambda e: e.seq)


def lines_of(fl):
    return [e for e in effects(fl, ("mcall",), "write") if e.recv.op == "mcall" and e.recv.args[1] == "open_wt"]


def modes(fl, rep, what, A):
    """Binary files are written when binary, text files when not."""
    for es, want, n in ((bins(fl, what), True, "binary"), (lines_of(fl), False, "text")):
        for e in es:
            v = Fold(facts={A["binary"]: want}, fl=fl).truth(cond_of([g for g in e.guards if g[0] is A["binary"]]))
            rep.expect(v is TRUE and any(g[0] is A["binary"] for g in e.guards), "content", "%s:%s" % (what, n), what, "the %s file is written in the other mode" % n)
        rep.expect(bool(es), "content", "%s:%s" % (what, n), what, "no %s file is written" % n)


def letters(rep, what, got, want, where):
    g = "".join(x if len(x) == 1 else "?" for x in got)
    rep.expect(g == want, "layout", what, where, "the values are written as %s, not %s" % (g, want))


def colmap_scene_cameras(prog, rep):
    fl, r, A = run(prog, C + ".export_cameras_reconstruction", {C})
    where = "export_cameras_reconstruction"
    data, cm = A["data"], A["camera_map"]
    rec = mk("elem", tm.mcall(data, "load_reconstruction", []), 0)
    cams = attr(rec, "cameras")
    ck = mk("elem", cams, 0)
    c = item(cams, ck)
    rd = Scene(fl)
    modes(fl, rep, "cameras", A)
    for kind in MODELS:
        txt = [printed(fl, rep, "cameras.txt", e, kind) for e in lines_of(fl)]
        bn = [y for e in bins(fl, "cameras") for y in packed(fl, rep, "cameras.bin", e, kind)]
        head, body = bn[:1], bn[1:]
        for n, ws, lt in (("txt", txt[0][0] if txt else [], "dsdd" + "f" * len(params_of(fl, c, kind))), ("bin", body, "iiQQ" + "d" * len(params_of(fl, c, kind)))):
            letters(rep, "colmap cameras:%s:%s" % (n, kind), [w[0] for w in ws], lt, where)
            if len(ws) != len(lt):
                continue
            rep.expect(canon(fl, ws[0][1]) is item(cm, ck), "index", "colmap cameras:%s" % n, where, "the camera's number is %s" % unfold(fl, ws[0][1])[:60])
            rep.expect(model(fl, ws[1][1], kind, 0 if n == "txt" else 1), "camera", "colmap model:%s:%s" % (n, kind), where, "the model of a %s camera is %s" % (kind, unfold(fl, ws[1][1])[:60]))
            got = [rd(w[1]) for w in ws[2:]]
            compare(fl, rep, "camera", "colmap cameras:%s:%s" % (n, kind), where, got, [rd(attr(c, "width")), rd(attr(c, "height"))] + params_of(fl, c, kind), "a %s camera is written as" % kind)
            rep.expect(all(canon(fl, l) in (cams, canon(fl, rec.args[0])) for w in ws for l in w[3]), "content", "colmap cameras:%s" % n, where, "not the cameras of all reconstructions are written")
    k = packed(fl, rep, "cameras.bin", bins(fl, "")[0])
    rep.expect(len(k) == 1 and k[0][0] == "Q", "layout", "colmap cameras:head", where, "the number of cameras is not 64 bits wide")
    n = canon1(k[0][1])
    ok = tm.callee_name(n) == "len" and tables(fl, n.args[2], cams, ck, c)
    rep.expect(ok, "count", "colmap cameras", where, "the number of cameras is %s" % unfold(fl, n)[:60])


def tables(fl, d, cams, ck, c):
    """A table of all the cameras under their ids."""
    h = fl.h(d)
    return h is not None and h.kind == "dict" and len(h.log) == 1 and canon(fl, h.log[0].key) is ck and canon(fl, h.log[0].val) is c and not own(h, h.log[0])


def own(h, e):
    return [g for g in e.guards if g not in h.guards]


def total(fl, t, recs, table):
    """Sum over all reconstructions of the sizes of their tables."""
    t = canon1(t)
    if t.op == "loopout" and canon(fl, t.args[0]) is recs and is_const(t.args[1]) and cval(t.args[1]) == 0:
        n = t.args[2]
        if n.op == "bin" and n.args[0] == "+" and n.args[1].op == "loopphi" or n.op == "bin" and n.args[2].op == "loopphi":
            x = [y for y in n.args[1:] if y.op != "loopphi"]
            return len(x) == 1 and tm.callee_name(x[0]) == "len" and canon(fl, x[0].args[2]) is attr(mk("elem", recs, 0), table)
    if t.op == "call" and tm.callee_name(t) == "sum":
        s = sequence(fl, t.args[2])
        return len(s) == 1 and tm.callee_name(s[0][0]) == "len" and canon(fl, s[0][0].args[2]) is attr(mk("elem", recs, 0), table) and [canon(fl, l) for l in s[0][2]] == [recs] and not s[0][1]
    return False


def colmap_scene_points(prog, rep):
    fl, r, A = run(prog, C + ".export_points_reconstruction", {C})
    where = "export_points_reconstruction"
    data, im = A["data"], A["images_map"]
    recs = tm.mcall(data, "load_reconstruction", [])
    rec = mk("elem", recs, 0)
    points, shots = attr(rec, "points"), attr(rec, "shots")
    pk = mk("elem", points, 0)
    p = item(points, pk)
    rd = Scene(fl)
    modes(fl, rep, "points3D", A)
    M = tm.mcall(tm.mcall(data, "load_tracks_manager", []), "get_track_observations", [pk])
    key = mk("elem", M, 0)
    bn = [y for e in bins(fl, "points3D") for y in packed(fl, rep, "points3D.bin", e)]
    head, body = bn[:1], bn[1:]
    rep.expect(head[0][0] == "Q" and total(fl, head[0][1], recs, "points"), "count", "colmap points", where, "the number of points is %s" % unfold(fl, head[0][1])[:80])
    txt, lines = printed(fl, rep, "points3D.txt", lines_of(fl)[0])
    rep.expect(lines[-1][0] == "\n" and not lines[-1][2] and sum(x[0] == "\n" for x in lines) == 1, "layout", "colmap points:lines", where, "a point is not one line")
    # the table of the numbers
    tab = fl.h(core(fl, r)) if core(fl, r).op == "obj" else None
    if not rep.expect(tab is not None and tab.kind == "dict" and len(tab.log) == 1, "index", "colmap points:table", where, "the numbers of the points are %s" % unfold(fl, r)[:60]):
        return
    t = tab.log[0]
    ok = canon(fl, t.key) is tm.tup(mk("idx", recs), pk)
    rep.expect(ok and not own(tab, t), "index", "colmap points:table", where, "the number of a point is kept under %s" % unfold(fl, t.key)[:80])
    num = canon1(t.val)
    rep.expect(unique(fl, num, points, recs), "index", "colmap points:unique", where, "points share the number %s" % unfold(fl, num)[:60])
    for n, ws, lt in (("txt", txt, "dfffdddfdd"), ("bin", body, "QdddBBBdQi")):
        letters(rep, "colmap points:%s" % n, [w[0] for w in ws], lt, where)
        if len(ws) != len(lt):
            continue
        rep.expect(canon1(ws[0][1]) is num, "index", "colmap points:%s" % n, where, "the number of the point is %s" % unfold(fl, ws[0][1])[:60])
        got = [rd(w[1]) for w in ws[1:7]]
        compare(fl, rep, "point", "colmap:%s" % n, where, got, rd(attr(p, "coordinates")) + rd(attr(p, "color")), "a point is written as")
        if n == "txt":
            pair = [w[1] for w in ws[8:]]
            gs, ls = ws[8][2], ws[8][3]
        else:
            el = ws[9]
            src = el[3][-1]
            seq = stream(fl, src)
            if not rep.expect(len(seq) == 2, "layout", "colmap track:bin", where, "an element of a track has %d values" % len(seq)):
                continue
            pair, gs, ls = [s[0] for s in seq], seq[0][1], seq[0][2]
            half = canon1(ws[8][1])
            ok = half.op == "bin" and half.args[0] == "//" and is_const(half.args[2]) and cval(half.args[2]) == 2 and tm.callee_name(half.args[1]) == "len" and half.args[1].args[2] is src
            rep.expect(ok, "count", "colmap track", where, "the length of the track is %s" % unfold(fl, half)[-80:])
        rep.expect(bool(ls) and canon(fl, ls[-1]) is M, "observation", "colmap track:%s" % n, where, "the track is that of %s" % (unfold(fl, ls[-1])[:80] if ls else None))
        rep.expect(canon(fl, pair[0]) is item(im, key), "index", "colmap track:%s" % n, where, "the image is %s" % unfold(fl, pair[0])[:80])
        rep.expect(canon(fl, pair[1]) is attr(item(M, key), "id"), "observation", "colmap feature:%s" % n, where, "the image point is %s" % unfold(fl, pair[1])[:80])
        want = tm.mk("cmp", "in", key, shots)
        gg = [g for g in gs if tm.contains(canon(fl, g[0]), lambda x: x is key)]
        rep.expect(equivalent(own_guards(fl, gg), want), "observation", "colmap which:%s" % n, where, "the track is not in the images of the reconstruction")


def unique(fl, num, inner, recs):
    """A number that grows by one with each point of each reconstruction."""
    if num.op == "call" and tm.callee_name(num) == "len":
        return True
    if num.op != "loopphi" or canon(fl, num.args[1]) is not inner:
        return False
    nxt = fl.phi_next.get(num)
    o = num.args[2]
    ok = nxt is not None and all(step(v) == 1 for v, g in cases(nxt))
    if o.op == "loopphi" and canon(fl, o.args[1]) is recs and is_const(o.args[2]):
        n = fl.phi_next.get(o)
        return ok and n is not None and n.op == "loopout" and n.args[1] is o
    return False


def colmap_scene_images(prog, rep):
    fl, r, A = run(prog, C + ".export_images_reconstruction", {C}, [C + ".angle_axis_to_quaternion"])
    where = "export_images_reconstruction"
    data, cm, im, fm, pm = (A[k] for k in ("data", "camera_map", "images_map", "features_map", "points_map"))
    recs = tm.mcall(data, "load_reconstruction", [])
    rec = mk("elem", recs, 0)
    shots = attr(rec, "shots")
    sk = mk("elem", shots, 0)
    s = item(shots, sk)
    rd = Scene(fl)
    modes(fl, rep, "images", A)
    bn = [y for e in bins(fl, "images") for y in packed(fl, rep, "images.bin", e)]
    head, body = bn[:1], bn[1:]
    rep.expect(head[0][0] == "Q" and total(fl, head[0][1], recs, "shots"), "count", "colmap images", where, "the number of images is %s" % unfold(fl, head[0][1])[:80])
    txt, lines = printed(fl, rep, "images.txt", lines_of(fl)[0])
    nl = [i for i, x in enumerate(lines) if x[0] == "\n"]
    ok = len(nl) == 2 and nl[1] == len(lines) - 1 and not any(lines[i][2] for i in nl) and all(not x[2] for x in lines[:nl[0]]) and all(x[2] for x in lines[nl[0] + 1:nl[1]])
    rep.expect(ok, "layout", "colmap images:lines", where, "an image is not one line and its points another")
    F = item(fm, sk)
    fi = mk("idx", F)
    for n, ws, lt in (("txt", txt, "d" + "f" * 7 + "dsffd"), ("bin", body, "I" + "d" * 7 + "I?cQddq")):
        letters(rep, "colmap images:%s" % n, [w[0] for w in ws], lt, where)
        if len(ws) != len(lt):
            continue
        rep.expect(canon(fl, ws[0][1]) is item(im, sk), "index", "colmap images:%s" % n, where, "the number of the image is %s" % unfold(fl, ws[0][1])[:60])
        qs = [x for w in ws[1:5] for x in tm.walk(canon(fl, w[1])) if x.op == "call" and (tm.callee_name(x) or "").endswith("angle_axis_to_quaternion")]
        ok = bool(qs)
        for x in qs:
            a = list(tm.call_parts(x)[1]) + list(dict(tm.call_parts(x)[2]).values())
            ok = ok and canon(fl, strip(a[0])) is attr(attr(s, "pose"), "rotation")
        rep.expect(ok, "pose", "colmap rotation:%s" % n, where, "the quaternion is of %s" % (unfold(fl, qs[0])[:80] if qs else None))
        got = [canon(fl, w[1]) for w in ws[1:5]]
        if qs:
            if n == "bin" and len(got) == 4:
                pass
            rep.expect(got == [item(canon(fl, qs[0]), const(i)) for i in range(4)], "pose", "colmap quaternion:%s" % n, where, "the quaternion is written as %s" % [unfold(fl, x)[-12:] for x in got])
        compare(fl, rep, "pose", "colmap translation:%s" % n, where, [rd(w[1]) for w in ws[5:8]], rd(attr(attr(s, "pose"), "translation")), "the translation is")
        rep.expect(canon(fl, ws[8][1]) is item(cm, attr(attr(s, "camera"), "id")), "index", "colmap camera:%s" % n, where, "the camera of the image is %s" % unfold(fl, ws[8][1])[:80])
        name = ws[9][1]
        if n == "bin":
            ok = name.op == "mcall" and name.args[1] == "encode" and canon(fl, name.args[0]) is sk
            ok = ok and is_const(ws[10][1]) and cval(ws[10][1]) in (b"\x00", "b'\\x00'")
        else:
            ok = canon(fl, name) is sk
        rep.expect(ok, "content", "colmap name:%s" % n, where, "the name of the image is %s" % unfold(fl, name)[:60])
        pts = [w[1] for w in ws[-3:]]
        loops = ws[-1][3]
        if n == "bin":
            src, part = [], []
            for x in pts:
                b, ks = items(x)
                if not (b.op == "slice_of" and len(ks) == 1 and is_const(ks[0])):
                    break
                src.append(b.args[0])
                part.append(cval(ks[0]))
            if not rep.expect(len(src) == 3 and len(set(src)) == 1 and part == [0, 1, 2], "layout", "colmap points2D:bin", where, "the image points are %s" % [unfold(fl, x)[-20:] for x in pts]):
                continue
            seq = stream(fl, src[0])
            if not rep.expect(len(seq) == 3, "layout", "colmap points2D:bin", where, "an image point has %d values" % len(seq)):
                continue
            by3(fl, rep, b, ws[-1][3][-1], where)
            pts, loops = [x[0] for x in seq], seq[0][2]
            cnt = canon1(ws[11][1])
            ok = cnt.op == "bin" and cnt.args[0] == "//" and is_const(cnt.args[2]) and cval(cnt.args[2]) == 3 and tm.callee_name(cnt.args[1]) == "len" and cnt.args[1].args[2] is src[0]
            ok = ok or (tm.callee_name(cnt) == "len" and canon(fl, cnt.args[2]) is F)
            rep.expect(ok, "count", "colmap points2D", where, "the number of image points is %s" % unfold(fl, cnt)[-60:])
            gs = seq[0][1]
        else:
            gs = ws[-1][2]
        rep.expect(bool(loops) and canon(fl, loops[-1]) is F, "observation", "colmap points2D:%s" % n, where, "the image points are those of %s" % (unfold(fl, loops[-1])[:60] if loops else None))
        rep.expect(not [g for g in gs if tm.contains(canon(fl, g[0]), lambda x: x is fi)], "index", "colmap all points:%s" % n, where, "some image points are left out, though tracks refer to them by number")
        got = [canon(fl, x) for x in pts[:2]]
        e = (item(F, fi), mk("elem", F, 0))
        rep.expect(any(got == [item(x, const(0)), item(x, const(1))] for x in e), "observation", "colmap xy:%s" % n, where, "the image point is at %s" % [unfold(fl, x)[-60:] for x in got])
        point_number(fl, rep, n, pts[2], pm, fi, sk, recs, data, where)


def by3(fl, rep, b, loop, where):
    """The values are taken in threes from the beginning to the end."""
    x = loop
    ok = x.op == "call" and tm.callee_name(x) == "range"
    if ok:
        a = tm.call_parts(x)[1]
        ok = len(a) == 3 and is_const(a[0]) and cval(a[0]) == 0 and is_const(a[2]) and cval(a[2]) == 3 and tm.callee_name(a[1]) == "len" and a[1].args[2] is b.args[0]
    rep.expect(ok, "layout", "colmap points2D:step", where, "the image points are written over %s" % unfold(fl, x)[-60:])


def point_number(fl, rep, n, t, pm, fi, sk, recs, data, where):
    """The number of the point the feature observes, or -1."""
    M = tm.mcall(tm.mcall(data, "load_tracks_manager", []), "get_shot_observations", [sk])
    for obs, made in itertools.product((True, False), repeat=2):
        def d(c):
            if c.op == "cmp" and c.args[0] in ("in", "not in"):
                x = canon(fl, c.args[2])
                if x is pm:
                    return made == (c.args[0] == "in")
                if x.op == "obj":
                    return obs == (c.args[0] == "in")
            if c.op == "cmp" and c.args[0] in ("is", "is not") and any(is_const(x) and cval(x) is None for x in c.args[1:]):
                return (not obs) == (c.args[0] == "is")
            return None

        v = [x for x in leaves(Fold(decide=d, fl=fl)(t))]
        if len(v) == 1 and v[0].op == "mcall" and v[0].args[1] == "get" and canon(fl, v[0].args[0]) is pm:
            g = tm.call_parts(v[0])[1]
            v = [item(pm, g[0])] if made else [g[1]] if len(g) > 1 else []
        if not (obs and made):
            ok = len(v) == 1 and fo.equal(Scene(fl)(v[0]), fo.const(-1))
            rep.expect(ok, "observation", "colmap none:%s" % n, where, "an image point without a point is written as %s" % [unfold(fl, x)[:60] for x in v])
            continue
        ok = len(v) == 1 and v[0].op == "item" and canon(fl, v[0].args[0]) is pm
        ks = v[0].args[1] if ok else None
        ok = ok and ks.op == "tup" and len(ks.args) == 2 and canon(fl, ks.args[0]) is mk("idx", recs)
        ok = ok and ks.args[1].op == "item" and canon(fl, ks.args[1].args[1]) is fi
        tab = fl.h(ks.args[1].args[0]) if ok and ks.args[1].args[0].op == "obj" else None
        ok = ok and tab is not None and tab.kind == "dict" and len(tab.log) == 1
        if ok:
            e = tab.log[0]
            k = mk("elem", M, 0)
            ok = canon(fl, e.key) is attr(item(M, k), "id") and canon(fl, e.val) is k and not own(tab, e)
        rep.expect(ok, "index", "colmap point of feature:%s" % n, where, "the point of an image point is %s" % [unfold(fl, x)[:120] for x in v])


def quaternion(prog, rep):
    fl, r, A = run(prog, C + ".angle_axis_to_quaternion", {C})
    a = A["angle_axis"]
    where = "angle_axis_to_quaternion"
    for v in ([0.0, 0.0, 0.0], [0.3, -0.4, 1.2], [2.0, 0.1, 0.0], [-3.0, 0.2, 0.4], [0.0, 0.0, 1e-3]):
        n = math.sqrt(sum(x * x for x in v))
        want = [1.0, 0.0, 0.0, 0.0] if n == 0 else [math.cos(n / 2)] + [x / n * math.sin(n / 2) for x in v]
        env = {item(a, const(i)): x for i, x in enumerate(v)}
        norm = tm.call(mk("ext", "numpy.linalg.norm"), [a])
        env[norm] = n

        def value(t):
            return number_of_term(fl, t, env)

        def decide(c):
            if c.op == "cmp" and c.args[0] in ("<", "<=", ">", ">=", "==", "!="):
                x, y = value(c.args[1]), value(c.args[2])
                return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y, "!=": x != y}[c.args[0]]
            return None

        w = leaves(Fold(decide=decide, fl=fl)(r))
        got = [value(x) for x, g, l in stream(fl, w[0])] if len(w) == 1 else []
        ok = len(got) == 4 and all(abs(x - y) < 1e-9 for x, y in zip(got, want))
        rep.expect(ok, "pose", "colmap quaternion", where, "the quaternion of %s is %s" % (v, got))


def number_of_term(fl, t, env):
    if t in env:
        return env[t]
    if is_const(t):
        return float(cval(t))
    if t.op == "un":
        return -number_of_term(fl, t.args[1], env)
    if t.op == "bin":
        x, y = (number_of_term(fl, z, env) for z in t.args[1:3])
        return {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y, "**": lambda: x ** y}[t.args[0]]()
    if t.op == "call":
        f = {"cos": math.cos, "sin": math.sin, "sqrt": lambda z: math.sqrt(max(z, 0)), "float": float}.get(tm.callee_name(t).split(".")[-1])
        if f:
            return f(number_of_term(fl, tm.call_parts(t)[1][0], env))
    raise LookupError(unfold(fl, t)[:60])


TABLE = {
    "add_camera": ("cameras", ["camera_id", "model", "width", "height", "params", "prior_focal_length"]),
    "add_image": ("images", ["image_id", "name", "camera_id"] + ["prior_q%d" % i for i in range(4)] + ["prior_t%d" % i for i in range(3)]),
    "add_keypoints": ("keypoints", ["image_id", "keypoints.shape", "keypoints"]),
    "add_descriptors": ("descriptors", ["image_id", "descriptors.shape", "descriptors"]),
    "add_matches": ("matches", ["pair", "matches.shape", "matches"]),
    "add_two_view_geometry": ("two_view_geometries", ["pair", "matches.shape", "matches", "config", "F", "E", "H"]),
}
DTYPES = {"params": "float64", "keypoints": "float32", "descriptors": "uint8", "matches": "uint32", "F": "float64", "E": "float64", "H": "float64"}
MAX = 2 ** 31 - 1


def ordered(i, j):
    """Numbers of two images that are i and j."""
    def decide(c):
        if c.op == "cmp" and c.args[0] in ("<", "<=", ">", ">=", "==", "!="):
            n = [{"p:image_id1": i, "p:image_id2": j}.get(x.args[0]) if x.op == "sym" else 3 if tm.contains(x, lambda y: y.op == "ext" and y.args[0] == "sys.version_info") else cval(x) if is_const(x) else None for x in c.args[1:]]
            if None in n:
                return None
            x, y = n
            return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y, "!=": x != y}[c.args[0]]
        return None

    return decide


def flat_row(t):
    if t.op == "bin" and t.args[0] == "+":
        return [y for x in t.args[1:] for y in flat_row(x)]
    return list(t.args) if t.op == "tup" else [t]


def colmap_database(prog, rep):
    cls = C + ".COLMAPDatabase"
    for f, (table, cols) in TABLE.items():
        fl, r, A = run(prog, cls + "." + f, {C}, self_cls=cls)
        ex = effects(fl, ("mcall",), "execute")
        if not rep.expect(len(ex) == 1 and len(ex[0].args) == 2 and is_const(ex[0].args[0]), "layout", "colmap db:%s" % f, f, "%d rows are written" % len(ex)):
            continue
        sql = cval(ex[0].args[0]).split()
        rep.expect(sql[:3] == ["INSERT", "INTO", table], "layout", "colmap db:%s" % f, f, "the row is written by %s" % " ".join(sql)[:60])
        rep.expect(cval(ex[0].args[0]).count("?") == len(cols) + sum(c.endswith(".shape") for c in cols), "layout", "colmap db:%s" % f, f, "the row has %d values" % cval(ex[0].args[0]).count("?"))
        for i, j in ((3, 7), (7, 3)):
            row = flat_row(Fold(decide=ordered(i, j), fl=fl)(ex[0].args[1]))
            if not rep.expect(len(row) == len(cols), "layout", "colmap db:%s" % f, f, "the row has %d values" % len(row)):
                continue
            for c, x in zip(cols, row):
                column(fl, rep, f, c, x, A, i, j)
            if "pair" not in cols:
                break
    fl, r, A = run(prog, C + ".export_cameras", {C})
    data, db = A["data"], A["db"]
    where = "export_cameras"
    add, img = effects(fl, ("mcall",), "add_camera"), effects(fl, ("mcall",), "add_image")
    if len(add) != 1 or len(img) != 1:
        raise AnalysisBroken("cameras and images are added")
    models = tm.mcall(data, "load_camera_models", [])
    ck = mk("elem", models, 0)
    over = tm.mcall(data, "load_camera_models_overrides", [])
    for o, there in ((False, False), (True, False), (True, True)):
        def more(c):
            if c.op == "mcall" and c.args[1] == "camera_models_overrides_exists":
                return o
            if c.op == "cmp" and c.args[0] in ("in", "not in") and c.args[1] is ck:
                return there == (c.args[0] == "in")
            return None

        c = item(over, ck) if there else item(models, ck)
        for kind in MODELS:
            e = add[0]
            a = argmap(["model", "width", "height", "params"], e)
            got = {k: first(fl, first(fl, x, kind, more), kind, more) for k, x in a.items()}
            rep.expect(model(fl, got["model"], kind, 1), "camera", "colmap db model:%s" % kind, where, "the model of a %s camera is %s" % (kind, unfold(fl, got["model"])[:60]))
            rd = Scene(fl)
            ps = rd(got["params"])
            compare(fl, rep, "camera", "colmap db:%s:%d%d" % (kind, o, there), where, [rd(got["width"]), rd(got["height"])] + (ps if isinstance(ps, list) else []),
                    [rd(attr(c, "width")), rd(attr(c, "height"))] + params_of(fl, c, kind), "a %s camera is added as" % kind)
    a = argmap(["name", "camera_id"], img[0])
    images = tm.mcall(data, "images", [])
    ik = mk("elem", images, 0)
    rep.expect(canon(fl, a["name"]) is ik and not img[0].guards, "index", "colmap db:image", where, "the image is added as %s" % unfold(fl, a["name"])[:60])
    x = a["camera_id"]
    exif = item(tm.mcall(data, "load_exif", [ik]), const("camera"))
    ok = x.op == "item" and x.args[0].op == "obj" and canon(fl, x.args[1]) is exif and table_of(fl, x.args[0], ck, add[0].result)
    rep.expect(ok, "index", "colmap db:camera", where, "the camera of an image is %s" % unfold(fl, x)[:80])
    r = core(fl, r)
    rs = r.args if r.op == "tup" else []
    ok = len(rs) == 2 and table_of(fl, rs[0], ik, img[0].result) and table_of(fl, rs[1], ck, add[0].result)
    rep.expect(ok, "index", "colmap db:numbers", where, "the numbers of images and cameras are %s" % [unfold(fl, x)[:60] for x in rs])
    # features
    fl, r, A = run(prog, C + ".export_features", {C})
    data, db, im = A["data"], A["db"], A["images_map"]
    where = "export_features"
    kp = effects(fl, ("mcall",), "add_keypoints")
    if len(kp) != 1:
        raise AnalysisBroken("image points are added")
    ik = mk("elem", tm.mcall(data, "images", []), 0)
    a = argmap(["image_id", "keypoints"], kp[0])
    rep.expect(canon(fl, a["image_id"]) is item(im, ik), "index", "colmap db:keypoints", where, "the image points are those of image %s" % unfold(fl, a["image_id"])[:60])
    v = a["keypoints"]
    rep.expect(core(fl, r).op == "obj" and table_of(fl, core(fl, r), ik, v, True), "index", "colmap db:features", where, "the image points are kept as %s" % unfold(fl, r)[:80])
    ok = v.op == "call" and tm.callee_name(v).endswith("denormalized_image_coordinates")
    if ok:
        k = dict(tm.call_parts(v)[2])
        k.update(zip(["norm_coords", "width", "height"], tm.call_parts(v)[1]))
        ex = tm.mcall(data, "load_exif", [ik])
        pts = k.get("norm_coords")
        ok = canon(fl, k.get("width")) is item(ex, const("width")) and canon(fl, k.get("height")) is item(ex, const("height"))
        ok = ok and pts is not None and canon(fl, pts) is attr(tm.mcall(data, "load_features", [ik]), "points")
    rep.expect(ok, "observation", "colmap db:keypoints", where, "the image points are %s" % unfold(fl, v)[:120])


def table_of(fl, d, k, v, guarded=False):
    h = fl.h(d)
    return h is not None and h.kind == "dict" and len(h.log) == 1 and canon(fl, h.log[0].key) is k and h.log[0].val is v


def column(fl, rep, f, c, x, A, i, j):
    if c == "pair":
        try:
            n = number_of_term(fl, x, {A["image_id1"]: i, A["image_id2"]: j})
        except LookupError as e:
            n = str(e)
        rep.expect(n == min(i, j) * MAX + max(i, j), "index", "colmap db:pair:%s" % f, f, "images %d and %d are pair %s" % (i, j, n))
        return
    name = c.split(".")[0]
    if c.startswith("prior_q") or c.startswith("prior_t"):
        want = item(A[c[:-1]], const(int(c[-1])))
        rep.expect(x is want, "layout", "colmap db:%s:%s" % (f, c), f, "%s is written as %s" % (c, unfold(fl, x)[:40]))
        return
    syms = {y.args[0] for y in tm.walk(x) if y.op == "sym"} - {"self"}
    rep.expect(syms == {"p:" + name}, "layout", "colmap db:%s:%s" % (f, c), f, "%s is written as %s" % (c, unfold(fl, x)[:60]))
    rep.expect(c.endswith(".shape") == any(y.op == "attr" and y.args[1] == "shape" for y in tm.walk(x)), "layout", "colmap db:%s:%s" % (f, c), f, "%s is written as %s" % (c, unfold(fl, x)[:60]))
    if name in DTYPES and not c.endswith(".shape"):
        kinds = {y.args[0].split(".")[-1] for y in tm.walk(x) if y.op == "ext" and y.args[0].startswith("numpy.") and y.args[0].split(".")[-1] in ("float64", "float32", "uint8", "uint32", "int32", "uint16", "uint64", "int64", "float16")}
        rep.expect(kinds == {DTYPES[name]}, "layout", "colmap db:%s:%s type" % (f, c), f, "%s is written as %s" % (c, sorted(kinds)))
    if i > j or "image_id2" not in A:
        pass
    if "image_id2" in A and not c.endswith(".shape"):
        if name == "matches":
            y = inner(x)
            rep.expect(swaps(y) % 2 == (1 if i > j else 0), "pairs", "colmap db:%s:%s:%d" % (f, c, i > j), f, "with the pair %sexchanged the matches are %s" % ("" if i > j else "not ", unfold(fl, y)[:60]))
        elif name in ("F", "E"):
            n = sum(y.op == "attr" and y.args[1] == "T" or y.op == "mcall" and y.args[1] == "transpose" or y.op == "call" and (tm.callee_name(y) or "").endswith("transpose") for y in tm.walk(x))
            rep.expect(n % 2 == (1 if i > j else 0), "pairs", "colmap db:%s:%s:%d" % (f, c, i > j), f, "with the pair %sexchanged %s is %s" % ("" if i > j else "not ", name, unfold(fl, x)[:60]))
        elif name == "H":
            n = sum((tm.callee_name(y) or "").endswith("linalg.inv") for y in tm.walk(x) if y.op == "call")
            rep.expect(n % 2 == (1 if i > j else 0), "pairs", "colmap db:%s:%s:%d" % (f, c, i > j), f, "with the pair %sexchanged %s is %s" % ("" if i > j else "not ", name, unfold(fl, x)[:60]))


def inner(t):
    while True:
        if t.op == "mcall" and t.args[1] in ("tobytes", "astype"):
            t = t.args[0]
        elif t.op == "call" and tm.callee_name(t).split(".")[-1] in ("asarray", "array", "ascontiguousarray", "getbuffer"):
            t = t.args[2]
        else:
            return t


def colmap_matches(prog, rep):
    fl, r, A = run(prog, C + ".export_matches", {C})
    where = "export_matches"
    data, db, fm, im = (A[k] for k in ("data", "db", "features_map", "images_map"))
    images = tm.mcall(data, "images", [])
    i1 = mk("elem", images, 0)
    ms = tm.mcall(data, "load_matches", [i1])
    i2 = mk("elem", ms, 0)
    one = mk("elem", item(ms, i2), 0)
    puts = []
    for e in effects(fl, ("mcall",), "update"):
        h = fl.h(e.args[0]) if e.args and e.args[0].op == "obj" else None
        if h is not None and h.kind == "dict" and len(h.log) == 1:
            puts.append((e, e.recv, h.log[0].key))
    for e in fl.effects:
        if e.kind == "setitem" and e.args[0].op == "tup" and len(e.loops) == 3:
            puts.append((e, e.recv, e.args[0]))
    for e in effects(fl, ("mcall",), ("add", "append")):
        if e.args and e.args[0].op == "tup" and len(e.loops) == 3:
            puts.append((e, e.recv, e.args[0]))
    if not puts:
        raise AnalysisBroken("matches are collected")

    def order(first_):
        """Decide which of the two images comes first."""
        def d(c):
            if c.op == "cmp" and c.args[0] in ("<", "<=", ">", ">="):
                x, y = canon(fl, c.args[1]), canon(fl, c.args[2])
                if (x, y) == (i1, i2):
                    return first_ == (c.args[0] in ("<", "<="))
                if (x, y) == (i2, i1):
                    return first_ == (c.args[0] in (">", ">="))
            return None

        return d

    def arranged(t, first_):
        """The two images, of an expression that puts them in order."""
        x = t
        while x.op == "call" and tm.callee_name(x) in ("tuple", "list") and len(tm.call_parts(x)[1]) == 1:
            x = tm.call_parts(x)[1][0]
        if x.op == "call" and tm.callee_name(x) == "sorted":
            f, a, k = tm.call_parts(x)
            xs = [canon(fl, y) for y in (a[0].args if a[0].op == "tup" else [v for v, g, l in sequence(fl, a[0])])]
            if not dict(k) and len(xs) == 2 and set(xs) == {i1, i2}:
                return mk("tup", *((i1, i2) if first_ else (i2, i1)))
        return t

    def smaller(t, first_):
        if t.op == "item" and is_const(t.args[1]) and cval(t.args[1]) in (0, 1, -1, -2):
            x = arranged(t.args[0], first_)
            if x.op == "tup" and len(x.args) == 2:
                t = x.args[cval(t.args[1])]
        t = canon(fl, Fold(decide=order(first_), fl=fl)(t))
        if t.op == "call" and tm.callee_name(t) in ("min", "max") and set(tm.call_parts(t)[1]) == {i1, i2}:
            return (i1, i2)[first_ != (tm.callee_name(t) == "min")]
        return t

    for fst in (True, False):
        mine = [x for x in puts if Fold(decide=order(fst), fl=fl).truth(cond_of([g for g in x[0].guards])) is not FALSE]
        if not rep.expect(len(mine) == 1, "pairs", "colmap:one:%d" % fst, where, "a match is collected %d times" % len(mine)):
            continue
        e, recv, k = mine[0]
        k = Fold(decide=order(fst), fl=fl)(k)
        want = [item(one, const(0)), item(one, const(1))]
        got = [canon(fl, x) for x in k.args] if k.op == "tup" else []
        rep.expect(got == (want if fst else want[::-1]), "pairs", "colmap:match:%d" % fst, where, "of an image %s its partner the match is kept as %s" % ("before" if fst else "after", [unfold(fl, x)[-8:] for x in got]))
        pk = pair_key(fl, recv, order(fst))
        pk = arranged(pk, fst) if pk is not None else None
        got = [smaller(x, fst) for x in pk.args] if pk is not None and pk.op == "tup" else []
        rep.expect(got == ([i1, i2] if fst else [i2, i1]), "pairs", "colmap:pair:%d" % fst, where, "the matches are kept for the pair %s" % [unfold(fl, x)[-40:] for x in got])
    # what is written of a pair
    rb = effects(fl, ("call",), "robust_match_fundamental")
    out = effects(fl, ("mcall",), ("add_matches", "add_two_view_geometry"))
    rep.expect(len(rb) == 1 and {e.name for e in out} == {"add_matches", "add_two_view_geometry"}, "pairs", "colmap:written", where, "the matches of a pair are not written")
    for e in rb:
        a = argmap(["p1", "p2", "matches", "config"], e)
        for fst in (True, False):
            got = [key_in(fl, a[k], fm, smaller, fst) for k in ("p1", "p2")]
            rep.expect(got == ([i1, i2] if fst else [i2, i1]), "pairs", "colmap:robust:%d" % fst, where, "the matches are checked with the points of %s" % [unfold(fl, a[k])[:80] for k in ("p1", "p2")])
        rows = [x for x in sequence(fl, strip(a["matches"]))]
        cols = [x for v, g, l in rows for x in (sequence(fl, strip(v)) if strip(v).op == "obj" else [(y, (), ()) for y in strip(v).args] if strip(v).op == "tup" else [(v, g, l)])]
        ks = [cval(canon(fl, x[0]).args[1]) for x in cols if canon(fl, x[0]).op == "item" and is_const(canon(fl, x[0]).args[1])]
        rep.expect(ks == [0, 1] or (len(cols) == 1 and not ks), "pairs", "colmap:columns", where, "the columns of the matches are %s" % ks)
    for e in out:
        a = argmap(["image_id1", "image_id2", "matches"], e)
        for fst in (True, False):
            got = [key_in(fl, a[k], im, smaller, fst) for k in ("image_id1", "image_id2")]
            rep.expect(got == ([i1, i2] if fst else [i2, i1]), "pairs", "colmap:ids:%s:%d" % (e.name, fst), where, "the matches are written for images %s" % [unfold(fl, a[k])[:80] for k in ("image_id1", "image_id2")])
        ok = bool(rb) and canon(fl, a["matches"]) is canon(fl, item(rb[0].result, const(1)))
        rep.expect(ok, "pairs", "colmap:inliers:%s" % e.name, where, "the matches written are %s" % unfold(fl, a["matches"])[:80])
        if e.name == "add_two_view_geometry":
            k = dict(e.kwargs)
            rep.expect(bool(rb) and "F" in k and canon(fl, k["F"]) is canon(fl, item(rb[0].result, const(0))), "pairs", "colmap:F", where, "the fundamental matrix written is another")


def key_in(fl, t, table, smaller, fst):
    t = t if t.op == "item" else canon(fl, t)
    return smaller(t.args[1], fst) if t.op == "item" and canon(fl, t.args[0]) is table else None


def pair_key(fl, recv, d):
    """The key under which the collection that receives a match is kept."""
    r = recv
    if r.op == "item" and r.args[0].op == "obj":
        return Fold(decide=d, fl=fl)(r.args[1])
    if r.op == "mcall" and r.args[1] == "setdefault":
        return Fold(decide=d, fl=fl)(r.args[3])
    if r.op == "obj":
        for h in fl.heap.values():
            for e in getattr(h, "log", []):
                if e.kind == "set" and e.val is r:
                    return Fold(decide=d, fl=fl)(e.key)
    return None


def callers(prog, rep):
    """The exporters are given what they are to describe."""
    for mod, q, und in (("export_bundler", "export_bundler", None), ("export_visualsfm", "export", True), ("export_openmvs", "export", True), ("export_pmvs", "export", None)):
        m = B + mod
        fl, r, A = run(prog, m + ".run_dataset", {m}, [m + "." + q, m + ".validate_image_names"])
        es = effects(fl, ("call",), q)
        es = [e for e in es if e.name == m + "." + q or e.name == q]
        if not rep.expect(len(es) == 1, "content", "%s:called" % mod, mod, "the exporter is called %d times" % len(es)):
            continue
        e = es[0]
        kw = dict(e.kwargs)
        data = A["data"]
        ud = tm.mcall(data, "undistorted_dataset", [])
        for u in ((True, False) if "undistorted" in A else (True,)):
            d = lambda c: u if c is A.get("undistorted") else None
            src = (ud, "load_undistorted_") if u else (data, "load_")
            rec = tm.mcall(src[0], src[1] + "reconstruction", [])
            f = Fold(decide=d, fl=fl)
            rv = canon(fl, f(kw.get("reconstructions", kw.get("reconstruction"))))
            ok = rv is rec or rv in (item(rec, const(0)), mk("elem", rec, 0))
            rep.expect(ok, "content", "%s:reconstruction:%d" % (mod, u), mod, "the reconstruction exported is %s" % unfold(fl, rv)[:80])
            tv = [canon(fl, x) for x in leaves(f(kw.get("track_manager", kw.get("tracks_manager")))) if not is_const(x)]
            want = tm.mcall(src[0], src[1] + "tracks_manager", [])
            rep.expect(tv == [want], "content", "%s:tracks:%d" % (mod, u), mod, "the tracks are %s" % [unfold(fl, x)[:60] for x in tv])
            if "image_list" in kw:
                iv = canon(fl, f(kw["image_list"]))
                want = attr(item(rec, const(0)), "shots") if u else tm.mcall(data, "images", [])
                rep.expect(iv is want, "index", "%s:images:%d" % (mod, u), mod, "the images exported are %s" % unfold(fl, iv)[:60])
        if "udata" in kw:
            rep.expect(canon(fl, kw["udata"]) is ud, "content", "%s:udata" % mod, mod, "the undistorted data are %s" % unfold(fl, kw["udata"])[:60])
    fl, r, A = run(prog, C + ".run_dataset", {C}, [C + "." + f for f in ("export_cameras", "export_features", "export_matches", "export_ini_file", "export_cameras_reconstruction", "export_points_reconstruction", "export_images_reconstruction")] + [C + ".COLMAPDatabase.connect"])
    g = {}
    for e in fl.effects:
        if e.kind == "call" and e.name.startswith(C + ".export_"):
            g[e.name.split(".")[-1]] = e
    need = ["export_cameras", "export_features", "export_matches", "export_cameras_reconstruction", "export_points_reconstruction", "export_images_reconstruction"]
    if not rep.expect(all(n in g for n in need), "content", "colmap:called", "run_dataset", "not everything is exported"):
        return
    im, cm = (item(g["export_cameras"].result, const(i)) for i in (0, 1))
    fm, pm = g["export_features"].result, g["export_points_reconstruction"].result
    for n in need:
        for k, want in (("images_map", im), ("camera_map", cm), ("features_map", fm), ("points_map", pm), ("binary", A["binary"])):
            kw = dict(g[n].kwargs)
            if k in kw:
                rep.expect(kw[k] is want, "index", "colmap:%s:%s" % (n, k), "run_dataset", "%s is given %s" % (n, unfold(fl, kw[k])[:60]))
