"""P34: the container of a reconstruction holds what is added to it."""

import ast
import itertools


from checks.util import run
from sa import terms as tm

from sa.fold import Fold

from sa.match import core, leaves, unfold
from sa.program import AnalysisBroken
from sa.terms import FALSE, NONE, TRUE, attr, cond_of, const, cval, is_const, item, mk, sym

TECHNIQUE = "interprocedural effect analysis: the mutations each method makes on the underlying map, decided for every combination of what is held already"
EXPLANATION = (
    "Every method of types.Reconstruction is followed with its helpers down to the calls on the underlying map. The guards of those calls are "
    "decided for each combination of what the reconstruction holds already and of arguments given or not, in order, what one call creates being "
    "held from then on; the calls left are compared with those the property demands, argument by argument."
)
K = "opensfm.types.Reconstruction"
VIEWS = {"cameras": "CameraView", "biases": "BiasView", "rig_cameras": "RigCameraView", "rig_instances": "RigInstanceView", "shots": "ShotView", "pano_shots": "PanoShotView", "points": "LandmarkView"}
MAKES = {"create_camera": "cameras", "create_rig_camera": "rig_cameras", "create_rig_instance": "rig_instances", "create_shot": "shots", "create_pano_shot": "pano_shots", "create_landmark": "points"}
ORDER = ["cameras", "rig_cameras", "rig_instances", "shots", "pano_shots", "points"]


def check(prog, rep):
    rep.rule("held", "a method makes exactly the changes to the map that what is held already calls for")
    rep.rule("views", "each collection is the view of its kind on the reconstruction's own map")
    rep.rule("copy", "a copy has a map of its own, with the observations when they are asked for")
    rep.rule("observed", "observations of a tracks manager are added for the points and shots held")
    rep.rule("reference", "the reference keeps latitude, longitude and altitude in their places")
    cls = None
    for m, n in prog.modules.items():
        if m == "opensfm.types":
            cls = n.classes.get("Reconstruction")
    if cls is None:
        raise AnalysisBroken("types.Reconstruction not found")
    fields = views(prog, rep, cls)
    for f in (adding, rigs, shots, panos, points, removing, setters, copying, observed, reference):
        rep.part(f, prog, rep, cls, fields)
    rep.minimum("held", 60)


def go(prog, name, given=None):
    fl, r, A = run(prog, K + "." + name, {"opensfm.types"}, self_cls=K, given=given)
    return fl, r, A


def views(prog, rep, cls):
    """Which attribute is the view of what."""
    S = sym("a map")
    fl, r, A = run(prog, K + ".__init__", {"opensfm.types"}, self_cls=K)
    maps = [e for e in fl.effects if e.kind == "setattr" and e.name == "map"]
    me = maps[-1].recv if maps else None
    new = fl.deep(maps[-1].args[0]) if maps else None
    ok = new is not None and new.op == "call" and (tm.callee_name(new) or "").endswith("pymap.Map")
    rep.expect(ok and not maps[-1].guards, "views", "map", "__init__", "a new reconstruction starts with %s" % (new and unfold(fl, new)))
    out = {}
    for e in fl.effects:
        if e.kind == "setattr" and e.recv is me and e.name != "map":
            v = fl.deep(e.args[0])
            n = (tm.callee_name(v) or "").split(".")[-1] if v.op == "call" else None
            if n in VIEWS.values():
                rep.expect(list(tm.call_parts(v)[1]) == [new] or list(dict(tm.call_parts(v)[2]).values()) == [new], "views", "of:%s" % e.name, "__init__", "%s is a view of %s" % (e.name, unfold(fl, v)[:60]))
                out[e.name] = n
    for c, n in VIEWS.items():
        g = cls.props.get(c)
        if not rep.expect(g is not None, "views", "collection:%s" % c, K, "there is no collection %s" % c):
            continue
        fl, r, A = run(prog, K + "." + g.name, {"opensfm.types"}, self_cls=K)
        r = fl.deep(r)
        got = out.get(r.args[1]) if r.op == "attr" and r.args[0] is sym("self") else (tm.callee_name(r) or "").split(".")[-1] if r.op == "call" else None
        rep.expect(got == n, "views", "collection:%s" % c, g.name, "%s is %s" % (c, unfold(fl, r)[:60]))
        get = {"cameras": "get_camera", "shots": "get_shot", "pano_shots": "get_pano_shot", "points": "get_point"}.get(c)
        if get and get in cls.methods:
            fl, r, A = go(prog, get)
            i = [v for k, v in A.items()][0]
            r = core(fl, fl.deep(r))
            base = None
            if r.op == "mcall" and r.args[1] == "get" and list(r.args[3:])[:1] == [i]:
                base = r.args[0]
            for x in leaves(r):
                if x.op == "item" and x.args[1] is i:
                    base = x.args[0]
            ok = base is not None and base.op == "attr" and (out.get(base.args[1]) == n or base.args[1] == c)
            rep.expect(ok, "views", get, get, "%s returns %s" % (get, unfold(fl, r)[:60]))
    return out


def which(fields, t):
    """The collection a term is."""
    if t.op == "attr" and t.args[0] is sym("self"):
        n = fields.get(t.args[1])
        for c, v in VIEWS.items():
            if v == n or c == t.args[1]:
                return c
    if t.op == "mcall" and t.args[1] in ("keys",):
        return which(fields, t.args[0])
    return None


class Run:
    """The changes a method makes, given what is held and what the arguments are."""

    def __init__(self, fl, fields, held, more=None):
        self.fl, self.fields, self.held, self.more = fl, fields, set(held), more
        self.memo = {}
        self.made = set()
        self.changes, self.raised = [], False
        self.unread = []

    def norm(self, t):
        return self.fl.deep(Fold(decide=self.decide, fl=self.fl)(t))

    def ident(self, t):
        """The id of something, seen through what it was made of."""
        t = self.norm(t)
        if t.op == "attr" and t.args[1] == "id" and t.args[0].op == "call":
            c, a, k = tm.call_parts(t.args[0])
            n = (tm.callee_name(t.args[0]) or "").split(".")[-1]
            k = dict(k)
            if n == "RigInstance":
                return a[0] if a else k.get("id", t)
            if n == "RigCamera":
                return a[1] if len(a) > 1 else k.get("id", t)
        return t

    def decide(self, c):
        if self.more is not None:
            r = self.more(c)
            if r is not None:
                return r
        if c.op == "cmp" and c.args[0] in ("in", "not in"):
            w = which(self.fields, c.args[2])
            if w is not None:
                i = self.ident(c.args[1]) if c.args[1].op != "ite" else self.ident(Fold(decide=self.more or (lambda c: None), fl=self.fl)(c.args[1]))
                return ((w, i) in self.held) == (c.args[0] == "in")
        if c.op == "mcall" and c.args[1] == "__contains__":
            w = which(self.fields, c.args[0])
            if w is not None:
                return (w, self.ident(c.args[3])) in self.held
        if c.op == "cmp" and c.args[0] in ("is", "is not") and NONE in c.args[1:]:
            o = c.args[1] if c.args[2] is NONE else c.args[2]
            if o.op == "mcall" and o.args[1] == "get":
                w = which(self.fields, o.args[0])
                if w is not None:
                    return ((w, self.ident(o.args[3])) not in self.held) == (c.args[0] == "is")
            if is_const(o):
                return (cval(o) is None) == (c.args[0] == "is")
        # what shares a shot with an instance: a new instance has none
        return sharing(c, False)

    def live(self, e, now=False):
        pre = ()
        for g, p in e.guards:
            k = (pre, g)
            if now or k not in self.memo:
                t = Fold(decide=self.decide, fl=self.fl).truth(g)
                v = True if t is TRUE else False if t is FALSE else None
                if not now:
                    self.memo[k] = v
            else:
                v = self.memo[k]
            if v is None:
                self.unread.append(g)
                v = p
            if v != p:
                return False
            pre = pre + ((g, p),)
        return True

    def go(self):
        MAP = attr(sym("self"), "map")
        for e in self.fl.effects:
            if self.raised:
                break
            if e.kind == "raise" and not e.caught and self.live(e) and self.live(e, now=True):
                self.raised = True
            if e.kind == "mcall" and e.recv is MAP and self.live(e):
                a = [self.norm(x) for x in e.args] + [self.norm(x) for x in dict(e.kwargs or {}).values()]
                # a new instance has no rig cameras
                if e.loops and any(tm.contains(self.fl.deep(L), lambda y: y.op == "call" and (tm.callee_name(y) or "").endswith("pymap.RigInstance")) for L in e.loops):
                    continue
                if e.name == "update_rig_instance" and a and a[0].op == "call" and (tm.callee_name(a[0]) or "").endswith("pymap.RigInstance") and ("rig_instances", self.ident(attr(a[0], "id"))) in self.made:
                    continue
                if e.name in MAKES and a:
                    i = a[0]
                    if e.name in ("create_camera", "create_rig_camera"):
                        i = self.ident(attr(a[0], "id"))
                    if e.name == "create_rig_instance":
                        i = self.ident(a[0])
                        a = [i]
                    if e.name in ("create_shot", "create_pano_shot") and len(a) > 3:
                        a = [self.ident(x) for x in a[:4]] + a[4:]
                    self.held.add((MAKES[e.name], i))
                    self.made.add((MAKES[e.name], i))
                self.changes.append((e.name, tuple(a), tuple(e.loops)))
        return self


def sharing(c, yes):
    """A test of whether instances share shots, when they do or do not."""
    if c.op == "call" and tm.callee_name(c) == "any":
        return yes
    if c.op in ("nonempty", "truthy"):
        return sharing(c.args[0], yes)
    if c.op == "bin" and c.args[0] == "&" or c.op == "mcall" and c.args[1] == "intersection":
        return yes if tm.contains(c, lambda y: y.op == "attr" and y.args[1] == "shots") else None
    if c.op == "mcall" and c.args[1] == "isdisjoint":
        return (not yes) if tm.contains(c, lambda y: y.op == "attr" and y.args[1] == "shots") else None
    return None


def say(fl, ch):
    return "; ".join("%s(%s)" % (n, ", ".join(unfold(fl, x)[:40] for x in a)) for n, a, l in ch) or "nothing"


def new(cls, *a):
    return tm.call(mk("ext", "opensfm.pymap." + cls) if cls != "Pose" else mk("ext", "opensfm.pygeometry.Pose"), list(a))


def made(t, cls):
    return t.op == "call" and (tm.callee_name(t) or "").split(".")[-1] == cls


def parts(t):
    c, a, k = tm.call_parts(t)
    return list(a) + list(dict(k).values())


def identity(t):
    """An identity pose."""
    return made(t, "Pose") and not parts(t)


def matches(got, want):
    if len(got) != len(want):
        return False
    for g, w in zip(got, want):
        if callable(w):
            if not w(g):
                return False
        elif g is not w:
            return False
    return True


def compare(rep, where, what, R, want, raises=False):
    """The changes are those wanted, each once, things being made before what stands on them."""
    fl = R.fl
    for g in R.unread:
        rep.expect(False, "held", "%s:%s:condition" % (where, what), where, "whether the map is changed depends on %s" % unfold(fl, g)[:80])
        return
    if raises:
        rep.expect(R.raised, "held", "%s:%s:refused" % (where, what), where, "%s is accepted: %s" % (what, say(fl, R.changes)))
        return
    if not rep.expect(not R.raised, "held", "%s:%s:accepted" % (where, what), where, "%s is refused" % what):
        return
    rest = list(want)
    ok = len(R.changes) == len(want)
    last = -1
    for n, a, l in R.changes:
        hit = [k for k, (wn, wa) in enumerate(rest) if wn == n and matches(a, wa)]
        if not hit:
            ok = False
            break
        rest.pop(hit[0])
        # shots stand on cameras, rig cameras and instances
        if n in ("create_shot", "create_pano_shot"):
            ok = ok and not [w for w in rest if w[0] in ("create_camera", "create_rig_camera", "create_rig_instance")]
        if n.startswith("update_"):
            ok = ok and not [w for w in rest if w[0].startswith("create_")]
    rep.expect(ok and not rest, "held", "%s:%s" % (where, what), where, "when %s, the map is changed by: %s" % (what, say(fl, R.changes)))


def result(rep, where, what, R, r, want):
    r = R.norm(r)
    ok = any(r is w or (callable(w) and w(r)) for w in want)
    rep.expect(ok, "held", "%s:%s:result" % (where, what), where, "when %s, what is returned is %s" % (what, unfold(R.fl, r)[:80]))


def calls_map(n):
    return lambda r: r.op == "mcall" and r.args[1] == n and r.args[0] is attr(sym("self"), "map")


def gets(fields, c, i):
    def f(r):
        if r.op == "mcall" and r.args[1] == "get" and which(fields, r.args[0]) == c and r.args[3] is i:
            return True
        return r.op == "item" and which(fields, r.args[0]) == c and r.args[1] is i
    return f


# ---------------------------------------------------------------- cameras and rig cameras
def adding(prog, rep, cls, fields):
    for name, c, make in (("add_camera", "cameras", "create_camera"), ("add_rig_camera", "rig_cameras", "create_rig_camera")):
        fl, r, A = go(prog, name)
        x = list(A.values())[0]
        for held in (True, False):
            R = Run(fl, fields, [(c, attr(x, "id"))] if held else []).go()
            what = "it is held already" if held else "it is new"
            compare(rep, name, what, R, [] if held else [(make, (x,))])
            result(rep, name, what, Run(fl, fields, [(c, attr(x, "id"))] if held else []), r, [gets(fields, c, attr(x, "id"))] if held else [calls_map(make)])


def rigs(prog, rep, cls, fields):
    fl, r, A = go(prog, "add_rig_instance")
    x = list(A.values())[0]
    held_cams = attr(x, "rig_cameras")

    def cam(t):
        return t.op in ("elem", "item") and tm.contains(t, lambda y: y is held_cams)

    for held, shared, known in itertools.product((True, False), repeat=3):
        def more(c):
            if sharing(c, True) is not None:
                return sharing(c, shared)
            if c.op == "cmp" and c.args[0] in ("in", "not in") and which(fields, c.args[2]) == "rig_cameras":
                return known == (c.args[0] == "in")
            return None

        R = Run(fl, fields, [("rig_instances", attr(x, "id"))] if held else [], more).go()
        what = "the instance is %s, its rig cameras %s, its shots %s" % ("held" if held else "new", "held" if known else "new", "in another instance" if shared else "free")
        want = [("update_rig_instance", (x,))]
        if not held:
            want.append(("create_rig_instance", (attr(x, "id"),)))
        if not known:
            want.append(("create_rig_camera", (cam,)))
        compare(rep, "add_rig_instance", what, R, want, raises=shared)
        if shared:
            rep.expect(not [n for n, a, l in R.changes if n in ("update_rig_instance", "create_rig_instance")], "held", "add_rig_instance:%s:untouched" % what, "add_rig_instance", "an instance that is refused is stored")
        else:
            result(rep, "add_rig_instance", what, Run(fl, fields, [("rig_instances", attr(x, "id"))] if held else [], more), r, [calls_map("update_rig_instance")])
    # what is taken as shared: shots of the given instance that some held instance has
    ok = False
    for e in fl.effects:
        if e.kind != "raise":
            continue
        for g, p in e.guards:
            for c in tm.walk(g):
                if c.op == "call" and tm.callee_name(c) == "any" and fl.elements(tm.call_parts(c)[1][0]):
                    v, gs, ls = fl.elements(tm.call_parts(c)[1][0])[-1]
                    tests = [v] + [a for a, q in gs]
                    free = [a for a in tests if sharing(a, True) is None and not (is_const(a) and cval(a) is True)]
                elif sharing(c, True) is not None and e.loops:
                    tests, ls = [c], e.loops
                    free = [a for a, q in e.guards if sharing(a, True) is None]
                else:
                    continue
                both = [a for a in tests if sharing(a, True) is not None]
                ok = ok or bool(both) and not free and any(which(fields, core(fl, L)) == "rig_instances" for L in ls) and all(tm.contains(fl.deep(a), lambda y: y is attr(x, "shots")) and any(which(fields, y) == "rig_instances" for y in tm.walk(fl.deep(a))) for a in both)
    rep.expect(ok, "held", "add_rig_instance:shared", "add_rig_instance", "shots of other instances are not looked for in all of them")


# ---------------------------------------------------------------- shots
def shots(prog, rep, cls, fields):
    fl, r, A = go(prog, "create_shot")
    sid, cid, rc, ri, pose = (A[k] for k in ("shot_id", "camera_id", "rig_camera_id", "rig_instance_id", "pose"))
    for grc, gri, gp, hrc, hri in itertools.product((True, False), repeat=5):
        def more(c):
            if c is rc or c.op == "truthy" and c.args[0] is rc or c.op == "nonempty" and c.args[0] is rc:
                return grc
            if c is ri or c.op in ("truthy", "nonempty") and c.args[0] is ri:
                return gri
            if c is pose or c.op == "truthy" and c.args[0] is pose:
                return gp
            if c.op == "cmp" and c.args[0] in ("is", "is not") and NONE in c.args[1:]:
                o = c.args[1] if c.args[2] is NONE else c.args[2]
                for t, v in ((rc, grc), (ri, gri), (pose, gp)):
                    if o is t:
                        return v == (c.args[0] == "is not")
            return None

        rcid, riid = rc if grc else cid, ri if gri else sid
        held = [("cameras", cid)] + ([("rig_cameras", rcid)] if hrc else []) + ([("rig_instances", riid)] if hri else [])
        R = Run(fl, fields, held, more).go()
        what = "the rig camera is %s and %s, the instance %s and %s, the pose %s" % ("given" if grc else "not given", "held" if hrc else "new", "given" if gri else "not given", "held" if hri else "new", "given" if gp else "not")
        want = [("create_shot", (sid, cid, rcid, riid) + ((pose,) if gp else ()))]
        if not gp:
            # no pose, or an explicit identity
            if R.changes and len(R.changes[-1][1]) == 5:
                want = [("create_shot", (sid, cid, rcid, riid, identity))]
        if not grc and not hrc:
            want.append(("create_rig_camera", (lambda t: made(t, "RigCamera") and len(parts(t)) == 2 and identity(parts(t)[0]) and parts(t)[1] is cid,)))
        if not gri and not hri:
            want.append(("create_rig_instance", (sid,)))
        compare(rep, "create_shot", what, R, want, raises=(grc and not hrc) or (gri and not hri))
        if not R.raised:
            result(rep, "create_shot", what, Run(fl, fields, held + [("rig_cameras", rcid), ("rig_instances", riid)], more), r, [calls_map("create_shot")])
    fl, r, A = go(prog, "add_shot")
    s = list(A.values())[0]
    C, RC, RI = attr(s, "camera"), attr(s, "rig_camera"), attr(s, "rig_instance")
    cam, rcid, riid = attr(C, "id"), attr(s, "rig_camera_id"), attr(s, "rig_instance_id")
    for hc, hr, hi, hs in itertools.product((True, False), repeat=4):
        held = [("cameras", cam)] * hc + [("rig_cameras", rcid), ("rig_cameras", attr(RC, "id"))] * hr + [("rig_instances", riid), ("rig_instances", attr(RI, "id"))] * hi + [("shots", attr(s, "id"))] * hs
        R = Run(fl, fields, held).go()
        what = "the camera is %s, the rig camera %s, the instance %s and the shot %s" % tuple("held" if x else "new" for x in (hc, hr, hi, hs))
        want = [("update_shot", (s,))]
        if not hc:
            want.append(("create_camera", (C,)))
        if not hr:
            want.append(("create_rig_camera", (RC,)))
        if not hi:
            want.append(("create_rig_instance", (riid,)))
        if not hs:
            want.append(("create_shot", (attr(s, "id"), cam, rcid, riid, attr(s, "pose"))))
        compare(rep, "add_shot", what, R, want)
    result(rep, "add_shot", "a shot is added", Run(fl, fields, []), r, [calls_map("update_shot")])


def panos(prog, rep, cls, fields):
    fl, r, A = go(prog, "create_pano_shot")
    sid, cid, pose = (A[k] for k in ("shot_id", "camera_id", "pose"))
    ends = [e for e in fl.effects if e.kind == "mcall" and e.name == "create_pano_shot"]
    if not rep.expect(len(ends) == 1 and len(ends[0].args) == 5, "held", "create_pano_shot:made", "create_pano_shot", "panorama shots are made at %d places" % len(ends)):
        return
    rcid, riid = (Run(fl, fields, []).ident(x) for x in ends[0].args[2:4])

    def own(t, of):
        """An id that no other camera or shot has: the given one and some text of its own."""
        return t is not of and tm.contains(t, lambda y: y is of) and any(is_const(y) and isinstance(cval(y), str) and cval(y) for y in tm.walk(t))

    rep.expect(own(rcid, cid), "held", "create_pano_shot:rig-camera", "create_pano_shot", "panorama shots take the rig camera %s" % unfold(fl, rcid)[:60])
    rep.expect(own(riid, sid), "held", "create_pano_shot:instance", "create_pano_shot", "panorama shots take the rig instance %s" % unfold(fl, riid)[:60])
    for hr, hi, gp, hs in itertools.product((True, False), repeat=4):
        def more(c):
            if c is pose or c.op == "truthy" and c.args[0] is pose:
                return gp
            if c.op == "cmp" and c.args[0] in ("is", "is not") and set(c.args[1:]) == {NONE, pose}:
                return gp == (c.args[0] == "is not")
            return None

        held = [("cameras", cid)] + [("rig_cameras", rcid)] * hr + [("rig_instances", riid)] * hi + [("shots", sid)] * hs
        R = Run(fl, fields, held, more).go()
        what = "the rig camera is %s, the instance %s, the pose %s, a shot of the same id %s" % ("held" if hr else "new", "held" if hi else "new", "given" if gp else "not given", "held" if hs else "not held")
        want = [("create_pano_shot", (sid, cid, rcid, riid, pose if gp else identity))]
        if not hr:
            want.append(("create_rig_camera", (lambda t: made(t, "RigCamera") and len(parts(t)) == 2 and identity(parts(t)[0]) and parts(t)[1] is rcid,)))
        if not hi:
            want.append(("create_rig_instance", (riid,)))
        compare(rep, "create_pano_shot", what, R, want)
    result(rep, "create_pano_shot", "one is made", Run(fl, fields, []), r, [calls_map("create_pano_shot")])
    fl, r, A = go(prog, "add_pano_shot")
    s = list(A.values())[0]
    C = attr(s, "camera")
    for hc, hs in itertools.product((True, False), repeat=2):
        def more(c):
            return False if c.op == "cmp" and c.args[0] == "is" and set(c.args[1:]) == {NONE, attr(s, "pose")} else None

        held = [("cameras", attr(C, "id"))] * hc + [("pano_shots", attr(s, "id"))] * hs
        R = Run(fl, fields, held, more).go()
        what = "the camera is %s and the panorama shot %s" % tuple("held" if x else "new" for x in (hc, hs))
        any_ = lambda t: True  # noqa: E731
        want = [("update_pano_shot", (s,))]
        if not hc:
            want.append(("create_camera", (C,)))
        if not hs:
            want += [("create_rig_camera", (any_,)), ("create_rig_instance", (any_,)), ("create_pano_shot", (attr(s, "id"), attr(C, "id"), any_, any_, attr(s, "pose")))]
        compare(rep, "add_pano_shot", what, R, want)
    result(rep, "add_pano_shot", "one is added", Run(fl, fields, []), r, [calls_map("update_pano_shot")])


# ---------------------------------------------------------------- points, removals, whole collections
def zeros(t):
    v = t
    if v.op == "call" and tm.callee_name(v) in ("numpy.array", "numpy.zeros", "numpy.asarray"):
        a = tm.call_parts(v)[1]
        if tm.callee_name(v) == "numpy.zeros":
            return is_const(a[0]) and cval(a[0]) == 3 or a[0].op == "tup" and [cval(x) for x in a[0].args] == [3]
        v = a[0]
    nums = [cval(x) for x in tm.walk(v) if is_const(x) and isinstance(cval(x), (int, float)) and not isinstance(cval(x), bool)]
    return len(nums) == 3 and not any(nums) or (len(nums) == 1 and not nums[0] and v.op in ("list", "tup"))


def points(prog, rep, cls, fields):
    for name in ("create_point", "add_point"):
        fl, r, A = go(prog, name)
        if name == "create_point":
            pid, co = A["point_id"], A["coord"]
            colour = None
        else:
            p = list(A.values())[0]
            pid, co, colour = attr(p, "id"), attr(p, "coordinates"), attr(p, "color")
        for given, tinted in itertools.product((True, False), repeat=2 if colour is not None else 1) if colour is not None else (((True, True)), ((False, True))):
            def more(c):
                if c.op == "cmp" and c.args[0] in ("is", "is not") and NONE in c.args[1:]:
                    o = c.args[1] if c.args[2] is NONE else c.args[2]
                    if o is co:
                        return given == (c.args[0] == "is not")
                    if o is colour:
                        return tinted == (c.args[0] == "is not")
                return None

            R = Run(fl, fields, [], more).go()
            what = "coordinates are %s" % ("given" if given else "not given")
            compare(rep, name, what, R, [("create_landmark", (pid, co if given else zeros))])
            result(rep, name, what, Run(fl, fields, [], more), r, [calls_map("create_landmark")])
            if colour is not None:
                sets = [e for e in fl.effects if e.kind == "setattr" and e.name == "color" and Run(fl, fields, [], more).live(e)]
                ok = len(sets) == 1 and fl.deep(sets[0].args[0]) is colour and calls_map("create_landmark")(Run(fl, fields, [], more).norm(sets[0].recv)) if tinted else not sets
                rep.expect(ok, "held", "add_point:colour", name, "the colour of a point becomes %s" % [unfold(fl, e.args[0])[:40] for e in sets])


def removing(prog, rep, cls, fields):
    for name, call in (("remove_shot", "remove_shot"), ("remove_pano_shot", "remove_pano_shot"), ("remove_point", "remove_landmark"), ("remove_rig_instance", "remove_rig_instance"), ("remove_observation", "remove_observation"), ("add_observation", "add_observation"), ("set_bias", "set_bias")):
        if name not in cls.methods:
            rep.expect(False, "held", name, K, "there is no %s" % name)
            continue
        fl, r, A = go(prog, name)
        R = Run(fl, fields, [(c, x) for c in VIEWS for x in A.values()] if name.startswith("remove") else []).go()
        compare(rep, name, "it is called", R, [(call, tuple(A.values()))])


def setter_of(cls, c):
    if c in cls.setters:
        return None
    v = cls.assigns.get(c)
    if isinstance(v, ast.Call):
        for n in list(v.args[1:2]) + [k.value for k in v.keywords if k.arg == "fset"]:
            if isinstance(n, ast.Name):
                return n.id
    return None


def setters(prog, rep, cls, fields):
    """Assigning a whole collection adds each of its members."""
    want = {"cameras": "create_camera", "biases": "set_bias", "rig_cameras": "create_rig_camera", "rig_instances": "update_rig_instance", "shots": "update_shot", "pano_shots": "update_pano_shot", "points": "create_landmark"}
    for c, main in want.items():
        name = setter_of(cls, c)
        if name is None:
            continue
        fl, r, A = go(prog, name)
        coll = list(A.values())[0]
        es = [e for e in fl.effects if e.kind == "mcall" and e.recv is attr(sym("self"), "map")]
        mine = [e for e in es if e.name == main]
        if c == "points":
            # points without coordinates are put at the origin
            mine = [e for e in mine if not zeros(fl.deep(e.args[1]))] if len(mine) > 1 else mine
        if not rep.expect(len(mine) == 1 and len(mine[0].loops) == 1, "held", "set:%s" % c, name, "members are added at %d places" % len(mine)):
            continue
        e = mine[0]
        L = core(fl, e.loops[0])
        rep.expect(L is coll, "held", "set:%s:each" % c, name, "what is added is each of %s" % unfold(fl, e.loops[0])[:60])
        k = mk("elem", L, 0)
        v = item(coll, k)
        a = [fl.deep(x) for x in e.args]
        if c == "points":
            ok = a == [attr(v, "id"), attr(v, "coordinates")] or a[0] is attr(v, "id") and any(y is attr(v, "coordinates") for y in leaves(a[1]))
        elif c == "biases":
            ok = a == [k, v]
        else:
            ok = a == [v]
        rep.expect(ok, "held", "set:%s:what" % c, name, "what is added is %s" % [unfold(fl, x)[:40] for x in a])
        if c == "points":
            clear = [x for x in es if x.name == "clear_observations_and_landmarks"]
            rep.expect(len(clear) == 1 and not clear[0].loops and not clear[0].guards and clear[0].seq < e.seq, "held", "set:points:cleared", name, "former points are not removed before")
        else:
            rep.expect(not [x for x in es if x.name.startswith(("clear", "remove"))], "held", "set:%s:kept" % c, name, "what was held is removed")


# ---------------------------------------------------------------- copies, observations, reference
def copying(prog, rep, cls, fields):
    fl, r, A = go(prog, "__deepcopy__")
    d = list(A.values())[0]
    h = fl.h(r) if r.op == "obj" else None
    if not rep.expect(h is not None, "copy", "new", "__deepcopy__", "a copy is %s" % unfold(fl, r)[:60]):
        return
    sets = {}
    for e in fl.effects:
        if e.kind == "setattr" and e.recv is r:
            sets[e.name] = e.args[0]
    m = fl.deep(sets.get("map", NONE))
    ok = m.op == "call" and (tm.callee_name(m) or "").endswith("Map.deep_copy") or m.op == "mcall" and m.args[1] == "deep_copy"
    if not rep.expect(ok, "copy", "map", "__deepcopy__", "the copy's map is %s" % unfold(fl, m)[:80]):
        return
    a = parts(m) if m.op == "call" else [m.args[0]] + [x for x in m.args[3:]]
    rep.expect(len(a) == 2 and a[0] is attr(sym("self"), "map"), "copy", "map:of", "__deepcopy__", "the map copied is %s" % unfold(fl, a[0])[:60])
    key = const("copy_observations")
    for there, val in ((True, True), (True, False), (False, False)):
        def dec(c):
            if c.op == "cmp" and c.args[0] in ("in", "not in") and c.args[1] is key:
                return there == (c.args[0] == "in")
            if c is item(d, key) or c.op == "truthy" and c.args[0] is item(d, key):
                return val
            return None

        v = Fold(decide=dec, fl=fl)(a[-1])
        if v is item(d, key):
            v = const(val)
        if v.op == "mcall" and v.args[1] == "get" and v.args[3] is key:
            v = const(val) if there else v.args[4] if len(v.args) > 4 else NONE
        got = bool(cval(v)) if is_const(v) else None
        rep.expect(got is val, "copy", "observations", "__deepcopy__", "observations %s are copied: %s" % ("asked for" if val else "not asked for", unfold(fl, v)[:60]))
    for n, v in sets.items():
        if n == "map":
            continue
        v = fl.deep(v)
        ok = v.op == "call" and parts(v) == [m] and (tm.callee_name(v) or "").split(".")[-1] == fields.get(n)
        rep.expect(ok, "copy", "view:%s" % n, "__deepcopy__", "%s of the copy is %s" % (n, unfold(fl, v)[:60]))
    rep.expect(set(fields) <= set(sets), "copy", "views", "__deepcopy__", "the copy keeps views of another map: %s" % sorted(set(fields) - set(sets)))


def observed(prog, rep, cls, fields):
    q = "add_correspondences_from_tracks_manager"
    fl, r, A = go(prog, q)
    t = list(A.values())[0]
    es = [e for e in fl.effects if e.kind == "mcall" and e.name == "add_observation" and e.recv is attr(sym("self"), "map")]
    if not rep.expect(len(es) == 1 and len(es[0].args) == 3, "observed", "added", q, "observations are added at %d places" % len(es)):
        return
    e = es[0]
    shot, track, ob = (fl.deep(x) for x in e.args)
    ls = [core(fl, L) for L in e.loops]
    tracks = [L for L in ls if L is tm.mcall(t, "get_track_ids", [])]
    byshot = [L for L in ls if L is tm.mcall(t, "get_shot_ids", [])]
    ok = True
    if tracks:
        want_t = mk("elem", tracks[0], 0)
        seen = tm.mcall(t, "get_track_observations", [want_t])
        want_s = mk("elem", seen, 0)
        ok = len(ls) == 2 and any(core(fl, L) is seen for L in e.loops)
    elif byshot:
        want_s = mk("elem", byshot[0], 0)
        seen = tm.mcall(t, "get_shot_observations", [want_s])
        want_t = mk("elem", seen, 0)
        ok = len(ls) == 2 and any(core(fl, L) is seen for L in e.loops)
    else:
        # each of the points held that the tracks know
        ok = False
        want_t = want_s = seen = None
    if not rep.expect(ok, "observed", "each", q, "observations are added for each of %s" % [unfold(fl, L)[:50] for L in e.loops]):
        return
    rep.expect(shot is want_s and track is want_t, "observed", "names", q, "an observation is added to %s of %s" % (unfold(fl, shot)[:40], unfold(fl, track)[:40]))
    rep.expect(ob in (tm.mcall(t, "get_observation", [want_s, want_t]), item(seen, want_s if tracks else want_t)), "observed", "observation", q, "the observation added is %s" % unfold(fl, ob)[:60])
    for hp, hs, hn in itertools.product((True, False), repeat=3):
        held = [("points", want_t)] * hp + [("shots", want_s)] * hs + [("pano_shots", want_s), ("rig_instances", want_s)] * hn
        R = Run(fl, fields, held)
        live = R.live(e)
        rep.expect(not R.unread and live == (hp and hs), "observed", "held", q, "with the point %s and the shot %s the observation is %sadded" % ("held" if hp else "absent", "held" if hs else "absent", "" if live else "not "))


def reference(prog, rep, cls, fields):
    g = cls.props.get("reference")
    s = setter_of(cls, "reference")
    if not rep.expect(g is not None and s is not None, "reference", "there", K, "the reference cannot be read or set"):
        return
    fl, r, A = run(prog, K + "." + g.name, {"opensfm.types"}, self_cls=K)
    r = fl.deep(r)
    ref = tm.mcall(attr(sym("self"), "map"), "get_reference", [])
    got = None
    if (r.op == "call" and (tm.callee_name(r) or "").endswith("TopocentricConverter")):
        c, a, k = tm.call_parts(r)
        k = dict(k)
        got = list(a) + [k[n] for n in ("reflat", "reflon", "refalt")[len(a):] if n in k]
    elif r.op == "obj":
        sets = [e for e in fl.effects if e.kind == "setattr" and e.recv is r]
        by = {e.name: fl.deep(e.args[0]) for e in sets}
        got = [by.get(n) for n in ("lat", "lon", "alt")]
    else:
        sets = None
    if got is None or not all(got):
        ns = [e for e in fl.effects if e.kind in ("new", "call") and (e.name or "").endswith("TopocentricConverter")]
        if ns:
            got = [fl.deep(x) for x in ns[0].args] or [fl.deep(dict(ns[0].kwargs)[n]) for n in ("reflat", "reflon", "refalt")]
    rep.expect(got == [attr(ref, n) for n in ("lat", "lon", "alt")], "reference", "get", g.name, "the reference read is %s" % [x is not None and unfold(fl, x)[:40] for x in (got or [])])
    fl, r, A = go(prog, s)
    v = list(A.values())[0]
    compare_ = [e for e in fl.effects if e.kind == "mcall" and e.name == "set_reference"]
    ok = len(compare_) == 1 and [fl.deep(x) for x in compare_[0].args] == [attr(v, n) for n in ("lat", "lon", "alt")] and not compare_[0].guards
    rep.expect(ok, "reference", "set", s, "the reference set is %s" % [unfold(fl, x)[:40] for e in compare_ for x in e.args])
