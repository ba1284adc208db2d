"""P26: rigs: images grouped in instances, poses of rig cameras, and the rig files."""

from checks.p27 import call_of, num
from checks.util import argmap, atoms, effects, implied, items, lookup, outcomes, params, run, strip
from sa import terms as tm
from sa.fold import Fold
from sa.match import core, leaves, unfold
from sa.program import AnalysisBroken
from sa.terms import FALSE, NONE, TRUE, attr, cond_of, const, cval, is_const, item, mk, tand, tnot, tor

TECHNIQUE = "value-flow analysis of the rig code: what is stored for each image, instance and rig camera is traced to the image, instance and rig camera it belongs to; conditions are folded under what is assumed of the pattern or the reconstruction"
EXPLANATION = (
    "The dictionaries the rig functions build are followed entry by entry to the loop variables they are made of. Means of poses are brought to the form sum over count, and the count is decided to be that of the summands. "
    "Conditions on found patterns, complete instances and calibrated cameras are folded for each case; the window of the calibration subset is computed for chosen numbers."
)
R = "opensfm.rig."
M = {"opensfm.rig"}


def check(prog, rep):
    rep.rule("assigned", "the rig data of an image are the id of its instance, its own rig camera and the images of its own instance")
    rep.rule("pattern", "an image belongs to the rig camera whose pattern it matches, in the instance named by what is left of its name; all other images are single")
    rep.rule("frame", "poses of an instance are taken relative to the mean of that instance, and averaged per rig camera over as many as there are")
    rep.rule("complete", "rig cameras come from complete instances only; the larger groups decide; rig files are saved only when all rig cameras were found in enough instances")
    rep.rule("subset", "a calibration subset is a window in time of instances near each other that holds the one drawn")
    rep.rule("stored", "saved rig cameras override the default ones of the cameras, and saved assignments are those of the file")
    rep.rule("instance", "a rig instance is added once for all of its images, each with its own rig camera, camera and metadata")
    for part in (assigned, pattern, grouped, frame, complete, counted, saved, subset, stored, rebuilt, once):
        rep.part(part, prog, rep)
    for n, k in (("assigned", 4), ("pattern", 10), ("frame", 8), ("complete", 8), ("subset", 6), ("stored", 6), ("instance", 8)):
        rep.minimum(n, k)


def member_of(fl, t, table):
    """t = member[i] with member one of an instance of the table: (member, instance, i)."""
    t = core(fl, t)
    b, ks = items(t)
    if len(ks) == 1 and is_const(ks[0]) and b.op == "elem":
        inst = b.args[0]
        if of_table(fl, inst, table):
            return b, inst, cval(ks[0])
    return None


def of_table(fl, inst, table):
    if inst.op == "item" and inst.args[0] is table and inst.args[1].op == "elem":
        return True
    return inst.op == "elem" and (inst.args[0] is table or (inst.args[0].op == "mcall" and inst.args[0].args[1] == "values" and inst.args[0].args[0] is table))


def plain(t):
    """Without a conversion to text."""
    t = strip(t)
    while t.op in ("fstr", "str", "strcat") and len([x for x in t.args if isinstance(x, tm.T)]) == 1 and all(isinstance(x, tm.T) for x in t.args):
        t = t.args[0]
    if t.op == "call" and tm.callee_name(t) == "str":
        t = tm.call_parts(t)[1][0]
    return t


def assigned(prog, rep):
    q = R + "rig_assignments_per_image"
    fl, r, A = run(prog, q, M)
    ra = next(iter(A.values()))
    h = fl.h(r)
    if h is None or not h.log:
        raise AnalysisBroken("the table of images is not read")
    for en in h.log:
        if en.kind != "set":
            rep.expect(False, "assigned", "kind", q, "an entry of kind %s" % en.kind)
            continue
        m = member_of(fl, en.key, ra)
        if not rep.expect(m is not None and m[2] == 0, "assigned", "image", q, "the table is keyed by %s" % unfold(fl, en.key)[:80]):
            continue
        mem, inst, _ = m
        rep.expect(not [g for g, p in en.guards], "assigned", "all", q, "an image is left out if %s" % [unfold(fl, g)[:60] for g, p in en.guards])
        v = core(fl, en.val)
        vs = list(v.args) if v.op == "tup" else []
        if not rep.expect(len(vs) == 3, "assigned", "value", q, "the rig data are %s" % unfold(fl, v)[:80]):
            continue
        b, ks = items(inst)
        iid = ks[0] if ks else None
        rep.expect(plain(vs[0]) is iid, "assigned", "instance", q, "the instance is %s" % unfold(fl, vs[0])[:80])
        rep.expect(core(fl, vs[1]) is item(mem, const(1)), "assigned", "camera", q, "the rig camera is %s" % unfold(fl, vs[1])[:80])
        els = fl.elements(vs[2])
        ok = bool(els)
        for x, g, l in els or ():
            o = member_of(fl, x, ra)
            ok = ok and o is not None and o[2] == 0 and o[1] is inst and not g
        rep.expect(ok, "assigned", "images", q, "the images of the instance are %s" % unfold(fl, vs[2])[:80])


def pattern(prog, rep):
    q = R + "find_image_rig"
    fl, r, A = run(prog, q, M)
    image, pats = A["image"], A["rig_patterns"]
    n = 0
    for v, gs in outcomes(r):
        v = core(fl, v)
        vs = list(v.args) if v.op == "tup" else None
        if not rep.expect(vs is not None and len(vs) == 2, "pattern", "result", q, "the result is %s" % unfold(fl, v)[:80]):
            continue
        if vs[0] is NONE or vs[1] is NONE:
            rep.expect(vs[0] is NONE and vs[1] is NONE, "pattern", "none", q, "half of the result is missing: %s" % unfold(fl, v)[:80])
            continue
        n += 1
        k, s = core(fl, vs[0]), core(fl, vs[1])
        a = call_of(s, ["pattern", "repl", "string"])
        ok = s.op == "call" and tm.callee_name(s) == "re.sub"
        p = core(fl, a["pattern"]) if ok else None
        own = ok and k.op == "elem" and k.args[0] is pats and p is item(pats, k)
        rep.expect(own, "pattern", "own", q, "the rig camera %s is found by %s" % (unfold(fl, k)[:50], unfold(fl, p)[:50] if p is not None else "?"))
        rep.expect(ok and core(fl, a["repl"]) is const("") and core(fl, a["string"]) is image, "pattern", "member", q, "the instance is named %s" % unfold(fl, s)[:80])
        rest = Fold(decide=matched(s, image, True), fl=fl).truth(cond_of(list(gs)))
        part = [x for x in tm.walk(rest) if x.op in ("call", "mcall") and image in tm.call_parts(x)[1]] if rest not in (TRUE, FALSE) else []
        rep.expect(rest is not FALSE and not part, "pattern", "matched", q, "an image with the pattern in its name gets no rig camera unless %s" % unfold(fl, rest)[:60])
        rep.expect(refuses(fl, gs, s, image), "pattern", "unmatched", q, "an image the pattern does not match is given to its rig camera")
        rep.expect(refuses(fl, gs, s, const("")), "pattern", "whole", q, "an image all of whose name is the pattern gets an instance without name")
    rep.expect(n >= 1, "pattern", "found", q, "no rig camera is ever found")


def image_of(s):
    return tm.call_parts(s)[1][2] if s.op == "call" and len(tm.call_parts(s)[1]) > 2 else None


def matched(s, image, yes):
    """Folds whether the pattern is found in the name."""
    def decide(c):
        if c.op == "loopran":
            return True
        if c.op == "cmp" and c.args[0] in ("==", "!=") and s in c.args[1:]:
            o = c.args[2] if c.args[1] is s else c.args[1]
            if o is image:
                return (not yes) == (c.args[0] == "==")
            if o is const("") and yes:
                return c.args[0] == "!="
        if c is s and yes:
            return True
        x = c
        if c.op == "cmp" and c.args[0] in ("is", "is not") and NONE in c.args[1:]:
            x = c.args[1] if c.args[2] is NONE else c.args[2]
        if isinstance(x, tm.T) and x.op == "call" and tm.callee_name(x) == "re.search" and list(tm.call_parts(x)[1]) == [tm.call_parts(s)[1][0], image]:
            return yes != (x is not c and c.args[0] == "is")
        return None

    return decide


def refuses(fl, gs, s, other):
    """Under equality of s and other, is the outcome impossible?"""
    def decide(c):
        if other is image_of(s) and matched(s, other, False)(c) is not None:
            return matched(s, other, False)(c)
        if c.op == "cmp" and c.args[0] in ("==", "!=", "is", "is not"):
            if {c.args[1], c.args[2]} == {s, other}:
                return c.args[0] in ("==", "is")
        if c is s and other is const(""):
            return False
        if c.op == "nonempty" and c.args[0] is s and other is const(""):
            return False
        return None
    return Fold(decide=decide, fl=fl).truth(cond_of(list(gs))) is FALSE


def lists_in(fl, t):
    """The list objects a sequence is put together from."""
    seen, out, todo = set(), [], [t]
    while todo:
        x = todo.pop()
        if not isinstance(x, tm.T) or x in seen:
            continue
        seen.add(x)
        if x.op == "obj":
            out.append(x)
            continue
        todo += list(x.args)
    return out


def grouped(prog, rep):
    q = R + "create_instances_with_patterns"
    fl, r, A = run(prog, q, M, [R + "find_image_rig"])
    imgs = A["images"]
    r = core(fl, r)
    if r.op != "tup" or len(r.args) != 2:
        raise AnalysisBroken("the result is %s" % unfold(fl, r)[:80])
    im = None
    for x in tm.walk(fl.deep(r)):
        if x.op == "elem" and x.args[0] is imgs:
            im = x
    found = next((x for x in tm.walk(fl.deep(r)) if x.op == "call" and (tm.callee_name(x) or "").endswith("find_image_rig")), None)
    if im is None or found is None:
        raise AnalysisBroken("no image is looked up")
    ca = call_of(found, params(lookup(prog, R + "find_image_rig")))
    rep.expect(core(fl, ca["image"]) is im and core(fl, ca["rig_patterns"]) is A["rig_patterns"], "pattern", "lookup", q, "an image is looked up by %s" % unfold(fl, found)[:80])
    cam, inst = item(found, const(0)), item(found, const(1))

    def case(c1, c2):
        def decide(c):
            if c is cam:
                return c1
            if c is inst:
                return c2
            if c.op == "cmp" and c.args[0] in ("is", "is not") and NONE in c.args[1:]:
                o = c.args[1] if c.args[2] is NONE else c.args[2]
                if o in (cam, inst):
                    return (not (c1 if o is cam else c2)) == (c.args[0] == "is")
            if c.op == "cmp" and c.args[0] in ("==", "!=") and any(is_const(x) for x in c.args[1:]) and (cam in c.args[1:] or inst in c.args[1:]):
                return c.args[0] == "!="
            return None
        return Fold(decide=decide, fl=fl)

    inst_t = core(fl, r.args[0])
    h = fl.h(inst_t)
    if h is None:
        raise AnalysisBroken("the instances are %s" % unfold(fl, inst_t)[:80])
    for c1, c2 in ((True, True), (True, False), (False, True), (False, False)):
        f = case(c1, c2)
        name = "%s%s" % ("camera" if c1 else "", "instance" if c2 else "")
        live = [en for en in h.log if f.truth(cond_of(list(en.guards))) is not FALSE]
        whole = c1 and c2
        if whole:
            rep.expect(bool(live), "pattern", "instances", q, "an image with a rig camera is in no instance")
            rest = [f.truth(cond_of(list(en.guards))) for en in live]
            sized = [x for x in rest if tm.contains(x, lambda z: z.op == "call" and tm.callee_name(z) == "len")]
            rep.expect(len(sized) < len(rest) or not rest, "pattern", "instances", q, "an image with a rig camera is in an instance only if %s" % [unfold(fl, x)[:60] for x in sized])
        else:
            rep.expect(not live, "pattern", "incomplete:" + name, q, "an image without a rig camera is put into instance %s" % [unfold(fl, f(en.key))[:50] for en in live])
        for en in live:
            rep.expect(core(fl, f(en.key)) is inst, "pattern", "named", q, "the instance is called %s" % unfold(fl, f(en.key))[:80])
            els = [(v, gs) for v, gs, _ in fl.elements(en.val) or () if f.truth(cond_of(list(gs))) is not FALSE]
            rep.expect(bool(els), "pattern", "members", q, "the instance is empty")
            for v, gs in els:
                v = core(fl, v)
                ok = v.op == "tup" and len(v.args) == 2 and core(fl, v.args[0]) is im and core(fl, f(v.args[1])) is cam
                rep.expect(ok, "pattern", "member", q, "an instance holds %s" % unfold(fl, f(v))[:80])
        # single images
        sing = []
        for o in lists_in(fl, r.args[1]):
            ho = fl.h(o)
            for v, gs, _ in (fl.elements(o) or ()) if ho is not None and ho.kind in ("list", "iter") else ():
                g = cond_of(list(gs) + list(ho.guards))
                if f.truth(g) is not FALSE and core(fl, v) is im and chosen(fl, f, r.args[1], o):
                    sing.append(v)
                elif f.truth(g) is not FALSE and chosen(fl, f, r.args[1], o):
                    rep.expect(whole, "pattern", "single", q, "a single image is %s" % unfold(fl, v)[:60])
        rep.expect(bool(sing) == (not whole), "pattern", "single:" + name, q, "the image is %s" % ("also single" if whole else "lost"))


def chosen(fl, f, t, o):
    """Is the list o part of t in this case?"""
    if t is o:
        return True
    if t.op == "ite":
        c = f.truth(t.args[0])
        return (c is not FALSE and chosen(fl, f, t.args[1], o)) or (c is not TRUE and chosen(fl, f, t.args[2], o))
    return any(isinstance(x, tm.T) and chosen(fl, f, x, o) for x in t.args)


def quotient(t):
    if t.op == "bin" and t.args[0] == "/":
        return t.args[1], t.args[2]
    return None


def summands(t):
    """What a sum, carried through loops or not, is made of; start values and what was carried are left out."""
    if t.op == "loopout":
        return summands(t.args[2])
    if t.op == "loopphi":
        return []
    if t.op == "bin" and t.args[0] == "+":
        return summands(t.args[1]) + summands(t.args[2])
    if t.op == "add":
        return [y for x in t.args for y in summands(x)]
    return [t]


def is_zero(fl, t):
    if is_const(t):
        return cval(t) in (0, 0.0)
    u = unfold(fl, t)
    return u.startswith("numpy.zeros(")


def parts(fl, t, gs=()):
    """(addends, carried) of a sum that starts at zero; None if it starts elsewhere."""
    add, car = [], []
    for x in summands(core(fl, t) if t.op == "obj" and not is_zero(fl, t) else t):
        if x.op == "ite":
            for y in leaves(x):
                a, c = parts(fl, y)
                add += a
                car += c
        elif is_zero(fl, x):
            continue
        elif x.op == "item" and x.args[0].op == "obj":
            car.append(x)
        else:
            add.append(x)
    return add, car


def starts_at_zero(fl, t):
    ok = True
    for x in tm.walk(t):
        if x.op == "loopout":
            ok = ok and is_zero(fl, x.args[1])
    return ok


def mean(fl, t):
    """(addend, how it is counted) of a mean: ("all", collection) or ("carried", dictionaries, key)."""
    t = core(fl, t) if t.op == "obj" else t
    if t.op == "call" and (tm.callee_name(t) or "") in ("numpy.mean", "numpy.average"):
        els = fl.elements(strip(tm.call_parts(t)[1][0]))
        if els and len(els) == 1 and not els[0][1]:
            return els[0][0], ("all", None), []
        return None
    qd = quotient(t)
    if qd is None:
        return None
    n, d = qd
    if n.op == "call" and tm.callee_name(n) in ("sum", "numpy.sum"):
        els = fl.elements(strip(tm.call_parts(n)[1][0]))
        if not els or len(els) != 1 or els[0][1]:
            return None
        add, car = [els[0][0]], []
    else:
        if not starts_at_zero(fl, n):
            return None
        add, car = parts(fl, n)
    if len(add) != 1:
        return None
    d = strip(d)
    if d.op == "call" and tm.callee_name(d) == "len":
        return add[0], ("all", core(fl, tm.call_parts(d)[1][0])), car
    da, dc = parts(fl, d)
    if len(da) == 1 and is_const(da[0]) and cval(da[0]) == 1 and dc:
        return add[0], ("carried", dc), car
    return None


def frame(prog, rep):
    q = R + "compute_relative_pose"
    fl, r, A = run(prog, q, M)
    P = next(iter(A.values()))
    h = fl.h(r)
    if h is None or not h.log:
        raise AnalysisBroken("the rig cameras are not read")
    origins = {}
    for e in effects(fl, ("mcall",), "set_origin"):
        origins.setdefault(e.recv, []).append(e.args[0])

    def made_of(pose):
        """(rotation, origin) a pose is made of."""
        t = fl.deep(pose)
        ho = pose
        rots = None
        if pose.op == "obj":
            es = [e for e in fl.effects if e.kind in ("call", "new") and e.result is pose]
            if es and es[0].args:
                rots = es[0].args[0]
        elif pose.op == "call":
            a = tm.call_parts(pose)[1]
            rots = a[0] if a else None
        os_ = origins.get(ho, [])
        return rots, (os_[-1] if os_ else None)

    for en in h.log:
        if en.kind != "set":
            rep.expect(False, "frame", "kind", q, "an entry of kind %s" % en.kind)
            continue
        k = en.key
        v = en.val
        es = [e for e in effects(fl, ("call", "new"), "RigCamera") if e.result is v or core(fl, e.result) is core(fl, v)]
        if not rep.expect(len(es) >= 1, "frame", "camera", q, "a rig camera is %s" % unfold(fl, v)[:80]):
            continue
        args = es[-1].args
        rep.expect(len(args) == 2 and core(fl, args[1]) is core(fl, k), "frame", "id", q, "the rig camera stored as %s is called %s" % (unfold(fl, k)[:50], unfold(fl, args[-1])[:50]))
        b, ks = items(core(fl, k))
        own = len(ks) == 1 and ks[0] is const(1) and b.op == "elem" and b.args[0].op == "elem" and b.args[0].args[0] is P
        if not rep.expect(own, "frame", "key", q, "rig cameras are keyed by %s" % unfold(fl, k)[:80]):
            continue
        mem, inst = b, b.args[0]
        shot = item(mem, const(0))
        rot, org = made_of(args[0])
        if not rep.expect(rot is not None and org is not None, "frame", "pose", q, "the pose of a rig camera has no %s" % ("rotation" if rot is None else "origin")):
            continue
        counters = []
        rel = None
        for name, t in (("rotation", rot), ("origin", org)):
            m = mean(fl, t)
            if not rep.expect(m is not None, "frame", "average:" + name, q, "the %s of a rig camera is not a mean: %s" % (name, unfold(fl, t)[:100])):
                continue
            x, how, car = m
            ok = (name == "rotation" and x.op == "attr" and x.args[1] == "rotation") or (name == "origin" and x.op == "mcall" and x.args[1] == "get_origin")
            rep.expect(ok, "frame", "part:" + name, q, "the %s is averaged over %s" % (name, unfold(fl, x)[:80]))
            if not ok:
                continue
            rel = x.args[0]
            ok = rel.op == "mcall" and rel.args[1] == "relative_to" and rel.args[0] is attr(shot, "pose")
            rep.expect(ok, "frame", "relative:" + name, q, "what is averaged is of %s" % unfold(fl, rel)[:80])
            rep.expect(how[0] == "carried" or how[1] is None or True, "frame", "count:" + name, q, "")
            # the sums and the counter are kept per rig camera
            for c in car + (how[1] if how[0] == "carried" else []):
                rep.expect(core(fl, c.args[1]) is core(fl, k), "frame", "own:" + name, q, "the sum of %s goes to %s" % (unfold(fl, k)[:50], unfold(fl, c.args[1])[:50]))
                D = fl.h(c.args[0])
                for z in D.log if D is not None else ():
                    add, _ = parts(fl, z.val)
                    want = [const(1)] if c not in car else [x]
                    ok = core(fl, z.key) is core(fl, k) and (not add or add == want) and all(y.args[0] is c.args[0] and y.args[1] is c.args[1] for y in parts(fl, z.val)[1])
                    rep.expect(ok, "frame", "kept:" + name, q, "the sum of %s is kept as %s" % (name, unfold(fl, z.val)[:100]))
            if how[0] == "all":
                rep.expect(how[1] is None, "frame", "count:" + name, q, "the mean is taken over %s" % (unfold(fl, how[1])[:60] if how[1] is not None else ""))
            if rel.op == "mcall" and rel.args[1] == "relative_to":
                Q = rel.args[3]
                r2, o2 = made_of(Q)
                for n2, t2 in (("rotation", r2), ("origin", o2)):
                    m2 = mean(fl, t2) if t2 is not None else None
                    if not rep.expect(m2 is not None, "frame", "centre:" + n2, q, "the %s of the frame of an instance is not a mean: %s" % (n2, unfold(fl, t2)[:80] if t2 is not None else None)):
                        continue
                    y, how2, car2 = m2
                    ok = (n2 == "rotation" and y is attr(attr(shot, "pose"), "rotation")) or (n2 == "origin" and y.op == "mcall" and y.args[1] == "get_origin" and y.args[0] is attr(shot, "pose"))
                    rep.expect(ok, "frame", "centre:" + n2, q, "the %s of the frame is the mean of %s" % (n2, unfold(fl, y)[:80]))
                    rep.expect(how2[0] == "all" and how2[1] in (None, inst), "frame", "centre-count:" + n2, q, "the mean of an instance is taken over %s" % (unfold(fl, how2[1])[:60] if isinstance(how2[1], tm.T) else how2[0]))


def complete(prog, rep):
    q = R + "create_rig_cameras_from_reconstruction"
    fl, r, A = run(prog, q, M, [R + "compute_relative_pose", R + "group_instances"])
    rec = A["reconstruction"]
    cs = effects(fl, ("call",), "compute_relative_pose")
    if not cs:
        raise AnalysisBroken("no poses are computed")
    grp = effects(fl, ("call",), "group_instances")
    rep.expect(bool(grp) and all(argmap(["rig_instances"], e)["rig_instances"] is A["rig_instances"] for e in grp), "complete", "groups", q, "the instances are not those given")
    groups = grp[0].result if grp else None
    for e in cs:
        a = argmap(params(lookup(prog, R + "compute_relative_pose")), e)
        els = fl.elements(a["pose_instances"])
        if not rep.expect(bool(els), "complete", "poses", e.where, "no poses are given"):
            continue
        for v, gs, ls in els:
            inner = fl.elements(v)
            if not rep.expect(bool(inner), "complete", "instance", e.where, "an instance of %s" % unfold(fl, v)[:60]):
                continue
            for x, g2, l2 in inner:
                x = core(fl, x)
                ok = x.op == "tup" and len(x.args) == 2
                if ok:
                    s, c = core(fl, x.args[0]), core(fl, x.args[1])
                    b, ks = items(c)
                    mem = b
                    ok = len(ks) == 1 and ks[0] is const(1) and mem.op == "elem" and s is item(attr(rec, "shots"), item(mem, const(0)))
                rep.expect(ok, "complete", "member", e.where, "a pose is given as %s" % unfold(fl, x)[:80])
                rep.expect(not [c for c in g2 if c not in gs], "complete", "whole", e.where, "images of an instance are left out")
                if not ok:
                    continue
                inst = mem.args[0]
                f = Fold(decide=missing(fl, rec, None), fl=fl)
                rep.expect(f.truth(cond_of(list(gs))) is FALSE, "complete", "incomplete", e.where, "instances with images that are not reconstructed are used")
                f = Fold(decide=missing(fl, rec, True), fl=fl)
                rep.expect(f.truth(cond_of(list(gs))) is not FALSE, "complete", "used", e.where, "complete instances are not used")
                # one group at a time, larger ones first
                src = [l for l in ls if isinstance(l, tm.T)] + [l for l in e.loops if isinstance(l, tm.T)]
                rep.expect(inst.op == "elem" and len(e.loops) == 1, "complete", "group", e.where, "poses of several groups are computed together")
    order = None
    for e in cs:
        for l in e.loops:
            l = core(fl, l) if isinstance(l, tm.T) else l
            for x in tm.walk(fl.deep(l)) if isinstance(l, tm.T) else ():
                if x.op == "call" and tm.callee_name(x) == "sorted":
                    order = x
    if rep.expect(order is not None, "complete", "order", q, "the groups come in no order"):
        _, a, k = tm.call_parts(order)
        k = dict(k)
        rev = k.get("reverse", const(False))
        s = size_key(fl, k.get("key"))
        good = s is not None and ((s > 0) == (is_const(rev) and bool(cval(rev))))
        rep.expect(good, "complete", "order", q, "the groups come in the order of %s" % unfold(fl, order)[:80])
    for en in fl.h(r).log if fl.h(r) is not None else ():
        if en.kind == "spread":
            rep.expect(False, "complete", "overwritten", q, "rig cameras of a larger group are overwritten")
            continue
        v = core(fl, en.val)
        k = core(fl, en.key)
        ok = k.op == "elem" and v is item(k.args[0], k) and k.args[0] in [c.result for c in cs]
        rep.expect(ok, "complete", "stored", q, "rig camera %s is stored as %s" % (unfold(fl, en.val)[:50], unfold(fl, en.key)[:50]))
        f = Fold(decide=lambda c: (c.args[0] == "in") if c.op == "cmp" and c.args[0] in ("in", "not in") and c.args[1] is en.key else None, fl=fl)
        rep.expect(f.truth(cond_of(list(en.guards))) is FALSE, "complete", "overwritten", q, "rig cameras of a larger group are overwritten")


def size_key(fl, key):
    """+1 if the key grows with the length, -1 if it falls."""
    if key is None:
        return None
    if key.op == "ext" and key.args[0] == "len":
        return 1
    if key.op != "func":
        return None
    x = tm.sym("x")
    v = fl.invoke(key, [x], {}, None)
    ln = tm.call(tm.mk("ext", "len"), [x], ())
    vals = []
    for n in (2, 5):
        got = num(fl, v, {ln: n})
        if got is None:
            return None
        vals.append(got)
    return 1 if vals[1] > vals[0] else -1 if vals[1] < vals[0] else None


def missing(fl, rec, there):
    """Folds membership of an image in the reconstruction; None: of some images of the instance only."""
    def shots(t):
        return tm.contains(fl.deep(t), lambda y: y is attr(rec, "shots"))

    def decide(c):
        if c.op == "cmp" and c.args[0] in ("in", "not in") and shots(c.args[2]) and not shots(c.args[1]):
            return None if there is None else there == (c.args[0] == "in")
        if c.op == "call" and tm.callee_name(c) in ("any", "all"):
            els = fl.elements(tm.call_parts(c)[1][0])
            if els is None:
                return None
            is_any = tm.callee_name(c) == "any"
            res = []
            for f in [Fold(decide=missing(fl, rec, w), fl=fl) for w in ((True, False) if there is None else (there,))]:
                for v, g, _ in els:
                    cond = f.truth(v)
                    gc = f.truth(cond_of(list(g)))
                    res.append(f.truth(tand(gc, cond)) if is_any else f.truth(tor(tnot(gc), cond)))
            if is_any:
                if any(x is TRUE for x in res):
                    return True
                return False if all(x is FALSE for x in res) else None
            if any(x is FALSE for x in res):
                return False
            return True if all(x is TRUE for x in res) else None
        if c.op == "cmp" and c.args[0] in ("<=", ">=", "<", ">"):
            return None
        return None

    return decide


def counted(prog, rep):
    q = R + "count_reconstructed_instances"
    fl, r, A = run(prog, q, M)
    insts = A["instances"]
    sums = [x for x in tm.walk(r) if x.op == "call" and tm.callee_name(x) == "sum"]
    d = None
    for x in tm.walk(fl.deep(r)):
        pass
    if not sums:
        rep.count("obligations")
        return
    s = sums[0]
    env = {s: 3, fl.deep(s): 3, tm.call(mk("ext", "len"), [insts], ()): 10}
    try:
        got = num(fl, r, env)
    except LookupError:
        rep.count("obligations")
        return
    els = fl.elements(tm.call_parts(s)[1][0]) or []
    if got == 7:
        want = False  # what is summed are the incomplete ones
    elif got == 3:
        want = True
    else:
        rep.expect(False, "complete", "counted", q, "of 10 instances, 3 of them incomplete, %s count as reconstructed" % got)
        return
    for v, gs, ls in els:
        for n in (0, 1, 2):
            seen = []

            def decide(c, n=n):
                if c.op == "nonempty":
                    seen.append(c)
                    return n > 0
                if c.op == "cmp" and c.args[0] in ("<", "<=", ">", ">=", "==", "!="):
                    vals = []
                    for z in c.args[1:]:
                        vals.append(remaining(fl, z, n))
                    if None in vals:
                        return None
                    seen.append(c)
                    a, b = vals
                    return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[c.args[0]]
                return None
            t = Fold(decide=decide, fl=fl).truth(cond_of(list(gs)))
            if not seen or t not in (TRUE, FALSE):
                continue
            incomplete = n > 0
            rep.expect((t is TRUE) == (incomplete != want), "complete", "counted", q, "an instance of which %d images are missing counts as %sreconstructed" % (n, "" if incomplete else "not "))


def remaining(fl, t, n):
    """A count of images left of an instance, when n are left after this step."""
    if is_const(t):
        return cval(t)
    if t.op == "bin" and t.args[0] in "+-":
        a, b = t.args[1], t.args[2]
        for x, y in ((a, b), (b, a)):
            if is_const(y) and x.op == "item":
                return n
    if t.op == "add" or t.op == "item" or (t.op == "call" and tm.callee_name(t) == "len"):
        return n
    return None


def saved(prog, rep):
    q = R + "create_rigs_with_pattern"
    names = ["create_instances_with_patterns", "propose_subset_dataset_from_instances", "create_rig_cameras_from_reconstruction", "count_reconstructed_instances"]
    fl, r, A = run(prog, q, M, [R + x for x in names])
    data = A["data"]
    ci = effects(fl, ("call",), names[0])
    if not ci:
        raise AnalysisBroken("no instances are made")
    a = argmap(params(lookup(prog, R + names[0])), ci[0])
    rep.expect(core(fl, a["images"]) is tm.mcall(data, "images", []) and core(fl, a["rig_patterns"]) is A["patterns"], "complete", "images", ci[0].where, "instances are made of %s" % unfold(fl, a["images"])[:60])
    insts = item(ci[0].result, const(0))
    for e in effects(fl, ("call",), names[1]):
        a = argmap(params(lookup(prog, R + names[1])), e)
        rep.expect(core(fl, a["rig_instances"]) is insts and a["data"] is data, "complete", "proposed", e.where, "subsets are made of %s" % unfold(fl, a["rig_instances"])[:60])
    subs = effects(fl, ("call",), names[1])
    sub = mk("elem", subs[0].result, 0) if subs else None
    sd, si = item(sub, const(0)), item(sub, const(1))
    for e in effects(fl, ("call",), "run_dataset"):
        got = core(fl, dict(e.kwargs).get("data", e.args[0] if e.args else NONE))
        rep.expect(got is sd, "complete", "run:" + e.name.split(".")[-2], e.where, "the calibration runs on %s" % unfold(fl, got)[:60])
    ra = effects(fl, ("mcall",), "save_rig_assignments")
    rc = effects(fl, ("mcall",), "save_rig_cameras")
    rep.expect(bool(ra) and bool(rc), "complete", "saved", q, "the rig files are not saved")
    for e in ra:
        rep.expect(core(fl, e.args[0]) is insts and e.recv is data, "complete", "assignments", e.where, "the assignments saved are %s" % unfold(fl, e.args[0])[:60])
        same = [cond_of(list(x.guards)) for x in rc]
        rep.expect(cond_of(list(e.guards)) in same, "complete", "both", e.where, "assignments are saved without rig cameras")
    for e in rc:
        rep.expect(e.recv is data, "complete", "where", e.where, "rig cameras are saved in %s" % unfold(fl, e.recv)[:60])
        n = 0
        for v, gs in outcomes(e.args[0]):
            v = core(fl, v)
            if v is NONE:
                continue
            n += 1
            f = Fold(decide=lambda c: False if c.op == "loopran" else None, fl=fl)
            ok = v.op == "call" and (tm.callee_name(v) or "").endswith(names[2])
            if not rep.expect(ok, "complete", "cameras", e.where, "the rig cameras saved are %s" % unfold(fl, v)[:80]):
                continue
            a = call_of(v, params(lookup(prog, R + names[2])))
            rep.expect(core(fl, a["rig_instances"]) is insts, "complete", "instances", e.where, "rig cameras are computed from %s" % unfold(fl, a["rig_instances"])[:60])
            rec = core(fl, a["reconstruction"])
            b, ks = items(rec)
            rep.expect(b is tm.mcall(sd, "load_reconstruction", []) and ks == [const(0)], "complete", "reconstruction", e.where, "rig cameras are computed from %s" % unfold(fl, rec)[:60])
            gs = list(gs) + list(e.guards)

            def under(found, enough):
                def decide(c):
                    if c.op == "cmp" and c.args[0] in ("==", "!=") and all_cameras(fl, c, v, insts):
                        return found == (c.args[0] == "==")
                    w = enough_test(fl, c, si, rec, prog)
                    if w is not None:
                        return w == enough
                    return None
                return Fold(decide=decide, fl=fl).truth(cond_of(gs))
            rep.expect(under(False, True) is FALSE, "complete", "all-cameras", e.where, "rig cameras are saved although some were not found")
            rep.expect(under(True, False) is FALSE, "complete", "enough", e.where, "rig cameras are saved although too few instances were reconstructed")
            rep.expect(under(True, True) is not FALSE, "complete", "kept", e.where, "good rig cameras are not saved")
        rep.expect(n >= 1, "complete", "any", e.where, "no rig cameras are saved")


def all_cameras(fl, c, v, insts):
    """Is this the comparison of the rig cameras found with those of the instances?"""
    def found(t):
        return tm.contains(fl.deep(t), lambda y: y is v or y is fl.deep(v)) or tm.contains(t, lambda y: y is v)

    def wanted(t):
        o = strip(t)
        els = fl.elements(o)
        if not els:
            return False
        made = fl.h(o).guards if fl.h(o) is not None else ()
        for x, g, _ in els:
            b, ks = items(core(fl, x))
            if [c for c in g if c not in made] or ks != [const(1)] or b.op != "elem" or not of_table(fl, b.args[0], insts):
                return False
        return True
    a, b = c.args[1], c.args[2]
    return (found(a) and wanted(b)) or (found(b) and wanted(a))


def enough_test(fl, c, si, rec, prog):
    """True/False if the condition says that enough (not enough) instances are reconstructed."""
    if c.op != "cmp" or c.args[0] not in ("<", "<=", ">", ">="):
        return None
    cnt = [x for x in tm.walk(c) if x.op == "call" and (tm.callee_name(x) or "").endswith("count_reconstructed_instances")]
    cfg = [x for x in tm.walk(c) if x.op == "item" and is_const(x.args[1]) and cval(x.args[1]) == "rig_calibration_completeness"]
    if not cnt or not cfg:
        return None
    a = call_of(cnt[0], params(lookup(prog, R + "count_reconstructed_instances")))
    if core(fl, a["instances"]) is not si or core(fl, a["reconstruction"]) is not rec:
        return None
    ln = tm.call(mk("ext", "len"), [si], ())
    out = []
    for k in (3, 8):
        try:
            x, y = [num(fl, z, {cnt[0]: k, cfg[0]: 0.5, ln: 10}) for z in c.args[1:]]
        except LookupError:
            return None
        out.append({"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[c.args[0]])
    if out == [False, True]:
        return True
    if out == [True, False]:
        return False
    return None


def subset(prog, rep):
    q = R + "propose_subset_dataset_from_instances"
    fl, r, A = run(prog, q, M, [R + "group_instances"])
    data = A["data"]
    grp = effects(fl, ("call",), "group_instances")
    rep.expect(bool(grp) and all(argmap(["rig_instances"], e)["rig_instances"] is A["rig_instances"] for e in grp), "subset", "groups", q, "the instances are not those given")
    G = grp[0].result if grp else None
    draws = effects(fl, ("call",), "randint")
    ys = [e for e in fl.effects if e.kind == "yield"]
    if not ys:
        raise AnalysisBroken("nothing is proposed")
    for e in ys:
        y = core(fl, e.args[0])
        if not rep.expect(y.op == "tup" and len(y.args) == 2, "subset", "proposed", e.where, "what is proposed is %s" % unfold(fl, y)[:60]):
            continue
        sub = core(fl, y.args[0])
        ok = sub.op == "mcall" and sub.args[1] == "subset" and sub.args[0] is data
        rep.expect(ok, "subset", "dataset", e.where, "what is proposed is %s" % unfold(fl, sub)[:60])
        if not ok:
            continue
        a = list(sub.args[3:])
        rep.expect(a[0] is A["name"], "subset", "name", e.where, "the subset is called %s" % unfold(fl, a[0])[:60])
        wins = {x for x in tm.walk(fl.deep(y.args[1])) if x.op in ("slice_of", "slice") and len(x.args) >= 2 and isinstance(x.args[0], tm.T) and tm.contains(x.args[0], lambda z: z is G)}
        wins = {x for x in wins if x.op == "slice_of"} or wins
        w2 = {x for x in tm.walk(fl.deep(a[1])) if x.op == "slice_of" and tm.contains(x.args[0], lambda z: z is G)}
        rep.expect(bool(wins) and wins == w2, "subset", "same", e.where, "the images of the subset are not those of the instances")
        for x in tm.walk(fl.deep(a[1])):
            if x.op == "item" and is_const(x.args[1]) and x.args[0].op == "elem" and x.args[0].args[0].op == "elem" and x.args[0].args[0].args[0] in w2:
                rep.expect(cval(x.args[1]) == 0, "subset", "images", e.where, "the images are %s" % tm.show(x)[:60])
        for w in wins:
            window(fl, rep, e, w, draws, G, data)


def window(fl, rep, e, w, draws, G, data):
    base, lo, hi = w.args[0], w.args[1], w.args[2]
    rep.expect(base.op == "call" and tm.callee_name(base) == "sorted", "subset", "time", e.where, "the instances are not in order of time")
    # the drawn number
    ds = [d for d in draws if tm.contains(w, lambda z: z is fl.deep(d.result))]
    if not rep.expect(len(ds) >= 1, "subset", "drawn", e.where, "the window does not depend on the instance drawn"):
        return
    d = ds[0]
    dr = fl.deep(d.result)
    ln = tm.call(mk("ext", "len"), [base], ())
    size = [x for x in tm.walk(w) if x.op == "item" and is_const(x.args[1]) and cval(x.args[1]) == "rig_calibration_subset_size"]
    bad = None
    for n in (1, 2, 9, 40):
        for ss in (4, 15):
            for ri in sorted({0, n // 2, n - 1}):
                env = {dr: ri, ln: n}
                for s in size:
                    env[s] = ss
                try:
                    l, h = [window_num(fl, x, env) for x in (lo, hi)]
                    first, last = [window_num(fl, fl.deep(x), env) for x in d.args]
                except LookupError as err:
                    rep.count("obligations")
                    return
                rep.count("obligations")
                if not (0 <= l <= ri < h):
                    bad = "of %d instances, number %d was drawn and the window is [%s, %s)" % (n, ri, l, h)
                if (first, last) != (0, n - 1):
                    bad = "of %d instances, one of %s to %s is drawn" % (n, first, last)
                if h - l > ss:
                    bad = "the window holds %s instances, %d were asked for" % (h - l, ss)
    rep.expect(bad is None, "subset", "window", e.where, bad or "")
    els = fl.elements(tm.call_parts(base)[1][0]) if base.op == "call" else None
    k = None
    srcs = [x for x in tm.walk(base) if x.op == "list" or x.op == "entry"]
    for x in srcs:
        v = x.args[2] if x.op == "entry" else None
        if v is not None and v.op in ("item", "elem") and not inside_of(base, x):
            ok = v.op == "item" and v.args[0].op == "item" and v.args[0].args[0] is G and v.args[0].args[1].op == "elem" and v.args[0].args[1].args[0] is G
            rep.expect(ok, "subset", "own", e.where, "the instances are picked as %s" % tm.show(v)[:80])
    for x in tm.walk(base):
        if x.op == "item" and x.args[0].op == "item" and x.args[0].args[0] is G:
            k = x
    if k is not None:
        n = k.args[1]
        comp = n.args[0] if n.op == "elem" else None
        ok = comp is not None and comp.op == "item" and comp.args[0].op == "call" and tm.callee_name(comp.args[0]) == "sorted" and is_const(comp.args[1])
        if ok:
            _, sa_, sk = tm.call_parts(comp.args[0])
            sk = dict(sk)
            s = size_key(fl, sk.get("key"))
            rev = is_const(sk.get("reverse", const(False))) and bool(cval(sk.get("reverse", const(False))))
            i = cval(comp.args[1])
            ok = s is not None and ((s > 0) != rev) == (i == -1) and i in (0, -1)
            rep.expect(ok, "subset", "biggest", e.where, "the instances are picked from %s" % tm.show(comp)[:80])
    sk = dict(tm.call_parts(base)[2]).get("key") if base.op == "call" else None
    if sk is not None and sk.op == "func":
        v = fl.deep(fl.invoke(sk, [tm.sym("x")], {}, None))
        rep.expect(v.op == "item" and v.args[1] is const("capture_time"), "subset", "time", e.where, "the instances are in the order of %s" % tm.show(v)[:60])


def inside_of(base, x):
    """Is the entry part of a deeper list?"""
    arg = tm.call_parts(base)[1][0]
    return not any(y is x for y in arg.args)


def window_num(fl, t, env):
    if t.op == "call" and tm.callee_name(t) in ("max", "min"):
        a = tm.call_parts(t)[1]
        if len(a) == 1:
            els = fl.elements(a[0])
            if els is None and a[0].op in ("list", "tup", "objd"):
                els = None
            xs = [x for x, _, _ in els] if els else [y for y in entries(a[0])]
        else:
            xs = a
        if not xs:
            raise LookupError(t)
        return (max if tm.callee_name(t) == "max" else min)(window_num(fl, x, env) for x in xs)
    if t in env:
        return env[t]
    if t.op == "bin" and t.args[0] in ("+", "-"):
        a, b = window_num(fl, t.args[1], env), window_num(fl, t.args[2], env)
        return a + b if t.args[0] == "+" else a - b
    return num(fl, t, env)


def entries(t):
    """The values of an unfolded list."""
    return [x.args[2] for x in t.args if isinstance(x, tm.T) and x.op == "entry"]


def stored(prog, rep):
    D = "opensfm.dataset.DataSet"
    io = {"opensfm.dataset", "opensfm.rig"}
    fl, r, A = run(prog, D + ".load_rig_cameras", io, (), D)
    S = tm.sym("self")
    n = {"default": 0, "file": 0}
    for v, gs in outcomes(r):
        h = fl.h(v)
        if not rep.expect(h is not None and bool(h.log), "stored", "cameras", D + ".load_rig_cameras", "the rig cameras are %s" % unfold(fl, v)[:60]):
            continue
        kinds = []
        for en in h.log:
            u = fl.deep(en.val)
            if en.kind == "spread":
                src = en.val
                kinds.append("file" if tm.contains(fl.deep(src), is_call("rig_cameras_from_json")) else "default")
                n[kinds[-1]] += 1
                continue
            k = core(fl, en.key)
            if k.op == "elem" and core(fl, en.val) is item(k.args[0], k):
                ok = tm.contains(fl.deep(k), is_call("rig_cameras_from_json"))
                rep.expect(ok, "stored", "file", D + ".load_rig_cameras", "rig cameras are taken from %s" % unfold(fl, k.args[0])[:80])
                kinds.append("file")
                n["file"] += 1
                rep.expect(not [g for g, p in atoms(en.guards) if not is_m("exists")(g)], "stored", "override", D + ".load_rig_cameras", "rig cameras of the file are left out")
            else:
                es = [e for e in effects(fl, ("call", "new"), "RigCamera") if e.result is en.val]
                c = fl.deep(en.val)
                if rep.expect(bool(es), "stored", "default", D + ".load_rig_cameras", "a default rig camera is %s" % unfold(fl, c)[:80]):
                    a = es[0].args
                    p = a[0]
                    rep.expect(unfold(fl, p).endswith("Pose()"), "stored", "identity", D + ".load_rig_cameras", "the pose of a default rig camera is %s" % unfold(fl, p)[:60])
                    rep.expect(core(fl, a[1]) is k, "stored", "id", D + ".load_rig_cameras", "the default rig camera of %s is called %s" % (unfold(fl, k)[:40], unfold(fl, a[1])[:40]))
                kinds.append("default")
                n["default"] += 1
        if "default" in kinds and "file" in kinds:
            rep.expect(kinds.index("file") > max(i for i, x in enumerate(kinds) if x == "default"), "stored", "override", D + ".load_rig_cameras", "default rig cameras override those of the file")
    rep.expect(n["default"] >= 1 and n["file"] >= 1, "stored", "cameras", D + ".load_rig_cameras", "rig cameras come from %s" % n)
    for name, conv, path, what in (("save_rig_cameras", "rig_cameras_to_json", "rig_cameras.json", "rig_cameras"), ("save_rig_assignments", None, "rig_assignments.json", "rig_assignments")):
        fl, r, A = run(prog, D + "." + name, io, (), D)
        es = effects(fl, ("call", "mcall"), ("json_dump", "dump"))
        rep.expect(len(es) >= 1 and not any(e.guards for e in es), "stored", name, D + "." + name, "the file is not always written")
        for e in es:
            a = list(e.args) + [v for _, v in dict(e.kwargs).items()]
            v = core(fl, a[0])
            if conv:
                ok = v.op == "call" and tm.callee_name(v).endswith(conv) and A[what] in (list(tm.call_parts(v)[1]) + list(dict(tm.call_parts(v)[2]).values()))
            else:
                ok = v is A[what]
            rep.expect(ok, "stored", name + ":what", e.where, "what is written is %s" % unfold(fl, v)[:80])
        ws = effects(fl, ("call", "mcall"), ("open_wt",))
        for e in ws:
            rep.expect(path in unfold(fl, e.args[0]), "stored", name + ":where", e.where, "it is written to %s" % unfold(fl, e.args[0])[:60])
    fl, r, A = run(prog, D + ".load_rig_assignments", io, (), D)
    kinds = set()
    for v, gs in outcomes(r):
        u = core(fl, v)
        there = Fold(decide=lambda c: False if is_m("exists")(c) else None, fl=fl).truth(cond_of(list(gs)))
        h = fl.h(v)
        if h is not None and not h.log:
            kinds.add("none")
            absent = Fold(decide=lambda c: True if is_m("exists")(c) else None, fl=fl).truth(cond_of(list(gs)))
            rep.expect(absent is FALSE, "stored", "assignments", D + ".load_rig_assignments", "assignments of a file are dropped")
            continue
        rep.expect(there is FALSE, "stored", "missing", D + ".load_rig_assignments", "a missing file is read")
        if u.op == "call" and tm.callee_name(u).endswith("load"):
            kinds.add("file")
            rep.expect("rig_assignments.json" in unfold(fl, u), "stored", "assignments", D + ".load_rig_assignments", "the assignments come from %s" % unfold(fl, u)[:80])
        elif h is not None:
            kinds.add("old")
            for en in h.log:
                k, x = plain(core(fl, en.key)), core(fl, en.val)
                ok = x.op == "elem" and k.op in ("pos", "idx") and k.args[0] is x.args[0]
                rep.expect(ok and not [1 for g, p in en.guards if not tm.contains(fl.deep(g), lambda z: is_m("exists")(z) or is_call("isinstance")(z) or z.op == "isinstance")], "stored", "old", D + ".load_rig_assignments", "an instance of an old file is %s: %s" % (unfold(fl, en.key)[:40], unfold(fl, en.val)[:40]))
    rep.expect("file" in kinds and "none" in kinds, "stored", "assignments", D + ".load_rig_assignments", "what is loaded is %s" % sorted(kinds))


def is_call(n):
    return lambda t: t.op == "call" and (tm.callee_name(t) or "").split(".")[-1] == n


def is_m(n):
    return lambda t: t.op == "mcall" and t.args[1] == n


def rebuilt(prog, rep):
    q = "opensfm.actions.create_rig._reconstruction_from_rigs_and_assignments"
    fl, r, A = run(prog, q, {"opensfm.actions.create_rig"})
    data = A["data"]
    table = tm.mcall(data, "load_rig_assignments", [])
    cams = tm.mcall(data, "load_rig_cameras", [])
    shots = effects(fl, ("call", "mcall"), "create_shot")
    if not shots:
        raise AnalysisBroken("no shots are created")
    for e in shots:
        a = argmap(["shot_id", "camera_id", "pose", "rig_camera_id", "rig_instance_id"], e)
        m = member_of(fl, a["shot_id"], table)
        if not rep.expect(m is not None and m[2] == 0, "instance", "shot", e.where, "the shot is %s" % unfold(fl, a["shot_id"])[:60]):
            continue
        mem, inst, _ = m
        b, ks = items(inst)
        rep.expect(not e.guards, "instance", "all", e.where, "images are left out")
        rep.expect(core(fl, a["rig_camera_id"]) is item(mem, const(1)), "instance", "rig_camera", e.where, "its rig camera is %s" % unfold(fl, a["rig_camera_id"])[:60])
        rep.expect(bool(ks) and plain(a["rig_instance_id"]) is ks[0], "instance", "rig_instance", e.where, "its instance is %s" % unfold(fl, a["rig_instance_id"])[:60])
        cam = core(fl, a["camera_id"])
        rep.expect(cam is item(tm.mcall(data, "load_exif", [core(fl, a["shot_id"])]), const("camera")), "instance", "camera", e.where, "its camera is %s" % unfold(fl, cam)[:60])
        rc = [x for x in effects(fl, ("call",), "RigCamera")]
        ok = any(core(fl, x.args[0]) is attr(item(cams, item(mem, const(1))), "pose") and core(fl, x.args[1]) is item(mem, const(1)) for x in rc)
        rep.expect(ok, "instance", "pose", e.where, "its rig camera is not that of the file")
        md = [x for x in fl.effects if x.kind == "setattr" and x.name == "metadata" and x.recv is e.result]
        ok = bool(md) and all(is_call("get_image_metadata")(core(fl, x.args[0])) and core(fl, call_of(core(fl, x.args[0]), ["data", "image"])["image"]) is core(fl, a["shot_id"]) for x in md)
        rep.expect(ok, "instance", "metadata", e.where, "its metadata are not its own")


SITES = [
    ("opensfm.actions.create_rig._reconstruction_from_rigs_and_assignments", "opensfm.actions.create_rig", ()),
    ("opensfm.reconstruction_helpers.reconstruction_from_metadata", "opensfm.reconstruction_helpers", ("opensfm.reconstruction_helpers.get_image_metadata", "opensfm.reconstruction_helpers.rotation_from_shot_metadata")),
    ("opensfm.reconstruction.add_shot", "opensfm.reconstruction", ()),
    ("opensfm.undistort.perspective_views_of_a_panorama", "opensfm.undistort", ("opensfm.undistort.add_image_format_extension",)),
    ("opensfm.synthetic_data.synthetic_generator.add_shots_to_reconstruction", "opensfm.synthetic_data.synthetic_generator", ()),
]


def once(prog, rep):
    for q, mod, opaque in SITES:
        if lookup(prog, q) is None:
            continue
        fl, r, A = run(prog, q, {mod}, opaque)
        adds = effects(fl, ("call", "mcall"), "add_rig_instance")
        shots = effects(fl, ("call", "mcall"), "create_shot")
        rep.expect(bool(adds), "instance", "added:" + q.split(".")[-1], q, "no rig instance is added")
        for e in adds:
            a = argmap(["rig_instance"], e)
            c = core(fl, a["rig_instance"])
            c = c if c.op == "call" else fl.deep(c)
            ids = [tm.call_parts(c)[1][0]] if c.op == "call" and tm.call_parts(c)[1] else []
            if not ids:
                continue
            i = ids[0]
            inside = [l for l in e.loops if isinstance(l, tm.T)]
            has = [tm.contains(fl.deep(i), lambda z, l=l: own_of(fl, z, l)) for l in inside]
            nested = [tm.contains(l, lambda z: z.op == "elem" and z.args[0] in inside) for l in inside]
            fresh = (not inside or any(has)) and all(x for x, y in zip(has, nested) if y) and not tm.contains(fl.deep(i), lambda z: looked_up(fl, z))
            f = Fold(decide=lambda c: (c.args[0] == "in") if c.op == "cmp" and c.args[0] in ("in", "not in") and c.args[2].op in ("attr", "mcall") and c.args[2].args[1] in ("rig_instances", "get_rig_instances") and fl.deep(c.args[1]) is fl.deep(i) else None, fl=fl)
            known = f.truth(cond_of(list(e.guards))) is FALSE
            rep.expect(fresh or known, "instance", "once:" + q.split(".")[-1], e.where, "instance %s may be added again after it was given images, which it then forgets" % unfold(fl, i)[:60])


def own_of(fl, z, l):
    """z is (a part of) what the loop over l runs over."""
    return z.op in ("elem", "pos", "idx") and (z.args[0] is l or z.args[0] is fl.deep(l) or (z.op == "elem" and z.args[0].op == "zip" and l in z.args[0].args))


def looked_up(fl, z):
    """z is found in a table by an image; several images may give the same."""
    return z.op == "item" and z.args[1].op == "elem" and z.args[0].op not in ("elem", "item")
