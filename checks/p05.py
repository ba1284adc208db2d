from checks.store import CODECS, DS, PAIRS, Store, value_params
from sa import terms as tm
from sa.match import core, cover, leaves, same, tautology, unfold
from sa.terms import NONE, attr, const, item, mk, sym, tand, tnot

TECHNIQUE = "interprocedural value-flow: each loader composed with its saver through the path and keys of the stored file"
EXPLANATION = (
    "For every saver/loader pair of the dataset the saver is analysed on symbolic values, the content of each written file is "
    "recorded under the symbolic path and the loader is analysed against that content. The loader must return each value unchanged "
    "(containers, npz keys, JSON fields, order of a returned tuple, encode/decode pairs applied to the same thing), unconditionally. "
    "The feature file is composed per case (with and without semantic data) and every older version's reader is checked key by key."
)
W = "opensfm/dataset.py"
FD = "opensfm.features.FeaturesData"


def call_of(t, name):
    """Arguments of a call of the repo function `name` (positional and keyword), else None."""
    if t.op == "call" and tm.callee_name(t) == name:
        _, a, k = tm.call_parts(t)
        return list(a) + list(k.values())
    return None


def read_of(st, t):
    """Path whose whole text t is."""
    if t.op == "mcall" and t.args[1] == "read":
        (recv, _), a, _ = tm.call_parts(t)
        if not a:
            return st.handle_path(recv)
    return None


def check(prog, rep):
    rep.rule("pair", "what a loader returns is what its saver was given")
    rep.rule("written", "the saver writes its value once, unconditionally")
    rep.rule("features", "the features file restores points, descriptors, colors and semantic data from their own key")
    rep.rule("matches", "the matches file holds the given matches, compressed, and is decoded from the same file")
    for cls, saver, loader, tester, how in PAIRS:
        st = Store(prog, cls)
        _, sacc, seff = st.run(saver)
        writes = list(st.writes)
        wpaths = [a.path for a in sacc if a.kind in ("open_wb", "open_wt", "imwrite")]
        r, lacc, leff = st.run(loader)
        params = value_params(prog, cls + saver)
        rep.part(one, rep, st, how, saver, loader, params, writes, wpaths, sacc, seff, r, lacc, leff)
    rep.part(features, prog, rep)
    rep.part(saving, prog, rep)
    rep.part(reading, prog, rep)
    rep.minimum("pair", 30)
    rep.minimum("features", 20)


def one(rep, st, how, saver, loader, params, writes, wpaths, sacc, seff, r, lacc, leff):
    fl = st.fl
    tag = saver

    def ex(ok, rule, what, msg):
        rep.expect(ok, rule, tag + ":" + what, "%s %s/%s" % (W, saver, loader), msg)

    ex(bool(wpaths), "written", "file", "%s writes no file" % saver)
    vals = [st.param(saver, p) for p in params]
    if how in ("id", "tuple", "cast", "text", "tracks", "reference", "rig_assignments") or how.startswith("opensfm.io."):
        ex(bool(writes), "written", "value", "%s writes nothing that can be read back" % saver)
        for kind, p, v, g, L in writes:
            ex(not L, "written", "once", "%s writes repeatedly" % saver)
        ok, why = cover([w[3] for w in writes], lambda a: None) if writes else (True, [])
        ex(ok, "written", "always", "%s does not always write (%s)" % (saver, [unfold(fl, w) for w in why]))
    live = leaves(r)
    if how == "id":
        ex(len(live) == 1 and core(fl, live[0]) is vals[0], "pair", "value", "loads %s" % unfold(fl, r))
    elif how == "cast":
        t = live[0]
        while t.op == "mcall" and t.args[1] == "astype":
            t = t.args[0]
        ex(len(live) == 1 and core(fl, t) is vals[0], "pair", "value", "loads %s" % unfold(fl, r))
        for d in (ints(fl, live[0]) if live else []):
            ex(holds(d, 16) and not (d.op == "ext" and d.args[0] in ("numpy.int16", "numpy.short")), "pair", "range", "values are cut down to %s" % unfold(fl, d))
    elif how == "tuple":
        r = core(fl, r)
        got = list(r.args) if r.op == "tup" else []
        ex(len(got) == len(vals), "pair", "arity", "loads %s" % unfold(fl, r))
        for g, v in zip(got, vals):
            ex(core(fl, g) is v, "pair", tm.show(v), "%s is loaded from %s" % (tm.show(v), unfold(fl, g)))
    elif how == "text":
        ex(writes and core(fl, writes[-1][2], ("str",)) is vals[0], "pair", "stored", "stores %s" % (unfold(fl, writes[-1][2]) if writes else ""))
        ex(read_of(st, r) in [w[1] for w in writes], "pair", "value", "loads %s" % unfold(fl, r))
    elif how == "tracks":
        w = writes[-1][2] if writes else NONE
        ex(w.op == "mcall" and w.args[0] is vals[0] and w.args[1] == "as_string", "pair", "stored", "stores %s" % unfold(fl, w))
        ok = (r.op == "call" and (tm.callee_name(r) or "").endswith("TracksManager.instanciate_from_string")) or \
             (r.op == "mcall" and r.args[1] == "instanciate_from_string")
        a = list(tm.call_parts(r)[1]) if ok else []
        ex(ok and read_of(st, a[0]) in [x[1] for x in writes], "pair", "value", "loads %s" % unfold(fl, r))
    elif how == "reference":
        for f in ("lat", "lon", "alt"):
            g = fl.getattr(r, f)
            ex(same(fl, g, attr(vals[0], f)), "pair", f, "%s is loaded from %s" % (f, unfold(fl, g)))
    elif how == "opensfm.io.rig_cameras":
        dec = [e for e in leff if e.kind == "call" and e.name == how + "_from_json"]
        ok = False
        for e in dec:
            a = list(e.args) + list(e.kwargs.values())
            enc = call_of(a[0], how + "_to_json") if a else None
            if enc and enc[0] is vals[0]:
                ok = True
                sets = [x for x in leff if x.kind in ("setitem",) and x.recv in leaves(r) and x.loops and core(fl, x.loops[-1]) is e.result]
                good = [x for x in sets if x.args[0] is mk("elem", e.result, 0) and core(fl, x.args[1]) is item(e.result, mk("elem", e.result, 0))]
                ups = [x for x in leff if x.kind == "mcall" and x.name == "update" and x.recv in leaves(r) and x.args and core(fl, x.args[0]) is e.result]
                cond, _ = cover([x.guards for x in good + ups], lambda a: True if a.op == "mcall" and a.args[1] in ("exists", "isfile") else None)
                ex(bool(good + ups) and cond, "pair", "kept", "stored rig cameras are not all returned")
        ex(ok, "pair", "value", "stored rig cameras are not read back: %s" % unfold(fl, r))
    elif how == "rig_assignments":
        def present(a):
            if a.op == "mcall" and a.args[1] in ("exists", "isfile"):
                return True
            if a.op == "call" and tm.callee_name(a) == "isinstance":
                return False
            return None
        found = False
        for v, conds in gated(r):
            if core(fl, v) is vals[0]:
                ok, _ = tautology(conds, present)
                found = found or ok
        ex(found, "pair", "value", "loads %s" % unfold(fl, r))
    elif how.startswith("opensfm.io."):
        dec = call_of(core(fl, live[0]) if live else NONE, how + "_from_json")
        enc = call_of(dec[0], how + "_to_json") if dec else None
        ex(len(live) == 1 and bool(enc) and enc[0] is vals[0], "pair", "value", "loads %s" % unfold(fl, r))
    elif how == "gcp":
        ws = [e for e in seff if e.kind == "call" and e.name == "opensfm.io.write_ground_control_points"]
        ok = False
        for e in ws:
            a = list(e.args) + list(e.kwargs.values())
            ok = vals[0] in a and any(st.handle_path(x) in wpaths for x in a if x.op == "mcall") and not e.guards
        ex(ok, "pair", "stored", "the points are not written")
        rd = [e for e in leff if e.kind == "call" and e.name == "opensfm.io.read_ground_control_points"
              and any(st.handle_path(x) in wpaths for x in list(e.args) + list(e.kwargs.values()) if x.op == "mcall")]
        ok = False
        for e in rd:
            c, _ = cover([e.guards], lambda a: True if a.op == "mcall" and a.args[1] in ("exists", "isfile") else None)
            ok = c and tm.contains(fl.deep(r), lambda x: x is fl.deep(e.result))
        ex(ok, "pair", "value", "stored points are not returned: %s" % unfold(fl, r))
    elif how == "image":
        ws = [a for a in sacc if a.kind == "imwrite"]
        for a in ws:
            args = list(a.eff.args) + list(a.eff.kwargs.values())
            ex(len(args) >= 2 and core(fl, args[1]) is vals[0] and not a.eff.guards, "pair", "stored", "stores %s" % [unfold(fl, x) for x in args])
        ex(bool(ws), "pair", "stored", "no image is written")
        ex(any(a.path in wpaths for a in lacc), "pair", "value", "another file is read: %s" % [tm.show(a.path) for a in lacc])
        ok = all(tm.contains(fl.deep(x), lambda y: y.op == "mcall" and y.args[1] in ("imread", "open_rb")) for x in live)
        ex(ok, "pair", "read", "loads %s" % unfold(fl, r))
    elif how == "ply":
        ws = [e for e in seff if e.kind == "call" and e.name == "opensfm.io.point_cloud_to_ply"]
        for e in ws:
            a = dict(e.kwargs)
            ok = all(core(fl, a.get(p, NONE)) is st.param(saver, p) for p in params) and not e.guards
            ex(ok, "pair", "stored", "stores %s" % {k: unfold(fl, v) for k, v in a.items()})
        ex(bool(ws), "pair", "stored", "no point cloud is written")
        a = call_of(live[0], "opensfm.io.point_cloud_from_ply") if len(live) == 1 else None
        ex(bool(a) and st.handle_path(a[0]) in wpaths, "pair", "value", "loads %s" % unfold(fl, r))
    elif how == "matches":
        ex(st.pickled is vals[0], "matches", "stored", "stores %s" % (unfold(fl, st.pickled) if st.pickled is not None else "nothing"))
        w = writes[-1] if writes else None
        ok = w is not None and tm.contains(fl.deep(w[2]), lambda x: x.op in ("call", "mcall")) and not w[3]
        ex(ok, "matches", "written", "the encoded matches are not written")
        gz = any(e.kind in ("call", "new") and (e.name or "").startswith("gzip.") for e in seff)
        ugz = any(e.kind in ("call", "new") and (e.name or "").startswith("gzip.") for e in leff)
        ex(gz == ugz, "matches", "compression", "matches are written %scompressed and read %scompressed" % ("" if gz else "un", "" if ugz else "un"))
        ex(any(a.path in wpaths for a in lacc if a.kind == "open_rb"), "matches", "file", "another file is read")
        ex(r.op == "mcall" and r.args[1] == "load" and not tm.call_parts(r)[1] or (tm.callee_name(r) or "").startswith("pickle"), "matches", "value", "loads %s" % unfold(fl, r))
    elif how == "features":
        ws = [e for e in seff if e.kind in ("call", "mcall") and (e.name or "").endswith("save") and e.recv is vals[0]]
        ok = any(any(st.handle_path(x) in wpaths for x in list(e.args) + list(e.kwargs.values()) if x.op == "mcall") and not e.guards for e in ws)
        ex(ok, "pair", "stored", "the features are not written")
        # when both files exist the one that was just saved wins
        rd = [a for a in lacc if a.kind == "open_rb"]
        ok = False
        for a in rd:
            for v, c in gated(a.path):
                if v in wpaths:
                    def world(x):
                        if x.op == "mcall" and x.args[1] in ("isfile", "exists"):
                            return True
                        return None
                    ok = ok or tautology(c, world)[0]
        ex(ok, "pair", "value", "another file is read: %s" % [tm.show(a.path) for a in rd])


def gated(t, c=None):
    """[(leaf, condition)]"""
    from sa.terms import TRUE, tand
    c = TRUE if c is None else c
    if t.op == "ite":
        return gated(t.args[1], tand(c, t.args[0])) + gated(t.args[2], tand(c, tnot(t.args[0])))
    return [(t, c)]


def strip_cast(fl, t):
    t = core(fl, t)
    while t.op == "mcall" and t.args[1] == "astype":
        t = core(fl, t.args[0])
    return t


def ints(fl, t):
    """Narrowing of t: the numpy dtypes it was cast to."""
    out = []
    t = core(fl, t)
    while t.op == "mcall" and t.args[1] == "astype":
        out.append(tm.call_parts(t)[1][0])
        t = core(fl, t.args[0])
    return out


DTYPES = {"int": 64, "float": 64}
DTYPES.update({"numpy.%s%d" % (k, b): b for k in ("int", "uint") for b in (8, 16, 32, 64)})
DTYPES.update({"numpy.float16": 11, "numpy.float32": 24, "numpy.float64": 53, "numpy.half": 11, "numpy.single": 24, "numpy.double": 53, "numpy.float": 53,
               "numpy.byte": 8, "numpy.ubyte": 8, "numpy.short": 16, "numpy.ushort": 16, "numpy.intc": 32, "numpy.bool_": 1, "bool": 1, "numpy.bool": 1})


def holds(d, bits, sign=False):
    """Can the dtype term d hold integers of that many bits?  (unknown names are trusted)"""
    name = d.args[0] if d.op in ("ext", "builtin") else (d.args[0] if tm.is_const(d) else None)
    if name is None:
        return True
    name = str(name)
    n = DTYPES.get(name, DTYPES.get("numpy." + name))
    return n is None or n >= bits


def features(prog, rep):
    R = "features"
    w = "opensfm/features.py FeaturesData.save/from_file"
    config, fobj = sym("config"), sym("fobj")
    for sem in (True, False):
        st = Store(prog, DS)
        fl = st.fl
        fl.opaque, fl.opaque_prefix = set(), ()
        fd = sym("fd")
        fl.types[fd] = FD
        cls = mk("cls", FD)
        cond = tand(attr(fd, "semantic") if sem else tnot(attr(fd, "semantic")), tnot(fl.compare("is", attr(fd, "descriptors"), NONE)))
        fl.under(cond, lambda: fl.run(FD + ".save", {"fileobject": fobj, "config": config}, self_t=fd))
        r = fl.under(cond, lambda: fl.run(FD + ".from_file", {"fileobject": fobj, "config": config}, self_t=cls))
        case = "semantic" if sem else "plain"

        def world(a):
            if a is attr(fd, "semantic"):
                return sem
            if a.op == "cmp" and a.args[0] == "is" and NONE in a.args:
                o = a.args[2] if a.args[1] is NONE else a.args[1]
                if tm.contains(o, lambda x: x is fd):
                    return False
            if a.op == "nonempty":
                return sem
            return None

        for f in ("points", "descriptors", "colors"):
            v = fl.under(cond, lambda: fl.getattr(r, f))
            ls = live_leaves(v, world)
            ok = bool(ls) and all(strip_cast(fl, x) is attr(fd, f) for x in ls)
            rep.expect(ok, R, "%s:%s" % (case, f), w, "%s restored from %s" % (f, unfold(fl, v)))
            if f == "points":
                bad = [d for x in ls for d in ints(fl, x) if not d.op == "ext" or "float" not in d.args[0]]
                rep.expect(not bad, R, case + ":points:precision", w, "points are stored as %s" % [unfold(fl, x) for x in bad])
            if f == "descriptors":
                narrow(rep, R, case, w, fl, ls, config)
        v = fl.under(cond, lambda: fl.getattr(r, "semantic"))
        ls = live_leaves(v, world)
        if sem:
            objs = [x for x in ls if x is not NONE]
            rep.expect(len(objs) == 1 and len(ls) == 1, R, "semantic:kept", w, "semantic data restored as %s" % unfold(fl, v))
            for x in objs:
                for f in ("segmentation", "instances", "labels"):
                    g = fl.under(cond, lambda: fl.getattr(x, f))
                    gl = live_leaves(g, world)
                    ok = bool(gl) and all(strip_cast(fl, y) is attr(attr(fd, "semantic"), f) for y in gl)
                    rep.expect(ok, R, "semantic:" + f, w, "%s restored from %s" % (f, unfold(fl, g)))
                    bits = {"segmentation": 8, "instances": 16}.get(f)
                    cut = [d for y in gl for d in ints(fl, y) if bits and not holds(d, bits)]
                    rep.expect(not cut, R, "semantic:%s:range" % f, w, "%s stored as %s" % (f, [unfold(fl, d) for d in cut]))
        else:
            rep.expect(all(x is NONE for x in ls), R, "plain:semantic", w, "semantic data invented: %s" % unfold(fl, v))
        ver = [x for x in st.writes]
        rep.expect(len(ver) == 1, R, case + ":once", w, "the features file is written %d times" % len(ver))
    # readers of every version
    ci = prog.cls(FD)
    vers = sorted(m for m in ci.methods if m.startswith("_from_file_v")) if hasattr(ci, "methods") else []
    rep.expect(len(vers) >= 4, R, "versions", w, "readers of older versions are gone: %s" % vers)
    for m in vers:
        st = Store(prog, DS)
        fl = st.fl
        fl.opaque, fl.opaque_prefix = set(), ()
        data = sym("data")
        r = fl.run("%s.%s" % (FD, m), {"data": data, "config": config}, self_t=mk("cls", FD))
        for f in ("points", "descriptors", "colors"):
            v = fl.getattr(r, f)
            ok = all(strip_cast(fl, x) is item(data, const(f)) or x.op == "obj" for x in leaves(v))
            rep.expect(ok, R, m + ":" + f, w, "%s read %s from %s" % (m, f, unfold(fl, v)))


def live_leaves(t, world):
    from sa.terms import FALSE
    out = []
    for v, c in gated(t):
        if v.op in ("undef", "noreturn"):
            continue
        dead, _ = tautology(tnot(c), world)
        if not dead and v not in out:
            out.append(v)
    return out


def narrow(rep, R, case, w, fl, ls, config):
    """Descriptors are stored as bytes only when the detector makes bytes."""
    for x in ls:
        for d in ints(fl, x):
            for v, c in gated(d):
                if v.op == "ext" and ("int" in v.args[0]):
                    ats = [a for a in tm.walk(c) if a.op == "cmp" and a.args[0] in ("==", "in")]
                    for det in ("SIFT", "SURF", "HAHOG"):
                        def floats(a):
                            # a detector that yields floating point descriptors
                            if a.op == "cmp" and a.args[0] == "==":
                                k = [tm.cval(y) for y in a.args[1:] if tm.is_const(y)]
                                return k[0] == det if k else None
                            if a.op == "item" and a.args[1] is const("hahog_normalize_to_uchar"):
                                return False
                            return None
                        ok, _ = tautology(tnot(c), floats)
                        rep.expect(ok, R, case + ":descriptors:bytes", w,
                                   "floating point descriptors of %s may be stored as %s when %s" % (det, v.args[0], unfold(fl, c)))
                    rep.count(R, len(ats))


# ------------------------------------------------------------- features, concretely
# (feature type, options, whether its descriptors are bytes)
KINDS = [("AKAZE", {"akaze_descriptor": d}, d.startswith("MLDB")) for d in ("MLDB_UPRIGHT", "MLDB", "MSURF_UPRIGHT", "MSURF", "SURF_UPRIGHT", "SURF")]
KINDS += [("HAHOG", {"hahog_normalize_to_uchar": b}, False) for b in (True, False)]
KINDS += [("ORB", {}, True), ("SIFT", {}, False), ("SIFT_GPU", {}, False), ("SURF", {}, False)]
CONFIG = {"akaze_descriptor": "MSURF", "hahog_normalize_to_uchar": False, "reprojection_error_sd": 0.004, "feature_root": True}


def loaded(p, name, recv, args, kw):
    import numpy as np
    n = (name or "").split(".")[-1]
    a = [x() for x in args] if name.startswith("numpy.") or isinstance(recv, (np.ndarray, np.generic)) else []
    k = {y: x() for y, x in kw.items()} if a else {}
    if name.startswith("numpy.") and n in ("array", "asarray", "zeros", "full", "full_like", "ones_like", "ones", "concatenate", "column_stack", "hstack", "copy", "where", "empty", "all", "any", "max"):
        return getattr(np, n)(*a, **k)
    if name.startswith("numpy.") and n in ("float32", "uint8", "float64", "int32", "int16"):
        return getattr(np, n)(*a)
    if isinstance(recv, bool) and n in ("all", "any"):
        return recv
    if isinstance(recv, (np.ndarray, np.generic)) and n in ("astype", "copy", "tolist", "ravel", "max", "min", "all", "any"):
        return getattr(recv, n)(*a, **k)
    if isinstance(recv, str) and n in ("upper", "lower"):
        return getattr(recv, n)()
    return NotImplemented


def saving(prog, rep):
    """What is stored of features of every kind, and what of it is in the features then loaded."""
    import numpy as np
    from checks.util import run
    from sa.play import Held, Play
    M = "opensfm.features"
    OPEN = [FD, M + ".SemanticData"]
    R, w = "features", "opensfm/features.py FeaturesData"

    class Reading(Play):
        def wanted(self, e):
            return e.kind == "setitem" and not self.growing(e) or super().wanted(e)

        def event(self, ev):
            if ev.name == "setitem" and isinstance(ev.recv, np.ndarray):
                ev.recv[ev.args[0]] = ev.args[1]
            super().event(ev)

    def calls(p, name, recv, args, kw):
        n = (name or "").split(".")[-1]
        if n in ("FeaturesData", "SemanticData") or name == "cls":
            ks = ["points", "descriptors", "colors", "semantic", "depths"] if n != "SemanticData" else ["segmentation", "instances", "labels"]
            return Held(**{**dict.fromkeys(ks), **dict(zip(ks, [x() for x in args])), **{k: x() for k, x in kw.items()}})
        return loaded(p, name, recv, args, kw)

    rng = np.random.RandomState(3)

    def stored(kind, byte):
        d = rng.randint(0, 256, (5, 8))
        d[0, 0] = 255
        return d.astype(np.uint8) if byte else d.astype(np.float32) if kind[0] == "HAHOG" and kind[1].get("hahog_normalize_to_uchar") else (d / 7.0 - 9).astype(np.float32)

    def same(a, b, exact=True):
        if a is None or b is None:
            return a is b
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and bool(np.all(a == b))

    def load(version, data, config):
        q = "%s._from_file_v%d" % (FD, version)
        fl, r, A = run(prog, q, {M}, OPEN)
        env = {A["data"]: data, A["config"]: config}
        return q, Reading(fl, env, calls).final(r)

    sfl, sr, SA = run(prog, FD + ".save", {M}, OPEN, FD)
    for kind in KINDS:
        config = {**CONFIG, "feature_type": kind[0], **kind[1]}
        for case in ("plain", "semantic", "instances"):
            d = stored(kind, kind[2])
            pts = rng.uniform(-1, 1, (5, 4)).astype(np.float32)
            col = rng.randint(0, 256, (5, 3)).astype(np.float64)
            sem = None
            if case != "plain":
                sem = Held(segmentation=np.array([0, 3, 255, 1, 1], np.uint8), instances=np.array([-1, 0, 300, 2, 32000], np.int16) if case == "instances" else None, labels=["road", "sky", "void"])
            me = sym("self")
            env = {SA["config"]: config, SA["fileobject"]: "file", attr(me, "points"): pts, attr(me, "descriptors"): d, attr(me, "colors"): col, attr(me, "semantic"): sem, attr(me, "depths"): None, attr(me, "FEATURES_VERSION"): 3}
            what = "%s %s, %s" % (kind[0], " ".join(str(x) for x in kind[1].values()), case)
            ev = Play(sfl, env, calls, ["savez_compressed", "savez"]).go().events
            if not rep.expect(len(ev) == 1, R, "stored:once", w, "features of %s are stored %d times" % (what, len(ev))):
                continue
            data = {k: np.asarray(v) for k, v in ev[0].kw.items()}
            v = data.get("OPENSFM_FEATURES_VERSION")
            if not rep.expect(v is not None, R, "stored:version", w, "the version is not stored"):
                continue
            q, f = load(int(v), data, config)
            rep.expect(same(f.points, pts), R, "round:points", q, "%s: the points are not those stored" % what)
            rep.expect(same(f.descriptors, d), R, "round:descriptors", q, "%s: the descriptors are not those stored" % what)
            rep.expect(np.asarray(f.descriptors).dtype == d.dtype, R, "round:descriptors:type", q, "%s: descriptors of type %s are loaded as %s" % (what, d.dtype, np.asarray(f.descriptors).dtype))
            rep.expect(same(f.colors, col), R, "round:colors", q, "%s: the colors are not those stored" % what)
            g = f.semantic
            if sem is None:
                rep.expect(g is None, R, "round:plain", q, "%s: semantic data are loaded where none were stored" % what)
            elif rep.expect(g is not None, R, "round:semantic", q, "%s: semantic data are lost" % what):
                for k in ("segmentation", "instances", "labels"):
                    rep.expect(same(getattr(g, k), getattr(sem, k)), R, "round:" + k, q, "%s: the %s are not those stored" % (what, k))
    # files of older versions
    for version in (0, 1, 2):
        for kind in KINDS:
            config = {**CONFIG, "feature_type": kind[0], **kind[1]}
            uchar = kind[1].get("hahog_normalize_to_uchar")
            d = stored(kind, kind[2] or uchar)
            pts, col = rng.uniform(-1, 1, (5, 4)).astype(np.float32), rng.randint(0, 256, (5, 3)).astype(np.uint8)
            data = {"points": pts.copy(), "descriptors": d.astype(np.uint8) if uchar else d, "colors": col}
            seg = np.array([0, 3, 255, 1, 1], np.uint8)
            if version == 2:
                data.update({"segmentations": seg, "instances": np.array([1, 0, 300, 2, 3], np.int16), "segmentation_labels": np.array(["a", "b"])})
            q, f = load(version, dict(data), config)
            due = pts.copy()
            if version == 0:
                due[:, 2] = config["reprojection_error_sd"]
            rep.expect(same(f.points, due), R, "version %d:points" % version, q, "the points of an older file are read wrongly")
            rep.expect(same(f.descriptors, d) and (np.asarray(f.descriptors).dtype == np.uint8) == kind[2], R, "version %d:descriptors" % version, q, "the descriptors of %s of an older file are read wrongly" % kind[0])
            rep.expect(same(f.colors, col), R, "version %d:colors" % version, q, "the colors of an older file are read wrongly")
            if version == 2:
                g = f.semantic
                rep.expect(g is not None and same(g.segmentation, seg) and same(g.instances, data["instances"]) and same(g.labels, data["segmentation_labels"]), R, "version 2:semantic", q, "the semantic data of an older file are read wrongly")
            else:
                rep.expect(f.semantic is None, R, "version %d:semantic" % version, q, "an older file gives semantic data")


# ------------------------------------------------------------- the reader's choices, concretely
def reading(prog, rep):
    import numpy as np
    from checks.util import run
    from sa.play import Play
    M = {"opensfm.dataset", "opensfm.dataset_base"}
    D = "opensfm.dataset.DataSet."

    def base(p, name, recv, args, kw):
        n = (name or "").split(".")[-1]
        if isinstance(recv, np.ndarray) and n in ("transpose", "astype", "copy"):
            return getattr(recv, n)(*[x() for x in args])
        if name in ("numpy.array", "numpy.flip", "numpy.fliplr", "numpy.asarray", "numpy.empty", "numpy.zeros", "numpy.column_stack"):
            return getattr(np, n)(*[x() for x in args], **{k: v() for k, v in kw.items() if k != "dtype"})
        if name in ("str", "len", "isinstance", "enumerate"):
            return NotImplemented
        return NotImplemented

    # matches of a pair, stored with either image
    m = np.array([[3, 10], [4, 11], [5, 12]])
    q = D + "find_matches"
    fl, r, A = run(prog, q, M, [D + "matches_exists", D + "load_matches"], D[:-1])
    for what, store, due in (
        ("the first image", {"a": {"b": m, "c": m + 50}}, m), ("the second image", {"b": {"c": m + 70, "a": m}}, m[:, [1, 0]]), ("another pair", {"a": {"c": m}, "b": {"c": m}}, []),
        ("no image", {}, []), ("the second image, the first having others", {"a": {"c": m + 50}, "b": {"a": m}}, m[:, [1, 0]]), ("the second image, without any", {"b": {"a": np.array([])}}, []),
    ):
        def calls(p, name, recv, args, kw):
            n = (name or "").split(".")[-1]
            k = ([x() for x in args] + [x() for x in kw.values()])
            if n == "matches_exists":
                return k[-1] in store
            if n == "load_matches":
                return store[k[-1]]
            return base(p, name, recv, args, kw)

        got = np.asarray(Play(fl, {A["im1"]: "a", A["im2"]: "b"}, calls).final(r))
        due = np.asarray(due)
        rep.expect(got.size == due.size and bool(np.all(got.ravel() == due.ravel())), "matches", "pair", q, "of a pair whose matches are stored with %s: %s" % (what, got.tolist()))
    # rig assignments, as they are and as they were
    q = D + "load_rig_assignments"
    fl, r, A = run(prog, q, M, [], D[:-1])
    now = {"7": [["a.jpg", "left"]], "x": [["b.jpg", "left"], ["c.jpg", "right"]]}
    for what, data, due in (("now", now, now), ("in a list", list(now.values()), {"0": now["7"], "1": now["x"]}), ("in an empty list", [], {})):
        def calls(p, name, recv, args, kw):
            n = (name or "").split(".")[-1]
            if n in ("exists", "isfile"):
                return True
            if n in ("load", "json_load", "loads", "json_loads"):
                return data
            if n == "isinstance":
                return isinstance(args[0](), tuple(x for x in (list, dict, tuple) if x.__name__ in tm.show(args[1].term)))
            return base(p, name, recv, args, kw)

        got = Play(fl, {}, calls).final(r)
        rep.expect(got == due, "pair", "assignments", q, "rig assignments stored %s are loaded as %s" % (what, got))
    newest(prog, rep, "features")
    # labels are the first channel of an image that has more
    for cls, name in ((D[:-1], "load_segmentation"), ("opensfm.dataset.UndistortedDataSet", "load_undistorted_segmentation")):
        q = "%s.%s" % (cls, name)
        fl, r, A = run(prog, q, M, [], cls)
        for dims in ((3, 4), (3, 4, 4)):
            px = np.arange(int(np.prod(dims))).reshape(dims)

            def calls(p, n, recv, args, kw):
                if (n or "").split(".")[-1] in ("isfile", "exists"):
                    return True
                if (n or "") in ("numpy.array", "numpy.asarray"):
                    return px
                return NotImplemented

            got = Play(fl, {A["image"]: "im.jpg", attr(sym("self"), "data_path"): "/d"}, calls).final(r)
            due = px if px.ndim == 2 else px[:, :, 0]
            rep.expect(got is not None and np.shape(got) == due.shape and bool(np.all(got == due)), "pair", name + ":labels", q, "of a segmentation with %d channels other values than the labels are loaded" % (1 if px.ndim == 2 else 4))


def newest(prog, rep, rule):
    """The file features are read from, when there are older ones."""
    from checks.util import run
    from sa.play import Play
    M = {"opensfm.dataset", "opensfm.dataset_base"}
    D = "opensfm.dataset.DataSet."
    q = D + "load_features"
    fl, r, A = run(prog, q, M, [FD], D[:-1])
    for new in (True, False):
        for old in (True, False):
            def calls(p, name, recv, args, kw):
                n = (name or "").split(".")[-1]
                if n in ("isfile", "exists"):
                    f = args[0]()
                    return new if f == "/d/features/im.jpg.features.npz" else old if f == "/d/features/im.jpg.npz" else False
                return NotImplemented

            ev = Play(fl, {A["image"]: "im.jpg", attr(sym("self"), "data_path"): "/d"}, calls, ["open_rb"]).go().events
            due = "/d/features/im.jpg.npz" if old and not new else "/d/features/im.jpg.features.npz"
            rep.expect(len(ev) == 1 and ev[0].args == [due], rule, "file", q, "with %s the features are read from %s" % (["no file", "an older file", "a file", "both"][2 * new + old], [x.args for x in ev]))
