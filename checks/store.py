"""What every load/save/exists method of the dataset does with which file (shared by P05, P06)."""

from sa import terms as tm
from sa.flow import Flow
from sa.match import core, leaves
from sa.terms import NONE, attr, const, mk, sym

DS, UDS = "opensfm.dataset.DataSet.", "opensfm.dataset.UndistortedDataSet."
# (class, saver, loader, tester or None, how the content is checked)
PAIRS = [
    (DS, "save_exif", "load_exif", "exif_exists", "id"),
    (DS, "save_features", "load_features", "features_exist", "features"),
    (DS, "save_words", "load_words", "words_exist", "cast"),
    (DS, "save_matches", "load_matches", "matches_exists", "matches"),
    (DS, "save_tracks_manager", "load_tracks_manager", "tracks_exists", "tracks"),
    (DS, "save_reconstruction", "load_reconstruction", "reconstruction_exists", "opensfm.io.reconstructions"),
    (DS, "save_reference", "load_reference", "reference_exists", "reference"),
    (DS, "save_camera_models", "load_camera_models", None, "opensfm.io.cameras"),
    (DS, "save_camera_models_overrides", "load_camera_models_overrides", "camera_models_overrides_exists", "opensfm.io.cameras"),
    (DS, "save_exif_overrides", "load_exif_overrides", "exif_overrides_exists", "id"),
    (DS, "save_rig_cameras", "load_rig_cameras", None, "opensfm.io.rig_cameras"),
    (DS, "save_rig_assignments", "load_rig_assignments", None, "rig_assignments"),
    (DS, "save_report", "load_report", None, "text"),
    (DS, "save_ground_control_points", "load_ground_control_points", None, "gcp"),
    (UDS, "save_undistorted_shot_ids", "load_undistorted_shot_ids", None, "id"),
    (UDS, "save_undistorted_image", "load_undistorted_image", None, "image"),
    (UDS, "save_undistorted_mask", "load_undistorted_mask", "undistorted_mask_exists", "image"),
    (UDS, "save_undistorted_segmentation", "load_undistorted_segmentation", "undistorted_segmentation_exists", "image"),
    (UDS, "save_point_cloud", "load_point_cloud", None, "ply"),
    (UDS, "save_raw_depthmap", "load_raw_depthmap", "raw_depthmap_exists", "tuple"),
    (UDS, "save_clean_depthmap", "load_clean_depthmap", "clean_depthmap_exists", "tuple"),
    (UDS, "save_pruned_depthmap", "load_pruned_depthmap", "pruned_depthmap_exists", "tuple"),
    (UDS, "save_undistorted_tracks_manager", "load_undistorted_tracks_manager", None, "tracks"),
    (UDS, "save_undistorted_reconstruction", "load_undistorted_reconstruction", None, "opensfm.io.reconstructions"),
]
KEY_PARAMS = ("self", "image", "filename", "minify", "path")
CODECS = ("reconstructions", "cameras", "rig_cameras")
OPAQUE = ["opensfm.io.%s_%s_json" % (c, d) for c in CODECS for d in ("to", "from")] + [
    "opensfm.io.read_ground_control_points", "opensfm.io.write_ground_control_points", "opensfm.io.read_gcp_list",
    "opensfm.io.point_cloud_to_ply", "opensfm.io.point_cloud_from_ply",
    "opensfm.features.FeaturesData.save", "opensfm.features.FeaturesData.from_file",
    "opensfm.config.load_config", "opensfm.config.load_config_from_fileobject", "opensfm.rig.default_rig_cameras"]
READ = {"open_rb", "open_rt", "imread", "image_size"}
WRITE = {"open_wb", "open_wt", "open_at", "imwrite"}
TEST = {"isfile", "exists", "isdir"}


def value_params(prog, qual):
    f = prog.func(qual)
    a = f[0].args if hasattr(f[0], "args") else f[1].args
    return [x.arg for x in a.args + a.kwonlyargs if x.arg not in KEY_PARAMS]


class Access:
    def __init__(self, kind, path, eff, term):
        self.kind, self.path, self.eff, self.term = kind, path, eff, term


class Store:
    """One flow in which a saver and then its loader are analysed; file contents follow the path terms."""

    def __init__(self, prog, cls):
        self.prog, self.cls = prog, cls
        self.content = {}
        self.unread, self.writes = [], []
        M = {
            "json.dump": self.json_dump, "json.dumps": self.json_dumps, "json.load": self.json_load, "json.loads": self.json_loads,
            "numpy.savez_compressed": self.savez, "numpy.savez": self.savez, "numpy.load": self.npload,
            "pickle.dump": self.pickle_dump,
        }
        self.pickled = None
        self.self_t = sym("self")
        self.fl = Flow(prog, opaque=OPAQUE, opaque_prefix=["opensfm.features.FeaturesData."], types={self.self_t: cls.rstrip(".")}, ext_models=M)
        for name in ("io_handler", "config"):
            self.fl.th(self.self_t).attrs.append(self.fl.entry("set", const(name), sym(name)))

    def param(self, method, name):
        mod, node = self.prog.func(self.cls + method)
        return sym(name, self.fl.ann_class(mod, node, name))

    def handle_path(self, t):
        t = core(self.fl, t)
        if t.op == "sym":
            return t
        if t.op == "mcall" and t.args[1] in READ | WRITE:
            return self.canon(tm.call_parts(t)[1][0])
        return None

    def json_dump(self, fl, args, kw, node):
        f = args[1] if len(args) > 1 else kw.get("fp", NONE)
        self.put("json", f, args[0] if args else kw.get("obj"))
        return NONE

    def json_dumps(self, fl, args, kw, node):
        return mk("jsontext", args[0] if args else kw.get("obj"))

    def json_load(self, fl, args, kw, node):
        f = args[0] if args else kw.get("fp", NONE)
        return self.get("json", f, "json.load")

    def json_loads(self, fl, args, kw, node):
        t = args[0] if args else kw.get("s")
        if t.op == "jsontext":
            return t.args[0]
        return tm.call(mk("ext", "json.loads"), [t])

    def put(self, kind, f, v):
        p = self.handle_path(f)
        self.writes.append((kind, p, v, self.fl.path, self.fl.loops))
        old = self.content.get(p)
        if self.fl.path:
            v = tm.ite(tm.cond_of(self.fl.path), v, old[1] if old else tm.UNDEF)
        self.content[p] = (kind, v)

    def get(self, kind, f, name):
        p = self.handle_path(f)
        c = self.content.get(p)
        if c is not None and c[0] == kind:
            return c[1]
        self.unread.append((name, p))
        return tm.call(mk("ext", name), [f])

    def savez(self, fl, args, kw, node):
        t, h = fl.new("dict")
        for k, v in kw.items():
            h.log.append(fl.entry("set", const(k), v))
        for i, v in enumerate(args[1:]):
            h.log.append(fl.entry("set", const("arr_%d" % i), v))
        self.put("npz", args[0] if args else kw.get("file", NONE), t)
        return NONE

    def npload(self, fl, args, kw, node):
        return self.get("npz", args[0] if args else kw.get("file", NONE), "numpy.load")

    def pickle_dump(self, fl, args, kw, node):
        self.pickled = args[0] if args else kw.get("obj")
        return NONE

    def run(self, name, params=None):
        """-> (result, accesses, effects)"""
        fl = self.fl
        k = len(fl.effects)
        r = fl.run(self.cls + name, dict(params or {}), self_t=self.self_t)
        effs = fl.effects[k:]
        acc = []
        for e in effs:
            if e.kind == "mcall" and e.name in READ | WRITE | TEST | {"mkdir_p"} and e.args:
                acc.append(Access(e.name, self.canon(e.args[0]), e, e.result))
            if e.kind == "mcall" and e.name == "write" and e.args:
                p = self.handle_path(e.recv)
                if p is not None:
                    self.content[p] = ("text", e.args[0])
                    self.writes.append(("text", p, e.args[0], e.guards, e.loops))
        return r, acc, effs

    def canon(self, p):
        """A path as a tuple of components (os.path.join flattened, string concatenation kept)."""
        p = core(self.fl, p, ("str",))
        n = tm.callee_name(p)
        if p.op == "join":
            out = []
            for a in p.args:
                c = self.canon(a)
                out += list(c.args) if c.op == "path" else [c]
            return mk("path", *out)
        if n == "os.path.dirname":
            c = self.canon(tm.call_parts(p)[1][0])
            if c.op == "path" and len(c.args) > 1 and c.args[-1].op == "sym":
                return mk("path", *c.args[:-1], mk("dirof", c.args[-1]))  # a name that may have folders of its own
            if c.op == "path" and len(c.args) > 1:
                return mk("path", *c.args[:-1]) if len(c.args) > 2 else c.args[0]
        if p.op == "ite":
            return tm.ite(p.args[0], self.canon(p.args[1]), self.canon(p.args[2]))
        if p.op == "strcat":
            # a/b written with separators inside
            parts, cur = [], []
            for a in p.args:
                if tm.is_const(a) and isinstance(tm.cval(a), str) and "/" in tm.cval(a):
                    s = tm.cval(a).split("/")
                    if s[0]:
                        cur.append(const(s[0]))
                    for x in s[1:]:
                        parts.append(cur)
                        cur = [const(x)] if x else []
                else:
                    cur.append(a)
            parts.append(cur)
            if len(parts) > 1:
                out = []
                for q in parts:
                    if q:
                        c = self.canon(q[0]) if len(q) == 1 else mk("strcat", *q)
                        out += list(c.args) if c.op == "path" else [c]
                return mk("path", *out)
        return p


def dirname(p):
    if p.op == "path" and len(p.args) > 1:
        return mk("path", *p.args[:-1]) if len(p.args) > 2 else p.args[0]
    return None


def path_leaves(p):
    return leaves(p)
