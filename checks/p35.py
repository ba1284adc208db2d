"""P35: splitting a dataset loses no image, and aligning the submodels uses all of them."""

import itertools
import math
import posixpath
import random

import numpy as np

from checks.util import config_keys, run
from sa import terms as tm
from sa.play import Held, Play
from sa.program import AnalysisBroken
from sa.terms import attr, const, item, sym

TECHNIQUE = "effect extraction with path conditions: the calls that split a dataset and build the alignment, with the values they receive, derived for a range of datasets and compared with the partition that is due"
EXPLANATION = (
    "The functions that split a dataset and read the parts back are followed to the calls they make on the file system, the clustering and the "
    "alignment, with guards and loops. Those calls and their arguments are derived for datasets of several shapes - images without a position, on the "
    "equator or the zero meridian, empty groups, shared images, links that exist - and compared with the partition, the folders and the constraints that are due."
)
C = "opensfm.actions.create_submodels."
MD = "opensfm.large.metadataset.MetaDataSet"
TO = "opensfm.large.tools."
RAD = 6371000.0


def check(prog, rep):
    rep.rule("listed", "every image with a latitude and a longitude is listed with its own, whatever their values")
    rep.rule("grouped", "each listed image is in one cluster: that of its group, or one of enough clusters of the wanted size")
    rep.rule("overlap", "a submodel has the images of its cluster and all images within the overlap of any of them, once each")
    rep.rule("kept", "image lists and clusters are read back as they were written")
    rep.rule("folders", "each submodel's folder lists its images, linked to the originals, with the files the submodels share")
    rep.rule("order", "old submodels go first, the reference is set before the split, and each step uses the results of the one before")
    rep.rule("drawn", "the maps of the clusters put each image at its own longitude and latitude with its own submodel")
    rep.rule("loaded", "all partial reconstructions of all submodels are aligned, each under its own name")
    rep.rule("constraints", "each shot of each partial reconstruction takes part in the alignment once, with its own pose and position")
    for f in (listing, grouping, overlapping, keeping, folders, ordering, drawing, loading, constraining):
        rep.part(f, prog, rep)
    for n, k in (("listed", 4), ("grouped", 6), ("overlap", 20), ("kept", 6), ("folders", 20), ("order", 5), ("drawn", 4), ("loaded", 4), ("constraints", 20)):
        rep.minimum(n, k)


def equal(a, b):
    if isinstance(a, (list, tuple, np.ndarray)) and isinstance(b, (list, tuple, np.ndarray)):
        a, b = list(a), list(b)
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(equal(a[k], b[k]) for k in a)
    return bool(a == b)


def last(n):
    return (n or "").split(".")[-1]


def numpied(p, name, recv, args, kw):
    """Library calls on plain values."""
    n = last(name)
    if name in ("typing.cast", "cast"):
        return args[1]()
    if name.startswith("numpy.") and n in ("union1d", "unique", "arange", "concatenate", "cumsum", "split", "take", "where", "nonzero", "flatnonzero", "ceil", "reshape", "isin", "any", "array", "zeros", "setdiff1d", "hstack", "round", "floor", "append", "int32", "int64", "intersect1d", "asarray", "empty", "full", "column_stack"):
        return getattr(np, n)(*[a() for a in args], **{k: v() for k, v in kw.items()})
    if name == "math.ceil":
        return math.ceil(args[0]())
    if name in ("functools.reduce", "itertools.chain.from_iterable") and n == "from_iterable":
        return list(itertools.chain.from_iterable(args[0]()))
    if name == "itertools.chain":
        return list(itertools.chain(*[a() for a in args]))
    if name == "itertools.combinations":
        return list(itertools.combinations(args[0](), args[1]()))
    if name == "collections.Counter" or name == "collections.OrderedDict":
        return NotImplemented
    if isinstance(recv, np.ndarray) and n in ("ravel", "tolist", "reshape", "flatten", "astype", "nonzero", "squeeze"):
        return getattr(recv, n)(*[a() for a in args])
    return NotImplemented


def model(prog, q, only=None, opaque=(), self_cls=None):
    return run(prog, q, only or {q.rsplit(".", 1)[0] if self_cls is None else q.rsplit(".", 2)[0]}, opaque, self_cls)


def one(rep, rule, key, q, events, n=1):
    return rep.expect(len(events) == n, rule, key, q, "%d calls are made where %d is due" % (len(events), n))


# ------------------------------------------------------------------ the image list
EXIF = {
    "a.jpg": {"gps": {"latitude": 41.5, "longitude": 2.25, "altitude": 3.0}},
    "b.jpg": {"gps": {"latitude": 0.0, "longitude": 9.75}},
    "c.jpg": {"camera": "x"},
    "d.jpg": {"gps": {"latitude": -33.0, "longitude": 0.0, "dop": 5.0}},
    "e.jpg": {"gps": {"latitude": 12.0}},
    "f.jpg": {"gps": {"longitude": 12.0}},
    "g.jpg": {"gps": {}},
    "h.jpg": {"gps": {"latitude": 0.0, "longitude": 0.0}},
    "i.jpg": {"gps": {"latitude": 1.0000001, "longitude": -179.9999999}},
}


def listing(prog, rep):
    q = C + "_create_image_list"
    fl, r, A = model(prog, q)

    def calls(p, name, recv, args, kw):
        if recv is A["data"] and name == "images":
            return sorted(EXIF)
        if recv is A["data"] and name == "load_exif":
            return EXIF[(args or [kw.get("image")])[0]()]
        return numpied(p, name, recv, args, kw)

    ev = Play(fl, {}, calls, ["create_image_list"]).go().events
    if not one(rep, "listed", "calls", q, ev) or ev[0].recv is not A["meta_data"]:
        return
    got = [tuple(x) for x in (ev[0].args or list(ev[0].kw.values()))[0]]
    names = [x[0] for x in got]
    for k, x in EXIF.items():
        g = x.get("gps", {})
        due = "latitude" in g and "longitude" in g
        rep.expect(names.count(k) == (1 if due else 0), "listed", "image|%s" % sorted(g), q, "an image with %s is listed %d times" % (", ".join("%s %s" % y for y in sorted(g.items())) or "no position", names.count(k)))
        if due and names.count(k) == 1:
            y = got[names.index(k)]
            rep.expect(equal(y, (k, g["latitude"], g["longitude"])), "listed", "values", q, "an image at latitude %s, longitude %s is listed as %s" % (g["latitude"], g["longitude"], (y,)))


# ------------------------------------------------------------------ clusters
PLACES = [("b", 10.0, 20.0), ("a", 10.5, 20.25), ("e", -10.0, 21.0), ("c", 0.0, 0.0), ("d", 11.0, 22.0)]


def parallel(rep, key, q, images, positions, want):
    images, positions = [str(x) for x in np.array(images).ravel()], np.array(positions)
    ok = sorted(images) == sorted(n for n, _, _ in want) and positions.shape == (len(want), 2)
    if not rep.expect(ok, "grouped", key + ":images", q, "the clusters are of the images %s" % images[:6]):
        return None
    at = {n: (la, lo) for n, la, lo in want}
    for n, p in zip(images, positions):
        rep.expect(abs(p[0] - at[n][0]) < 1e-4 and abs(p[1] - at[n][1]) < 1e-4, "grouped", key + ":positions", q, "the image at %s has the position %s" % (at[n], list(p)))
    return images


def grouping(prog, rep):
    q = C + "_read_image_groups"
    fl, r, A = model(prog, q)
    zeros = [e for e in fl.effects if e.kind == "call" and last(e.name) in ("zeros", "empty", "full", "array")]
    for groups in ({"b": "z", "a": "y", "e": "z", "c": "x", "d": "y"}, {k: "all" for k in "abcde"}, {k: k for k in "abcde"}):
        def calls(p, name, recv, args, kw):
            if recv is A["meta_data"] and name == "load_image_groups":
                return [[k, v] for k, v in sorted(groups.items())]
            if recv is A["meta_data"] and name == "images_with_gps":
                return list(PLACES)
            return numpied(p, name, recv, args, kw)

        p = Play(fl, {}, calls).go()
        K = len(set(groups.values()))
        saves = [e for e in fl.effects if e.kind == "mcall" and e.name == "save_clusters"]
        if not one(rep, "grouped", "read:calls", q, saves):
            return
        a = dict(zip(["images", "positions", "labels", "centers"], saves[0].args))
        a.update(dict(saves[0].kwargs or {}))
        images = parallel(rep, "read", q, p.value(a["images"]), p.value(a["positions"]), PLACES)
        labels = [int(x) for x in np.array(p.value(a["labels"])).ravel()]
        if images is None:
            continue
        if not rep.expect(len(labels) == len(images), "grouped", "read:labels", q, "%d images have %d labels" % (len(images), len(labels))):
            continue
        for i, j in itertools.combinations(range(len(images)), 2):
            same = groups[images[i]] == groups[images[j]]
            rep.expect((labels[i] == labels[j]) == same, "grouped", "read:together", q, "images of %s group have the labels %d and %d" % ("the same" if same else "another", labels[i], labels[j]))
        n = None
        for z in [x for x in zeros if tm.contains(fl.deep(a["centers"]), lambda y: y is fl.deep(x.result))] or zeros[:1]:
            v = p.value(z.args[0])
            v = v[0] if isinstance(v, tuple) else v
            if isinstance(v, (int, np.integer)):
                n = int(v) if n is None else max(n, int(v))
        rep.expect(n is None or n == K and set(labels) <= set(range(K)), "grouped", "read:numbers", q, "%d groups have labels %s and %s centres" % (K, sorted(set(labels)), n))
    q = C + "_cluster_images"
    fl, r, A = model(prog, q, opaque=[TO + "kmeans"])
    for n, size in ((5, 2), (5, 5), (5, 1), (4, 2), (5, 80), (1, 3)):
        got = {}

        def calls(p, name, recv, args, kw):
            if recv is A["meta_data"] and name == "images_with_gps":
                return PLACES[:n]
            if last(name) == "kmeans":
                a = {**dict(zip(["samples", "nclusters"], args)), **kw}
                got["samples"], got["K"] = a["samples"](), a["nclusters"]()
                return (0.5, np.arange(n).reshape(n, 1) + 70, np.full((got["K"], 2), 7.0))
            return numpied(p, name, recv, args, kw)

        ev = Play(fl, {A["cluster_size"]: size}, calls, ["save_clusters"]).go().events
        if not one(rep, "grouped", "kmeans:calls", q, ev):
            return
        a = {**dict(zip(["images", "positions", "labels", "centers"], ev[0].args)), **ev[0].kw}
        images = parallel(rep, "kmeans", q, a["images"], a["positions"], PLACES[:n])
        if images is None:
            continue
        k = math.ceil(n / size)
        rep.expect(got.get("K") == k, "grouped", "kmeans:number", q, "%d images in submodels of %d are put in %s clusters" % (n, size, got.get("K")))
        s = np.array(got["samples"])
        rep.expect(equal(s, a["positions"]) and list(np.array(a["labels"]).ravel()) == list(range(70, 70 + n)) and equal(a["centers"], np.full((k, 2), 7.0)), "grouped", "kmeans:labels", q, "the labels are not those of the images in their order")
    q = TO + "kmeans"
    fl, r, A = model(prog, q)
    seen = 0
    for e in fl.effects:
        if last(e.name) == "kmeans" and e.kind in ("call", "mcall"):
            seen += 1
            rep.expect(len(e.args) >= 2 and e.args[0] is A["samples"] and e.args[1] is A["nclusters"], "grouped", "kmeans:given", e.where, "the samples or the number of clusters are not those asked for")
    rep.expect(seen > 0, "grouped", "kmeans:none", q, "no clustering is done")


def metres(a, b, lat):
    return math.hypot(math.radians(a[0] - b[0]) * RAD, math.radians(a[1] - b[1]) * RAD * math.cos(math.radians(lat)))


class Converter:
    """A local map around a reference."""

    def __init__(self, lat, lon, alt):
        self.ref = (lat, lon, alt)

    def to_topocentric(self, lat, lon, alt):
        la, lo, al = self.ref
        return (math.radians(lon - lo) * RAD * math.cos(math.radians(la)), math.radians(lat - la) * RAD, alt - al)


class Tree:
    """Points near a point, by the definition."""

    def __init__(self, points):
        self.points = np.array(points, float)

    def query_ball_point(self, x, r):
        x = np.array(x, float)
        if x.ndim == 2:
            return [self.query_ball_point(y, r) for y in x]
        return [int(i) for i in np.where(np.linalg.norm(self.points - x, axis=1) <= r)[0]]


def overlapping(prog, rep):
    q = TO + "add_cluster_neighbors"
    fl, r, A = model(prog, q, opaque=["opensfm.geo.TopocentricConverter"])

    def calls(p, name, recv, args, kw):
        n = last(name)
        if n == "TopocentricConverter":
            return Converter(*[a() for a in args], **{{"reflat": "lat", "reflon": "lon", "refalt": "alt"}.get(k, k): v() for k, v in kw.items()})
        if isinstance(recv, Converter) and n == "to_topocentric":
            return recv.to_topocentric(*[a() for a in args], **{k: v() for k, v in kw.items()})
        if n in ("cKDTree", "KDTree"):
            return Tree(args[0]())
        if isinstance(recv, Tree) and n == "query_ball_point":
            a = {**dict(zip(["x", "r"], args)), **kw}
            return recv.query_ball_point(a["x"](), a["r"]())
        return numpied(p, name, recv, args, kw)

    rng = random.Random(5)
    for lat0, lon0, K, n, d in ((60.0, 10.0, 3, 12, 40.0), (-70.0, -120.0, 2, 9, 60.0), (10.0, 100.0, 1, 5, 30.0), (45.0, 0.0, 4, 4, 0.0), (45.0, 0.0, 5, 14, 45.0), (60.0, 7.0, 2, 10, 500.0), (50.0, 7.0, 3, 15, -45.0), (50.0, 7.0, 3, 15, -75.0)):
        chain, d = d < 0, abs(d)  # a road cut into stretches
        while True:
            pos = [(lat0, lon0 + (30.0 * i + rng.uniform(-3, 3)) / 111e3 / math.cos(math.radians(lat0))) for i in range(n)] if chain else [(lat0 + rng.uniform(-1, 1) * 1.2e-3, lon0 + rng.uniform(-1, 1) * 1.2e-3 / math.cos(math.radians(lat0))) for _ in range(n)]
            ds = [metres(a, b, lat0) for a, b in itertools.combinations(pos, 2)]
            if all(abs(x - d) > 0.02 * d + 0.01 for x in ds):
                break
        labels = [(K - 1 if i >= n - K + 1 and False else i % K) for i in range(n)]
        rng.shuffle(labels)
        if chain:
            labels = [i * K // n for i in range(n)]
        if K == 5:  # a group without images
            labels = [x if x != 2 else 1 for x in labels]
        env = {A["positions"]: np.array(pos), A["labels"]: np.array(labels), A["centers"]: np.zeros((K, 2)), A["max_distance"]: d}
        got = Play(fl, env, calls).final(r)
        if not rep.expect(len(got) == K, "overlap", "clusters", q, "%d clusters become %d submodels" % (K, len(got))):
            continue
        for k in range(K):
            mine = [i for i in range(n) if labels[i] == k]
            want = sorted({j for i in mine for j in range(n) if j == i or metres(pos[i], pos[j], lat0) <= d})
            g = [int(x) for x in got[k]]
            rep.expect(set(mine) <= set(g), "overlap", "members", q, "a submodel misses %d images of its own cluster" % len(set(mine) - set(g)))
            rep.expect(set(want) <= set(g), "overlap", "near", q, "at latitude %d, images within %d m of the cluster are left out" % (lat0, d))
            rep.expect(set(g) <= set(want), "overlap", "far", q, "at latitude %d, images farther than %d m from the cluster are taken in" % (lat0, d))
            rep.expect(len(g) == len(set(g)), "overlap", "twice", q, "an image is in a submodel twice")
    q = C + "_add_cluster_neighbors"
    fl, r, A = model(prog, q, opaque=[TO + "add_cluster_neighbors"])
    images, P, L, Z = np.array(["b", "a", "e", "c"]), np.zeros((4, 2)) + 3, np.array([0, 1, 0, 2]), np.zeros((3, 2)) + 4
    given = {}

    def calls2(p, name, recv, args, kw):
        if recv is A["meta_data"] and name == "load_clusters":
            return (images, P, L, Z)
        if last(name) == "add_cluster_neighbors":
            a = {**dict(zip(["positions", "labels", "centers", "max_distance"], args)), **kw}
            given.update({k: v() for k, v in a.items()})
            return [[np.int64(0), np.int64(2), np.int64(3)], [], [np.int64(1)], [np.int64(3), np.int64(1)]]
        if name == "numpy.take":
            i = np.array(args[1]())
            if i.dtype.kind == "f":
                raise Wrong("a group without images ends the split")
        return numpied(p, name, recv, args, kw)

    try:
        ev = Play(fl, {A["max_distance"]: 30.0}, calls2, ["save_clusters_with_neighbors"]).go().events
    except Wrong as x:
        rep.expect(False, "overlap", "empty", q, str(x))
        return
    rep.expect(True, "overlap", "empty", q, "")
    if not one(rep, "overlap", "saved:calls", q, ev):
        return
    got = [[str(y) for y in x] for x in (ev[0].args or list(ev[0].kw.values()))[0]]
    rep.expect(got == [["b", "e", "c"], [], ["a"], ["c", "a"]], "overlap", "saved", q, "the members of the submodels are saved as %s" % got)
    rep.expect(equal(given.get("positions"), P) and equal(given.get("labels"), L) and equal(given.get("centers"), Z) and given.get("max_distance") == 30.0, "overlap", "given", q, "the neighbours are looked up for other clusters or another overlap")


class Wrong(Exception):
    pass


# ------------------------------------------------------------------ files read back
def paths(fl, e):
    return [fl.deep(x) for x in list(e.args)[:1] + [dict(e.kwargs or {}).get("path"), dict(e.kwargs or {}).get("file")] if x is not None][0]


def keeping(prog, rep):
    S = sym("self")
    q = MD + ".create_image_list"
    fl, r, A = model(prog, q, self_cls=MD)
    want = [("a b.jpg", 41.123456789012, 2.0), ("c.JPG", -1e-07, 0.0), ("ü.png", -89.99999999, 179.12345678901)]
    ev = Play(fl, {A["ills"]: want}, file_calls({}), ["write", "writelines"]).go().events
    text = "".join("".join(e.args[0]) for e in ev)
    f2, r2, A2 = model(prog, MD + ".images_with_gps", self_cls=MD)
    try:
        got = Play(f2, {}, file_calls({"": text})).value(r2)
    except ValueError as x:
        got = [str(x)]
    rep.expect(equal([x if isinstance(x, str) else tuple(x) for x in got], want), "kept", "image-list", q, "the image list %s is read back as %s" % (want[:2], list(got)[:2]))
    a, b = ([e for e in f.effects if e.kind == "call" and last(e.name) in ("open_wt", "open_rt", "open")] for f in (fl, f2))
    rep.expect(len(a) == len(b) == 1 and paths(fl, a[0]) is paths(f2, b[0]), "kept", "image-list:file", q, "the image list is read from another file than it is written to")
    for w, rd, args in (
        ("save_clusters", "load_clusters", (np.array(["b", "a", "c"]), np.arange(6.0).reshape(3, 2), np.array([1, 0, 1]), np.arange(4.0).reshape(2, 2))),
        ("save_clusters", "load_clusters", (np.array([["b"], ["a"], ["c"]]), np.arange(6.0).reshape(3, 2), np.array([[1], [0], [1]]), np.arange(4.0).reshape(2, 2))),
        ("save_clusters_with_neighbors", "load_clusters_with_neighbors", ([["a", "b"], ["c"]],)),
        ("save_clusters_with_neighbors", "load_clusters_with_neighbors", ([["a", "b"], [], ["a", "c", "dd"]],)),
        ("save_clusters_with_neighbors", "load_clusters_with_neighbors", ([["a", "b"], ["c", "longer name.jpg"], []],)),
        ("save_clusters_with_neighbors", "load_clusters_with_neighbors", ([["a"]],)),
        ("save_clusters_with_neighbors", "load_clusters_with_neighbors", ([["a", "b"], ["b", "c"]],)),
    ):
        fl, r, A = model(prog, MD + "." + w, self_cls=MD)
        names = [k for k in A if A[k] is not S]
        p = Play(fl, dict(zip([A[k] for k in names], args)), numpied)
        es = [e for e in fl.effects if e.kind == "call" and (e.name or "").startswith("numpy.save")]
        if not one(rep, "kept", w + ":calls", MD + "." + w, es):
            continue
        stored = {k: np.asarray(p.value(v)) for k, v in dict(es[0].kwargs).items()}
        f2, r2, A2 = model(prog, MD + "." + rd, self_cls=MD)

        def calls(p, name, recv, args, kw):
            if name == "numpy.load":
                return stored
            return numpied(p, name, recv, args, kw)

        got = Play(f2, {}, calls).value(r2)
        due = args[0] if len(args) == 1 else (args[0].ravel(), args[1], args[2].ravel(), args[3])
        rep.expect(equal([list(x) for x in got] if len(args) == 1 else list(got), list(due)), "kept", w, MD + "." + rd, "%s is read back as %s" % (str(due)[:60], str(got)[:60]))
        lo = [e for e in f2.effects if e.kind == "call" and e.name == "numpy.load"]
        rep.expect(len(lo) == 1 and paths(fl, es[0]) is paths(f2, lo[0]), "kept", w + ":file", MD + "." + rd, "the clusters are read from another file than they are written to")


def file_calls(files):
    def calls(p, name, recv, args, kw):
        if last(name) in ("open_rt", "open"):
            return files.get("", "").splitlines(True)
        if last(name) == "open_wt":
            return "the file"
        if name == "float":
            return float(args[0]())
        return numpied(p, name, recv, args, kw)

    return calls


# ------------------------------------------------------------------ the folders of the submodels
CONFIG = {"submodels_relpath": "submodels", "submodel_relpath_template": "submodels/submodel_%04d", "submodel_images_relpath_template": "submodels/submodel_%04d/images"}
SHARED = ("camera_models.json", "reference_lla.json", "exif", "features", "matches", "masks", "segmentations")
MAKERS = ("mkdir_p", "makedirs", "mkdir", "symlink", "link", "unlink", "remove", "copyfile", "copy", "copy2", "write", "writelines", "rmtree", "open_wt")


class File:
    def __init__(self, path):
        self.path = path


class Disk(Play):
    """What the folders hold as the effects go by."""

    def __init__(self, fl, env, calls, names, files=(), dirs=(), links=None):
        super().__init__(fl, env, calls, names)
        self.files, self.dirs, self.links, self.text = set(files), set(dirs), dict(links or {}), {}
        self.wrong = []
        self.removed = []

    def has(self, p, kinds="fdl"):
        p = posixpath.normpath(p)
        return "f" in kinds and p in self.files or "d" in kinds and p in self.dirs or "l" in kinds and p in self.links

    def event(self, ev):
        self.events.append(ev)
        n = ev.name
        a = list(ev.args) + list(ev.kw.values())
        if n in ("mkdir_p", "makedirs", "mkdir"):
            p = posixpath.normpath(a[0])
            while p not in ("/", "", "."):
                self.dirs.add(p)
                p = posixpath.dirname(p)
            return
        at = a[1] if n in ("symlink", "link", "copyfile", "copy", "copy2") else ev.recv.path if n in ("write", "writelines") else a[0]
        at = posixpath.normpath(at)
        if not at.startswith("/data/submodels/"):
            self.wrong.append("%s changes %s" % (n, at))
        if n in ("unlink", "remove"):
            self.links.pop(at, None)
            self.files.discard(at)
            self.removed.append(at)
            return
        if n == "rmtree":
            if at not in self.dirs:
                self.wrong.append("a file is removed as a folder")
            self.removed.append(at)
            return
        if posixpath.dirname(at) not in self.dirs:
            self.wrong.append("%s in a folder that is not made" % n)
        if n in ("symlink", "link"):
            if self.has(at):
                self.wrong.append("a link is made over one that exists")
            self.links[at] = posixpath.normpath(posixpath.join(posixpath.dirname(at), a[0])) if n == "symlink" else a[0]
            self.files.add(at)
        elif n in ("write", "writelines"):
            self.text[at] = self.text.get(at, "") + "".join(a[0])
        elif n == "open_wt":
            self.text[at] = ""
            self.files.add(at)
        else:
            self.links[at] = a[0]


def disk_calls(S, more=None):
    def calls(p, name, recv, args, kw):
        n = last(name)
        if more is not None:
            r = more(p, name, recv, args, kw)
            if r is not NotImplemented:
                return r
        if name.startswith("os.path.") or name.startswith("posixpath."):
            a = [x() for x in args]
            if n in ("isfile", "exists", "lexists", "isdir", "islink"):
                return p.has(a[0], {"isfile": "f", "exists": "fd", "lexists": "fdl", "isdir": "d", "islink": "l"}[n])
            if n in ("relpath", "basename", "dirname", "join", "split", "normpath", "abspath", "splitext"):
                return getattr(posixpath, n)(*a)
        if n in ("open_wt", "open_rt", "open"):
            return File((args or list(kw.values()))[0]())
        return numpied(p, name, recv, args, kw)

    return calls


def surroundings(S, config=None):
    return {attr(S, "data_path"): "/data", attr(S, "config"): dict(CONFIG, **(config or {})), tm.mk("ext", "sys.platform"): "linux", tm.mk("ext", "os.path.sep"): "/", tm.mk("ext", "os.sep"): "/", tm.mk("ext", "os.name"): "posix"}


def folders(prog, rep):
    q = MD + ".create_submodels"
    fl, r, A = model(prog, q, self_cls=MD, opaque=["opensfm.dataset.DataSet"])
    S = sym("self")
    images = {"a.jpg": "/data/images/a.jpg", "b.jpg": "/elsewhere/b.jpg", "c.jpg": "/data/images/c.jpg", "d.jpg": "/data/images/d.jpg"}

    def more(p, name, recv, args, kw):
        if last(name) == "DataSet":
            return Held(image_files=images, data_path="/data", config=CONFIG)
        return NotImplemented

    for shared, had, clusters, config in (
        (SHARED, (), [["a.jpg", "b.jpg"], ["b.jpg", "c.jpg", "d.jpg"]], True),
        (SHARED[:3] + ("reports/features", "reports/features.json", "mask_list.txt"), SHARED[:2], [["d.jpg"], [], ["c.jpg", "a.jpg"]], False),
        ((), (), [["a.jpg"]] * 11, True),
    ):
        files = {"/data/" + x for x in shared} | ({"/data/config.yaml"} if config else set()) | set(images.values())
        subs = ["/data/submodels/submodel_%04d" % i for i in range(len(clusters))]
        links = {s + "/" + x: "/data/" + x for s in subs[:1] for x in had}
        d = Disk(fl, {**surroundings(S), A["clusters"]: clusters}, disk_calls(S, more), MAKERS, files, {"/data", "/data/submodels"}, links).go()
        rep.expect(not d.wrong, "folders", "made", q, "; ".join(sorted(set(d.wrong)))[:150])
        for s, cluster in zip(subs, clusters):
            text = d.text.get(s + "/image_list.txt")
            if not rep.expect(text is not None, "folders", "image-list", q, "a submodel has no image list"):
                continue
            lines = [x for x in text.split("\n") if x]
            got = [posixpath.basename(x) for x in lines]
            rep.expect(sorted(got) == sorted(cluster) and text.count("\n") >= len(lines), "folders", "listed", q, "a submodel of %s lists %s" % (cluster, got))
            for x in lines:
                at = posixpath.normpath(posixpath.join(s, x))
                to = d.links.get(at)
                rep.expect(to == images.get(posixpath.basename(x)) and at.startswith(s + "/") or at in images.values(), "folders", "linked", q, "the image %s is linked to %s" % (at, to))
            for x in SHARED:
                to = d.links.get(s + "/" + x)
                rep.expect(to == ("/data/" + x if x in shared else None), "folders", "shared|" + x, q, "a submodel's %s is %s when the dataset %s" % (x, "linked to %s" % to if to else "missing", "has it" if x in shared else "has none"))
            for at, to in d.links.items():
                if at.startswith(s + "/") and not at.startswith(s + "/images/"):
                    rep.expect(to == "/data" + at[len(s):], "folders", "resolved", q, "a submodel's %s is %s" % (at[len(s) + 1:], to))
            to = d.links.get(s + "/config.yaml")
            rep.expect(to == ("/data/config.yaml" if config else None), "folders", "config", q, "a submodel's configuration is %s" % to)
    q = MD + ".get_submodel_paths"
    fl, r, A = model(prog, q, self_cls=MD)
    for k in (0, 1, 3, 12, 1100):
        dirs = {"/data/submodels/submodel_%04d" % i for i in range(k)}
        d = Disk(fl, surroundings(sym("self")), disk_calls(sym("self")), (), (), dirs)
        got = [posixpath.normpath(x) for x in d.final(r)]
        rep.expect(got == sorted(dirs), "folders", "found", q, "of %d submodels, %d are found" % (k, len(got)))
    q = MD + ".remove_submodels"
    fl, r, A = model(prog, q, self_cls=MD)

    def listed(p, name, recv, args, kw):
        if name == "os.listdir":
            return ["submodel_0000", "image_list_with_gps.tsv", "submodel_0001", "clusters.npz"]
        return NotImplemented

    d = Disk(fl, surroundings(sym("self")), disk_calls(sym("self"), listed), ["rmtree", "remove", "unlink", "rmdir"], {"/data/submodels/image_list_with_gps.tsv", "/data/submodels/clusters.npz"}, {"/data/submodels/submodel_000%d" % i for i in range(2)}).go()
    gone = {x for x in d.removed}
    rep.expect({"/data/submodels/submodel_000%d" % i for i in range(2)} <= gone and not d.wrong, "folders", "removed", q, "the folders removed are %s" % sorted(gone))


# ------------------------------------------------------------------ the order of the steps
STEPS = ["remove_submodels", "init_reference", "_create_image_list", "_read_image_groups", "_cluster_images", "_add_cluster_neighbors", "_save_clusters_geojson", "_save_cluster_neighbors_geojson", "create_submodels"]


def ordering(prog, rep):
    q = C + "run_dataset"
    mod = prog.modules["opensfm.actions.create_submodels"]
    fl, r, A = model(prog, q, opaque=[C + x for x in STEPS if x.startswith("_")] + ["opensfm.large.metadataset.MetaDataSet"])
    data = list(A.values())[0]
    for groups in (True, False):
        def calls(p, name, recv, args, kw):
            n = last(name)
            if n == "MetaDataSet":
                return "META"
            if n == "image_groups_exists":
                return groups
            if n == "load_clusters_with_neighbors":
                return "CLUSTERS"
            return NotImplemented

        env = {attr(data, "config"): {"submodel_size": 80.0, "submodel_overlap": 31.0}, data: "DATA", attr(data, "data_path"): "/data"}
        ev = Play(fl, env, calls, STEPS + ["load_clusters_with_neighbors"]).go().events
        names = [e.name for e in ev]
        due = [x for x in STEPS if x != ("_cluster_images" if groups else "_read_image_groups")]
        for x in due:
            rep.expect(x in names, "order", "step|" + x, q, "%s is left out when image groups are %s" % (x, "given" if groups else "not given"))
        rep.expect(("_cluster_images" in names) != groups and ("_read_image_groups" in names) == groups, "order", "groups", q, "images are %s when image groups are %s" % ("clustered" if "_cluster_images" in names else "grouped", "given" if groups else "not given"))
        pos = {x: names.index(x) for x in names}
        last_ = {x: len(names) - 1 - names[::-1].index(x) for x in names}
        for a, b in (("remove_submodels", "create_submodels"), ("init_reference", "create_submodels"), ("_create_image_list", "_cluster_images"), ("_create_image_list", "_read_image_groups"), ("_cluster_images", "_add_cluster_neighbors"), ("_read_image_groups", "_add_cluster_neighbors"), ("_add_cluster_neighbors", "load_clusters_with_neighbors"), ("_add_cluster_neighbors", "create_submodels"), ("_add_cluster_neighbors", "_save_cluster_neighbors_geojson")):
            if a in pos and b in pos:
                rep.expect(last_[a] < pos[b], "order", a + "<" + b, q, "%s comes before %s" % (b, a))
        for e in ev:
            vals = list(e.args) + list(e.kw.values())
            if e.name == "_cluster_images":
                rep.expect(80.0 in vals and 31.0 not in vals, "order", "size", q, "the size of the clusters is %s" % vals[1:])
            if e.name == "_add_cluster_neighbors":
                rep.expect(31.0 in vals and 80.0 not in vals, "order", "overlap", q, "the overlap is %s" % vals[1:])
            if e.name == "create_submodels":
                rep.expect(vals[:1] == ["CLUSTERS"], "order", "given", q, "the submodels are made of %s" % vals[:1])
    return mod


# ------------------------------------------------------------------ the maps
def drawing(prog, rep):
    gps = [("b", 10.0, 20.0), ("a", -10.5, 0.0), ("c", 0.0, -120.5)]
    for name, save in (("_save_clusters_geojson", "save_clusters_geojson"), ("_save_cluster_neighbors_geojson", "save_cluster_with_neighbors_geojson")):
        q = C + name
        fl, r, A = model(prog, q)

        def calls(p, n, recv, args, kw):
            if recv is A["meta_data"]:
                if n == "images_with_gps":
                    return gps
                if n == "load_clusters":
                    return (["b", "a", "c"], np.zeros((3, 2)), np.array([1, 0, 1]), np.zeros((2, 2)))
                if n == "load_clusters_with_neighbors":
                    return [["a"], ["b", "c", "a"]]
            return numpied(p, n, recv, args, kw)

        ev = Play(fl, {}, calls, [save]).go().events
        if not one(rep, "drawn", name + ":calls", q, ev):
            continue
        doc = (ev[0].args or list(ev[0].kw.values()))[0]
        want = [("a", 0)] if name != "_save_clusters_geojson" else []
        want = sorted([("a", 0), ("b", 1), ("c", 1)] + ([("a", 1)] if want else []))
        fs = doc.get("features", [])
        got = sorted((x["properties"]["name"], x["properties"]["submodel"]) for x in fs)
        rep.expect(doc.get("type") == "FeatureCollection" and got == want, "drawn", name + ":images", q, "the map has the images %s" % got)
        at = {n: [lo, la] for n, la, lo in gps}
        for x in fs:
            g = x.get("geometry", {})
            rep.expect(x.get("type") == "Feature" and g.get("type") == "Point" and list(g.get("coordinates", [])) == at.get(x["properties"]["name"]), "drawn", name + ":places", q, "the image at longitude %s is drawn at %s" % (at.get(x["properties"]["name"]), g.get("coordinates")))


# ------------------------------------------------------------------ the partial reconstructions
class Set:
    def __init__(self, path):
        self.data_path = path


def loading(prog, rep):
    q = TO + "load_reconstruction_shots"
    fl, r, A = model(prog, q, opaque=["opensfm.dataset.DataSet"])
    recs = {"s/0": [Held(shots="s00"), Held(shots="s01"), Held(shots="s02")], "s/1": None, "s/2": [Held(shots="s20")], "s/3": []}
    meta = list(A.values())[0]

    def calls(p, name, recv, args, kw):
        n = last(name)
        if n == "DataSet":
            return Set((args or list(kw.values()))[0]())
        if recv is meta and n == "get_submodel_paths":
            return list(recs)
        if isinstance(recv, Set) and n == "reconstruction_exists":
            return recs[recv.data_path] is not None
        if isinstance(recv, Set) and n == "load_reconstruction":
            if args or kw:
                return NotImplemented
            if recs[recv.data_path] is None:
                raise Wrong("a submodel without a reconstruction is read")
            return recs[recv.data_path]
        if isinstance(recv, Set) and n == "load_tracks_manager":
            return "tracks of " + recv.data_path
        if n == "PartialReconstruction":
            a = {**dict(zip(["submodel_path", "idx"], args)), **kw}
            return (a["submodel_path"](), a["idx"]())
        return numpied(p, name, recv, args, kw)

    try:
        got = Play(fl, {}, calls).final(r)
        got = {tuple(k) if isinstance(k, tuple) else k: v for k, v in got.items()}
        want = {(s, i): x.shots for s, xs in recs.items() for i, x in enumerate(xs or [])}
        rep.expect(got == want, "loaded", "shots", q, "of the partial reconstructions %s, %s are aligned" % (sorted(want), sorted(map(str, got))))
    except Wrong as x:
        rep.expect(False, "loaded", "missing", q, str(x))
    q = TO + "load_reconstruction"
    fl, r, A = model(prog, q, opaque=["opensfm.dataset.DataSet"])
    for path, i in (("s/0", 1), ("s/0", 2), ("s/2", 0)):
        got = Play(fl, {A["path"]: path, A["index"]: i}, calls).value(r)
        rep.expect(got[1][0] is recs[path][i] and got[1][1] == "tracks of " + path, "loaded", "one", q, "the reconstruction %d of %s is not the one that is read" % (i, path))
    q = TO + "partial_reconstruction_name"
    fl, r, A = model(prog, q)
    key = list(A.values())[0]
    names = {}
    for s in ("/d/submodel_0001", "/d/submodel_0011", "/d/submodel_0000"):
        for i in range(13):
            names.setdefault(Play(fl, {attr(key, "submodel_path"): s, attr(key, "idx"): i, item(key, const(0)): s, item(key, const(1)): i}, numpied).final(r), []).append((s, i))
    rep.expect(all(len(x) == 1 for x in names.values()), "loaded", "names", q, "two partial reconstructions have one name: %s" % [x for x in names.values() if len(x) > 1][:1])
    q = TO + "connected_reconstructions"
    fl, r, A = model(prog, q)
    for shots in ({"r": "ab", "s": "bc", "t": "d"}, {"r": "ab", "s": "ab", "t": "b", "u": "ca"}, {"r": "a", "s": "b"}):
        p = Play(fl, {list(A.values())[0]: {(k, 0): {x: None for x in v} for k, v in shots.items()}}, graph_calls, ["add_node", "add_edge", "add_nodes_from", "add_edges_from"])
        p.event = lambda ev: getattr(ev.recv, ev.name)(*ev.args, **ev.kw)
        p.go()
        got = sorted(tuple(sorted(x[0] for x in e[:2])) for e in p.value(r))
        want = sorted((a, b) for a, b in itertools.combinations(sorted(shots), 2) if set(shots[a]) & set(shots[b]))
        rep.expect(got == want, "loaded", "connected", q, "of reconstructions with the images %s, those connected are %s" % (shots, got))


def graph_calls(p, name, recv, args, kw):
    import networkx as nx

    n = last(name)
    if name == "networkx.Graph":
        return nx.Graph()
    if n == "projected_graph":
        return nx.algorithms.bipartite.projected_graph(args[0](), args[1]())
    if isinstance(recv, nx.Graph) and n in ("edges", "nodes"):
        return list(getattr(recv, n)())
    return numpied(p, name, recv, args, kw)


# ------------------------------------------------------------------ the constraints
SIGN = {
    "add_reconstruction": ["id", "rx", "ry", "rz", "tx", "ty", "tz", "scale", "constant"],
    "add_shot": ["id", "rx", "ry", "rz", "tx", "ty", "tz", "constant"],
    "add_absolute_position_constraint": ["shot_id", "x", "y", "z", "std"],
    "add_relative_absolute_position_constraint": ["rec", "shot_id", "x", "y", "z", "std"],
    "RARelativeMotionConstraint": ["rec", "shot_id", "rx", "ry", "rz", "tx", "ty", "tz"],
    "add_common_camera_constraint": ["rec_a", "shot_a", "rec_b", "shot_b", "std_center", "std_rotation"],
}


class Motion:
    def __init__(self, a):
        self.a, self.m = a, {}


def shot_at(k):
    f = lambda *v: [k * 10 + x for x in v]  # noqa: E731
    return Held(
        pose=Held(rotation=f(0.1, 0.2, 0.3), translation=f(0.4, 0.5, 0.6)),
        metadata=Held(gps_position=Held(value=f(0.7, 0.8, 0.9), has_value=True), gps_accuracy=Held(value=k + 0.05, has_value=True)),
    )


def constraining(prog, rep):
    for f, soft in (("add_camera_constraints_soft", True), ("add_camera_constraints_hard", False)):
        q = TO + f
        fl, r, A = model(prog, q, opaque=[TO + "connected_reconstructions", TO + "scale_matrix"])
        for recs in ({("r", 0): ["a", "b"], ("s", 0): ["b", "c"]}, {("r", 0): ["b"], ("s", 0): ["a", "b"], ("s", 1): ["b", "a"]}):
            shots, k = {}, 0
            for key, names in recs.items():
                shots[key] = {}
                for n in names:
                    k += 1
                    shots[key][n] = shot_at(k)

            def calls(p, name, recv, args, kw):
                n = last(name)
                if recv is None and n in ("reconstruction_name", "<param>") or name == "" or n == "":
                    return "%s%d" % args[0]()
                if n == "scale_matrix":
                    return np.linalg.inv(np.linalg.cholesky(np.array((args or list(kw.values()))[0](), float)))
                if n == "connected_reconstructions":
                    return [x for x in itertools.combinations(recs, 2) if set(recs[x[0]]) & set(recs[x[1]])]
                if n == "RARelativeMotionConstraint":
                    m = p.memo.setdefault(("motion", p.turn[:4]), Motion({}))
                    m.a = {k: v() for k, v in {**dict(zip(SIGN[n], args)), **kw}.items()}
                    return m
                if name in ("numpy.diag", "numpy.linalg.inv", "numpy.linalg.cholesky", "numpy.eye", "numpy.sqrt"):
                    g = np.linalg if ".linalg." in name else np
                    return getattr(g, n)(*[a() for a in args])
                return numpied(p, name, recv, args, kw)

            env = {A["ra"]: "RA", A["reconstruction_shots"]: shots}
            if "add_common_camera_constraint" in A:
                env[A["add_common_camera_constraint"]] = True
            p = Play(fl, env, calls, [x for x in SIGN if x.startswith("add")] + ["add_relative_motion_constraint", "set_scale_matrix"])
            log = []

            def event(ev):
                if ev.name == "set_scale_matrix":
                    ev.recv.m[tuple(int(x) for x in ev.args[:2])] = float(ev.args[2])
                elif ev.name == "add_relative_motion_constraint":
                    m = (ev.args or list(ev.kw.values()))[0]
                    log.append((ev.name, dict(m.a), dict(m.m)))
                else:
                    log.append((ev.name, {**dict(zip(SIGN[ev.name], ev.args)), **ev.kw}, None))

            p.event = event
            p.go()
            judge(rep, q, soft, recs, shots, log)


def judge(rep, q, soft, recs, shots, log):
    def of(n):
        return [x for x in log if x[0] == n]

    def pose(a, s):
        return [a.get(k) for k in ("rx", "ry", "rz", "tx", "ty", "tz")] == list(s.pose.rotation) + list(s.pose.translation)

    def place(a, s):
        return [a.get(k) for k in "xyz"] == list(s.metadata.gps_position.value) and a.get("std") == s.metadata.gps_accuracy.value

    def e(ok, key, msg):
        rep.expect(ok, "constraints", key, q, msg)

    name = {k: "%s%d" % k for k in recs}
    got = sorted(x[1]["id"] for x in of("add_reconstruction"))
    e(got == sorted(name.values()), "reconstructions", "the reconstructions %s are added as %s" % (sorted(name.values()), got))
    for _, a, _ in of("add_reconstruction"):
        e([a.get(k) for k in ("rx", "ry", "rz", "tx", "ty", "tz")] == [0] * 6 and a.get("scale") == 1 and not a.get("constant"), "start", "a reconstruction starts at %s" % a)
    order = [x[0] + ":" + str(x[1].get("id", "")) for x in log]
    if soft:
        first = {}
        for k, ns in recs.items():
            for n in ns:
                first.setdefault(n, shots[k][n])
        ids = sorted(x[1]["id"] for x in of("add_shot"))
        e(ids == sorted(first), "shots", "of the shots %s, %s are added" % (sorted(first), ids))
        for _, a, _ in of("add_shot"):
            e(any(pose(a, shots[k][a["id"]]) for k in recs if a["id"] in shots[k]) and not a.get("constant"), "shot-pose", "a shot is added with %s" % a)
        ids = sorted(x[1]["shot_id"] for x in of("add_absolute_position_constraint"))
        e(ids == sorted(first), "positions", "of the shots %s, %s are held to their position" % (sorted(first), ids))
        for _, a, _ in of("add_absolute_position_constraint"):
            e(any(place(a, shots[k][a["shot_id"]]) for k in recs if a["shot_id"] in shots[k]), "position", "a shot is held to %s" % a)
        pairs = sorted((x[1]["rec"], x[1]["shot_id"]) for x in of("add_relative_motion_constraint"))
        want = sorted((name[k], n) for k in recs for n in recs[k])
        e(pairs == want, "motions", "of the shots in reconstructions %s, %s are tied" % (want, pairs))
        back = {v: k for k, v in name.items()}
        for _, a, m in of("add_relative_motion_constraint"):
            s = shots.get(back.get(a["rec"]), {}).get(a["shot_id"])
            e(s is not None and pose(a, s), "motion", "the shot %s of %s is tied with %s" % (a["shot_id"], a["rec"], a))
            M = np.array([[m.get((i, j), math.nan) for j in range(6)] for i in range(6)])
            e(bool(np.all(np.isfinite(M))) and bool(np.allclose(M, np.diag(np.diag(M)))) and bool(np.all(np.diag(M) > 0)) and len(set(np.round(np.diag(M)[:3], 6))) == 1 and len(set(np.round(np.diag(M)[3:], 6))) == 1 and M[0, 0] > M[3, 3], "weights", "the weights of a relative motion are %s" % np.diag(M))
    else:
        want = {name[k] + n: shots[k][n] for k in recs for n in recs[k]}
        ids = sorted(x[1]["id"] for x in of("add_shot"))
        e(ids == sorted(want), "shots", "of the shots %s, %s are added" % (sorted(want), ids))
        for _, a, _ in of("add_shot"):
            s = want.get(a["id"])
            e(s is not None and pose(a, s) and a.get("constant") is True, "shot-pose", "the shot %s is added with %s" % (a["id"], a))
        ids = sorted((x[1]["rec"], x[1]["shot_id"]) for x in of("add_relative_absolute_position_constraint"))
        e(ids == sorted((name[k], name[k] + n) for k in recs for n in recs[k]), "positions", "the shots held to their position are %s" % ids)
        for _, a, _ in of("add_relative_absolute_position_constraint"):
            s = want.get(a["shot_id"])
            e(s is not None and place(a, s), "position", "the shot %s is held to %s" % (a["shot_id"], a))
        pairs = sorted(tuple(sorted([(x[1]["rec_a"], x[1]["shot_a"]), (x[1]["rec_b"], x[1]["shot_b"])])) for x in of("add_common_camera_constraint"))
        due = sorted(tuple(sorted([(name[k], name[k] + n), (name[m], name[m] + n)])) for k, m in itertools.combinations(recs, 2) for n in set(recs[k]) & set(recs[m]))
        e(pairs == due, "common", "the shots shared by two reconstructions %s are tied as %s" % (due[:2], pairs[:2]))
        e(all(x[1].get("std_center", 0) > 0 and x[1].get("std_rotation", 0) > 0 for x in of("add_common_camera_constraint")), "common-std", "shared shots are tied without a deviation")
    # what a constraint names is added before it
    known = set()
    for n, a, _ in log:
        if n in ("add_shot", "add_reconstruction"):
            known.add(a["id"])
        else:
            for k in ("rec", "shot_id", "rec_a", "rec_b", "shot_a", "shot_b"):
                if k in a:
                    e(a[k] in known, "known", "%s names %s before it is added" % (n, a[k]))
    return order


_ = AnalysisBroken, config_keys
