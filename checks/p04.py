"""P04: the tracks manager keeps both of its tables, its queries, merges and files agreeing."""

import copy as copies
import itertools
import random
import re
import sys

from sa import cpp, cppio, cppstd
from sa import formula as fo
from sa.cpp import Arr, Obj, Ptr, cell, flat, num, val, val_or
from sa.program import AnalysisBroken
from checks.p22 import S

TECHNIQUE = "clang's syntax tree of the tracks manager evaluated: sequences of additions and removals, every query, merges, and the text written and read, with unknown observations, compared with a model of one table"
EXPLANATION = (
    "Observations whose numbers are unknowns are added to and removed from tracks managers of the repository's source, evaluated statement by statement; after every step every getter is compared with a plain table of "
    "(image, track) pairs. Subsets, common observations, connectivity and merges are asked for over all combinations of a small set of images and tracks, known and unknown. Text is written with the unknown numbers in it and "
    "read back, in every version of the format."
)
W = "tracks_manager.cc"
FIELDS = (("point", "xy"), ("scale", None), ("color", "rgb"), ("feature_id", None), ("segmentation_id", None), ("instance_id", None))


def build():
    return cpp.Unit('#include "%s/map/src/tracks_manager.cc"\n' % cpp.SRC, ("map::", "foundation::", "anonymous namespace", "Find", "Union", "GetUnion"))


class Tracks:
    """Tracks managers of the repository, evaluated."""

    def __init__(self, u):
        self.u = u
        self.ev = cppio.Io(u, lambda *a: None)
        self.ev.LIMIT = 10 ** 9
        self.ev.whole = {"red", "green", "blue", "segm", "inst"}

    def fn(self, name, args):
        fs = list({f["id"]: f for f in self.u.find(name, cls="TracksManager") if cpp.body(f) is not None}.values())
        if len(fs) > 1:
            fs = [f for f in fs if self.ev.fits(f, args)]
        if len(fs) != 1:
            raise cpp.Unread("%d functions %s" % (len(fs), name))
        return fs[0]

    def do(self, m, name, *args):
        try:
            return val_or(self.ev.run(self.fn(name, list(args)), list(args), m))
        except cpp.PastEnd:
            self.check(False, "defined", name, "what is not found is used as if it was")
            raise

    def new(self):
        return self.ev.make("map::TracksManager", [])

    def observation(self, f, n, full=True):
        """(the repository's object, its values by field)"""
        v = {"x": fo.var(n + "x"), "y": fo.var(n + "y"), "scale": fo.var(n + "scale"), "r": fo.var(n + "red"), "g": fo.var(n + "green"), "b": fo.var(n + "blue"),
             "feature_id": fo.const(f), "segmentation_id": fo.var(n + "segm"), "instance_id": fo.var(n + "inst")}
        if f == 0:  # zeros are values like any other
            v.update({"scale": fo.const(0), "r": fo.const(0), "segmentation_id": fo.const(-1), "x": fo.const(0)})
        o = self.ev.make("map::Observation", [])
        for name, parts in FIELDS:
            o.fields[name].put(Arr([cell(v[p]) for p in parts], len(parts), 1, False) if parts else v[name])
        return o, v

    def same(self, o, v):
        if isinstance(o, Ptr):
            o = o.target()
        if not isinstance(o, Obj):
            return False
        for name, parts in FIELDS:
            g = flat(val(o.fields[name])) if parts else [num(o.fields[name])]
            if not all(fo.equal(a, b) for a, b in zip(g, [v[p] for p in parts] if parts else [v[name]])):
                return False
        return True

    def names(self, v):
        return [cppio.text(c) for c in val(v).cells]


class Model:
    def __init__(self):
        self.o, self.shots, self.tracks = {}, set(), set()

    def add(self, s, t, v):
        self.o[s, t] = v
        self.shots.add(s)
        self.tracks.add(t)


class Judge(Tracks):
    def __init__(self, u, rep):
        super().__init__(u)
        self.rep = rep
        self.seen = 0

    def check(self, ok, rule, construct, msg):
        self.rep.expect(ok, rule, construct, W, msg)

    def refused(self, f):
        try:
            f()
            return False
        except cpp.Stop:
            return True

    def compare(self, m, d, rule, construct, what):
        """Every getter of m against the model d."""
        c = lambda ok, msg: self.check(ok, rule, construct, "%s: %s" % (what, msg))
        shots, tracks = self.names(self.do(m, "GetShotIds")), self.names(self.do(m, "GetTrackIds"))
        c(sorted(shots) == sorted(d.shots), "images %s instead of %s" % (sorted(shots), sorted(d.shots)))
        c(sorted(tracks) == sorted(d.tracks), "tracks %s instead of %s" % (sorted(tracks), sorted(d.tracks)))
        c(fo.equal(num(self.do(m, "NumShots")), fo.const(len(d.shots))) and fo.equal(num(self.do(m, "NumTracks")), fo.const(len(d.tracks))), "images or tracks are miscounted")
        for s in sorted(d.shots) + ["nothing"]:
            c(self.do(m, "HasShotObservations", S(s)) is (s in d.shots), "HasShotObservations(%s) is wrong" % s)
            self.table(m, "GetShotObservations", s, s in d.shots, {t: v for (a, t), v in d.o.items() if a == s}, c)
        for t in sorted(d.tracks) + ["nothing"]:
            self.table(m, "GetTrackObservations", t, t in d.tracks, {s: v for (s, a), v in d.o.items() if a == t}, c)
        for s in sorted(d.shots) + ["nothing"]:
            for t in sorted(d.tracks) + ["nothing"]:
                try:
                    o = self.do(m, "GetObservation", S(s), S(t))
                    c((s, t) in d.o and self.same(o, d.o[s, t]), "GetObservation(%s, %s) is not the observation added" % (s, t))
                except cpp.Stop:
                    c((s, t) not in d.o, "GetObservation(%s, %s) is refused" % (s, t))

    def read(self, name, t, d, rule, construct, what):
        try:
            m = self.do(None, name, t)
        except cpp.Stop:
            return self.check(False, rule, construct, what + ": refused")
        self.compare(m, d, rule, construct, what)

    def table(self, m, name, k, there, want, c):
        try:
            got = {cppio.text(a): v for a, v in val(self.do(m, name, S(k))).d.items()}
        except cpp.Stop:
            c(not there, "%s(%s) is refused" % (name, k))
            return
        c(there, "%s(%s) is not refused" % (name, k))
        c(set(got) == set(want), "%s(%s) has %s instead of %s" % (name, k, sorted(got), sorted(want)))
        for x in set(got) & set(want):
            c(self.same(val_or(got[x]), want[x]), "%s(%s) has another observation for %s" % (name, k, x))

    def fill(self, table, name="", d=None):
        """A manager and model with {(shot, track): feature}."""
        m, d = self.new(), d or Model()
        for (s, t), f in table.items():
            o, v = self.observation(f, "%s%s.%s." % (name, s, t))
            self.do(m, "AddObservation", S(s), S(t), o)
            d.add(s, t, v)
        return m, d


def check(prog, rep):
    rep.rule("steps", "observations are there, in both tables, from when they are added until they are removed, with the values added last")
    rep.rule("queries", "subsets, common observations and connectivity are those of the observations that are there, and change nothing")
    rep.rule("merge", "tracks sharing a feature of an image, and no others, become one track")
    rep.rule("text", "what is written is read back; each version's columns are read as that version has them; anything else is refused")
    sys.setrecursionlimit(20000)
    u = build()
    for part in (steps, queries, merges, unions, texts):
        rep.part(part, Judge(u, rep), rep)
    for n, k in (("steps", 500), ("queries", 500), ("merge", 100), ("text", 60)):
        rep.minimum(n, k)


BASE = {("a", "1"): 3, ("a", "2"): 5, ("b", "1"): 2, ("b", "3"): 3, ("c", "2"): 0, ("c", "1"): 9}


def steps(j, rep):
    ops = [("add", s, t) for s in ("a", "b", "d") for t in ("1", "2", "4")] + [("remove", s, t) for s, t in (("a", "1"), ("a", "2"), ("b", "3"), ("c", "2"), ("a", "3"), ("d", "1"), ("a", "4"))]
    seqs = [list(p) for p in itertools.product(ops, repeat=2)]
    r = random.Random(4)
    if rep.tier == "thorough":
        seqs += [[r.choice(ops) for _ in range(k)] for k in range(3, 9) for _ in range(120)]
    else:
        seqs = seqs[::3] + [[r.choice(ops) for _ in range(5)] for _ in range(20)]
    for seq in [[]] + [[o] for o in ops] + seqs:
        m, d = j.fill(BASE)
        what = ", ".join("%s(%s, %s)" % o for o in seq) or "the start"
        for k, (op, s, t) in enumerate(seq):
            if op == "add":
                o, v = j.observation(20 + k, "new%d." % k)
                j.do(m, "AddObservation", S(s), S(t), o)
                d.add(s, t, v)
            else:
                there = s in d.shots and t in d.tracks
                no = j.refused(lambda: j.do(m, "RemoveObservation", S(s), S(t)))
                j.check(no is not there, "steps", "RemoveObservation", "%s: removing from %s is %s" % (what, "known image and track" if there else "an unknown image or track", "refused" if no else "not refused"))
                d.o.pop((s, t), None)
        j.compare(m, d, "steps", seq[-1][0] if seq else "AddObservation", "after " + what)


def queries(j, rep):
    m, d = j.fill(BASE)
    other, e = j.fill(BASE)
    shots, tracks = ["a", "b", "c", "x"], ["1", "2", "3", "y"]
    sub = lambda xs, n: [list(c) for k in range(n + 1) for c in itertools.combinations(xs, k)]
    arr = lambda xs: Arr([cell(S(x)) for x in xs])
    for ss in sub(shots, 3) + [["a", "a"], ["c", "b", "a"], ["x", "b", "a"]]:
        for ts in sub(tracks, 2) + [["2", "2"], ["3", "1", "2"], ["y", "3", "2", "1"]]:
            r = j.do(m, "ConstructSubTracksManager", arr(ts), arr(ss))
            w = Model()
            for (s, t), v in d.o.items():
                if s in ss and t in ts:
                    w.add(s, t, v)
            j.compare(r, w, "queries", "ConstructSubTracksManager", "subset of tracks %s and images %s" % (ts, ss))
    for a in shots:
        for b in shots:
            try:
                r = val(j.do(m, "GetAllCommonObservations", S(a), S(b))).cells
            except cpp.Stop:
                j.check("x" in (a, b), "queries", "GetAllCommonObservations", "common observations of %s and %s are refused" % (a, b))
                continue
            j.check("x" not in (a, b), "queries", "GetAllCommonObservations", "common observations of an unknown image are not refused")
            want = {t: (v, d.o[b, t]) for (s, t), v in d.o.items() if s == a and (b, t) in d.o}
            got = [[val_or(x) for x in val(c).items] for c in r]
            j.check(sorted(cppio.text(g[0]) for g in got) == sorted(want), "queries", "GetAllCommonObservations", "common tracks of %s and %s are %s" % (a, b, sorted(cppio.text(g[0]) for g in got)))
            for g in got:
                w = want.get(cppio.text(g[0]))
                j.check(w is not None and j.same(g[1], w[0]) and j.same(g[2], w[1]), "queries", "GetAllCommonObservations", "the common observations of %s and %s are not those of each, in that order" % (a, b))
    for ren in ({}, {"a": "a10", "b": "b2", "c": "c"}, {"a": "a", "b": "a1", "c": "b"}):
        connectivity(j, ren, sub)
    j.compare(m, d, "queries", "unchanged", "after queries")


def connectivity(j, ren, sub):
    n_ = lambda x: ren.get(x, x)
    m, d = j.fill({(n_(s), t): f for (s, t), f in BASE.items()})
    shots, tracks = [n_(x) for x in ("a", "b", "c", "x")], ["1", "2", "3", "y"]
    arr = lambda xs: Arr([cell(S(x)) for x in xs])
    abc = shots[:3]
    for ss in sub(shots, 3) + [[abc[1], abc[0], abc[0]]]:
        for ts in sub(tracks, 3) + [["3", "2", "1"]]:
            r = val(j.do(m, "GetAllPairsConnectivity", arr(ss), arr(ts))).d
            got = {tuple(cppio.text(x) for x in k): num(v) for k, v in r.items()}
            us, ut = set(ss) or set(abc), set(ts) or set("123")
            want = {}
            for p, q in itertools.combinations(abc, 2):
                n = sum((p, t) in d.o and (q, t) in d.o for t in ut)
                if n and p in us and q in us:
                    want[p, q] = n
            j.check(set(got) == set(want) and all(fo.equal(got[k], fo.const(want[k])) for k in want), "queries", "GetAllPairsConnectivity", "for images %s and tracks %s: %s instead of %s" % (ss, ts, {k: fo.show(v) for k, v in got.items()}, want))


def merged(parts):
    """Sets of (manager, track) that belong together."""
    by, group = {}, {}
    for i, p in enumerate(parts):
        for (s, t), f in p.items():
            group.setdefault((i, t), {(i, t)})
            by.setdefault((s, f), []).append((i, t))
    for ks in by.values():
        for k in ks[1:]:
            a, b = group[ks[0]], group[k]
            if a is not b:
                a |= b
                for x in b:
                    group[x] = a
    return list({id(g): g for g in group.values()}.values())


def merges(j, rep):
    A = {("a", "1"): 1, ("b", "1"): 1, ("a", "2"): 2, ("c", "2"): 2}
    B = {("b", "7"): 1, ("d", "7"): 4, ("c", "1"): 5, ("d", "1"): 5}
    C = {("d", "7"): 4, ("e", "7"): 0, ("c", "9"): 2, ("e", "9"): 3}
    D = {("x", "1"): 1, ("y", "1"): 1}
    E = {("a", "1"): 2, ("e", "1"): 0}
    F = {("a", "1"): 1, ("b", "1"): 1, ("a", "2"): 2, ("b", "2"): 1, ("c", "3"): 1}
    G = {("a", "1"): 6, ("b", "1"): 7, ("b", "2"): 7, ("c", "2"): 8, ("c", "3"): 8, ("d", "3"): 9, ("d", "4"): 9, ("a", "4"): 6}
    cases = [[], [A], [A, A], [A, B], [B, A], [A, B, C], [C, A, B], [B, C, D, A], [A, D], [D, D, D], [E, A, C, B], [F], [F, D], [G], [G, A], [{}], [{}, A], [A, E], [E, B, A]]
    r = random.Random(44)
    for _ in range(60 if rep.tier == "thorough" else 12):
        cases.append([{(r.choice("abcd"), r.choice("123")): r.randrange(3) for _ in range(r.randrange(1, 6))} for _ in range(r.randrange(1, 4))])
    for parts in cases:
        made = [j.fill(p, "m%d." % i) for i, p in enumerate(parts)]
        r = j.do(None, "MergeTracksManager", Arr([cell(Ptr(Arr([cell(m)]))) for m, _ in made]))
        what = "merge of %d managers %s" % (len(parts), parts)
        groups = merged(parts)
        got = {}
        for t in j.names(j.do(r, "GetTrackIds")):
            for s, o in val(j.do(r, "GetTrackObservations", S(t))).d.items():
                got.setdefault(t, {})[cppio.text(s)] = val_or(o)
        want = []
        for g in groups:
            w = {}
            for i, t in g:
                for (s, tt), v in made[i][1].o.items():
                    if tt == t:
                        w.setdefault(s, []).append(v)
            want.append(w)
        left = list(want)
        for t, ss in got.items():
            hit = [w for w in left if set(w) == set(ss) and all(any(j.same(o, v) for v in w[s]) for s, o in ss.items())]
            j.check(bool(hit), "merge", "MergeTracksManager", "%s: a track is seen by %s with observations of no group of tracks that share features" % (what, sorted(ss)))
            if hit:
                left.remove(hit[0])
        j.check(not left and len(got) == len(want), "merge", "MergeTracksManager", "%s: %d tracks instead of %d" % (what, len(got), len(want)))
        # both tables agree
        d = Model()
        for t, ss in got.items():
            for s, o in ss.items():
                d.add(s, t, {k: (flat(val(o.fields[n]))[p.index(k)] if p else num(o.fields[n])) for n, p in FIELDS for k in (p or [n])})
        d.o = {k: dict(v, **{"scale": v["scale"]}) for k, v in d.o.items()}
        j.compare(r, d, "merge", "tables", what)
        for (m, d), p in zip(made, parts):
            j.compare(m, d, "merge", "unchanged", "after the " + what)


def components(n, pairs):
    g = {i: {i} for i in range(n)}
    for a, b in pairs:
        if g[a] is not g[b]:
            g[a] |= g[b]
            for i in g[b]:
                g[i] = g[a]
    return sorted({tuple(sorted(x)) for x in g.values()})


def unions(j, rep):
    """Sets joined one after the other are the connected components of what was joined."""
    ev, u = j.ev, j.u

    def f(name, what):
        fs = [x for x in {y["id"]: y for y in u.find(name) if cpp.body(y) is not None}.values() if "SingleTrackId" in cpp.typ(x) or "std::pair" in cpp.typ(x) or "basic_string" in cpp.typ(x)]
        if not fs:
            raise cpp.Unread("no instance of " + what)
        return fs[0]

    union, clusters = f("Union", "Union"), f("GetUnionFindClusters", "GetUnionFindClusters")
    t = re.search(r"UnionFindElement<.*?> \*", cpp.typ(union))
    if t is None:
        raise cpp.Unread("Union of other things")
    t = t.group(0)[:-2]
    r = random.Random(45)
    cases = [(4, [(0, 1), (2, 3), (1, 3)]), (6, [(0, 1), (2, 3), (4, 5), (3, 5), (1, 4)]), (8, [(0, 1), (2, 3), (4, 5), (6, 7), (1, 3), (5, 7), (0, 4)]), (8, [(0, 1), (2, 3), (4, 5), (2, 4), (1, 5), (6, 7), (7, 1)]), (3, []), (0, [])]
    for _ in range(150 if rep.tier == "thorough" else 40):
        n = r.randrange(5, 11)
        cases.append((n, [(r.randrange(n), r.randrange(n)) for _ in range(r.randrange(2, n + 3))]))
    for n, pairs in cases:
        es = [ev.make(t, [cppstd.pair(cppio.string("s%d" % i), fo.const(i))]) for i in range(n)]
        for a, b in pairs:
            ev.run(union, [Ptr(Arr([cell(es[a])])), Ptr(Arr([cell(es[b])]))], None)
        got = ev.run(clusters, [Ptr(Arr([cell(Arr([cell(e) for e in es]))]))], None)
        g = []
        for c in val(got).cells:
            m = [val_or(x) for x in val(c).cells]
            m = [x.target() if isinstance(x, Ptr) else x for x in m]
            g.append(tuple(sorted([k for k in range(n) if es[k] is x][0] for x in m)))
        j.check(sorted(g) == components(n, pairs), "merge", "GetUnionFindClusters", "%s joined out of %d: %s" % (pairs, n, sorted(g)))


def texts(j, rep):
    ev = j.ev
    for table in ({}, {("a", "1"): 0}, BASE, {("an image.jpg", "17"): 12, ("b", "17"): 0}):
        m, d = j.fill(table)
        t = j.do(m, "AsString")
        j.read("InstanciateFromString", t, d, "text", "string", "text of %s read back" % sorted(table))
        j.check(not j.refused(lambda: j.do(m, "WriteToFile", S("there"))), "text", "WriteToFile", "writing a file is refused")
        j.check(lines(ev.files.get("there", "")) == lines(cppio.text(t)), "text", "WriteToFile", "the file has other text than the string")
        j.read("InstanciateFromFile", S("there"), d, "text", "file", "file of %s read back" % sorted(table))
        j.compare(m, d, "text", "unchanged", "after writing")
    j.check(all(k is not None and k >= 6 for k in ev.digits), "text", "digits", "numbers are written with %s digits" % ev.digits[:3])
    ev.locked.add("locked")
    j.check(j.refused(lambda: j.do(m, "WriteToFile", S("locked"))), "text", "WriteToFile", "a file that cannot be opened is not reported")
    j.check(j.refused(lambda: j.do(None, "InstanciateFromFile", S("not there"))), "text", "InstanciateFromFile", "a file that is not there is not reported")
    # a file written over another
    m, d = j.fill(BASE)
    ev.files["there"] = "OPENSFM_TRACKS_VERSION_v2\nsomething else\n"
    j.do(m, "WriteToFile", S("there"))
    j.read("InstanciateFromFile", S("there"), d, "text", "file", "file written over another")
    # the versions
    V = ("scale", "segmentation_id", "instance_id")
    cols = ["feature_id", "x", "y", "scale", "r", "g", "b", "segmentation_id", "instance_id"]
    for version, left in ((0, V), (1, V[1:]), (2, ())):
        use = [c for c in cols if c not in left]
        head = "OPENSFM_TRACKS_VERSION_v%d\n" % version if version else ""
        rows, d = [], Model()
        for (s, t), f in BASE.items():
            _, v = j.observation(f, "v%d.%s.%s." % (version, s, t))
            rows.append("\t".join([s, t] + [ev.show(v[c]) for c in use]))
            v.update({c: fo.const(0 if c == "scale" else -1) for c in left})
            d.add(s, t, v)
        for end in ("\n", ""):
            txt = head + "\n".join(rows) + end
            j.read("InstanciateFromString", cppio.string(txt), d, "text", "version %d" % version, "text of version %d" % version)
            ev.files["old"] = txt
            j.read("InstanciateFromFile", S("old"), d, "text", "version %d" % version, "file of version %d" % version)
        for bad in ("\t".join(rows[0].split("\t")[:-1]), rows[0] + "\t5", "x", rows[0].replace("\t", " ")):
            for txt in (head + rows[1] + "\n" + bad + "\n", head + bad):
                j.check(j.refused(lambda: j.do(None, "InstanciateFromString", cppio.string(txt))), "text", "version %d lines" % version, "a line of %d fields is not refused in version %d" % (len(bad.split("\t")), version))
    for n in (3, 9, 17):
        j.check(j.refused(lambda: j.do(None, "InstanciateFromString", cppio.string("OPENSFM_TRACKS_VERSION_v%d\n" % n))), "text", "unknown version", "version %d is not refused" % n)


def lines(t):
    return [[cppio.MARK.sub("#", f) for f in l.split("\t")] for l in t.split("\n")]
