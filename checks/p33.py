"""P33: the map keeps shots, rigs, landmarks and observations referring to each other."""

import copy as copies
import multiprocessing
import os
import random
import sys
import traceback

from sa import cpp, cppstd
from sa import formula as fo
from sa.cpp import Address, Arr, Assoc, Obj, Ptr, flat, num, val, val_or
from sa.program import AnalysisBroken
from checks.p09 import Poses, eye, grid, mm, mv, neg, plus, same, tr
from checks.p22 import S, V, arr

TECHNIQUE = "clang's syntax tree of the map evaluated: every public operation, and every two in a row, applied to a map in which each kind of element occurs in each situation, the resulting heap compared with the definition of the operation"
EXPLANATION = (
    "A map with shared and single rigs, panoramic shots, and landmarks seen by none, one or several shots, whose poses, points and measurements are unknowns, is built from the sources. "
    "To it every public operation of Map, Shot, Landmark and RigInstance is applied, with arguments that exist and that do not, alone and after each other operation; "
    "the heap is then read through the public getters, pointers by the objects they lead to, and compared with a model in which each operation is defined by one line."
)
W = "map.cc"
TURN = {"z": [[0, -1, 0], [1, 0, 0], [0, 0, 1]], "x": [[1, 0, 0], [0, 0, -1], [0, 1, 0]]}
MEASUREMENTS = {"capture_time_": 1, "gps_position_": 3, "gps_accuracy_": 1, "compass_accuracy_": 1, "compass_angle_": 1, "gravity_down_": 3, "opk_accuracy_": 1, "opk_angles_": 3, "orientation_": 1, "sequence_key_": 0}


def turn(k):
    return [[fo.const(x) for x in r] for r in TURN[k]] if k else eye()


def obj(v):
    """The object a pointer, reference or value is."""
    v = val_or(v)
    if isinstance(v, Ptr):
        v = v.target()
    return v if isinstance(v, Obj) else None


def compose(a, b):
    return mm(a[0], b[0]), plus(mv(a[0], b[1]), a[1])


def inverse(a):
    return tr(a[0]), neg(mv(tr(a[0]), a[1]))


class Heap(Poses):
    """A Map of the repository, evaluated."""

    def __init__(self, u):
        super().__init__(u)
        self.ev.LIMIT = 10 ** 9
        self.map = self.ev.make("map::Map", [])

    def fn(self, name, args, cls, const=None):
        fs = list({f["id"]: f for f in self.u.find(name, cls=cls) if len([p for p in cpp.inner(f, "ParmVarDecl") if "init" not in p]) <= len(args) <= len(cpp.inner(f, "ParmVarDecl"))}.values())
        if len(fs) > 1:
            fs = [f for f in fs if self.ev.fits(f, args)]
        if len(fs) > 1:
            c = [f for f in fs if f["type"]["qualType"].rstrip().endswith("const") == bool(const)]
            fs = c or fs
        if len(fs) != 1:
            raise cpp.Unread("%d functions %s::%s" % (len(fs), cls, name))
        return fs[0]

    def do(self, name, *args, cls="Map", this=None, const=None):
        return self.ev.run(self.fn(name, list(args), cls, const), list(args), this if this is not None else self.map)

    def get(self, o, name, *args, cls="Pose"):
        return val_or(self.do(name, *args, cls=cls, this=o))

    def pose(self, m):
        return self.make("Pose", cpp.matrix(m[0]), arr(m[1]))

    def motion(self, p):
        g = grid(Poses.get(self, p, "WorldToCamera"))
        return [r[:3] for r in g[:3]], [r[3] for r in g[:3]]

    def observation(self, feature, name):
        o = self.ev.make("map::Observation", [fo.var(name + "x"), fo.var(name + "y"), fo.var(name + "s")] + [fo.var(name + c) for c in "rgb"] + [fo.const(feature), fo.var(name + "seg"), fo.var(name + "inst")])
        return o

    def similarity(self, n):
        return self.make("Similarity", arr(V(n + "r", 3)), arr(V(n + "t", 3)), fo.var(n + "s"))


class Model:
    def __init__(self):
        self.cameras, self.biases, self.rigs, self.instances = {}, {}, {}, {}
        self.shots, self.panos, self.landmarks = {}, {}, {}
        self.origin = None

    def shot(self, s):
        return self.shots.get(s) or self.panos.get(s)

    def place(self, s):
        d = self.shot(s)
        return compose(self.rigs[d["rig"]], self.instances[d["instance"]]["pose"])


class Refused(Exception):
    """The model says that an operation has to throw."""


def need(x, *tables):
    if not any(x in t for t in tables):
        raise Refused()


class World:
    """The evaluated map and its model side by side."""

    def __init__(self, u):
        self.h, self.m = Heap(u), Model()
        self.kept = {}

    # building blocks
    def add_camera(self, c):
        h = self.h
        x = h.ev.run(h.u.find("CreatePerspectiveCamera", cls="Camera")[0], [fo.var(c + "f"), fo.var(c + "k1"), fo.var(c + "k2")], None)
        val(x).fields["id"].put(S(c))
        r = h.do("CreateCamera", x)
        if c not in self.m.cameras:
            self.m.cameras[c] = c + "f"
            self.m.biases[c] = None
        return r

    def add_rig(self, r, k, zero=False, t=None):
        m = (turn(k), [{}] * 3 if zero else V(t or r + "t", 3))
        if r in self.m.rigs:
            self.refused = True
        x = self.h.ev.make("map::RigCamera", [self.h.pose(m), S(r)])
        self.h.do("CreateRigCamera", x)
        self.m.rigs[r] = m

    def add_instance(self, i):
        self.h.do("CreateRigInstance", S(i))
        self.m.instances[i] = {"shots": {}, "pose": (eye(), [{}] * 3)}

    def add_shot(self, s, c, r, i, pano=False, pose=True, name=None):
        h, m = self.h, self.m
        n = name or s
        R = h.rot.mat(V(n + "r", 3))
        p = (R, V(n + "t", 3))
        args = [S(s), S(c), S(r), S(i)] + ([h.pose(p)] if pose else [])
        out = h.do("CreatePanoShot" if pano else "CreateShot", *args)
        self.note_shot(s, c, r, i, pano, p if pose else None)
        return out

    def note_shot(self, s, c, r, i, pano, p):
        m = self.m
        if s in (m.panos if pano else m.shots) or c not in m.cameras or r not in m.rigs or i not in m.instances or r in m.instances[i]["shots"].values():
            raise Refused()
        (m.panos if pano else m.shots)[s] = {"camera": c, "rig": r, "instance": i, "seen": {}, "meta": {}, "scale": fo.const(1), "merge": fo.const(0), "mesh": None, "covariance": None}
        m.instances[i]["shots"][s] = r
        if p is not None:
            m.instances[i]["pose"] = compose(inverse(m.rigs[r]), p)

    def add_landmark(self, l, name=None):
        self.h.do("CreateLandmark", S(l), arr(V(name or l, 3)))
        self.m.landmarks[l] = {"at": V(name or l, 3), "color": [fo.const(255), {}, {}], "seen": {}, "errors": {}}

    def observe(self, s, l, f):
        h = self.h
        n = "%s.%s." % (s, l)
        o = h.observation(f, n)
        if s in self.m.shots:
            h.do("AddObservation", S(s), S(l), o)
        else:
            h.do("AddObservation", self.pointer("shot", s), self.pointer("landmark", l), o)
        self.m.shot(s)["seen"][l] = (f, n)
        self.m.landmarks[l]["seen"][s] = f

    def pointer(self, kind, k):
        h = self.h
        o = obj(h.do({"shot": "GetShot" if k in self.m.shots else "GetPanoShot", "landmark": "GetLandmark"}[kind], S(k)))
        return Ptr(Arr([cpp.cell(o)]))

    def at(self, kind, k):
        h = self.h
        return obj(h.do({"shot": "GetShot" if k in self.m.shots else "GetPanoShot", "landmark": "GetLandmark", "instance": "GetRigInstance", "rig": "GetRigCamera", "camera": "GetCamera"}[kind], S(k)))

    def measure(self, s, fields, name=None):
        o = self.h.ev.make("map::ShotMeasurements", [])
        self.fill(o, fields, name or s)
        self.h.do("SetShotMeasurements", o, cls="Shot", this=self.at("shot", s))
        self.m.shot(s)["meta"] = {f: (name or s) + f for f in fields}

    def fill(self, o, fields, name):
        for f in fields:
            if f == "attributes":
                a = Assoc()
                a.d[S("key")] = cpp.cell(S(name))
                o.fields["attributes_"].put(a)
                continue
            k = MEASUREMENTS[f]
            v = S(name + f) if not k else fo.var(name + f) if k == 1 else arr(V(name + f, 3))
            x = obj(o.fields[f])
            self.put(x, v)

    @staticmethod
    def put(x, v):
        x.fields["value_"].put(v)
        x.fields["has_value_"].put(True)

    def extras(self, s, n=None):
        n = n or s
        o, d = self.at("shot", s), self.m.shot(s)
        o.fields["scale"].put(fo.var(n + "scale"))
        o.fields["merge_cc"].put(fo.var(n + "merge"))
        d["scale"], d["merge"] = fo.var(n + "scale"), fo.var(n + "merge")
        c = cpp.matrix([[fo.var("%scov%d%d" % (n, i, j)) for j in range(3)] for i in range(3)])
        self.h.do("SetCovariance", c, cls="Shot", this=o)
        d["covariance"] = n + "cov"
        mesh = obj(o.fields["mesh"])
        self.h.do("SetVertices", cpp.matrix([V("%svert%d." % (n, i), 3) for i in range(2)]), cls="ShotMesh", this=mesh)
        self.h.do("SetFaces", cpp.matrix([V("%sface%d." % (n, i), 3) for i in range(2)]), cls="ShotMesh", this=mesh)
        d["mesh"] = n


def scene(u):
    w = World(u)
    for c in ("c1", "c2", "c3"):
        w.add_camera(c)
    w.add_rig("r0", None, True)
    w.add_rig("ra", "z")
    w.add_rig("rb", "x")
    w.add_rig("rz", "x")
    for i in ("i0", "i1", "i2", "i3", "ip", "iq"):
        w.add_instance(i)
    w.add_shot("a", "c1", "r0", "i0")
    w.add_shot("b", "c1", "ra", "i1")
    w.add_shot("c", "c2", "rb", "i1")
    w.add_shot("d", "c2", "r0", "i2", pose=False)
    w.add_shot("p", "c1", "r0", "ip", pano=True)
    w.add_shot("q", "c2", "ra", "iq", pano=True)
    for l in ("L1", "L2", "L3", "L4", "L5", "L6", "L7"):
        w.add_landmark(l)
    for s, l, f in (("a", "L1", 7), ("b", "L1", 3), ("c", "L1", 5), ("a", "L2", 8), ("b", "L2", 4), ("b", "L3", 9), ("d", "L4", 1), ("a", "L4", 2), ("p", "L1", 11), ("p", "L3", 12), ("a", "L6", 13), ("p", "L7", 14)):
        w.observe(s, l, f)
    for l, ss in (("L1", "abp"), ("L3", "bp"), ("L4", "ad"), ("L6", "a"), ("L7", "p")):
        errors(w, l, ss)
    color(w, "L1", [1, 2, 3])
    color(w, "L5", [4, 5, 6])
    w.measure("a", list(MEASUREMENTS) + ["attributes"])
    w.measure("p", ["gps_position_", "sequence_key_"])
    w.extras("a")
    w.h.do("SetBias", S("c1"), w.h.similarity("bias"))
    w.m.biases["c1"] = "bias"
    w.h.do("SetTopocentricConverter", *[fo.var(x) for x in ("lat", "lon", "alt")])
    w.m.origin = ("lat", "lon", "alt")
    return w


def errors(w, l, ss):
    a = Assoc()
    for s in ss:
        a.d[S(s)] = cpp.cell(arr(V("error.%s.%s." % (s, l), 2)))
        w.m.landmarks[l]["errors"][s] = "error.%s.%s." % (s, l)
    w.h.do("SetReprojectionErrors", a, cls="Landmark", this=w.at("landmark", l))


def color(w, l, c):
    w.h.do("SetColor", arr([fo.const(x) for x in c]), cls="Landmark", this=w.at("landmark", l))
    w.m.landmarks[l]["color"] = [fo.const(x) for x in c]


# operations: the map's function and, in one line, what it is
def operations():
    ops = {}

    def op(name):
        def f(g):
            ops[name] = g
            return g
        return f

    def simple(name, fn, *args, model):
        def g(w):
            w.try_(lambda: w.h.do(fn, *[x() if callable(x) else x for x in args]), model)
        ops[name] = g

    def seen_of(m, s):
        d = m.shot(s)
        for l in list(d["seen"]):
            m.landmarks[l]["seen"].pop(s)
            m.landmarks[l]["errors"].pop(s, None)
        m.instances[d["instance"]]["shots"].pop(s)

    def drop_landmark(m, l):
        for s in m.landmarks[l]["seen"]:
            m.shot(s)["seen"].pop(l)
        m.landmarks.pop(l)

    def remove_shot(s, pano):
        def model(m):
            need(s, m.panos if pano else m.shots)
            seen_of(m, s)
            (m.panos if pano else m.shots).pop(s)
        return model
    for s in ("a", "b", "d"):
        simple("RemoveShot(%s)" % s, "RemoveShot", S(s), model=remove_shot(s, False))
    simple("RemoveShot(p)", "RemoveShot", S("p"), model=remove_shot("p", False))
    for s in ("p", "q"):
        simple("RemovePanoShot(%s)" % s, "RemovePanoShot", S(s), model=remove_shot(s, True))
    simple("RemovePanoShot(a)", "RemovePanoShot", S("a"), model=remove_shot("a", True))

    def remove_landmark(l):
        def model(m):
            need(l, m.landmarks)
            drop_landmark(m, l)
        return model
    for l in ("L1", "L3", "L5", "L6", "none"):
        simple("RemoveLandmark(%s)" % l, "RemoveLandmark", S(l), model=remove_landmark(l))

    @op("RemoveLandmark(pointer)")
    def g(w):
        if "L4" not in w.m.landmarks:
            return
        p = w.pointer("landmark", "L4")
        w.try_(lambda: w.h.do("RemoveLandmark", p), remove_landmark("L4"))

    def remove_observation(s, l):
        def model(m):
            need(s, m.shots)
            need(l, m.landmarks)
            need(l, m.shots[s]["seen"])
            m.shots[s]["seen"].pop(l)
            m.landmarks[l]["seen"].pop(s)
            m.landmarks[l]["errors"].pop(s, None)
        return model
    for s, l in (("a", "L1"), ("a", "L6"), ("b", "L3"), ("d", "L1"), ("none", "L1"), ("a", "none")):
        simple("RemoveObservation(%s, %s)" % (s, l), "RemoveObservation", S(s), S(l), model=remove_observation(s, l))

    def add_observation(s, l, f):
        def g(w):
            n = "new.%s.%s." % (s, l)
            o = w.h.observation(f, n)

            def model(m):
                need(s, m.shots)
                need(l, m.landmarks)
                m.shots[s]["seen"][l] = (f, n)
                m.landmarks[l]["seen"][s] = f
            if s in w.m.shots and l in w.m.shots[s]["seen"]:
                return  # an observation is added once
            w.try_(lambda: w.h.do("AddObservation", S(s), S(l), o), model)
        ops["AddObservation(%s, %s)" % (s, l)] = g
    for s, l, f in (("d", "L1", 21), ("c", "L5", 22), ("a", "L3", 7 + 20), ("none", "L1", 1), ("a", "none", 1), ("p", "L2", 1)):
        add_observation(s, l, f)

    @op("AddObservation(pointers)")
    def g(w):
        if "q" not in w.m.panos or "L2" not in w.m.landmarks or "L2" in w.m.panos["q"]["seen"]:
            return
        o = w.h.observation(31, "newq.")

        def model(m):
            m.panos["q"]["seen"]["L2"] = (31, "newq.")
            m.landmarks["L2"]["seen"]["q"] = 31
        w.try_(lambda: w.h.do("AddObservation", w.pointer("shot", "q"), w.pointer("landmark", "L2"), o), model)

    def clear(m):
        for l in list(m.landmarks):
            drop_landmark(m, l)
    simple("ClearObservationsAndLandmarks", "ClearObservationsAndLandmarks", model=clear)

    def clean(k):
        def model(m):
            for l in [l for l, d in m.landmarks.items() if len(d["seen"]) < k]:
                drop_landmark(m, l)
        return model
    for k in range(5):
        simple("CleanLandmarksBelowMinObservations(%d)" % k, "CleanLandmarksBelowMinObservations", fo.const(k), model=clean(k))

    def create_shot(name, s, c, r, i, pano=False, pose=True):
        def g(w):
            h = w.h
            p = (h.rot.mat(V("new" + s + "r", 3)), V("new" + s + "t", 3))
            args = [S(s), S(c), S(r), S(i)] + ([h.pose(p)] if pose else [])
            w.try_(lambda: h.do("CreatePanoShot" if pano else "CreateShot", *args), lambda m: w.note_shot(s, c, r, i, pano, p if pose else None))
        ops[name] = g
    create_shot("CreateShot", "e", "c3", "r0", "i3")
    create_shot("CreateShot in a rig", "e", "c3", "rz", "i1")
    create_shot("CreateShot without pose", "f", "c1", "rz", "i1", pose=False)
    create_shot("CreateShot(a) again", "a", "c2", "rz", "i3")
    create_shot("CreateShot(a) without pose again", "a", "c2", "rz", "i3", pose=False)
    create_shot("CreateShot on no camera", "e", "none", "r0", "i3")
    create_shot("CreateShot on no rig camera", "e", "c1", "none", "i3")
    create_shot("CreateShot on no instance", "e", "c1", "r0", "none")
    create_shot("CreateShot without pose on no camera", "e", "none", "r0", "i3", pose=False)
    create_shot("CreateShot on a taken rig camera", "e", "c1", "ra", "i1")
    create_shot("CreatePanoShot", "e2", "c3", "rb", "i3", pano=True)
    create_shot("CreatePanoShot(p) again", "p", "c2", "rz", "i3", pano=True)
    create_shot("CreatePanoShot on no camera", "e2", "none", "r0", "i3", pano=True)
    create_shot("CreatePanoShot on no instance", "e2", "c1", "r0", "none", pano=True)

    def create_landmark(l):
        def model(m):
            if l in m.landmarks:
                raise Refused()
            m.landmarks[l] = {"at": V("new" + l, 3), "color": [fo.const(255), {}, {}], "seen": {}, "errors": {}}
        simple("CreateLandmark(%s)" % l, "CreateLandmark", S(l), lambda: arr(V("new" + l, 3)), model=model)
    for l in ("L1", "L9"):
        create_landmark(l)

    @op("CreateCamera")
    def g(w):
        w.add_camera("c4")

    @op("CreateCamera again")
    def g(w):
        h = w.h
        x = h.ev.run(h.u.find("CreatePerspectiveCamera", cls="Camera")[0], [fo.var("other"), fo.var("k1"), fo.var("k2")], None)
        val(x).fields["id"].put(S("c1"))
        r = h.do("CreateCamera", x)
        w.check(obj(r) is w.at("camera", "c1"), "cameras", "a camera that is there is not what CreateCamera returns")

    def create_rig(r):
        def model(m):
            if r in m.rigs:
                raise Refused()
            m.rigs[r] = (turn("z"), V("new" + r, 3))
        ops["CreateRigCamera(%s)" % r] = lambda w: w.try_(lambda: w.h.do("CreateRigCamera", w.h.ev.make("map::RigCamera", [w.h.pose((turn("z"), V("new" + r, 3))), S(r)])), model)
    create_rig("ra")
    create_rig("rn")

    def create_instance(i):
        def model(m):
            if i in m.instances:
                raise Refused()
            m.instances[i] = {"shots": {}, "pose": (eye(), [{}] * 3)}
        simple("CreateRigInstance(%s)" % i, "CreateRigInstance", S(i), model=model)
    create_instance("i1")
    create_instance("in")

    def remove_instance(i):
        def model(m):
            need(i, m.instances)
            m.instances.pop(i)

        def g(w):
            if w.m.instances.get(i, {}).get("shots"):
                return  # not while shots are in it
            w.try_(lambda: w.h.do("RemoveRigInstance", S(i)), model)
        ops["RemoveRigInstance(%s)" % i] = g
    remove_instance("i3")
    remove_instance("i0")
    remove_instance("none")

    def update_instance(i):
        def g(w):
            if w.m.instances.get(i, {}).get("shots"):
                return
            p = (w.h.rot.mat(V("uir", 3)), V("uit", 3))
            x = w.h.ev.make("map::RigInstance", [S(i)])
            w.h.do("SetPose", w.h.pose(p), cls="RigInstance", this=x)

            def model(m):
                need(i, m.instances)
                m.instances[i]["pose"] = p
            w.try_(lambda: w.h.do("UpdateRigInstance", x), model)
        ops["UpdateRigInstance(%s)" % i] = g
    for i in ("i3", "i0", "none"):
        update_instance(i)

    def set_bias(c):
        def model(m):
            need(c, m.biases)
            m.biases[c] = "newbias"
        simple("SetBias(%s)" % c, "SetBias", S(c), None, model=model)
        ops["SetBias(%s)" % c] = lambda w: w.try_(lambda: w.h.do("SetBias", S(c), w.h.similarity("newbias")), model)
    set_bias("c2")
    set_bias("none")

    def set_pose(s):
        def g(w):
            if not w.m.shot(s):
                return
            p = (w.h.rot.mat(V("set" + s, 3)), V("sett" + s, 3))

            def model(m):
                d = m.shot(s)
                if len(m.instances[d["instance"]]["shots"]) != 1 or d["rig"] != "r0":
                    raise Refused()
                m.instances[d["instance"]]["pose"] = p
            w.try_(lambda: w.h.do("SetPose", w.h.pose(p), cls="Shot", this=w.at("shot", s)), model)
        ops["SetPose(%s)" % s] = g
    for s in ("a", "d", "b", "p", "q"):
        set_pose(s)

    def move(i, s, there=True):
        def g(w):
            if i not in w.m.instances:
                return
            p = (w.h.rot.mat(V("move" + s, 3)), V("movet" + s, 3))

            def model(m):
                need(s, m.instances[i]["shots"])
                m.instances[i]["pose"] = compose(inverse(m.rigs[m.instances[i]["shots"][s]]), p)
            w.try_(lambda: w.h.do("UpdateInstancePoseWithShot", S(s), w.h.pose(p), cls="RigInstance", this=w.at("instance", i)), model)
        ops["UpdateInstancePoseWithShot(%s, %s)" % (i, s)] = g
    move("i1", "c")
    move("i1", "a")
    move("i0", "a")

    def rig_pose(i, r):
        def g(w):
            if i not in w.m.instances:
                return
            p = (turn("z"), V("rigmove", 3))

            def model(m):
                need(r, m.instances[i]["shots"].values())
                m.rigs[r] = p
            w.try_(lambda: w.h.do("UpdateRigCameraPose", S(r), w.h.pose(p), cls="RigInstance", this=w.at("instance", i)), model)
        ops["UpdateRigCameraPose(%s, %s)" % (i, r)] = g
    rig_pose("i1", "rb")
    rig_pose("i1", "rz")

    @op("RigInstance::SetPose")
    def g(w):
        if "i1" not in w.m.instances:
            return
        p = (w.h.rot.mat(V("instr", 3)), V("instt", 3))
        w.try_(lambda: w.h.do("SetPose", w.h.pose(p), cls="RigInstance", this=w.at("instance", "i1")), lambda m: m.instances["i1"].update(pose=p))

    @op("SetShotMeasurements")
    def g(w):
        if "a" in w.m.shots:
            w.measure("a", ["gps_accuracy_", "opk_angles_"], "again")

    @op("SetShotMeasurements of nothing")
    def g(w):
        if "a" in w.m.shots:
            w.measure("a", [], "again")

    def measurement(f, without):
        def g(w):
            if "a" in w.m.shots:
                w.measure("a", [x for x in list(MEASUREMENTS) + ["attributes"] if (x == f) != without], "only")
        ops["SetShotMeasurements of %s%s" % ("all but " if without else "", f)] = g
    for f in list(MEASUREMENTS) + ["attributes"]:
        measurement(f, False)
        measurement(f, True)

    @op("SetShotMeasurements of all")
    def g(w):
        if "b" in w.m.shots:
            w.measure("b", list(MEASUREMENTS) + ["attributes"], "all")

    def update(s, pano=False, known=True):
        def g(w):
            o = other(w.h.u, w, s, pano)
            x = o.at("shot", s)

            def model(m):
                need(s, m.panos if pano else m.shots)
                d, e = m.shot(s), o.m.shot(s)
                for k in ("meta", "scale", "merge", "mesh", "covariance"):
                    d[k] = e[k]
                i = m.instances[d["instance"]]
                i["pose"] = compose(inverse(m.rigs[d["rig"]]), o.m.place(s))
            w.try_(lambda: w.h.do("UpdatePanoShot" if pano else "UpdateShot", x), model)
        ops["%s(%s)" % ("UpdatePanoShot" if pano else "UpdateShot", s)] = g
    update("a")
    update("p", True)
    update("zz")
    update("zz", True)

    def lookup(name, k, table, const):
        def g(w):
            def model(m):
                need(k, getattr(m, table))
            w.try_(lambda: w.h.do(name, S(k), const=const), model)
        ops["%s(%s)%s" % (name, k, " const" if const else "")] = g
    for name, table in (("GetShot", "shots"), ("GetPanoShot", "panos"), ("GetLandmark", "landmarks"), ("GetCamera", "cameras"), ("GetRigCamera", "rigs"), ("GetRigInstance", "instances"), ("GetBias", "biases")):
        for k in ("none", {"shots": "p", "panos": "a"}.get(table, "nothing")):
            for const in (False, True):
                lookup(name, k, table, const)
    return ops


def other(u, w, s, pano):
    """A shot of the same rig in another map."""
    o = World.__new__(World)
    o.h = copies.copy(w.h)
    o.h.map = o.h.ev.make("map::Map", [])
    o.m, o.kept = Model(), {}
    o.add_camera("c1")
    o.add_rig("r0", None, True)
    i = (w.m.shot(s) or {"instance": "i3"})["instance"]
    o.add_instance(i)
    o.add_shot(s, "c1", "r0", i, pano=pano, name="other" + s)
    o.measure(s, ["gps_position_", "gravity_down_", "attributes"], "other")
    o.extras(s, "other" + s)
    return o


class Judge(World):
    def start(self, what):
        self.what, self.notes, self.count = what, [], 0

    def check(self, ok, aspect, msg):
        self.count += 1
        if not ok:
            self.notes.append((aspect, msg))

    def try_(self, act, model):
        before = copies.deepcopy(self.m)
        try:
            model(self.m)
            refuse = False
        except Refused:
            self.m = before
            refuse = True
        try:
            act()
            self.check(not refuse, "refused", "%s has to be refused and is not" % self.what)
        except cpp.Stop:
            self.check(refuse, "refused", "%s is refused" % self.what)
        except cpp.Outside as e:
            self.check(False, "bounds", "%s: %s" % (self.what, e))

    # the heap against the model
    def compare(self, fresh=None):
        h, m, c = self.h, self.m, self.check
        tables = {"cameras": ("GetCameras", "HasCamera", "GetCamera", "NumberOfCameras"), "biases": ("GetBiases", "HasBias", "GetBias", "NumberOfBiases"),
                  "rigs": ("GetRigCameras", "HasRigCamera", "GetRigCamera", "NumberOfRigCameras"), "instances": ("GetRigInstances", "HasRigInstance", "GetRigInstance", "NumberOfRigInstances"),
                  "shots": ("GetShots", "HasShot", "GetShot", "NumberOfShots"), "panos": ("GetPanoShots", "HasPanoShot", "GetPanoShot", "NumberOfPanoShots"),
                  "landmarks": ("GetLandmarks", "HasLandmark", "GetLandmark", "NumberOfLandmarks")}
        things = {}
        for t, (all_, has, get, number) in tables.items():
            d = val(h.do(all_)).d
            want = getattr(m, t)
            c(set(d) == {S(k) for k in want}, t, "%s are %s and have to be %s" % (t, sorted(x[5:-1] for x in d), sorted(want)))
            things[t] = {k: obj(d[S(k)]) for k in want if S(k) in d}
            c(val_or(h.do(number)) == fo.const(len(want)) or fo.equal(num(h.do(number)), fo.const(len(want))), t, "%s does not count them" % number)
            for k in list(want)[:2] + ["no such"]:
                c(val_or(h.do(has, S(k))) is (k in want), t, "%s is wrong about %s" % (has, k))
            for k in things[t]:
                c(obj(h.do(get, S(k))) is things[t][k], t, "%s(%s) is not the one of that name" % (get, k))
        for k, o in things["cameras"].items():
            c(val_or(o.fields["id"]) == S(k), "cameras", "camera %s has another id" % k)
            f = val(h.do("GetParametersValues", cls="Camera", this=o))
            c(any(fo.equal(num(x), fo.var(m.cameras[k])) for x in f.cells), "cameras", "camera %s is not the one that was created" % k)
        for k, o in things["biases"].items():
            b = m.biases[k]
            t = h.get(o, "Translation", cls="Similarity")
            c(same(grid(t), [[x] for x in (V(b + "t", 3) if b else [{}] * 3)]) and fo.equal(num(h.get(o, "Scale", cls="Similarity")), fo.var(b + "s") if b else fo.const(1)), "biases", "the bias of %s is not the one set" % k)
        for k, o in things["rigs"].items():
            c(val_or(o.fields["id"]) == S(k), "rigs", "rig camera %s has another id" % k)
            self.motion(obj(o.fields["pose"]), m.rigs[k], "rigs", "the pose of rig camera %s" % k)
        for k, o in things["instances"].items():
            d = m.instances[k]
            c(val_or(o.fields["id"]) == S(k), "instances", "rig instance %s has another id" % k)
            self.motion(obj(h.do("GetPose", cls="RigInstance", this=o)), d["pose"], "instances", "the pose of rig instance %s" % k)
            ss, rs = val(h.do("GetShots", cls="RigInstance", this=o)).d, val(h.do("GetRigCameras", cls="RigInstance", this=o)).d
            c(set(ss) == {S(x) for x in d["shots"]} == set(rs), "instances", "rig instance %s has the shots %s, rig cameras for %s, and is of %s" % (k, sorted(ss), sorted(rs), sorted(d["shots"])))
            c({x for x in val(h.do("GetShotIDs", cls="RigInstance", this=o)).d} == {S(x) for x in d["shots"]}, "instances", "the shot ids of rig instance %s are not those of its shots" % k)
            for s, r in d["shots"].items():
                if S(s) in ss and S(s) in rs:
                    c(obj(ss[S(s)]) is (things["shots"].get(s) or things["panos"].get(s)), "instances", "rig instance %s leads to another shot than %s" % (k, s))
                    c(obj(rs[S(s)]) is things["rigs"].get(r), "instances", "rig instance %s leads to another rig camera of %s" % (k, s))
        for t in ("shots", "panos"):
            for k, o in things[t].items():
                self.shot(k, o, getattr(m, t)[k], things)
        for k, o in things["landmarks"].items():
            self.landmark(k, o, m.landmarks[k], things)
        if m.origin:
            t = obj(h.do("GetTopocentricConverter"))
            c([None if val_or(t.fields[f]) is None else fo.show(num(t.fields[f])) for f in ("lat_", "long_", "alt_")] == list(m.origin), "origin", "the topocentric origin is not the one set")
        return things

    def motion(self, p, want, aspect, what):
        R, t = self.h.motion(p)
        self.check(same(R, want[0]) and same([t], [want[1]]), aspect, what + " is not what it was set to")

    def shot(self, k, o, d, things):
        h, c = self.h, self.check
        S_ = lambda n, *a: h.do(n, *a, cls="Shot", this=o)
        c(val_or(S_("GetId")) == S(k) and val_or(o.fields["id_"]) == S(k), "shots", "shot %s has another id" % k)
        c(obj(S_("GetCamera")) is things["cameras"].get(d["camera"]), "shots", "shot %s has not its camera of the map" % k)
        c(obj(S_("GetRigInstance")) is things["instances"].get(d["instance"]), "shots", "shot %s has not its rig instance of the map" % k)
        c(obj(S_("GetRigCamera")) is things["rigs"].get(d["rig"]), "shots", "shot %s has not its rig camera of the map" % k)
        c(val_or(S_("GetRigInstanceId")) == S(d["instance"]) and val_or(S_("GetRigCameraId")) == S(d["rig"]), "shots", "shot %s names another rig" % k)
        if d["instance"] in self.m.instances:
            self.motion(obj(h.do("GetPose", cls="Shot", this=o, const=False)), self.m.place(k), "poses", "the pose of shot %s" % k)
            self.motion(obj(h.do("GetPose", cls="Shot", this=o, const=True)), self.m.place(k), "poses", "the pose of shot %s" % k)
        ob = val(h.do("GetLandmarkObservations", cls="Shot", this=o)).d
        got = {a.o: v for a, v in ob.items() if isinstance(a, Address)}
        c(len(got) == len(ob) == len(d["seen"]) and {id(x) for x in got} == {id(things["landmarks"].get(l)) for l in d["seen"]}, "observations", "shot %s observes %s instead of %s" % (
            k, sorted(str(val_or(x.fields["id_"])) for x in got), sorted(d["seen"])))
        vl = val(S_("ComputeValidLandmarks"))
        c({id(obj(x)) for x in vl.cells} == {id(things["landmarks"].get(l)) for l in d["seen"]} and len(vl.cells) == len(d["seen"]), "observations", "the valid landmarks of shot %s are not those it observes" % k)
        for l, (f, n) in d["seen"].items():
            x = things["landmarks"].get(l)
            if x is None or x not in got:
                continue
            v = obj(got[x])
            c(self.is_observation(v, f, n), "observations", "the observation of %s by %s is not the one added" % (l, k))
            try:
                c(obj(S_("GetObservation", fo.const(f))) is v, "features", "feature %d of shot %s does not lead to its observation" % (f, k))
                c(obj(S_("GetObservationLandmark", fo.const(f))) is x, "features", "feature %d of shot %s does not lead to its landmark" % (f, k))
                c(obj(S_("GetLandmarkObservation", Ptr(Arr([cpp.cell(x)])))) is v, "observations", "shot %s does not find its observation of %s" % (k, l))
            except cpp.Stop:
                c(False, "features", "feature %d of shot %s is not found" % (f, k))
        for f in set(range(40)) - {f for f, _ in d["seen"].values()}:
            if f in (1, 2, 3, 4, 5, 7, 8, 9, 11, 12, 13, 14, 21, 22, 27, 31):
                r = val_or(S_("GetObservationLandmark", fo.const(f)))
                c(r in (None, "null") if not isinstance(r, (Ptr, Obj)) else False, "features", "feature %d of shot %s leads to a landmark it does not observe" % (f, k))
        self.meta(k, o, d)

    def is_observation(self, v, f, n):
        p = flat(v.fields["point"])
        col = flat(v.fields["color"])
        return (fo.equal(num(v.fields["feature_id"]), fo.const(f)) and all(fo.equal(x, fo.var(n + y)) for x, y in zip(p, "xy")) and fo.equal(num(v.fields["scale"]), fo.var(n + "s"))
                and all(fo.equal(x, fo.var(n + y)) for x, y in zip(col, "rgb")) and fo.equal(num(v.fields["segmentation_id"]), fo.var(n + "seg")) and fo.equal(num(v.fields["instance_id"]), fo.var(n + "inst")))

    def meta(self, k, o, d):
        h, c = self.h, self.check
        ms = obj(h.do("GetShotMeasurements", cls="Shot", this=o))
        for f, n in MEASUREMENTS.items():
            x = obj(ms.fields[f])
            has = val_or(h.do("HasValue", cls="OptionalValue", this=x)) if len(self.h.u.find("HasValue", cls="OptionalValue")) == 1 else val_or(x.fields["has_value_"])
            want = d["meta"].get(f)
            ok = has is (want is not None)
            if ok and want:
                v = val_or(x.fields["value_"])
                ok = v == S(want) if not n else fo.equal(num(v), fo.var(want)) if n == 1 else isinstance(v, Arr) and all(fo.equal(a, b) for a, b in zip(flat(v), V(want, 3)))
            c(ok, "metadata", "the %s of shot %s is not the one set" % (f.strip("_"), k))
        a = val(ms.fields["attributes_"]).d
        want = d["meta"].get("attributes")
        c({x: val_or(y) for x, y in a.items()} == ({S("key"): S(want[:-len("attributes")])} if want else {}), "metadata", "the attributes of shot %s are not those set" % k)
        c(fo.equal(num(o.fields["scale"]), d["scale"]) and fo.equal(num(o.fields["merge_cc"]), d["merge"]), "metadata", "scale or cluster of shot %s is not the one set" % k)
        if d["covariance"]:
            g = val_or(h.do("GetCovariance", cls="Shot", this=o))
            c(isinstance(g, Arr) and same(g.grid(), [[fo.var("%s%d%d" % (d["covariance"], i, j)) for j in range(3)] for i in range(3)]), "metadata", "the covariance of shot %s is not the one set" % k)
        if d["mesh"]:
            mesh = obj(o.fields["mesh"])
            for n, f in (("GetVertices", "vert"), ("GetFaces", "face")):
                g = val_or(h.do(n, cls="ShotMesh", this=mesh))
                c(isinstance(g, Arr) and bool(g.cells) and same(g.grid(), [V("%s%s%d." % (d["mesh"], f, i), 3) for i in range(2)]), "metadata", "the mesh of shot %s is not the one set" % k)

    def landmark(self, k, o, d, things):
        h, c = self.h, self.check
        L = lambda n, *a: h.do(n, *a, cls="Landmark", this=o)
        c(val_or(o.fields["id_"]) == S(k), "landmarks", "landmark %s has another id" % k)
        c(all(fo.equal(x, y) for x, y in zip(flat(L("GetGlobalPos")), d["at"])), "landmarks", "landmark %s is elsewhere" % k)
        c(all(fo.equal(x, y) for x, y in zip(flat(L("GetColor")), d["color"])), "landmarks", "landmark %s has another color" % k)
        ob = val(L("GetObservations")).d
        got = {a.o: v for a, v in ob.items() if isinstance(a, Address)}
        who = lambda s: things["shots"].get(s) or things["panos"].get(s)
        c(len(got) == len(ob) == len(d["seen"]) and {id(x) for x in got} == {id(who(s)) for s in d["seen"]}, "observations", "landmark %s is observed by %s instead of %s" % (
            k, sorted(str(val_or(x.fields["id_"])) for x in got), sorted(d["seen"])))
        c(fo.equal(num(L("NumberOfObservations")), fo.const(len(d["seen"]))), "observations", "the observations of landmark %s are miscounted" % k)
        for s, f in d["seen"].items():
            x = who(s)
            if x in got:
                c(fo.equal(num(got[x]), fo.const(f)) and fo.equal(num(L("GetObservationIdInShot", Ptr(Arr([cpp.cell(x)])))), fo.const(f)), "features", "landmark %s has another feature in shot %s" % (k, s))
        e = val(L("GetReprojectionErrors")).d
        c({x: [fo.show(y) for y in flat(v)] for x, v in e.items()} == {S(s): [fo.show(y) for y in V(n, 2)] for s, n in d["errors"].items()}, "errors", "the reprojection errors of landmark %s are of %s instead of %s" % (
            k, sorted(e), sorted(d["errors"])))


WORLD = None
OPS = operations()


def job(seq):
    sys.setrecursionlimit(20000)
    w = WORLD
    try:
        if seq and seq[0] in SPECIAL:
            w.start(seq[0])
            SPECIAL[seq[0]](w)
            return seq, w.count, w.notes, None
        for k, o in enumerate(seq):
            w.start(" then ".join(seq[:k + 1]))
            OPS[o](w)
        w.compare()
        if len(seq) == 1 and not seq[0].startswith("Get"):
            asked(w)
        return seq, w.count, w.notes, None
    except cpp.Outside as e:
        return seq, 0, [("bounds", str(e))], None
    except cpp.Stop:
        return seq, 0, [("refused", "%s: a getter throws" % " then ".join(seq))], None
    except Exception as e:
        if os.environ.get("VP_TRACE"):
            traceback.print_exc()
        return seq, 0, [], "%s: %s %s" % (" then ".join(seq), type(e).__name__, e)


def deep(w, observations):
    h = w.h
    c = obj(h.do("DeepCopy", h.map, observations))
    o = Judge.__new__(Judge)
    o.h = copies.copy(h)
    o.h.map, o.m = c, copies.deepcopy(w.m)
    o.start(w.what)
    if not observations:
        for d in list(o.m.shots.values()) + list(o.m.panos.values()):
            d["seen"] = {}
        for d in o.m.landmarks.values():
            d["seen"] = {}
    else:
        for s, d in o.m.panos.items():
            for l in d["seen"]:
                o.m.landmarks[l]["seen"].pop(s)
            d["seen"] = {}
    for d in o.m.landmarks.values():
        d["errors"] = {}
    for i in [i for i, d in o.m.instances.items() if not d["shots"]]:
        o.m.instances.pop(i)
    used = {d["rig"] for d in list(o.m.shots.values()) + list(o.m.panos.values())}
    for r in set(o.m.rigs) - used:
        o.m.rigs.pop(r)
    mine = o.compare()
    # nothing is shared, the original stays as it is
    theirs = w.compare()
    for t in mine:
        for k, x in mine[t].items():
            o.check(x is not theirs[t].get(k), t, "the copy shares %s with the original" % k)
    w.notes += o.notes
    w.count += o.count


def copied(w):
    deep(w, False)


def copied_all(w):
    deep(w, True)


def questions(w):
    asked(w)
    w.compare()


SPECIAL = {"start": lambda w: w.compare(), "questions": questions, "DeepCopy": copied, "DeepCopy with observations": copied_all}


def build():
    text = "".join('#include "%s/%s"\n' % (cpp.SRC, f) for f in (
        "map/src/map.cc", "map/src/shot.cc", "map/src/rig.cc", "map/src/landmark.cc", "map/src/observation.cc", "map/src/tracks_manager.cc", "geometry/src/camera.cc"))
    return cpp.Unit(text, ("map::", "geometry::", "foundation::", "geo::", "anonymous namespace"))


def check(prog, rep):
    rep.rule("operations", "an operation of the map does what it is defined to do, and leaves everything else as it is")
    rep.rule("histories", "an operation does so after any other")
    rep.rule("questions", "tracks, valid observations, reprojection errors, projections and bearings are those of the map's shots, poses, cameras and landmarks")
    rep.rule("copies", "a copy has everything and shares nothing")
    rep.part(maps, rep)
    rep.minimum("operations", 3000)


def maps(rep):
    global WORLD
    sys.setrecursionlimit(20000)
    u = build()
    WORLD = Judge.__new__(Judge)
    w = scene(u)
    WORLD.h, WORLD.m, WORLD.kept = w.h, w.m, {}
    names = list(OPS)
    jobs = [[s] for s in SPECIAL] + [[a] for a in names]
    first = [n for n in names if not n.startswith(("Get", "SetShotMeasurements of ")) and "none" not in n and "again" not in n and " on " not in n]
    pairs = [[a, b] for a in first for b in names if not b.startswith(("Get", "SetShotMeasurements of "))]
    if rep.tier != "thorough":
        pairs = [p for i, p in enumerate(pairs) if i % 5 == 3]
    r = random.Random(33)
    longer = [[r.choice(first) for _ in range(6)] for _ in range(1500 if rep.tier == "thorough" else 150)]
    wrong = []
    with multiprocessing.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
        for seq, count, notes, error in pool.imap(job, jobs + pairs + longer, chunksize=1):
            rule = "questions" if seq[0] == "questions" else "copies" if seq[0].startswith("DeepCopy") else "operations" if len(seq) == 1 else "histories"
            rep.count(rule, count - len(notes))
            rep.count("obligations", count - len(notes))
            rep.count("histories evaluated")
            for aspect, msg in notes:
                rep.bad(rule, "%s:%s" % (seq[-1], aspect), W, "after %s: %s" % (" then ".join(seq), msg))
            if error:
                wrong.append(error)
    if wrong:
        raise AnalysisBroken("; ".join(wrong[:5]))


# what is asked of a map with the tracks of the images
def asked(w):
    h, m, c = w.h, w.m, w.check
    tm = h.ev.make("map::TracksManager", [])
    seen = {}
    for k, (s, t) in enumerate([("a", "L1"), ("a", "L5"), ("a", "none"), ("b", "L1"), ("c", "L3"), ("d", "none"), ("p", "L1"), ("zz", "L1")]):
        n = "track.%s.%s." % (s, t)
        h.do("AddObservation", S(s), S(t), h.observation(k, n), cls="TracksManager", this=tm)
        seen[s, t] = (k, n)
    text = lambda x: x[5:-1]
    table = lambda v: {text(s): {text(l): e for l, e in val(x).d.items()} for s, x in val(v).d.items()}
    want = {s: {t: v for (x, t), v in seen.items() if x == s and t in m.landmarks} for s in {x for x, _ in seen} & set(m.shots)}
    got = table(h.do("GetValidObservations", tm))
    c({s: set(v) for s, v in got.items()} == {s: set(v) for s, v in want.items()}, "valid", "the valid observations are those of %s" % {s: sorted(v) for s, v in got.items()})
    for s in set(got) & set(want):
        for t in set(got[s]) & set(want[s]):
            c(w.is_observation(obj(got[s][t]), *want[s][t]), "valid", "the valid observation of %s by %s is another one" % (t, s))
    camera = lambda kind, k, x, i: fo.fun("%s%d:%s" % (kind, i, k), *x)

    def through(kind, n):
        def f(ev, args, node):
            o = obj(args[0])
            if o is None or (o.cls or {}).get("name") != "Camera":
                return NotImplemented
            x = flat(val(args[1]))
            return arr([camera(kind, text(val_or(o.fields["id"])), x, i) for i in range(n)])
        return f
    h.ev.opaque["Project"], h.ev.opaque["Bearing"] = through("project", 2), through("bearing", 3)
    unit = lambda v: [fo.div(x, fo.sqrt(fo.add(*[fo.mul(y, y) for y in v]))) for x in v]
    try:
        for kind in ("Pixel", "Normalized", "Angular"):
            got = table(h.do("ComputeReprojectionErrors", tm, kind_of(h, kind)))
            c({s: set(v) for s, v in got.items()} == {s: set(v) for s, v in want.items()}, "errors", "%s errors are those of %s" % (kind, {s: sorted(v) for s, v in got.items()}))
            for s in set(got) & set(want):
                R, t = m.place(s)
                cam = m.shots[s]["camera"]
                for l in set(got[s]) & set(want[s]):
                    n = want[s][l][1]
                    at, p = m.landmarks[l]["at"], V_(n)
                    local = plus(mv(R, at), t)
                    e = [fo.sub(p[i], camera("project", cam, local, i)) for i in range(2)]
                    if kind == "Normalized":
                        e = [fo.div(x, fo.var(n + "s")) for x in e]
                    if kind == "Angular":
                        a = unit(plus(at, mv(tr(R), t)))
                        b = unit(mv(tr(R), [camera("bearing", cam, p, i) for i in range(3)]))
                        e = [fo.fun("acos", fo.add(*[fo.mul(x, y) for x, y in zip(a, b)]))] * 2
                    c(close(h, flat(val(got[s][l])), e), "errors", "the %s error of %s in %s is not the one of that point, shot and observation" % (kind.lower(), l, s))
        for s, d in list(m.shots.items()) + list(m.panos.items()):
            o = w.at("shot", s)
            R, t = m.place(s)
            xs, ps = [V("pt%d." % i, 3) for i in range(2)], [V("px%d." % i, 2) for i in range(2)]
            project = [[camera("project", d["camera"], plus(mv(R, x), t), i) for i in range(2)] for x in xs]
            bearing = [mv(tr(R), [camera("bearing", d["camera"], p, i) for i in range(3)]) for p in ps]
            for one, many, args, e in (("Project", "ProjectMany", xs, project), ("Bearing", "BearingMany", ps, bearing)):
                c(close(h, flat(val(h.do(one, arr(args[0]), cls="Shot", this=o))), e[0]), "camera", "%s of shot %s is not that of its camera at its pose" % (one, s))
                g = val(h.do(many, cpp.matrix(args), cls="Shot", this=o)).grid()
                c(len(g) == 2 and all(close(h, x, y) for x, y in zip(g, e)), "camera", "%s of shot %s is not that of each point" % (many, s))
    finally:
        h.ev.opaque.pop("Project")
        h.ev.opaque.pop("Bearing")
    r = obj(h.do("ToTracksManager"))
    got = {text(val_or(s)): {text(l): o for l, o in val(h.do("GetShotObservations", val_or(s), cls="TracksManager", this=r)).d.items()} for s in val(h.do("GetShotIds", cls="TracksManager", this=r)).cells}
    both = dict(m.shots, **m.panos)
    c({s: set(v) for s, v in got.items()} == {s: set(d["seen"]) for s, d in both.items() if d["seen"]}, "tracks", "the tracks of the map are of %s" % {s: sorted(v) for s, v in got.items()})
    for s in set(got) & set(both):
        for l in set(got[s]) & set(both[s]["seen"]):
            c(w.is_observation(obj(got[s][l]), *both[s]["seen"][l]), "tracks", "the track's observation of %s by %s is another one" % (l, s))


def V_(n):
    return [fo.var(n + "x"), fo.var(n + "y")]


def kind_of(h, name):
    c = [x for x in h.u.ids.values() if x["kind"] == "EnumDecl" and x.get("name") == "ErrorType" for e in cpp.inner(x, "EnumConstantDecl") if e["name"] == name for x in [e]]
    return h.ev.enum(c[0]["id"], c[0])


def close(h, got, want):
    return len(got) == len(want) and all(fo.equal(a, b) for a, b in zip(got, want))
