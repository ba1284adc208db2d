"""What a function leaves in the poses it changes, as matrix expressions over the poses it found.

Model of pygeometry.Pose (world to camera rotation R, translation t = -R o): set_rotation_matrix keeps t but leaves the cached origin
as it was, so an origin read before the translation is set again is the old one.
"""

from . import terms as tm
from .terms import attr, mk

READ_R = {"get_rotation_matrix"}
READ_RT = {"get_R_cam_to_world"}
READ_O = {"get_origin"}


def initial(P):
    """Substitutions expressing what is read from pose P by R and o."""
    R, o = tm.mcall(P, "get_rotation_matrix", []), tm.mcall(P, "get_origin", [])
    return R, o, {attr(P, "translation"): mk("un", "-", tm.mcall(R, "dot", [o])), tm.mcall(P, "get_R_cam_to_world", []): attr(R, "T")}


def changes(fl):
    """{pose term: [(what, term, effect)]} in program order."""
    out = {}
    for e in sorted(fl.effects, key=lambda e: e.seq):
        if e.kind == "setattr" and e.name in ("translation", "rotation"):
            out.setdefault(e.recv, []).append(("t" if e.name == "translation" else "r", e.args[0], e))
        elif e.kind == "mcall" and e.name in ("set_rotation_matrix", "set_origin"):
            if e.args:
                out.setdefault(e.recv, []).append(("R" if e.name == "set_rotation_matrix" else "o", e.args[0], e))
        elif e.kind == "mcall" and e.name in ("set_from_world_to_cam", "set_from_cam_to_world") and len(e.args) == 2:
            a, b = e.args
            out.setdefault(e.recv, []).append(("Rt" if e.name.endswith("to_cam") else "Ro", (a, b), e))
        elif e.kind == "mcall" and e.name in READ_R | READ_RT | READ_O and e.recv in out:
            out[e.recv].append(("read:" + ("o" if e.name in READ_O else "R"), None, e))
    return out


def final(lin, seq, P):
    """(R', t') after the changes, as normal forms; raises LookupError when they cannot be followed."""
    R, o, _ = initial(P)
    r = lin.norm(R)
    t = lin.norm(attr(P, "translation"))
    stale = False
    for what, v, e in seq:
        if what == "R":
            r, stale = lin.norm(v), True
        elif what == "t":
            t, stale = lin.norm(v), False
        elif what == "o":
            t, stale = lin.add({}, lin.mul(r, lin.norm(v)), -1), False
        elif what == "Rt":
            r, t, stale = lin.norm(v[0]), lin.norm(v[1]), False
        elif what == "Ro":
            r = lin.inv(lin.norm(v[0]), v[0])
            t, stale = lin.add({}, lin.mul(r, lin.norm(v[1])), -1), False
        elif what == "read:R" and r != lin.norm(R):
            raise LookupError("the rotation is read after it was changed")
        elif what == "read:o" and not stale and seq[0][2] is not e and any(w in ("t", "o", "Rt", "Ro") for w, _, e2 in seq if e2.seq < e.seq):
            raise LookupError("the origin is read after it was changed")
        elif what == "r":
            raise LookupError("the rotation is set from a rotation vector")
    return r, t, stale
