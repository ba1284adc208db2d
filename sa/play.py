"""The effects of a function, in order, for given values: loops are unrolled and guards decided over the extracted effects.

Play(fl, env, calls, names).go().events are the calls of the given names, with the values they receive.
calls(play, name, recv, args, kwargs) gives the value of a call that is not arithmetic, or NotImplemented.
"""

import posixpath

from . import terms as tm
from .terms import is_const, mk
from .values import value


GROW = ("append", "extend", "add", "update", "discard", "remove", "clear", "insert", "sort", "reverse", "difference_update", "intersection_update")


class Play:
    def __init__(self, fl, env, calls=None, names=()):
        self.fl, self.calls, self.names = fl, calls, set(names)
        self.env = dict(env)
        self.env["hook"] = self.hook
        self.events = []
        self.memo = {}
        self.turn = ()
        self.made = {}
        self.busy = set()
        self.state, self.tracked, self.phis = {}, {}, {}

    # ------------------------------------------------------------- values
    def value(self, t, env=None):
        return value(self.fl, t, self.env if env is None else env)

    def hook(self, fl, t, env):
        o = t.op
        if o == "obj":
            h = fl.h(t)
            if h is not None and h.kind in ("ext", "inst"):
                k = (t, self.turn[:2 * len(h.loops)])
                if k not in self.made:
                    new = next((e for e in fl.effects if e.kind == "new" and e.result is t), None)
                    if h.kind == "inst" and new is None:
                        return NotImplemented
                    self.made[k] = self.called(t, fl.deep(t) if h.kind == "ext" else tm.call(mk("ext", new.name), new.args, dict(new.kwargs or {}).items()), env)
                return self.made[k]
            if t in self.tracked:
                return self.kept(t, h, env)
            if t in self.busy:
                raise LookupError("a collection that holds itself")
            if h is None or h.kind not in ("list", "set", "dict", "iter", "tuple"):
                return NotImplemented
            if any(e.kind == "mcall" and e.name in ("insert", "sort", "reverse") and e.recv is t for e in fl.effects):
                raise LookupError("a list whose order changes")
            self.busy.add(t)
            try:
                return self.replay(h, env)
            finally:
                self.busy.discard(t)
        if o == "exc" and t not in env:
            return False  # nothing is raised
        if o == "bin" and t.args[0] == "*":
            a, b = value(fl, t.args[1], env), value(fl, t.args[2], env)
            if isinstance(a, list) and isinstance(b, int) or isinstance(b, list) and isinstance(a, int):
                return a * b
        if o == "join":
            return posixpath.join(*[value(fl, x, env) for x in self.spread(t.args, env)])
        if o == "strcat":
            return "".join(str(value(fl, x, env)) for x in t.args)
        if o == "fmt":
            spec = t.args[1] if len(t.args) > 1 else ""
            spec = tm.cval(spec) if isinstance(spec, tm.T) and is_const(spec) else spec
            return format(value(fl, t.args[0], env), spec or "")
        if o == "cmp" and t.args[0] in ("in", "not in"):
            return (value(fl, t.args[1], env) in value(fl, t.args[2], env)) == (t.args[0] == "in")
        if o == "idx" and t not in env:
            return NotImplemented
        if o == "item":
            b = value(fl, t.args[0], env)
            if isinstance(b, (dict, list)):
                k = value(fl, t.args[1], env)
                if isinstance(b, list) and isinstance(k, str):
                    b = dict(b)
                if isinstance(b, dict):
                    if k not in b or b[k] is Unknown:
                        raise LookupError("no value known")
                    return b[k]
            return NotImplemented
        if o == "attr":
            try:
                b = value(fl, t.args[0], env)
            except LookupError:
                return NotImplemented
            if isinstance(b, Held) and t.args[1] in b.__dict__:
                return b.__dict__[t.args[1]]
            return NotImplemented
        if o in ("call", "mcall"):
            return self.called(t, t, env)
        return NotImplemented

    def spread(self, args, env):
        for x in args:
            if isinstance(x, tm.T) and x.op == "star":
                for y in value(self.fl, x.args[0], env):
                    yield tm.const(y)
            else:
                yield x

    def called(self, at, t, env):
        fl = self.fl
        if t in env:
            return env[t]
        if t.op == "mcall":
            (recv, name), args, kw = tm.call_parts(t)
            kw = {(tm.cval(k) if isinstance(k, tm.T) else k): x for k, x in kw.items()}
            try:
                r = value(fl, recv, env)
            except LookupError:
                r = recv
        else:
            _, args, kw = tm.call_parts(t)
            name, recv, r, kw = tm.callee_name(t) or "", None, None, dict(kw)
        if self.calls is not None:
            lazy = lambda x: value(fl, x, env)  # noqa: E731
            v = self.calls(self, name, r, [Late(x, lazy) for x in args], {k: Late(x, lazy) for k, x in kw.items()})
            if v is not NotImplemented:
                return v
        if t.op == "mcall" and not isinstance(r, tm.T):
            a = [value(fl, x, env) for x in args if isinstance(x, tm.T)]
            if isinstance(r, dict) and name in ("get", "keys", "values", "items"):
                return getattr(r, name)(*a)
            if isinstance(r, str) and name in ("split", "strip", "rstrip", "lstrip", "startswith", "endswith", "replace", "join", "upper", "lower", "splitlines", "rsplit", "partition"):
                return getattr(r, name)(*a)
            if isinstance(r, (set, frozenset)) and name in ("union", "intersection", "difference", "isdisjoint", "issubset", "issuperset"):
                return getattr(r, name)(*a)
            if isinstance(r, (list, tuple)) and name in ("index", "count"):
                return getattr(r, name)(*a)
        if t.op == "call" and name in ("set", "frozenset", "dict") and len(args) <= 1:
            return {"set": set, "frozenset": frozenset, "dict": dict}[name](*[value(fl, x, env) for x in args])
        return NotImplemented

    def replay(self, h, env):
        """What a collection holds, from its entries."""
        base = len(h.loops)
        out = {"list": list, "tuple": list, "iter": list, "set": set, "dict": dict}[h.kind]()

        def put(e, env):
            for g, p in e.guards[len(h.guards):] if tuple(e.guards[:len(h.guards)]) == tuple(h.guards) else e.guards:
                x = e.val if e.kind == "add" else e.key
                if g.op == "cmp" and g.args[0] in ("in", "not in") and g.args[1] is x and self.itself(h, g.args[2]):
                    if ((value(self.fl, x, env) in out) == (g.args[0] == "in")) != p:
                        return
                elif bool(value(self.fl, g, env)) != p:
                    return
            if e.kind == "add":
                v = value(self.fl, e.val, env)
                out.add(v) if isinstance(out, set) else out.append(v)
            elif e.kind == "set":
                k = value(self.fl, e.key, env)
                try:
                    out[k] = value(self.fl, e.val, env)
                except LookupError:
                    out[k] = Unknown
            elif e.kind == "spread":
                v = value(self.fl, e.val, env)
                out.update(v) if isinstance(out, (set, dict)) else out.extend(v)
            elif e.kind == "clear":
                out.clear()
            else:
                raise LookupError("collection changed by %s" % e.kind)

        self.nest(list(h.log), base, env, put)
        return out

    def itself(self, h, t):
        """Whether a collection is h, or the one h lists the keys of."""
        o = self.fl.h(t) if t.op == "obj" else None
        return o is not None and (o is h or h.kind == "iter" and o.kind in ("dict", "set") and [e.guards for e in o.log] == [e.guards for e in h.log] and [e.key if o.kind == "dict" else e.val for e in o.log] == [e.val for e in h.log])

    # -------------------------------------------------------------- loops
    def nest(self, es, depth, env, put):
        i = 0
        while i < len(es):
            e = es[i]
            if len(e.loops) <= depth:
                if put(e, env) is STOP:
                    return STOP
                i += 1
                continue
            k = 1
            for z in self.fl.zips:
                if len(z) > 1 and tuple(e.loops[depth:depth + len(z)]) == tuple(z):
                    k = len(z)
            own = e.loops[depth:depth + k]
            j = i
            while j < len(es) and len(es[j].loops) >= depth + k and tuple(es[j].loops[depth:depth + k]) == tuple(own) and statement(es[j], depth) == statement(e, depth):
                j += 1
            run = es[i:j]
            if not self.reached(run, env):
                i = j
                continue
            cols = [list(value(self.fl, L, env)) for L in own]
            turn = self.turn
            env = dict(env)
            phis = [p for L in own for p in self.phis.get(L, ())]
            for p in phis:
                try:
                    env[p] = value(self.fl, p.args[2], env)
                except LookupError:
                    env.pop(p, None)
            for n, row in enumerate(zip(*cols)):
                e2 = dict(env)
                for L, x in zip(own, row):
                    e2[mk("elem", L, 0)] = x
                    e2[mk("idx", L)] = n
                self.turn = turn + (i, n)
                if self.nest(run, depth + k, e2, put) is STOP:
                    break
                for p in phis:
                    try:
                        env[p] = value(self.fl, self.fl.phi_next[p], e2)
                    except LookupError:
                        env.pop(p, None)
            self.turn = turn
            i = j
        return None

    def reached(self, run, env):
        """False when what all of them are guarded by does not hold here."""
        for col in zip(*[e.guards for e in run]):
            if any(x != col[0] for x in col):
                return True
            try:
                if bool(value(self.fl, col[0][0], env)) != col[0][1]:
                    return False
            except LookupError:
                return True
        return True

    # ------------------------------------------------------------- effects
    def go(self):
        self.watch()
        self.nest([e for e in self.fl.effects if self.wanted(e)], 0, self.env, self.step)
        return self

    def watch(self):
        """Collections that grow on the way are kept as the effects go by."""
        for e in self.fl.effects:
            if self.growing(e):
                self.tracked[e.recv] = self.tracked.get(e.recv, 0) + 1
                if e.name in ("extend", "update") or e.kind == "aug":
                    self.tracked[e.recv] += 1 << 30
        for p in self.fl.phi_next:
            self.phis.setdefault(p.args[1], []).append(p)

    def growing(self, e):
        h = self.fl.h(e.recv) if e.recv is not None and e.recv.op == "obj" else None
        if h is None or h.kind not in ("list", "set", "dict"):
            return False
        return e.kind == "setitem" or e.kind == "aug" or e.kind in ("mcall", "grow") and e.name in GROW

    def kept(self, t, h, env):
        """The collection made in this turn of the loops around it."""
        k = (t,) + tuple(env.get(mk("idx", L)) for L in h.loops)
        if k not in self.state:
            n = self.tracked[t]
            first = h.log[:max(0, len(h.log) - n)] if n < 1 << 30 else []
            self.state[k] = {"set": set, "list": list, "dict": dict}[h.kind]()
            if first:
                g = type(h)(h.id, h.kind, h.guards, h.loops)
                g.log = first
                self.state[k] = self.replay(g, env)
        return self.state[k]

    def final(self, t):
        """The value of a result when all is done, breaks included."""
        self.go()
        return self.value(t)

    def grow(self, e, env):
        c = self.kept(e.recv, self.fl.h(e.recv), env)
        a = [value(self.fl, x, env) for x in e.args]
        if e.kind == "setitem":
            c[a[0]] = a[1]
        elif e.kind == "aug":
            c.extend(a[0]) if isinstance(c, list) else c.update(a[0])
        elif isinstance(c, dict) and e.name == "update":
            c.update(a[0] if a else {})
        else:
            getattr(c, e.name)(*a)

    def wanted(self, e):
        if e.kind == "break":
            return True
        if e.recv in self.tracked and self.growing(e):
            return True
        return e.kind in self.names or e.kind in ("call", "mcall", "new", "setitem") and (e.name or "").split(".")[-1] in self.names

    def live(self, e, env):
        pre = ()
        for g, p in e.guards:
            k = (pre, g, self.turn[:2 * len(e.loops)])
            if k not in self.memo:
                self.memo[k] = bool(value(self.fl, g, env))
            if self.memo[k] != p:
                return False
            pre += ((g, p),)
        return True

    def step(self, e, env):
        if e.caught and e.kind == "handler" or not self.live(e, env):
            return None
        if e.kind == "break":
            return STOP
        if e.recv in self.tracked and self.growing(e):
            return self.grow(e, env)
        args = [value(self.fl, x, env) for x in self.spread(e.args, env)]
        kw = {k: value(self.fl, x, env) for k, x in dict(e.kwargs or {}).items()}
        recv = None
        h = self.fl.h(e.recv) if e.recv is not None and e.recv.op == "obj" else None
        if h is not None and h.kind in ("list", "set", "dict", "iter"):
            recv = e.recv
        elif e.recv is not None:
            try:
                recv = value(self.fl, e.recv, env)
            except LookupError:
                recv = e.recv
        self.event(Event(e, (e.name or e.kind).split(".")[-1], recv, args, kw))
        return None

    def event(self, ev):
        self.events.append(ev)


def statement(e, depth):
    ids = getattr(e, "lids", ())
    return ids[depth] if depth < len(ids) else None


class Held:
    """Something with given attributes."""

    def __init__(self, **kw):
        self.__dict__.update(kw)


class Late:
    """An argument, evaluated when it is asked for."""

    def __init__(self, t, f):
        self.term, self.f = t, f

    def __call__(self):
        return self.f(self.term)


class Event:
    def __init__(self, e, name, recv, args, kw):
        self.effect, self.name, self.recv, self.args, self.kw, self.where = e, name, recv, args, kw, e.where


STOP = object()
Unknown = object()
