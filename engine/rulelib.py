"""What the rules share: obligations, violations, decision tables."""
import re

from ir import *
from terms import *
from ev import *


class Ctx:
    def __init__(self, pid, prog, tier):
        self.pid, self.p, self.tier = pid, prog, tier
        _enums.extend(prog.variants.values())
        self.obs = []  # (key, ok, where, msg)
        self.analysed = set()
        self.notes = []
        self._cache = {}

    # -- reporting
    def ob(self, key, ok, msg="", where=""):
        """One obligation: a named rule instance that holds or not."""
        self.obs.append((key, bool(ok), where, str(msg)[:1200]))
        return bool(ok)

    def note(self, s):
        self.notes.append(s)

    # -- evaluation
    def run(self, body, opaque=(), streams=(), plain=False, **kw):
        k = (body["id"], frozenset(opaque), frozenset(streams), plain, repr(kw))
        r = self._cache.get(k)
        if r is None:
            ev = Ev(self.p, opaque=opaque, streams=streams, plain=plain)
            r = ev.run(body, **kw)
            self.analysed.add(body["path"])
            for x in ev.inlined:
                self.analysed.add(x)
            self._cache[k] = r
        return r

    def at(self, body):
        return f"{body['path']} ({body['s']})"


# ------------------------------------------------------------------ tables


def atoms(guards):
    return dict(guards)


def consistent(g1, g2):
    """May two sets of guards hold together (as far as the atoms tell)?"""
    d = {}
    isv = {}
    for c, p in tuple(g1) + tuple(g2):
        if d.setdefault(c, p) != p:
            return False
        if c.op == "is":
            t, v = c.a
            if p:
                o = isv.get(t)
                if o is not None and o != v:
                    return False
                isv[t] = v
    for c, p in d.items():
        if c.op == "is" and not p and isv.get(c.a[0]) == c.a[1]:
            return False
    return True


def complete(gs):
    """Do the guard conjunctions cover every case (as far as propositional reasoning tells)?"""
    gs = [dict(g) for g in gs]

    def go(gs, depth=0):
        if any(not g for g in gs):
            return True
        if not gs or depth > 12:
            return False
        c = next(iter(gs[0]))
        if c.op == "is":
            t = c.a[0]
            vs = {x.a[1] for g in gs for x in g if x.op == "is" and x.a[0] is t}
            # every variant named somewhere, and "none of them"
            for v in list(vs) + [None]:
                sub = []
                for g in gs:
                    okg = True
                    rest = {}
                    for x, p in g.items():
                        if x.op == "is" and x.a[0] is t:
                            if (x.a[1] == v) != p:
                                okg = False
                                break
                        else:
                            rest[x] = p
                    if okg:
                        sub.append(rest)
                if v is None and _exhaustive(vs):
                    continue
                if not go(sub, depth + 1):
                    return False
            return True
        for val in (True, False):
            sub = []
            for g in gs:
                if g.get(c, val) == val:
                    sub.append({x: p for x, p in g.items() if x is not c})
            if not go(sub, depth + 1):
                return False
        return True

    return go(gs)


_enums = []


def _exhaustive(vs):
    return any(set(e) == set(vs) for e in _enums)


def holds(guards, atom, pol=True):
    return any(c is atom and p == pol for c, p in guards)


def lv_to_state(t, roots=None):
    """Replace loop-carried values by the state they carry (lv<_, 'self.x'> -> self.x)."""
    m = {}
    for s in subterms(t):
        if s.op == "lv" and isinstance(s.a[1], str):
            segs = s.a[1].split(".")
            if roots is None or segs[0] in roots:
                x = sym(segs[0])
                for f in segs[1:]:
                    x = fld(x, f)
                m[s] = x
    return subst(t, m) if m else t


def sub_guards(gs, f):
    return tuple((f(c), p) for c, p in gs)


class Step:
    """One step of an iteration over the state behind a parameter."""

    def __init__(self, guards, upd, ret, eff, kind):
        self.guards, self.upd, self.ret, self.eff, self.kind = guards, upd, ret, eff, kind

    def get(self, path):
        """Final value of self.<path>."""
        t = sym(path.split(".")[0])
        for f in path.split(".")[1:]:
            t = fld(t, f)
        return self.upd.get(t, t)


def map_eff(e, f):
    def go(x):
        if isinstance(x, T):
            return f(x)
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x

    return go(e)


def steps(rows, param="self"):
    """The single steps of a (possibly looping) function over its state: for every path of every
    loop body and every path that leaves, the guards and the new state, in terms of the state at
    the start of the step."""
    out = []
    done = set()
    f = lambda t: lv_to_state(t, {param})

    def loops(effs):
        for e in effs:
            if e[0] == "loop" and id(e[1]) not in done:
                done.add(id(e[1]))
                for g, upd, ef in e[1].cont:
                    u = {}
                    for lv, v in upd.items():
                        k = f(lv)
                        u[k] = f(v)
                    out.append(Step(sub_guards(g, f), u, None, tuple(map_eff(x, f) for x in ef if x[0] != "loop"), "continue"))
                    loops(ef)

    for r in rows:
        loops(r.eff)
        fin = f(r.final(param)) if param in r.params else sym(param)
        u = {}

        def collect(t, path):
            if t is path:
                return
            if t.op == "with" and f(t.a[0]) is path:
                for k, v in t.a[1]:
                    collect(v, proj(path, k))
            else:
                u[path] = t

        collect(fin, sym(param))
        out.append(
            Step(
                sub_guards(r.guards, f),
                u,
                f(r.ret),
                tuple(map_eff(x, f) for x in r.eff if x[0] != "loop"),
                "return",
            )
        )
    return out


def where_of(t, default=""):
    return default
