"""Token-stream adaptors as finite transducers.

An iterator adaptor is analysed as a transition system: its control points are the start of
`next` and the heads of the loops on its paths, its data the terms held in its fields.  The input
is a stream of items given only by their kind; their text and positions stay abstract.  The
reachable configurations, up to renaming of the abstract items, are explored together with a
specification fed with the same input, until no new configuration appears, which covers input of
every length.
"""
import re

from terms import *
from ev import is_, LoopInfo


class Stuck(Exception):
    pass


class Need(Exception):
    """The next step depends on whether this stream has another item."""

    def __init__(self, stream):
        self.stream = stream


RANGE = "core::ops::range::Range"


def rng(a, b):
    return adt(RANGE, "Range", {"start": a, "end": b})


def split_index(t, i):
    """index() through upd at other literal positions."""
    while t.op == "upd" and t.a[1].op == "lit" and i.op == "lit" and t.a[1] is not i:
        t = t.a[0]
    return index(t, i)


class Norm:
    """Substitution with folding of conditions on known values."""

    def __init__(self, m, kinds):
        self.m, self.kinds, self.memo = m, kinds, {}

    def __call__(self, t):
        r = self.m.get(t)
        if r is not None:
            return r
        r = self.memo.get(t)
        if r is None:
            na = tuple(self.gx(x) for x in t.a)
            r = fold(rebuild(mk(t.op, *na)), self.kinds)
            self.memo[t] = r
        return r

    def gx(self, x):
        if isinstance(x, T):
            return self(x)
        if isinstance(x, tuple):
            return tuple(self.gx(y) for y in x)
        if isinstance(x, frozenset):
            return frozenset(self.gx(y) for y in x)
        return x


def fold(t, kinds):
    o = t.op
    if o == "is":
        x, v = t.a
        if x.op == "adt":
            return lbool(x.a[1] == v)
        if x.op == "with":
            return fold(is_(x.a[0], v), kinds)
        if x in kinds:
            return lbool(kinds[x] == v)
        if x.op == "sym" and x.a[0].startswith("other#"):
            return FALSE
    elif o == "with":
        # update a known value
        b, kv = t.a
        if b.op in ("adt", "tup"):
            for k, v in kv:
                b = upd(b, k, v)
            return b
    elif o == "upd":
        b, i, v = t.a
        if b.op == "seq" and i.op == "lit" and all(p[0] == "one" for p in b.a[0]):
            l = list(b.a[0])
            if i.a[1] < len(l):
                l[i.a[1]] = ("one", v)
                return mk("seq", tuple(l))
    elif o == "app":
        n, a = t.a
        if n == "nonempty":
            if a[0].op == "seq":
                ps = a[0].a[0]
                if not ps:
                    return FALSE
                if ps[0][0] == "one":
                    return TRUE
        elif n in ("lt", "Add", "Sub") and len(a) == 2 and all(x.op == "lit" and type(x.a[1]) is int for x in a):
            x, y = a[0].a[1], a[1].a[1]
            if n == "lt":
                return lbool(x < y)
            if n == "Add" or x >= y:
                return lint(x + y if n == "Add" else x - y)
        elif n == "head":
            if a[0].op == "seq" and a[0].a[0] and a[0].a[0][0][0] == "one":
                return a[0].a[0][0][1]
        elif n == "tail":
            if a[0].op == "seq" and a[0].a[0] and a[0].a[0][0][0] == "one":
                return seq(a[0].a[0][1:])
            if a[0].op == "seq" and not a[0].a[0]:
                return EMPTY
        elif n == "eq":
            x, y = a
            for p, q in ((x, y), (y, x)):
                if q.op == "adt" and not q.a[2]:
                    if p.op == "adt":
                        return lbool(p.a[1] == q.a[1])
                    if p in kinds:
                        return lbool(kinds[p] == q.a[1])
                    if p.op == "sym" and p.a[0].startswith("other#"):
                        return FALSE
        elif n == "index":
            return split_index(*a)
        elif n == "not":
            if a[0].op == "lit":
                return lbool(not a[0].a[1])
    return t


def lvs_of(t, cache={}):
    r = cache.get(t)
    if r is None:
        r = frozenset(s for s in subterms(t) if s.op == "lv")
        cache[t] = r
    return r


class Path:
    """One path: guards, loops on the way (in order), and how it ends."""

    __slots__ = ("guards", "loops", "end", "level")

    def __init__(self, guards, loops, end):
        self.guards, self.loops, self.end = guards, loops, end
        # a condition is judged after the last of the path's own loops whose outcome it mentions
        self.level = []
        for c, _ in guards:
            ls = lvs_of(c)
            n = 0
            for i, L in enumerate(loops):
                if any(l in L.init for l in ls):
                    n = i + 1
            self.level.append(n)

    def terms(self, k, q=None):
        """The terms still needed when k loops are done (unless a loop to come sets q anew)."""
        if q is not None and q.op == "lv" and any(q in L.init for L in self.loops[k:]):
            return
        for (c, _), n in zip(self.guards, self.level):
            if n >= k:
                yield c
        for L in self.loops[k:]:
            yield from L.init.values()
            for c in cont_paths(L):
                yield from c.terms(0, q)
        if self.end[0] == "ret":
            yield self.end[1].ret
            if "self" in self.end[1].params:
                yield self.end[1].final("self")
        else:
            yield from self.end[2].values()


_live = {}


def live_fields(cands, root):
    """The fields of a parameter still needed (None: all of it)."""
    key = (tuple((id(p), k) for p, k, _ in cands), root)
    if key in _live:
        return _live[key][1]
    out, seen = set(), set()
    st = [t for p, k, _ in cands for t in p.terms(k, root)]
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if t is root:
            out = None
            break
        if t.op == "fld" and t.a[0] is root:
            out.add(t.a[1])
            continue
        if t.op == "with" and t.a[0] is root:
            out.add(("except", frozenset(k[1] for k, _ in t.a[1] if k[0] == "f")))
            st.extend(v for _, v in t.a[1])
            continue
        st.extend(children(t))
    _live[key] = (cands, out)
    return out


DEAD = mk("sym", "dead")


def forget(conf):
    """Drop what no remaining term needs."""
    env = dict(conf.env)
    heads = [x[1] for x in conf.encl]
    everything = conf.cands + tuple(c for h in heads for c in h)
    r = sym("self")
    for q, v in conf.env.items():
        if q.op == "lv":
            # reset whenever its loop comes round
            own = next((i for i, x in enumerate(conf.encl) if q in x[0].init), -1)
            cs = conf.cands + tuple(c for h in heads[own + 1 :] for c in h)
        else:
            cs = everything
        lf = live_fields(cs, q)
        if lf is None:
            continue
        if not lf:
            env[q] = DEAD
        elif q is r and v.op == "adt":
            d = {}
            for f, x in v.a[2]:
                need = f in lf or any(isinstance(y, tuple) and f not in y[1] for y in lf)
                d[f] = x if need else DEAD
            env[q] = adt(v.a[0], v.a[1], d)
    return Conf(conf.cands, env, conf.encl)


def row_paths(rows):
    return [Path(r.guards, [e[1] for e in r.eff if e[0] == "loop"], ("ret", r)) for r in rows]


_cp = {}


def cont_paths(L):
    k = id(L)
    if k not in _cp:
        _cp[k] = (L, [Path(g, [e[1] for e in ef if e[0] == "loop"], ("cont", L, u)) for g, u, ef in L.cont])
    return _cp[k][1]


class Conf:
    """A control point with its data: candidate paths (path, loops done, depth), the values of
    parameters and loop variables, and the loops it is in."""

    __slots__ = ("cands", "env", "encl")

    def __init__(self, cands, env, encl):
        self.cands, self.env, self.encl = cands, env, encl

    def subst(self, m):
        return Conf(self.cands, {k: subst(v, m) for k, v in self.env.items()}, self.encl)

    def key(self):
        return (
            tuple((id(p), k, d) for p, k, d in self.cands),
            tuple(id(x[0]) for x in self.encl),
            "; ".join(sorted(show(k) + "=" + show(v) for k, v in self.env.items())),
        )


def start(paths, env):
    return Conf(tuple((p, 0, 0) for p in paths), env, ())


def undecided(v):
    for s in subterms(v):
        if s.op == "app" and s.a[0] in ("nonempty", "head", "tail"):
            x = s.a[1][0]
            if x.op == "seq":
                if x.a[0] and x.a[0][0][0] == "all":
                    return x.a[0][0][1]
                continue
            if x.op == "app" and x.a[0] in ("tail", "head"):
                continue
            return x
    return None


def step(conf, kinds):
    """One step: ('go', conf) or ('ret', row, norm)."""
    env = conf.env
    nf = Norm(env, kinds)
    alive, need, vague = [], None, None
    for p, k, d in conf.cands:
        okp, und = True, None
        for (c, pol), lvl in zip(p.guards, p.level):
            if lvl != k:
                continue
            v = nf(c)
            if v is TRUE or v is FALSE:
                if v.a[1] != pol:
                    okp = False
                    break
            elif und is None:
                und = v
        if not okp:
            continue
        if und is not None:
            s = undecided(und)
            if s is None:
                vague = und
            else:
                need = s
        alive.append((p, k, d))
    if need is not None:
        raise Need(need)
    if vague is not None:
        raise Stuck(f"condition not decided by the kinds of the items: {str(vague)[:300]}")
    if not alive:
        raise Stuck("no path applies")
    nxt = {}
    for p, k, d in alive:
        nxt.setdefault(("loop", id(p.loops[k]), d) if k < len(p.loops) else ("end", id(p), d), []).append((p, k, d))
    if len(nxt) != 1:
        raise Stuck(f"{len(nxt)} paths are not told apart")
    (ps,) = nxt.values()
    p, k, d = ps[0]
    encl = conf.encl[:d]
    if k < len(p.loops):
        L = p.loops[k]
        env2 = dict(env)
        for lv, v in L.init.items():
            env2[lv] = nf(v)
        head = tuple((q, 0, d + 1) for q in cont_paths(L)) + tuple((q, j + 1, d) for q, j, _ in ps)
        return ("go", forget(Conf(head, env2, encl + ((L, head, frozenset(env2)),))))
    if p.end[0] == "cont":
        _, L, u = p.end
        assert encl and encl[-1][0] is L
        keep = encl[-1][2]
        env2 = {x: v for x, v in env.items() if x in keep}
        for lv, v in u.items():
            env2[lv] = nf(v)
        return ("go", forget(Conf(encl[-1][1], env2, encl)))
    return ("ret", p.end[1], nf)


class Mismatch(Exception):
    def __init__(self, cat, msg):
        self.cat, self.msg = cat, msg


_num = re.compile(r"(?<!impl)#(\d+)")


def canon(*parts):
    names = {}
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(_num.sub(lambda m: "#%d" % names.setdefault(m.group(1), len(names)), p))
        else:
            out.append(p)
    return tuple(out)


def weight(k):
    return sum(len(x) for x in k if isinstance(x, str))


LAG = 20000  # length of a configuration, far beyond what a stage which keeps up with its input has


def explore(paths, functions, states, spec, choices, kinds, limit=60000):
    """Explore an adaptor together with its specification.

    paths: of `next`; functions: name -> paths of functions it ends in by calling itself;
    states: initial (Conf or state term, spec) pairs; choices(stream, spec) -> [(new stream term, spec)].
    Returns (configurations, outputs compared, [(category, message)]).
    """
    seen, todo, bad = set(), [], []
    outs = 0

    def push(c, sp):
        k = canon(*c.key(), sp.show())
        if k not in seen:
            if weight(k) > LAG:
                raise Stuck("takes in more and more before it gives out what it has to")
            seen.add(k)
            todo.append((c, sp))

    for c, sp in states:
        push(c, sp)
    while todo:
        if len(seen) > limit:
            raise Stuck("too many configurations")
        c, sp = todo.pop()
        try:
            r = step(c, kinds)
        except Need as n:
            for t, sp2 in choices(n.stream, sp):
                push(c.subst({n.stream: t}), sp2)
            continue
        if r[0] == "go":
            push(r[1], sp)
            continue
        _, row, nf = r
        ret = nf(row.ret)
        if ret.op == "app" and ret.a[0] in functions and len(ret.a[1]) >= 1:
            push(start(functions[ret.a[0]], {sym("self"): ret.a[1][0]}), sp)
            continue
        fin = nf(row.final("self"))
        sp2 = sp.copy()
        try:
            more = sp2.take(ret)
        except Mismatch as m:
            if len(bad) < 40:
                bad.append((m.cat, m.msg, sp.show()))
            continue
        outs += 1
        if more:
            push(start(paths, {sym("self"): fin}), sp2)
    return len(seen), outs, bad
