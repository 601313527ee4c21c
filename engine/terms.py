"""Hash-consed terms: the abstract values of the dataflow."""


class T:
    __slots__ = ("op", "a", "_r", "_sz")

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return skey(self) < skey(other)


_tab = {}


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t._r = None
        t._sz = None
        _tab[k] = t
    return t


def skey(t):
    return show(t)


def _sh(x):
    if isinstance(x, T):
        return show(x)
    if isinstance(x, tuple):
        return "(" + ",".join(_sh(y) for y in x) + ")"
    if isinstance(x, frozenset):
        return "{" + ",".join(sorted(_sh(y) for y in x)) + "}"
    return repr(x) if isinstance(x, str) else str(x)


def short(p):
    return p.rsplit("::", 1)[-1] if isinstance(p, str) else str(p)


def show(t):
    if t._r is None:
        o, a = t.op, t.a
        if o == "sym":
            r = a[0]
        elif o == "lit":
            r = repr(a[1]) if a[0] == "str" else ("'%s'" % a[1] if a[0] == "char" else str(a[1]))
        elif o == "fld":
            r = f"{show(a[0])}.{a[1]}"
        elif o == "pay":
            r = f"{show(a[0])}~{a[1]}.{a[2]}"
        elif o == "adt":
            n = short(a[0])
            if a[1] != n:
                n = f"{n}::{a[1]}" if n not in ("Option", "Result") else a[1]
            r = n
            if a[2]:
                if all(f.isdigit() for f, _ in a[2]):
                    r += "(" + ", ".join(show(v) for _, v in a[2]) + ")"
                else:
                    r += "{" + ", ".join(f"{f}: {show(v)}" for f, v in a[2]) + "}"
        elif o == "tup":
            r = "(" + ", ".join(show(x) for x in a[0]) + ")"
        elif o == "app":
            r = f"{a[0]}(" + ", ".join(_sh(x) for x in a[1]) + ")"
        elif o == "el":
            r = f"each[{show(a[0])}]"
        elif o == "seq":
            out = []
            for p in a[0]:
                if p[0] == "one":
                    out.append(show(p[1]))
                elif p[0] == "all":
                    out.append("*" + show(p[1]))
                else:
                    out.append(
                        "for %s {%s}"
                        % (
                            show(p[1]),
                            "; ".join(
                                showg(g) + " => " + show(seq(ps)) for g, ps in p[2]
                            ),
                        )
                    )
            r = "[" + ", ".join(out) + "]"
        elif o == "clo":
            r = f"|{a[0].split('::', 1)[-1]}|"
        elif o == "with":
            r = show(a[0]) + "{" + ", ".join(f"{_sh(k)}:={show(v)}" for k, v in a[1]) + "}"
        else:
            r = o + "<" + ", ".join(_sh(x) for x in a) + ">"
        t._r = r
    return t._r


def showg(g):
    return " & ".join(("" if p else "!") + show(c) for c, p in g) or "always"


# ---- constructors


def sym(n):
    return mk("sym", n)


def lit(kind, v):
    return mk("lit", kind, v)


TRUE = lit("bool", True)
FALSE = lit("bool", False)


def lbool(b):
    return TRUE if b else FALSE


def lstr(s):
    return lit("str", s)


def lint(n):
    return lit("int", n)


def app(n, *args):
    return mk("app", n, tuple(args))


def tup(*xs):
    return mk("tup", tuple(xs))


UNIT = tup()


def adt(name, variant, fields):
    if isinstance(fields, dict):
        fields = tuple(sorted(fields.items()))
    return mk("adt", name, variant, fields)


OPT = "core::option::Option"
RES = "core::result::Result"


def some(x):
    return adt(OPT, "Some", {"0": x})


NONE = adt(OPT, "None", {})


def ok(x):
    return adt(RES, "Ok", {"0": x})


def err(x):
    return adt(RES, "Err", {"0": x})


def el(src):
    return mk("el", src)


# sequences: parts are ('one',t) | ('all',t) | ('each',src,rows), rows = ((guards, parts),...)


def seq(parts):
    out = []
    for p in parts:
        if p[0] == "all":
            t = p[1]
            if t.op == "seq":
                out.extend(t.a[0])
                continue
            if t.op == "lit" and t.a[0] == "str" and t.a[1] == "":
                continue
        elif p[0] == "each":
            rows = p[2]
            if len(rows) == 0 or all(not ps for _, ps in rows):
                continue
            if len(rows) == 1 and not rows[0][0] and rows[0][1] == (("one", el(p[1])),):
                out.append(("all", p[1]))
                continue
        # merge adjacent literals
        if (
            p[0] == "all"
            and out
            and out[-1][0] == "all"
            and out[-1][1].op == "lit"
            and p[1].op == "lit"
            and out[-1][1].a[0] == p[1].a[0] == "str"
        ):
            out[-1] = ("all", lstr(out[-1][1].a[1] + p[1].a[1]))
            continue
        out.append(p)
    if len(out) == 1 and out[0][0] == "all":
        return out[0][1]
    return mk("seq", tuple(out))


EMPTY = mk("seq", ())


def parts(t):
    if t.op == "seq":
        return t.a[0]
    return (("all", t),)


def cat(*ts):
    ps = []
    for t in ts:
        ps.extend(parts(t))
    return seq(ps)


def one(*xs):
    return mk("seq", tuple(("one", x) for x in xs))


# ---- projections


def fld(t, f):
    o = t.op
    if o == "tup":
        return t.a[0][int(f)]
    if o == "adt":
        for n, v in t.a[2]:
            if n == f:
                return v
    if o == "with":
        for k, v in t.a[1]:
            if k == ("f", f):
                return v
        return fld(t.a[0], f)
    if o == "el" and t.a[0].op == "seq":
        pass
    return mk("fld", t, f)


def pay(t, variant, f):
    o = t.op
    if o == "adt":
        if t.a[1] == variant:
            for n, v in t.a[2]:
                if n == f:
                    return v
    if o == "with":
        for k, v in t.a[1]:
            if k == ("v", variant, f):
                return v
        return pay(t.a[0], variant, f)
    return mk("pay", t, variant, f)


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == "lit" and b.op == "lit":
        return lbool(a.a[1] == b.a[1])
    if show(b) < show(a):
        a, b = b, a
    return app("eq", a, b)


# maps


def mset(m, k, v):
    if m.op == "mset" and m.a[1] is k:
        m = m.a[0]
    if v.op == "ent" and v.a[0] is m and v.a[1] is k:
        return m
    return mk("mset", m, k, v)


def mrem(m, k):
    if m.op == "mrem" and m.a[1] is k:
        return m
    if m.op == "mset" and m.a[1] is k:
        return mrem(m.a[0], k)
    return mk("mrem", m, k)


MEMPTY = mk("mempty")


def distinct(a, b):
    return a.op == "lit" and b.op == "lit" and a is not b


def ent(m, k):
    if m.op == "mset":
        if m.a[1] is k:
            return m.a[2]
        if distinct(m.a[1], k):
            return ent(m.a[0], k)
    return mk("ent", m, k)


def proj(t, p):
    if p[0] == "f":
        return fld(t, p[1])
    if p[0] == "v":
        return pay(t, p[1], p[2])
    if p[0] == "k":
        return ent(t, p[1])
    if p[0] == "i":
        return index(t, p[1])
    raise KeyError(p)


def index(t, i):
    if t.op == "upd" and t.a[1] is i:
        return t.a[2]
    if t.op == "seq" and i.op == "lit" and isinstance(i.a[1], int):
        if all(p[0] == "one" for p in t.a[0]) and i.a[1] < len(t.a[0]):
            return t.a[0][i.a[1]][1]
    if i.op == "app" and i.a[0] == "Sub" and i.a[1][1] is lint(1) and i.a[1][0].op == "app" and i.a[1][0].a[0] in ("len", "count") and i.a[1][0].a[1][0] is t:
        return app("last", t)
    return app("index", t, i)


def upd(t, p, v):
    if p[0] == "k":
        return mset(t, p[1], v)
    if p[0] == "i":
        if t.op == "upd" and t.a[1] is p[1]:
            t = t.a[0]
        return mk("upd", t, p[1], v)
    if t.op == "tup":
        l = list(t.a[0])
        l[int(p[1])] = v
        return tup(*l)
    if t.op == "adt":
        d = dict(t.a[2])
        f = p[1] if p[0] == "f" else p[2]
        if f in d or not d:
            d[f] = v
            return adt(t.a[0], t.a[1], d)
    if t.op == "with":
        base, kv = t.a
        d = dict(kv)
    else:
        base, d = t, {}
    if proj(base, p) is v:
        d.pop(p, None)
    else:
        d[p] = v
    if not d:
        return base
    return mk("with", base, tuple(sorted(d.items(), key=lambda kv: repr(kv[0]))))


# ---- traversal


def children(t):
    def go(x):
        if isinstance(x, T):
            yield x
        elif isinstance(x, (tuple, frozenset)):
            for y in x:
                yield from go(y)

    for x in t.a:
        yield from go(x)


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(children(x))


def mentions(t, x):
    return any(s is x for s in subterms(t))


def rebuild(t):
    """Re-normalise a term whose arguments changed."""
    o, a = t.op, t.a
    if o == "fld":
        return fld(*a)
    if o == "pay":
        return pay(*a)
    if o == "seq":
        return seq(a[0])
    if o == "ent":
        return ent(*a)
    if o == "mset":
        return mset(*a)
    if o == "mrem":
        return mrem(*a)
    if o == "app":
        if a[0] == "eq":
            return eq(*a[1])
        if a[0] == "index":
            return index(*a[1])
        if a[0] in ("BitAnd", "BitOr", "BitXor"):
            x, y = a[1]
            if x.op != "lit":
                x, y = y, x
            if x.op == "lit" and x.a[0] == "bool":
                if a[0] == "BitAnd":
                    return y if x.a[1] else FALSE
                if a[0] == "BitOr":
                    return TRUE if x.a[1] else y
                if y.op == "lit":
                    return lbool(x.a[1] != y.a[1])
    return t


def subst(t, m, memo=None):
    """Replace subterms by the mapping m."""
    if memo is None:
        memo = {}

    def go(t):
        r = m.get(t)
        if r is not None:
            return r
        r = memo.get(t)
        if r is None:
            na = tuple(gx(x) for x in t.a)
            if all(x is y for x, y in zip(na, t.a)):
                r = t
            else:
                r = rebuild(mk(t.op, *na))
            memo[t] = r
        return r

    def gx(x):
        if isinstance(x, T):
            return go(x)
        if isinstance(x, tuple):
            n = tuple(gx(y) for y in x)
            return x if all(p is q for p, q in zip(n, x)) else n
        if isinstance(x, frozenset):
            return frozenset(gx(y) for y in x)
        return x

    return go(t)
