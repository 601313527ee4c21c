"""Tables shared by several rules."""
from rulelib import *

SELF = sym("self")


def S(path):
    t = SELF
    for f in path.split("."):
        t = fld(t, f)
    return t


class M:
    """A matcher for an output: a predicate with a description."""

    def __init__(self, what, f):
        self.what, self.f = what, f

    def __call__(self, v, row):
        return self.f(v, row)

    def __repr__(self):
        return "<" + self.what + ">"


ANY = M("anything", lambda v, r: True)


def appended(v, base):
    """The parts v adds after base, or None if v does not extend base."""
    ps, bs = parts(v), parts(base)
    if tuple(ps[: len(bs)]) == tuple(bs):
        return tuple(ps[len(bs) :])
    return None


def report_fields(e):
    """The fields of an error or warning term."""
    for _ in range(6):
        if e.op == "adt":
            d = dict(e.a[2])
            if "span" in d and "message" in d:
                return d
            if "0" in d and len(d) == 1:
                e = d["0"]
                continue
        return None
    return None


def adds_error(base, span=None):
    """Exactly one error is appended (with the given span)."""

    def f(v, row):
        ps = appended(v, base)
        if not ps or len(ps) != 1 or ps[0][0] != "one":
            return False
        e = ps[0][1]
        if span is None:
            return True
        d = report_fields(e)
        return d is not None and d["span"] is span

    return M(f"{base} with one more error" + (f" at {span}" if span is not None else ""), f)


def extends(base):
    return M(f"{base}, possibly extended", lambda v, r: appended(v, base) is not None)


def match_out(spec, v, row):
    if callable(spec):
        return spec(v, row)
    return v is spec


def check_table(ctx, key, rows, spec, get, where="", cover=True):
    """Every row agrees with every row of the specification it is compatible with.

    rows: objects with .guards; spec: [(name, guards, {output: term|matcher})];
    get(row, output) gives the actual value.
    """
    for name, g, outs in spec:
        n = 0
        for r in rows:
            if not consistent(r.guards, g):
                continue
            n += 1
            for o, want in outs.items():
                v = get(r, o)
                okv = match_out(want, v, r)
                ctx.ob(
                    f"{key}/{name}/{o}",
                    okv,
                    f"when {showg(r.guards)[-500:]}: {o} is {str(v)[:400]}, expected {str(want)[:300]}" if not okv else f"{o} = {str(v)[:160]}",
                    where,
                )
        if cover:
            ctx.ob(f"{key}/{name}/covered", n > 0, f"no path for the case {name}: {showg(g)[:300]}" if not n else f"{n} paths", where)


# ---------------------------------------------------------------- the pragma processor

DECLS = S("current_declarations")
DECL = app("head", DECLS)
PRAGMA = pay(fld(DECL, "item"), "Pragma", "0")
DIRECTIVE = pay(fld(DECL, "item"), "Directive", "0")
PRAGMAS = ("Pushtag", "Poptag", "Pushmeta", "Popmeta", "Include", "Option", "Plugin")

HAVE = (app("nonempty", DECLS), True)
G_DIR = (HAVE, (is_(fld(DECL, "item"), "Directive"), True))


def g_pragma(kind):
    return (HAVE, (is_(fld(DECL, "item"), "Pragma"), True), (is_(PRAGMA, kind), True))


G_POP = ((app("nonempty", DECLS), False), (app("nonempty", S("stacked")), True))
G_END = ((app("nonempty", DECLS), False), (app("nonempty", S("stacked")), False))


def arg(kind, f="0"):
    return pay(PRAGMA, kind, f)


def processor(ctx, opaque=("Options::assimilate", "sources::resolve_included_path")):
    b = ctx.p.method("PragmaProcessor", "next", "Iterator")
    rows = ctx.run(b, opaque=opaque)
    return b, steps(rows)


def step_get(r, o):
    if o == "ret":
        return r.ret if r.ret is not None else sym("no item")
    return r.get("self." + o)


def fold_rows(v, base, src):
    """The per-element table of an accumulated value: rows with .guards and .val, where acc<> is
    the value before the element."""
    class R:
        pass

    if v is base:
        r = R()
        r.guards, r.val = (), mk("acc")
        return [r]
    if v.op == "fold" and v.a[0] is base and v.a[1] is src:
        out = []
        for g, t in v.a[2]:
            r = R()
            r.guards, r.val = g, t
            out.append(r)
        return out
    if v.op == "seq":
        # appended once per element
        ps = appended(v, base)
        if ps and len(ps) == 1 and ps[0][0] == "each" and ps[0][1] is src:
            out = []
            for g, pp in ps[0][2]:
                r = R()
                r.guards, r.val = g, cat(mk("acc"), seq(pp))
                out.append(r)
            return out
    return None


# ---------------------------------------------------------------- accessors


def identity(ret, want, guards):
    """Is ret the value want, given the guards (an option may be taken apart and rebuilt)?"""
    if ret is want:
        return True
    g = dict(guards)
    if ret is NONE:
        return g.get(is_(want, "None")) is True or g.get(is_(want, "Some")) is False
    if ret.op == "adt" and ret.a[1] == "Some":
        return identity(fld(ret, "0"), pay(want, "Some", "0"), guards)
    if ret.op == "lit" and ret.a[0] == "bool":
        return g.get(want) is ret.a[1]
    if ret.op == "seq":
        ps = parts(ret)
        if len(ps) == 1 and ps[0][0] == "all":
            return identity(ps[0][1], want, guards)
        if len(ps) == 1 and ps[0][0] == "each" and ps[0][1] is want:
            return all(
                len(pp) == 1 and pp[0][0] == "one" and identity(pp[0][1], el(want), g2) for g2, pp in ps[0][2]
            ) and complete([g2 for g2, _ in ps[0][2]])
    if ret.op == "adt" and ret.a[2]:
        # rebuilt from its own parts
        if all(identity(v, fld(want, f), guards) for f, v in ret.a[2]):
            return True
        return all(identity(v, pay(want, ret.a[1], f), guards) for f, v in ret.a[2])
    return False


def accessor(ctx, key, ty, name, want, trait=None, params=None):
    """Type::name returns want on every path and changes nothing."""
    b = ctx.p.method(ty, name, trait)
    check_accessor(ctx, key, b, want)


def check_accessor(ctx, key, b, want):
    rows = ctx.run(b)
    ctx.ob(f"{key}/paths", len(rows) >= 1, f"{len(rows)} paths", ctx.at(b))
    for r in rows:
        okv = identity(r.ret, want, r.guards)
        same = all(r.final(p) is sym(p) for p in r.params)
        ctx.ob(key, okv, f"when {showg(r.guards)[:200]} returns {str(r.ret)[:300]}, expected {str(want)[:200]}", ctx.at(b))
        ctx.ob(f"{key}/unchanged", same, "changes nothing", ctx.at(b))


def impl_ids(ctx, types, methods=("try_from", "from_str")):
    """The bodies of trait methods of some types, to be taken as units."""
    return tuple(
        b["id"]
        for b in ctx.p.bodies.values()
        if b["name"] in methods and b.get("trait") and b.get("self") is not None and short(ctx.p.types[b["self"]]["h"]) in types
    )
