"""C16: arithmetic expressions have standard structure and operators."""
from common import *
from syntax import *
import itertools

EXPLANATION = (
    "The recursive grammar of expressions is extracted from the type-checked program and interpreted, with the functions it maps over its "
    "results, on token sequences: every sequence of expression tokens up to a length, and every expression of the specification up to a "
    "greater one, must give the tree and the extent the specification gives. The conversion of a tree to its value is summarised by "
    "unrolling it on every tree up to depth two (with each operator at each place) into a term over decimal operations, which must be the "
    "operators applied in order, rescaled to the greatest scale among the numbers. An obligation is one token sequence or one tree."
)
ASSUMPTIONS = [
    "rust_decimal's operations compute what they are named after and rescale rounds to the given scale",
    "chumsky's combinators parse as documented (ordered choice, greedy repetition)",
]
FLOOR = 4000
TECHNIQUE = "grammar extraction from the type-checked program, interpreted over token sequences; unrolled dataflow summaries of evaluation"

OPS = {"Plus": "Add", "Minus": "Sub", "Asterisk": "Mul", "Slash": "Div"}
ALPHA = ("Number", "Plus", "Minus", "Asterisk", "Slash", "Lparen", "Rparen")


# ---------------------------------------------------------------- specification


def spec(w):
    """(tree, tokens consumed) by the specification, or None."""

    def level(i, ops, sub):
        r = sub(i)
        if r is None:
            return None
        t, i = r
        while i < len(w) and w[i] in ops:
            r = sub(i + 1)
            if r is None:
                break
            t, i = (OPS[w[i]], t, r[0]), r[1]
        return t, i

    def expr(i):
        return level(i, ("Plus", "Minus"), product)

    def product(i):
        return level(i, ("Asterisk", "Slash"), factor)

    def factor(i):
        if i < len(w) and w[i] in ("Plus", "Minus"):
            r = primary(i + 1)
            if r is None:
                return None
            return (("Neg", r[0]) if w[i] == "Minus" else r[0]), r[1]
        return primary(i)

    def primary(i):
        if i < len(w) and w[i] == "Number":
            return ("Value", i), i + 1
        if i < len(w) and w[i] == "Lparen":
            r = expr(i + 1)
            if r is not None and r[1] < len(w) and w[r[1]] == "Rparen":
                return ("Paren", r[0]), r[1] + 1
        return None

    return expr(0)


def sentences(n):
    """Expressions of the specification of up to n tokens."""

    def prim(k):
        if k == 1:
            yield ("Number",)
        elif k >= 3:
            for e in ex(k - 2):
                yield ("Lparen",) + e + ("Rparen",)

    def fact(k):
        yield from prim(k)
        if k > 1:
            for s in ("Plus", "Minus"):
                for e in prim(k - 1):
                    yield (s,) + e

    def chain(k, ops, sub):
        yield from sub(k)
        for i in range(1, k - 1):
            for l in chain(i, ops, sub):
                for o in ops:
                    for r in sub(k - i - 1):
                        yield l + (o,) + r

    def prod(k):
        return chain(k, ("Asterisk", "Slash"), fact)

    memo = {}

    def ex(k):
        if k not in memo:
            memo[k] = sorted(set(chain(k, ("Plus", "Minus"), prod)))
        return memo[k]

    for k in range(1, n + 1):
        yield from ex(k)


# ---------------------------------------------------------------- the program's grammar


class Interp:
    """Interprets grammar nodes on a sequence of token classes."""

    def __init__(self, ev, ctx):
        self.ev, self.ctx = ev, ctx
        self.memo = {}
        self.applied = {}

    def parse(self, n, w):
        self.w = w
        self.memo = {}
        return self.p(n, 0)

    def p(self, n, i):
        k = (n.id, i)
        if k not in self.memo:
            self.memo[k] = self.q(n, i)
        return self.memo[k]

    def q(self, n, i):
        k, w = n.kind, self.w
        if k == "tok":
            if i >= len(w):
                return None
            for c, val in n.alts:
                if c == w[i]:
                    tok = sym(f"tok{i}")
                    return (subst(val, {sym("token"): tok}) if val is not None else tok), i + 1
            return None
        if k == "end":
            return (UNIT, i) if i >= len(w) else None
        if k == "seq":
            vs = []
            for x in n.kids:
                r = self.p(x, i)
                if r is None:
                    return None
                vs.append(r[0])
                i = r[1]
            return (tup(*vs) if n.val == "tuple" else UNIT if n.val == "unit" else vs[-1] if n.val == "last" else vs[n.val]), i
        if k == "alt":
            for x in n.kids:
                r = self.p(x, i)
                if r is not None:
                    return r
            return None
        if k == "opt":
            r = self.p(n.kids[0], i)
            return (some(r[0]), r[1]) if r is not None else (NONE, i)
        if k in ("same", "collect", "rec"):
            return self.p(n.kids[0], i)
        if k == "recref":
            return self.p(n.target, i)
        if k == "rep":
            vs = []
            while n.hi is None or len(vs) < n.hi:
                r = self.p(n.kids[0], i)
                if r is None or r[1] == i:
                    break
                vs.append(r[0])
                i = r[1]
            if len(vs) < n.lo:
                return None
            return mk("seq", tuple(("one", v) for v in vs)), i
        if k == "foldl":
            r = self.p(n.kids[0], i)
            if r is None:
                return None
            acc, i = r
            r = self.p(n.kids[1], i)
            if r is None:
                return None
            for x in parts(r[0]):
                acc = self.only(self.apply(n.f, [acc, x[1]]))
            return acc, r[1]
        if k == "fn":
            r = self.p(n.kids[0], i)
            if r is None:
                return None
            if n.how == "to":
                return n.f, r[1]
            if n.how == "map":
                return self.only(self.apply(n.f, [r[0]])), r[1]
        raise Unsupported(f"{k} {getattr(n, 'how', '')} in an expression")

    def apply(self, f, args):
        k = (f, tuple(args))
        if k not in self.applied:
            self.applied[k] = self.ev.apply_refs(f, args, {})
        return self.applied[k]

    def only(self, rows):
        if len(rows) != 1 or rows[0][0]:
            raise Unsupported(f"an expression which depends on {showg(rows[0][0])[:200] if rows else 'nothing'}")
        return rows[0][1]


def tree(t):
    """An Expr term as a tree."""
    if t.op != "adt":
        raise Unsupported(f"not an expression: {str(t)[:200]}")
    if t.a[1] == "Value":
        v = fld(t, "0")
        s = [x for x in subterms(v) if x.op == "sym" and x.a[0].startswith("tok")]
        if v.op == "pay" and v.a[1:] == ("Number", "0") and len(s) == 1:
            return ("Value", int(s[0].a[0][3:]))
        raise Unsupported(f"not the number: {str(v)[:200]}")
    return (t.a[1],) + tuple(tree(v) for _, v in t.a[2])


# ---------------------------------------------------------------- evaluation

EXPR = None


def term(tr, adtname):
    if tr[0] == "Value":
        return adt(adtname, "Value", {"0": sym(f"n{tr[1]}")})
    return adt(adtname, tr[0], {str(i): term(x, adtname) for i, x in enumerate(tr[1:])})


def trees(depth):
    if depth == 0:
        return [("Value",)]
    sub = trees(depth - 1)
    out = [("Value",)]
    for o in ("Add", "Sub", "Mul", "Div"):
        out += [(o, a, b) for a in sub for b in sub]
    out += [(o, a) for o in ("Neg", "Paren") for a in sub]
    return out


def number(tr, c=None):
    """Number the leaves."""
    c = c if c is not None else itertools.count()
    if tr[0] == "Value":
        return ("Value", next(c))
    return (tr[0],) + tuple(number(x, c) for x in tr[1:])


NAMES = {
    "Decimal::checked_add": "Add", "Decimal::checked_sub": "Sub", "Decimal::checked_mul": "Mul", "Decimal::checked_div": "Div",
    "Add": "Add", "Sub": "Sub", "Mul": "Mul", "Div": "Div",
    "Add::add": "Add", "Sub::sub": "Sub", "Mul::mul": "Mul", "Div::div": "Div",
    "Neg": "Neg", "Neg::neg": "Neg", "Decimal::neg": "Neg",
}


def calc(t):
    """A decimal term as a tree of operations."""
    if t.op == "sym" and t.a[0].startswith("n"):
        return ("Value", int(t.a[0][1:]))
    if t.op == "pay" and t.a[1] == "Some":
        return calc(t.a[0])
    if t.op == "app" and t.a[0] in NAMES:
        return (NAMES[t.a[0]],) + tuple(calc(x) for x in t.a[1])
    raise Unsupported(f"not an operation on decimals: {str(t)[:200]}")


def scales(t):
    """The numbers over whose scales a maximum is taken."""
    if t.op == "app" and t.a[0] in ("cmp::max", "Ord::max"):
        return scales(t.a[1][0]) | scales(t.a[1][1])
    if t.op == "app" and t.a[0] == "Decimal::scale":
        return {calc(t.a[1][0])[1]} if t.a[1][0].op == "sym" else {("scale of", str(t.a[1][0]))}
    raise Unsupported(f"not a scale: {str(t)[:200]}")


def dominated(sc, g):
    """Also the numbers whose scale is known to be no greater than that of one of these."""
    le = []
    for c, pol in g:
        if c.op == "app" and c.a[0] == "lt":
            x, y = c.a[1] if pol else c.a[1][::-1]
            try:
                le.append((scales(x), scales(y)))
            except Unsupported:
                pass
    sc = set(sc)
    while True:
        more = set().union(*(x for x, y in le if y <= sc), set()) - sc
        if not more:
            return sc
        sc |= more


def meaning(tr):
    """The value of a tree: parentheses mean nothing."""
    if tr[0] == "Paren":
        return meaning(tr[1])
    if tr[0] == "Value":
        return tr
    return (tr[0],) + tuple(meaning(x) for x in tr[1:])


def leaves(tr):
    return {tr[1]} if tr[0] == "Value" else set().union(*(leaves(x) for x in tr[1:]))


def value_of(ctx, key, tr, rows, t, where):
    """The rows of a conversion of the tree t give its value, or nothing where an operation has none."""
    good = 0
    for g, v in rows:
        if v.op == "adt" and v.a[1] in ("Some", "Ok"):
            v = fld(v, "0")
        elif v is NONE or (v.op == "adt" and v.a[1] == "Err"):
            okn = any(
                c.op == "is" and ((c.a[1] == "None") == pp) and c.a[0].op == "app" and c.a[0].a[0].startswith("Decimal::checked_") for c, pp in g
            )
            ctx.ob(f"{key}/none", okn, f"{tr} has no value when {showg(g)[-300:]}", where)
            continue
        good += 1
        val, ex = fld(v, "value"), fld(v, "expr")
        try:
            if not (val.op == "app" and val.a[0] == "after:Decimal::rescale#0"):
                raise Unsupported(f"not rescaled: {str(val)[:200]}")
            got, sc = calc(val.a[1][0]), dominated(scales(val.a[1][1]), g)
            ctx.ob(f"{key}/value", got == meaning(tr), f"{tr} evaluates to {got}", where)
            ctx.ob(f"{key}/scale", sc == leaves(tr), f"{tr} is rounded to the greatest scale of {sc}", where)
        except Unsupported as x:
            ctx.ob(f"{key}/value", False, f"{tr}: {x}", where)
        ctx.ob(f"{key}/kept", ex is t, f"the expression kept is {str(ex)[:200]}", where)
    ctx.ob(f"{key}/paths", good >= 1, f"{good} paths with a value for {tr}", where)


def run(ctx):
    p = ctx.p
    s = Syntax(ctx)
    recs = [n for n in s.nodes if n.kind == "rec"]
    ctx.ob("grammar/found", len(recs) >= 1, f"{len(recs)} recursive rules", "")
    where = "parsers::expr"
    short_len = 6 if ctx.tier == "thorough" else 5
    long_len = 9 if ctx.tier == "thorough" else 8
    ws = set(w for k in range(0, short_len + 1) for w in itertools.product(ALPHA, repeat=k))
    ws |= set(sentences(long_len))
    for n in recs:
        I = Interp(s.g.ev, ctx)
        for w in sorted(ws):
            want = spec(w)
            try:
                r = I.parse(n, w)
                got = (tree(r[0]), r[1]) if r is not None else None
                msg = f"{' '.join(w)}: {got}, expected {want}"
            except Unsupported as x:
                got, msg = "?", str(x)
            key = "grammar/" + ("accepted" if want else "refused")
            ctx.ob(key, got == want, msg, where)
        # nothing but expression tokens
        cls = s.g.classes(n)
        ctx.ob("grammar/tokens", cls == set(ALPHA), f"tokens of expressions: {sorted(cls)}", where)
    # what becomes of a tree
    en = next(k for k in p.adts if k.endswith("types::Expr"))
    global EXPR
    EXPR = en
    uses = [(n, k) for n in s.nodes for k in n.kids if strip_same(k).kind == "rec"]
    conv = [n for n, k in uses if n.kind == "fn"]
    ctx.ob("uses", conv and all(n.kind == "fn" or n.kind in ("same", "rec", "foldl", "seq", "alt") for n, _ in uses), f"{len(uses)} uses of expressions", where)
    ev = s.g.ev
    ev.unroll = True
    for tr0 in trees(2):
        tr = number(tr0)
        t = term(tr, en)
        for n in conv:
            rows = [(g, v) for g, v, _, _ in apply_fn(ev, n, t, sym("span"))]
            value_of(ctx, "evaluate", tr, rows, t, where)
    # the public conversion
    b = p.method("ExprValue", "from", "From")
    for tr0 in trees(1):
        tr = number(tr0)
        t = term(tr, en)
        e2 = Ev(p)
        e2.unroll = True
        rows = [(r.guards, r.ret) for r in e2.run(b, args=[t])]
        value_of(ctx, "from", tr, rows, t, ctx.at(b))
    ctx.analysed.add(b["path"])
    # how it is rendered
    import c22

    for ty in ("Expr", "ExprValue"):
        c22.element(ctx, ty, p.method(ty, "fmt", "Display"))


def strip_same(n):
    while n.kind in ("same",):
        n = n.kids[0]
    return n
