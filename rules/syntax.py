"""The documented syntax, as regular expressions over token classes, and shared grammar access.

Symbols: the token classes of the lexer, with two refinements: an arithmetic expression is one
symbol (Number if it is a bare number, EXPR otherwise; the structure of expressions is C16), and a
string that names a booking method is BookingString.
"""
from grammar import *
from common import *

EX = ("sym", frozenset(["Number", "EXPR"]))
STR = ("sym", frozenset(["StringLiteral", "BookingString"]))
EOL = ralt("Eol", REND)
FLAG = ralt("DedicatedFlag", "Asterisk", "Hash")
AMOUNT = rseq(EX, "Currency")
VALUE = ralt(AMOUNT, STR, "Currency", "Account", "Tag", "Link", "Date", "True", "False", "Null", EX)
KEYVALUE = rseq("Key", "Colon", ropt(VALUE))
METADATA = rstar("Indent", ralt(KEYVALUE, "Tag", "Link"), EOL)
TAGSLINKS = rstar(ralt("Tag", "Link"))
COMP = ralt(
    rseq(EX, ropt("Hash", ropt(EX)), ropt("Currency")),
    rseq("Hash", EX, ropt("Currency")),
    rseq(ropt("Hash"), "Currency"),
    "Date", STR, "Asterisk",
)
COST = rseq("Lcurl", ropt(COMP, rstar("Comma", COMP)), "Rcurl")
PRICE = rseq(ralt("At", "AtAt"), ropt(EX), ropt("Currency"))
POSTING = rseq("Indent", ropt(FLAG), "Account", ropt(EX), ropt("Currency"), ropt(COST), ropt(PRICE), EOL, METADATA)
CURRENCIES1 = rseq("Currency", rstar("Comma", "Currency"))


def directive(kw, *body, tags=True):
    return rseq("Date", kw, *body, *([TAGSLINKS] if tags else []), EOL, METADATA)


DIRECTIVES = {
    "Transaction": rseq("Date", ralt("Txn", FLAG), ropt(STR, ropt(STR)), TAGSLINKS, EOL, METADATA, rstar(POSTING)),
    "Price": directive("Price", "Currency", AMOUNT),
    "Balance": directive("Balance", "Account", EX, ropt("Tilde", "Number"), "Currency"),
    "Open": directive("Open", "Account", ropt(CURRENCIES1), ropt("BookingString")),
    "Close": directive("Close", "Account"),
    "Commodity": directive("Commodity", "Currency"),
    "Pad": directive("Pad", "Account", "Account"),
    "Document": directive("Document", "Account", STR),
    "Note": directive("Note", "Account", STR),
    "Event": directive("Event", STR, STR),
    "Query": directive("Query", STR, STR),
    "Custom": directive("Custom", STR, rstar(VALUE), tags=False),
}
PRAGMA_SYNTAX = {
    "Pushtag": rseq("Pushtag", "Tag"),
    "Poptag": rseq("Poptag", "Tag"),
    "Pushmeta": rseq("Pushmeta", KEYVALUE),
    "Popmeta": rseq("Popmeta", "Key", "Colon"),
    "Include": rseq("Include", STR),
    "Option": rseq("Option", STR, STR),
    "Plugin": rseq("Plugin", STR, ropt(STR)),
}
FILE = rstar(ralt(*DIRECTIVES.values(), *[rseq(x, EOL) for x in PRAGMA_SYNTAX.values()]))
BOOKINGS = {"STRICT", "STRICT_WITH_SIZE", "NONE", "AVERAGE", "FIFO", "LIFO", "HIFO"}


class Syntax:
    """The grammar of a file, with the abstraction to symbols."""

    def __init__(self, ctx, opaque=()):
        self.ctx = ctx
        self.g = Grammar(ctx.p, Ev(ctx.p, opaque=opaque) if opaque else None)
        self.fb = ctx.p.one("parsers::file")
        rows = self.g.ev.run(self.fb)
        if len(rows) != 1:
            raise Unsupported(f"the grammar has {len(rows)} cases")
        self.root = self.g.node(rows[0].ret)
        for x in self.g.ev.inlined:
            ctx.analysed.add(x)
        self.nodes = list(self.g.walk(self.root))
        self.alphabet = sorted(set(self.g.tokens) | {"EXPR", "BookingString"})
        self._lit = {}
        self._lang = {}

    def abstract(self, n):
        if n.kind == "rec":
            return {"Number", "EXPR"}
        if n.kind == "tok":
            return self.syms(n)
        if n.kind == "fn" and n.how in ("try_map", "try_map_with"):
            ls = self.literals(n)
            if ls is not None:
                if ls == BOOKINGS:
                    return {"BookingString"}
                return {"literal " + "/".join(sorted(ls))}
        return None

    def syms(self, n):
        s = {c for c, _ in n.alts}
        if "StringLiteral" in s:
            s.add("BookingString")
        return s

    def literals(self, n):
        """The literal strings to which a fallible conversion of a string token restricts it."""
        if n.id in self._lit:
            return self._lit[n.id]
        r = None
        k = strip_values(n.kids[0])
        if k.kind == "tok" and [c for c, _ in k.alts] == ["StringLiteral"]:
            v = sym("string")
            rows = apply_fn(self.g.ev, n, v, sym("span"))
            lits, other = set(), False
            for g, val, em, st in rows:
                if val.op == "adt" and val.a[1] == "Ok":
                    pos = [a for a, p in g if p and a.op == "app" and a.a[0] == "eq"]
                    ls = {x.a[1] for a in pos for x in a.a[1] if x.op == "lit" and v in a.a[1]}
                    if len(ls) == 1:
                        lits |= ls
                    else:
                        other = True
            if lits and not other:
                r = lits
        self._lit[n.id] = r
        return r

    def equal(self, n, r, without=()):
        """Do the node (followed by the end of the input) and the expression accept the same,
        among the inputs without some symbols?  (None, None, n) or a word told apart."""
        d = self._lang.get(n.id)
        if d is None:
            peg = Peg(self.abstract)
            end = peg.var(("end", peg.TRUE))
            root = peg.m(n, end)
            alpha = sorted(set(self.alphabet) | {c for d in peg.vars if d[0] == "tok" for c in d[1]})
            d = self._lang[n.id] = (peg.dfa(root, alpha), alpha)
        return difference(d[0], Nfa(r).dfa(), [a for a in d[1] if a not in without])

    def language(self, n):
        return {s for x in self.g.walk(n, into_rec=False) for s in (self.abstract(x) or ())}


def strip_values(n):
    """The node without conversions that keep the language."""
    while n.kind in ("same", "collect") or (n.kind == "fn" and n.how in ("map", "map_with", "to", "validate")):
        n = n.kids[0]
    return n


EXTRA = "chumsky::MapExtra"


def apply_fn(ev, n, v, span):
    """Apply the function of a map-like node: [(guards, value, emitted, state)]."""
    extra = adt(EXTRA, "MapExtra", {"state": sym("state"), "span": span})
    refs = {"e": extra, "em": EMPTY}
    how = n.how
    if how == "to":
        return [((), n.f, EMPTY, sym("state"))]
    args = {"map": [v], "map_with": [v, "e"], "validate": [v, "e", "em"], "try_map": [v, span], "try_map_with": [v, "e"]}[how]
    refs = {k: x for k, x in refs.items() if k in args}
    m = {app("MapExtra::span", extra): span}
    out = []
    for g, val, fin in ev.apply_refs(n.f, args, refs):
        f = lambda t: fix_span(t, span)
        out.append((
            tuple((f(a), p) for a, p in g),
            f(val),
            f(fin.get("em", EMPTY)),
            f(fld(fin["e"], "state")) if "e" in fin else sym("state"),
        ))
    return out


def fix_span(t, span):
    m = {}
    for s in subterms(t):
        if s.op == "app" and s.a[0] == "MapExtra::span":
            m[s] = span
    return subst(t, m) if m else t


# ---------------------------------------------------------------- outputs


class Out:
    """One way a node succeeds: the tokens it takes, its value, what it emits."""

    def __init__(self, guards, val, toks, emits, state, notnext=frozenset()):
        self.guards, self.val, self.toks, self.emits, self.state = guards, val, toks, emits, state
        self.notnext = notnext  # single tokens that cannot follow, or an optional part had taken them

    def shape(self):
        return tuple(name_of(t) for t in self.toks)

    def __repr__(self):
        return f"{' '.join(self.shape())} => {str(self.val)[:300]}"


def name_of(t):
    n = t.a[0] if t.op == "sym" else t.a[1]
    return n.split("#")[0]


def extent(toks):
    return app("extent", *toks)


_applied = {}
ATOMS = {"account", "currency", "tag", "link", "key", "expr", "booking"}


class Outputs:
    """Values of grammar nodes for every shape of input.

    leaf(node) -> name: take the node as one unit, whose value is that name.
    """

    def __init__(self, syntax, leaf=lambda n: None, limit=3000, merge=True):
        self.s = syntax
        self.merge = merge  # ways with the same outcome are one way
        self.ev = syntax.g.ev
        self.leaf = leaf
        self.limit = limit
        self.reps = 0
        self.failures = []

    def of(self, n, top=True):
        return [o for o, _ in self.out(n, {}, top)]

    def fresh(self, cnt, name):
        c = dict(cnt)
        k = c.get(name, 0)
        c[name] = k + 1
        return sym(f"{name}#{k}"), c

    def out(self, n, cnt, top=False):
        """[(Out, cnt)]"""
        if not top:
            nm = self.leaf(n)
            if nm is not None:
                t, c = self.fresh(cnt, nm)
                return [(Out((), t, (t,), EMPTY, ()), c)]
        k = n.kind
        if k == "tok":
            if n.any:
                t, c = self.fresh(cnt, "any")
                return [(Out((), t, (t,), EMPTY, ()), c)]
            res = []
            for cls, val in n.alts:
                t, c = self.fresh(cnt, cls)
                v = subst(val, {sym("token"): t}) if val is not None else t
                res.append((Out((), v, (t,), EMPTY, ()), c))
            return res
        if k == "end":
            t, c = self.fresh(cnt, "end")
            return [(Out((), UNIT, (t,), EMPTY, ()), c)]
        if k == "seq":
            acc = [((), (), (), EMPTY, (), frozenset(), cnt)]
            for x in n.kids:
                nxt = []
                for g, vs, toks, em, st, nn, c in acc:
                    for o, c2 in self.out(x, c):
                        if o.toks and name_of(o.toks[0]) in nn:
                            continue
                        nn2 = o.notnext if o.toks else nn | o.notnext
                        nxt.append((g + o.guards, vs + (o.val,), toks + o.toks, cat(em, o.emits), st + o.state, nn2, c2))
                acc = nxt
                if len(acc) > self.limit:
                    raise Unsupported("too many shapes")
            res = []
            for g, vs, toks, em, st, nn, c in acc:
                v = tup(*vs) if n.val == "tuple" else UNIT if n.val == "unit" else vs[-1] if n.val == "last" else vs[n.val]
                res.append((Out(g, v, toks, em, st, nn), c))
            return res
        if k == "alt":
            # an alternative is not reached where an earlier one succeeds without condition
            res, taken = [], []
            for y in n.kids:
                new = []
                for o, c in self.out(y, cnt):
                    sh = o.shape()
                    if any(sh[: len(x)] == x for x in taken):
                        continue
                    new.append((o, c))
                res += new
                taken += [o.shape() for o, _ in new if not o.guards and not self.fails(y)]
            return res
        if k == "opt":
            ks = self.out(n.kids[0], cnt)
            res = [(Out(o.guards, some(o.val), o.toks, o.emits, o.state, o.notnext), c) for o, c in ks]
            single = frozenset(o.shape()[0] for o, _ in ks if len(o.toks) == 1 and not o.guards) if not self.fails(n.kids[0]) else frozenset()
            return res + [(Out((), NONE, (), EMPTY, (), single), cnt)]
        if k in ("same", "collect", "recover", "rec"):
            return self.out(n.kids[0], cnt)
        if k == "rep":
            return [self.rep(n, n.kids[0], cnt)]
        if k == "fn":
            res = []
            for o, c in self.out(n.kids[0], cnt):
                for g, v, em, st in self.apply(n, o.val, extent(o.toks)):
                    g2 = merge_guards(o.guards, g)
                    if g2 is None:
                        continue
                    if n.how in ("try_map", "try_map_with"):
                        if v.op == "adt" and v.a[1] == "Err":
                            self.failures.append((n, o.toks, g2, fld(v, "0")))
                            continue
                        v = pay(v, "Ok", "0")
                    s2 = () if st is sym("state") else ((g2, st),)
                    res.append((Out(g2, v, o.toks, cat(o.emits, em), o.state + s2, o.notnext), c))
            return merge_outs(res) if self.merge or n.how != "validate" else res
        raise Unsupported(f"output of {k}")

    def apply(self, n, v, span):
        k = (n.id, v, span)
        if k not in _applied:
            _applied[k] = apply_fn(self.ev, n, v, span)
        return _applied[k]

    def fails(self, n):
        """May the node refuse tokens of a shape it takes (a conversion below it can fail)?"""
        if self.leaf(n) in ATOMS:
            return False  # the unit stands for the tokens it accepts
        if n.kind == "fn" and n.how in ("try_map", "try_map_with"):
            return True
        return any(self.fails(x) for x in n.kids) if n.kind != "rec" else False

    def rep(self, n, item, cnt):
        r, c = self.fresh(cnt, "rep")
        r = sym(f"{r.a[0]}@{n.id}")
        e = el(r)
        self._rep = getattr(self, "_rep", {})
        if n.id not in self._rep:
            self._rep[n.id] = [o for o, _ in self.out(item, {})]
        outs = self._rep[n.id]
        rows = []
        for i, o in enumerate(outs):
            m = {t: fld(e, t.a[0]) for t in o.toks if t.op == "sym"}
            g = tuple((subst(a, m), p) for a, p in o.guards)
            if len(outs) > 1:
                g = ((is_(e, f"alt{i}"), True),) + g
            rows.append((g, (("one", subst(o.val, m)),)))
        self.items = getattr(self, "items", {})
        self.items[r] = (n, outs)
        return Out((), seq((("each", r, tuple(rows)),)), (r,), EMPTY, ()), c


def merge_outs(res):
    """Ways with the same tokens, value and emissions are one way."""
    by = {}
    for o, c in res:
        k = (o.toks, o.val, o.emits)
        if k in by:
            p = by[k][0]
            gs = set(o.guards)
            p.guards = tuple(x for x in p.guards if x in gs)
            p.state = p.state + tuple(x for x in o.state if x not in p.state)
        else:
            by[k] = (Out(o.guards, o.val, o.toks, o.emits, o.state, o.notnext), c)
    return list(by.values())


def merge_guards(a, b):
    d = dict(a)
    for c, p in b:
        if d.setdefault(c, p) != p:
            return None
    return tuple(d.items())


# ---------------------------------------------------------------- declarations

CONVERTED = {"Account": "account", "Currency": "currency", "Tag": "tag", "Link": "link", "Key": "key"}


def single_token(n):
    k = strip_values(n)
    while k.kind == "fn":
        k = strip_values(k.kids[0])
    if k.kind == "tok" and len(k.alts) == 1:
        return k.alts[0][0]
    return None


def syms_of(r):
    if r[0] == "sym":
        return set(r[1])
    return {s for x in r[1:] if isinstance(x, tuple) for s in syms_of(x)}


LEAVES = {
    "metadata": METADATA,
    "tagslinks": TAGSLINKS,
    "cost": COST,
    "priceann": PRICE,
    "currencies": CURRENCIES1,
    "option": PRAGMA_SYNTAX["Option"],
}
LEAF_SYMS = {k: syms_of(v) for k, v in LEAVES.items()}


def below(n):
    seen, st = set(), list(n.kids)
    while st:
        k = st.pop()
        if k.id not in seen:
            seen.add(k.id)
            yield k
            st.extend(k.kids)


class Decls:
    """All shapes of a declaration with their values, and the units they are made of."""

    def __init__(self, ctx, opaque=()):
        self.ctx = ctx
        self.s = Syntax(ctx, opaque)
        self.leafnodes = {}
        self._leaf = {}
        self.compared = set()
        self.w = ctx.at(self.s.fb)
        k = strip_values(self.s.root)
        if k.kind != "rep":
            raise Unsupported("a file is not a repetition of declarations")
        self.decl = k.kids[0]
        self.o = Outputs(self.s, self.leaf)
        self.outs = [self.norm(o) for o in self.o.of(self.decl, top=False)]
        self.items = {r: (n, [self.norm(o) for o in outs]) for r, (n, outs) in self.o.items.items()}

    def norm(self, o):
        return Out(tuple((norm_spans(a), p) for a, p in o.guards), norm_spans(o.val), o.toks, norm_spans(o.emits), o.state, o.notnext)

    def leaf(self, n):
        if n.id in self._leaf:
            return self._leaf[n.id]
        r = None
        if n.kind == "fn" and n.how in ("validate", "try_map", "try_map_with"):
            if n.how != "validate":
                c = single_token(n)
                if c in CONVERTED:
                    r = CONVERTED[c]
                elif c == "StringLiteral" and self.s.literals(n) is not None:
                    r = "booking"
                elif strip_values(n.kids[0]).kind == "rec":
                    r = "expr"
            if r is None:
                r = self.spelled(n)
        elif n.kind == "fn" and n.how in ("map", "map_with"):
            # the innermost function over what was parsed, if nothing beneath is the unit itself
            r = self.spelled(n)
            if r is not None and (r in ("currencies", "option") or any(k.kind == "fn" and self.spelled(k) == r for k in below(n))):
                r = None
        if r is not None:
            self.leafnodes.setdefault(r, [])
            if n not in self.leafnodes[r]:
                self.leafnodes[r].append(n)
        self._leaf[n.id] = r
        return r

    def spelled(self, n):
        """The unit whose tokens this node accepts."""
        l = self.s.language(n)
        for k, ss in LEAF_SYMS.items():
            if l == ss:
                return k

    def component(self, header, f):
        """The tags or links of the header line, as the unit delivers them."""
        if not hasattr(self, "_comp"):
            self._comp = {}
            for n, outs, _ in self.unit("tagslinks"):
                for o in outs:
                    v = o.val
                    fs = [(str(i), x) for i, x in enumerate(v.a[0])] if v.op == "tup" else list(v.a[2]) if v.op == "adt" else []
                    for name, x in fs:
                        for kind, key in (("tag", "tags"), ("link", "links")):
                            if any(s.op == "fld" and s.a[1].startswith(kind + "#") for s in subterms(x)):
                                self._comp.setdefault(key, set()).add(name)
        c = self._comp.get(f, set())
        if len(c) != 1:
            raise Unsupported(f"cannot tell the {f} of a header line: {sorted(c)}")
        return fld(header, next(iter(c)))

    def unit(self, name, merge=True):
        """The ways of one unit, expanded."""
        ns = self.leafnodes.get(name, [])
        res = []
        for n in ns:
            o = Outputs(self.s, self.leaf, merge=merge)
            res.append((n, [self.norm(x) for x in o.of(n)], o))
        return res


def norm_spans(t):
    """Span{start: X.start, end: X.end, source: X.context} is spanof(X)."""
    memo = {}

    def go(t):
        r = memo.get(t)
        if r is None:
            r = memo[t] = go1(t)
        return r

    def go1(t):
        m = {}
        for s in subterms(t):
            if s.op == "adt" and short(s.a[0]) in ("Span", "SimpleSpan"):
                d = dict(s.a[2])
                if "start" in d and "end" in d and d["start"].op == "fld" and d["end"].op == "fld":
                    x = d["start"].a[0]
                    c = d.get("source", d.get("context"))
                    if d["start"].a[1] == "start" and d["end"] is fld(x, "end") and c is not None and context_of(c, x):
                        m[s] = app("spanof", x)
        return subst(t, m) if m else t

    return go(t)


def context_of(c, x):
    """c is the source of the span x, through conversions only."""
    for _ in range(8):
        if c is fld(x, "context") or c is fld(x, "source"):
            return True
        if c.op == "fld":
            c = c.a[0]
        elif c.op == "app" and c.a[0].startswith("cast:") and len(c.a[1]) == 1:
            c = c.a[1][0]
        elif c.op == "adt" and len(c.a[2]) == 1:
            c = c.a[2][0][1]
        else:
            return False
    return False


def span_of(*toks):
    return app("spanof", extent(toks))


_decls = {}


def decls(ctx, opaque=()):
    k = (id(ctx.p), tuple(opaque))
    if k not in _decls:
        _decls[k] = Decls(ctx, opaque)
    d = _decls[k]
    for x in d.s.g.ev.inlined:
        ctx.analysed.add(x)
    return d


def state_effects(d):
    """What the rules of the grammar do to the parser state, whatever they read: [(node, guards, field, value)]."""
    if not hasattr(d, "_effects"):
        st, out = sym("state"), []
        for n in d.s.nodes:
            if n.kind != "fn" or n.how not in ("map_with", "validate", "try_map_with"):
                continue
            try:
                rows = [(g, s) for g, _, _, s in apply_fn(d.s.g.ev, n, sym("value"), sym("span"))]
            except Unsupported:
                rows = [x for o in Outputs(d.s, merge=False).of(n) for x in o.state]
            for g, s in rows:
                for g2, c in state_cases(s):
                    if c is st:
                        continue
                    if c.op == "with" and c.a[0] is st:
                        out += [(n, tuple(g) + g2, f[1], v) for f, v in c.a[1] if v is not fld(st, f[1])]
                    else:
                        out.append((n, tuple(g) + g2, None, c))
        d._effects = out
    return d._effects


def state_cases(s):
    if s.op == "ite":
        return [(((s.a[0], True),) + g, c) for g, c in state_cases(s.a[1])] + [(((s.a[0], False),) + g, c) for g, c in state_cases(s.a[2])]
    return [((), s)]
