"""The documented value of every shape of a declaration, and the comparison with the code's.

A value is described by
  Sp(inner, toks)       a located element: inner, with the span of those tokens
  A(variant, fields)    a struct or enum value with (at least) these fields
  Opt(inner) / Opt()    a present or absent option
  a term                exactly that value
"""
from syntax import *


class Sp:
    def __init__(self, inner, *toks):
        self.inner, self.toks = inner, toks


class A:
    def __init__(self, _v, **fields):
        self.variant, self.fields = _v, {k.rstrip("_") if k != "type_" else k: v for k, v in fields.items()}


class A1(A):
    """A variant with one unnamed payload."""

    def __init__(self, variant, inner):
        self.variant, self.fields = variant, {"0": inner}


class Opt:
    def __init__(self, inner=None):
        self.inner = inner


class Each:
    """A sequence with one element per repetition."""

    def __init__(self, rep, f):
        self.rep, self.f = rep, f


class Meta:
    """The metadata of a directive: its own lines, with the tags and links of the header."""

    def __init__(self, own, header):
        self.own, self.header = own, header


class Cmp:
    """Compares values with their description; collects the differences."""

    def __init__(self, d, rep_outs=None):
        self.d = d
        self.values, self.spans = [], []  # (path, ok, message)

    def v(self, path, ok, msg):
        self.values.append((path, ok, msg))

    def cmp(self, t, x, path):
        if isinstance(x, Sp):
            if isinstance(x.inner, Meta):
                return self.meta(t, x, path)
            sp = fld(t, "span")
            want = span_of(*x.toks)
            self.spans.append((path, sp is want, f"{path}: the span is {str(sp)[:200]}, expected that of {' '.join(name_of(y) for y in x.toks) or 'nothing'}"))
            return self.cmp(fld(t, "item"), x.inner, path)
        if isinstance(x, A):
            okv = t.op == "adt" and t.a[1] == x.variant
            self.v(path, okv, f"{path}: {str(t)[:200]} is not a {x.variant}" if not okv else f"{path} is {x.variant}")
            if okv:
                for f, y in x.fields.items():
                    self.cmp(fld(t, f), y, f"{path}.{f}" if f != "0" else f"{path}.{x.variant}")
            return
        if isinstance(x, Opt):
            if x.inner is None:
                return self.v(path, t is NONE, f"{path}: {str(t)[:200]}, expected to be absent")
            if t.op == "adt" and t.a[1] == "Some":
                return self.cmp(fld(t, "0"), x.inner, path)
            return self.v(path, False, f"{path}: {str(t)[:200]}, expected to be present")
        if isinstance(x, Each):
            ps = parts(t) if t.op == "seq" else ()
            okv = len(ps) == 1 and ps[0][0] == "each" and ps[0][1] is x.rep
            if not okv and t.op == "seq" and len(ps) == 1 and ps[0][0] == "all" and ps[0][1] is x.rep:
                okv = True
            self.v(path, okv, f"{path}: {str(t)[:200]} is not one element per repetition")
            if okv:
                n, outs = self.d.items[x.rep]
                rows = ps[0][2]
                # the parts of the sequence agree with the values of the repeated item
                okr = len(rows) == len(outs) and all(len(pp) == 1 and pp[0][0] == "one" for _, pp in rows)
                self.v(path, okr, f"{path}: each repetition gives exactly one element")
                e = el(x.rep)
                for o, (g, pp) in zip(outs, rows):
                    p2 = f"{path}[{' '.join(o.shape())}]"
                    same = norm_spans(subst(o.val, {y: fld(e, y.a[0]) for y in o.toks if y.op == "sym"})) is pp[0][1]
                    self.v(p2, same, f"{p2}: the element {str(pp[0][1])[:300]} is not the value of the repeated item")
                    k = (x.rep, o.toks)
                    if k in self.d.compared:
                        continue
                    self.d.compared.add(k)
                    self.cmp(o.val, x.f(o), p2)
            return
        self.v(path, strip(t) is strip(x), f"{path}: {str(strip(t))[:250]}, expected {str(strip(x))[:200]}")

    def meta(self, t, x, path):
        """Metadata: the key/values of the own lines, the tags and links of both."""
        own, header = x.inner.own, x.inner.header
        base = adt(SPANNED, "Spanned", {"item": own, "span": span_of(own)})
        sp = fld(t, "span")
        self.spans.append((path, sp is span_of(own), f"{path}: the span is {str(sp)[:200]}"))
        self.v(path + ".key_values", strip(mfield(t, "key_values")) is strip(mfield(base, "key_values")), f"{path}: key/values are {str(strip(mfield(t, 'key_values')))[:250]}")
        for f in ("tags", "links"):
            b = strip(mfield(base, f))
            v = strip(mfield(t, f))
            if header is None:
                okv = v is b
            else:
                okv = union_of(v, b, strip(self.d.component(header, f)))
            self.v(f"{path}.{f}", okv, f"{path}: {f} are {str(v)[:400]}, expected those of the metadata lines and of the header line")


def mfield(t, f):
    """A field of the item of a located value (the location is transparent)."""
    if t.op == "with":
        d = dict(t.a[1])
        if ("f", f) in d:
            return d[("f", f)]
        if ("f", "item") in d:
            return mfield(d[("f", "item")], f)
        return mfield(t.a[0], f)
    return fld(fld(t, "item"), f)


def union_of(v, base, more):
    """v is base with the elements of more added."""
    if v.op == "mext" and v.a[0] is base:
        s = v.a[1]
        if s is more:
            return True
        ps = parts(s)
        if len(ps) == 1 and ps[0][0] == "all":
            return ps[0][1] is more
        if len(ps) == 1 and ps[0][0] == "each" and ps[0][1] is more and len(ps[0][2]) == 1:
            g, pp = ps[0][2][0]
            return not g and len(pp) == 1 and pp[0][0] == "one" and pp[0][1] in (tup(el(more), UNIT), el(more))
    if v.op == "fold" and v.a[0] is base and v.a[1] is more:
        # added unless it is there
        e = el(more)
        for g, r in v.a[2]:
            if r is mk("acc"):
                if not any(p and a.op == "app" and a.a[0] == "has" and a.a[1][1] is e for a, p in g):
                    return False
            elif not (r.op == "mset" and r.a[0] is mk("acc") and r.a[1] is e):
                return False
        return True
    return False


SPANNED = None


def strip(t):
    """Locations removed: a located element is its item."""
    memo = {}

    def go(t):
        if not isinstance(t, T):
            return t
        r = memo.get(t)
        if r is None:
            r = memo[t] = go1(t)
        return r

    def go1(t):
        if t.op == "adt" and short(t.a[0]) == "Spanned":
            return go(fld(t, "item"))
        m = {}
        for s in subterms(t):
            if s is not t and s.op == "adt" and short(s.a[0]) == "Spanned":
                m[s] = fld(s, "item")
        if not m:
            return t
        t2 = subst(t, m)
        return go(t2) if t2 is not t else t

    return go(t)


# ---------------------------------------------------------------- the description


class Toks:
    """The tokens of one shape, by name."""

    def __init__(self, toks):
        self.toks = toks
        self.by = {}
        for t in toks:
            self.by.setdefault(name_of(t), []).append(t)

    def __contains__(self, n):
        return n in self.by

    def t(self, n, i=0):
        return self.by[n][i]

    def n(self, n):
        return len(self.by.get(n, ()))

    def sp(self, n, i=0):
        """A unit, located."""
        t = self.t(n, i)
        return Sp(value_of(t), t)

    def opt(self, n, i=0):
        return Opt(self.sp(n, i)) if self.n(n) > i else Opt()


def value_of(t):
    """The value of a token or unit."""
    n = name_of(t)
    if n in ("Date", "StringLiteral", "Number", "DedicatedFlag"):
        return pay(t, n, "0")
    if n == "Txn":
        return A("Asterisk")
    if n in ("Asterisk", "Hash"):
        return A(n)
    return t


def amount(k, i=0):
    e, c = k.t("expr", i), k.t("currency", k.n("currency") - 1)
    return A("Amount", number=Sp(e, e), currency=Sp(c, c))


def meta_value(k):
    """The value of a metadata entry from its tokens (None if there are none)."""
    ts = k.toks
    ns = [name_of(t) for t in ts]
    if ns == ["expr", "currency"]:
        return A1("Amount", amount(k))
    if not ns:
        return A1("Simple", A("Null"))
    if len(ns) != 1:
        return None
    n, t = ns[0], ts[0]
    s = {
        "StringLiteral": lambda: A1("String", pay(t, n, "0")),
        "currency": lambda: A1("Currency", t),
        "account": lambda: A1("Account", t),
        "tag": lambda: A1("Tag", t),
        "link": lambda: A1("Link", t),
        "Date": lambda: A1("Date", pay(t, n, "0")),
        "True": lambda: A1("Bool", TRUE),
        "False": lambda: A1("Bool", FALSE),
        "Null": lambda: A("Null"),
        "expr": lambda: A1("Expr", t),
    }.get(n)
    return A1("Simple", s()) if s else None


def key_value(k, toks):
    """key: value from tokens key Colon value*."""
    ns = [name_of(t) for t in toks]
    if ns[:2] != ["key", "Colon"]:
        return None
    v = meta_value(Toks(toks[2:]))
    return A("MetaKeyValue", key=Sp(toks[0], toks[0]), value=Sp(v, *toks[2:])) if v is not None else None


FLAGS = ("Txn", "DedicatedFlag", "Asterisk", "Hash")


def line_end(toks):
    """The tokens without the end of line."""
    return tuple(t for t in toks if name_of(t) not in ("Eol", "end"))


def posting(o):
    k = Toks(o.toks)
    fl = [t for t in o.toks if name_of(t) in FLAGS]
    own = tuple(t for t in line_end(o.toks) if name_of(t) not in ("Indent", "metadata"))
    m = k.t("metadata")
    return Sp(
        A(
            "Posting",
            flag=Opt(Sp(value_of(fl[0]), fl[0])) if fl else Opt(),
            account=k.sp("account"),
            amount=k.opt("expr"),
            currency=k.opt("currency"),
            cost_spec=k.opt("cost"),
            price_annotation=k.opt("priceann"),
            metadata=Sp(m, m),
        ),
        *own,
    )


def nonempty_guard(guards, t):
    """What the guards say about a string being empty: True (not empty), False or None."""
    v = pay(t, "StringLiteral", "0")
    for a, p in guards:
        if a.op == "app" and a.a[0] == "nonempty" and strip(a.a[1][0]) is v:
            return p
        if a.op == "app" and a.a[0] == "eq" and lstr("") in a.a[1] and any(strip(x) is v for x in a.a[1]):
            return not p
    return None


def opt_text(o, t):
    """An empty payee or narration counts as absent."""
    if t is None:
        return Opt()
    e = nonempty_guard(o.guards, t)
    if e is False:
        return Opt()
    return Opt(Sp(value_of(t), t))


def directive_value(o):
    """The description of the variant of a directive, or None if the shape is not one."""
    k = Toks(o.toks)
    kw = name_of(o.toks[1]) if len(o.toks) > 1 else None
    S_ = lambda i=0: k.sp("StringLiteral", i)
    if kw in FLAGS:
        f = o.toks[1]
        s = k.by.get("StringLiteral", [])
        payee, narration = (s[0], s[1]) if len(s) == 2 else (None, s[0] if s else None)
        return "Transaction", A(
            "Transaction",
            flag=Sp(value_of(f), f),
            payee=opt_text(o, payee),
            narration=opt_text(o, narration),
            postings=Each(k.t("rep"), posting),
        )
    if kw == "Price":
        a = amount(k)
        return kw, A(kw, currency=k.sp("currency"), amount=Sp(a, k.t("expr"), k.t("currency", 1)))
    if kw == "Balance":
        e, c = k.t("expr"), k.t("currency")
        whole = (e, k.t("Tilde"), k.t("Number"), c) if "Tilde" in k else (e, c)
        return kw, A(
            kw,
            account=k.sp("account"),
            atol=Sp(A("AmountWithTolerance", amount=Sp(amount(k), *whole), tolerance=k.opt("Number")), *whole),
        )
    if kw == "Open":
        return kw, A(
            kw,
            account=k.sp("account"),
            currencies=k.t("currencies") if "currencies" in k else MEMPTY,
            booking=k.opt("booking"),
        )
    if kw == "Close":
        return kw, A(kw, account=k.sp("account"))
    if kw == "Commodity":
        return kw, A(kw, currency=k.sp("currency"))
    if kw == "Pad":
        return kw, A(kw, account=k.sp("account"), source=k.sp("account", 1))
    if kw == "Document":
        return kw, A(kw, account=k.sp("account"), path=S_())
    if kw == "Note":
        return kw, A(kw, account=k.sp("account"), comment=S_())
    if kw == "Event":
        return kw, A(kw, event_type=S_(), description=S_(1))
    if kw == "Query":
        return kw, A(kw, name=S_(), content=S_(1))
    if kw == "Custom":

        def val(o2):
            v = meta_value(Toks(o2.toks))
            return Sp(v, *o2.toks) if v is not None else None

        return kw, A(kw, type_=S_(), values=Each(k.t("rep"), val))
    return None


def pragma_value(o):
    k = Toks(o.toks)
    kw = name_of(o.toks[0])
    body = line_end(o.toks)
    if kw in ("Pushtag", "Poptag"):
        return kw, Sp(k.t("tag"), *body)
    if kw == "Pushmeta":
        return kw, key_value(k, body[1:])
    if kw == "Popmeta":
        return kw, Sp(k.t("key"), *body)
    if kw == "Include":
        return kw, k.sp("StringLiteral")
    if kw == "option":
        return "Option", k.t("option")
    if kw == "Plugin":
        return kw, A("Plugin", module_name=k.sp("StringLiteral"), config=k.opt("StringLiteral", 1))
    return None


def declaration(d, o):
    """(name, description of the value) of one shape of a declaration."""
    if name_of(o.toks[0]) == "Date":
        v = directive_value(o)
        if v is None:
            return None
        k = Toks(o.toks)
        m = k.t("metadata")
        return v[0], Sp(
            A1(
                "Directive",
                A(
                    "Directive",
                    date=k.sp("Date"),
                    metadata=Sp(Meta(m, k.t("tagslinks") if "tagslinks" in k else None), m),
                    variant=A1(v[0], v[1]),
                ),
            ),
            *o.toks,
        )
    v = pragma_value(o)
    if v is None:
        return None
    return v[0], Sp(A1("Pragma", A1(v[0], v[1])), *o.toks)


KINDS = list(DIRECTIVES) + list(PRAGMA_SYNTAX)


def compare_all(ctx, d):
    """[(kind, shape, Cmp)] for every shape of a declaration."""
    global SPANNED
    SPANNED = next(s.a[0] for o in d.outs for s in [o.val] if s.op == "adt" and short(s.a[0]) == "Spanned")
    out = []
    for o in d.outs:
        x = declaration(d, o)
        c = Cmp(d)
        if x is None:
            out.append((None, o, c))
            continue
        c.cmp(o.val, x[1], x[0])
        out.append((x[0], o, c))
    return out


# ---------------------------------------------------------------- sets and maps built from repetitions


class Added:
    """Elements added to a set or map: one by one (src None) or per repetition."""

    def __init__(self, src, guards, elem, value, keeps):
        self.src, self.guards, self.elem, self.value, self.keeps = src, guards, elem, value, keeps


def additions(v):
    """What a set or map consists of: [Added], or None if it is not understood.

    keeps: an element that is there already is kept rather than replaced."""
    if v is MEMPTY:
        return []
    if v.op == "mset":
        b = additions(v.a[0])
        return None if b is None else b + [Added(None, (), v.a[1], v.a[2], v.a[2] is UNIT)]
    if v.op == "mext":
        b = additions(v.a[0])
        if b is None:
            return None
        for p in parts(v.a[1]):
            if p[0] == "one" and p[1].op == "tup" and len(p[1].a[0]) == 2:
                b.append(Added(None, (), p[1].a[0][0], p[1].a[0][1], p[1].a[0][1] is UNIT))
            elif p[0] == "each":
                for g, pp in p[2]:
                    for q in pp:
                        if q[0] != "one" or q[1].op != "tup":
                            return None
                        b.append(Added(p[1], g, q[1].a[0][0], q[1].a[0][1], q[1].a[0][1] is UNIT))
            elif p[0] == "all":
                b.append(Added(p[1], (), el(p[1]), UNIT, True))
            else:
                return None
        return b
    if v.op == "fold":
        b = additions(v.a[0])
        if b is None:
            return None
        for g, r in v.a[2]:
            if r is mk("acc"):
                continue
            if r.op == "mset" and r.a[0] is mk("acc"):
                has = app("has", mk("acc"), r.a[1])
                g2 = tuple((a, p) for a, p in g if a is not has)
                b.append(Added(v.a[1], g2, r.a[1], r.a[2], r.a[2] is UNIT or (has, False) in g))
            else:
                return None
        return b
    return None


def errors_per_case(em, src):
    """[(guards, number of errors)] for one element of src; None if not understood."""
    out = []

    def count(parts_):
        n = 0
        for p in parts_:
            if p[0] == "one":
                n += 1
            else:
                return None
        return n

    def walk(t):
        if t.op == "fold":
            if not walk(t.a[0]):
                return False
            if t.a[1] is src:
                for g, r in t.a[2]:
                    ps = (
                        () if r is mk("acc")
                        else tuple(parts(r)[1:]) if r.op == "seq" and parts(r) and parts(r)[0] == ("all", mk("acc"))
                        else None
                    )
                    n = count(ps) if ps is not None else None
                    if n is None:
                        return False
                    out.append((g, n))
            return True
        if t.op == "seq":
            for p in parts(t):
                if p[0] == "all":
                    if not walk(p[1]):
                        return False
                elif p[0] == "each" and p[1] is src:
                    for g, pp in p[2]:
                        n = count(pp)
                        if n is None:
                            return False
                        out.append((g, n))
            return True
        return True

    return out if walk(em) else None


def direct_errors(em):
    """The errors emitted outside any repetition."""
    out = []
    if em.op == "seq":
        for p in parts(em):
            if p[0] == "one":
                out.append(p[1])
            elif p[0] == "all":
                out += direct_errors(p[1])
    elif em.op == "fold":
        out += direct_errors(em.a[0])
    return out


def has_atom(guards, elem):
    """What the guards say about elem being there already: True, False or None."""
    for a, p in guards:
        if a.op == "app" and a.a[0] == "has" and strip(a.a[1][1]) is strip(elem):
            return p
    return None


def check_set(ctx, key, v, em, src, cases, w, guards=()):
    """The set or map v holds the elements given per repetition, and repeats are reported.

    cases: [(guards of the case, expected elements or None)] for one element of src."""
    ad = additions(v)
    ctx.ob(f"{key}/understood", ad is not None, f"{str(v)[:300]}", w)
    if ad is None:
        return
    errs = errors_per_case(em, src)
    ctx.ob(f"{key}/reports understood", errs is not None, f"{str(em)[:300]}", w)
    for name, g, elem in cases:
        mine = [a for a in ad if a.src is src and consistent(a.guards, g)]
        if elem is None:
            continue
        okv = len(mine) >= 1 and all(strip(a.elem) is strip(elem) and a.keeps for a in mine)
        # added whatever else holds
        okv = okv and complete([tuple(x for x in a.guards if x not in g) for a in mine])
        ctx.ob(
            f"{key}/{name}/kept",
            okv,
            f"{name}: every one is added, unless it is there already (adds {[str(strip(a.elem))[:80] for a in mine]})",
            w,
        )
        if errs is None:
            continue
        yes = [n for eg, n in errs if consistent(eg, g) and has_atom(eg, elem) is True]
        other = [n for eg, n in errs if consistent(eg, g) and has_atom(eg, elem) is not True]
        ctx.ob(f"{key}/{name}/repeat reported", yes and all(n >= 1 for n in yes), f"{name}: errors for one that is there already: {yes}", w)
        ctx.ob(f"{key}/{name}/first not reported", all(n == 0 for n in other), f"{name}: errors for one that is new: {other}", w)
