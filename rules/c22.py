"""C22: rendering a parsed element shows all of its components."""
from common import *
from shapes import *
import shapes
import re

EXPLANATION = (
    "Every Display implementation of an element is summarised by dataflow as the text it writes on each path. The text is compared, for "
    "every shape of the element (each option present or absent, each list of none, one or two items, each variant), with the specified "
    "syntax: keyword, punctuation and the values of the element's own accessors, in order, each once; only whitespace is free. "
    "An obligation is one shape of one element."
)
ASSUMPTIONS = ["the formatting machinery of std writes what the format string says", "decimals, dates and texts display as themselves"]
FLOOR = 700
TECHNIQUE = "dataflow summaries of Display implementations compared with the specified syntax over every shape"


class El:
    """An element being specified: a term and its type's name."""

    def __init__(self, S, ctx, term, ty):
        self.S, self.ctx, self.term, self.ty = S, ctx, term, ty

    def __getattr__(self, name):
        """The value of the public accessor of this name."""
        b = self.ctx.p.method(self.ty, name)
        rows = cached(self.ctx, b, self.term)
        hit = self.S.select(rows)
        if len(hit) != 1:
            raise Unknown(f"{self.ty}::{name}: {len(hit)} results")
        return self.S.val(hit[0].ret, {})


def cached(ctx, b, term):
    k = ("c22", b["id"], term)
    r = ctx._cache.get(k)
    if r is None:
        r = ctx._cache[k] = Ev(ctx.p).run(b, args=[term])
        ctx.analysed.add(b["path"])
    return r


def opt(S, v, pre="", post=""):
    return [x for i in S.items(v) for x in (pre, i, post)]


def sep(S, v, s=" ", pre="", post=""):
    out = []
    for i, x in enumerate(S.items(v)):
        out += ([s] if i else []) + [pre, x, post]
    return out


def meta(S, m):
    """Tags, links and keys of metadata."""
    out = opt(S, m.tags) + opt(S, m.links)
    for k, v in S.items(m.key_values):
        out += [k, ":", v]
    return out


def directive(S, ctx):
    d = El(S, ctx, SELF, "Directive")
    v = ctx.p.method("Directive", "variant")
    vt = cached(ctx, v, SELF)[0].ret
    kind = S.variant(S.val(vt, {}))
    x = El(S, ctx, pay(vt, kind, "0"), kind)
    m = El(S, ctx, cached(ctx, ctx.p.method("Directive", "metadata"), SELF)[0].ret, "Metadata")
    date = d.date
    tail = meta(S, m)
    if kind == "Transaction":
        payee, narr = S.items(x.payee), S.items(x.narration)
        out = [date, x.flag] + opt(S, payee, '"', '"') + opt(S, narr, '"', '"')
        if payee and not narr:
            # so that the payee is not read as narration
            out.append('""')
        return [out + tail + opt(S, x.postings)]
    kw = kind.lower()
    q = lambda v: ['"', v, '"']
    body = {
        "Price": lambda: [x.currency, x.amount],
        "Balance": lambda: [x.account, x.atol],
        "Open": lambda: [x.account] + sep(S, x.currencies, ",") + opt(S, x.booking, '"', '"'),
        "Close": lambda: [x.account],
        "Commodity": lambda: [x.currency],
        "Pad": lambda: [x.account, x.source],
        "Document": lambda: [x.account] + q(x.path),
        "Note": lambda: [x.account] + q(x.comment),
        "Event": lambda: q(x.event_type) + q(x.description),
        "Query": lambda: q(x.name) + q(x.content),
        "Custom": lambda: q(x.type_) + opt(S, x.values),
    }[kind]()
    return [[date, kw] + body + tail]


def struct(f):
    return lambda S, ctx, ty: f(S, El(S, ctx, SELF, ty), ctx)


def variants(**spec):
    """An enum: the text of each variant; %0 stands for its first field."""

    def f(S, ctx, ty):
        o = S.roots["self"]
        v = S.variant(o)
        want = spec.get(v, spec.get(v + "_"))
        if want is None:
            raise Unknown(f"unknown variant {ty}::{v}")
        alts = []
        for w in want if isinstance(want, tuple) else (want,):
            out = []
            for x in re.split(r"(%\d)", w):
                out.append(S.field(o, x[1:], v) if re.match(r"%\d$", x) else x)
            alts.append(out)
        return alts

    return f


def posting(S, x, ctx):
    m = El(S, ctx, cached(ctx, ctx.p.method("Posting", "metadata"), SELF)[0].ret, "Metadata")
    head = opt(S, x.flag) + [x.account] + opt(S, x.amount) + opt(S, x.currency) + opt(S, x.cost_spec)
    # the metadata may be written by its own implementation or here
    tail = [S.val(m.term, {})] if app("disp", m.term) in S.used else meta(S, m)
    return [head + opt(S, x.price_annotation, at) + tail for at in ("@", "@@", "")]


def cost(S, x, ctx):
    amounts = [opt(S, x.per_unit), opt(S, x.total, "#"), opt(S, x.currency)]
    groups = [sum(amounts, [])] if any(amounts) else []
    for g in (opt(S, x.date), opt(S, x.label, '"', '"'), ["*"] if S.truth_of(x.merge) else []):
        if g:
            groups.append(g)
    out = ["{"]
    for i, g in enumerate(groups):
        out += ([","] if i else []) + g
    return [out + ["}"]]


def text_of(S, ctx, ty, pre=""):
    """A text with a prefix: its only text component."""
    a = ctx.p.adts[S.ty(S.roots["self"])["h"]]
    fs = [f for f in a["variants"][0]["fs"]]
    if len(fs) == 1:
        return [[pre, S.field(S.roots["self"], fs[0]["n"])]]
    raise Unknown("not a single text")


ELEMENTS = {
    "Posting": struct(posting),
    "Metadata": struct(lambda S, x, ctx: [meta(S, x)]),
    "MetaKeyValue": lambda S, ctx, ty: [
        [S.field(S.roots["self"], "key"), ":", q, S.field(S.roots["self"], "value"), q] for q in ("", '"')
    ],
    "MetaValue": variants(Simple="%0", Amount="%0"),
    "SimpleValue": lambda S, ctx, ty: [["TRUE" if S.truth_of(S.field(S.roots["self"], "0", "Bool")) else "FALSE"]]
    if S.variant(S.roots["self"]) == "Bool"
    else variants(String='"%0"', Currency="%0", Account="%0", Tag="%0", Link="%0", Date="%0", Null="NULL", Expr="%0")(S, ctx, ty),
    "Tag": lambda S, ctx, ty: text_of(S, ctx, ty, "#"),
    "Link": lambda S, ctx, ty: text_of(S, ctx, ty, "^"),
    "Key": text_of,
    "Currency": text_of,
    "Subaccount": text_of,
    "AccountTypeName": text_of,
    "AccountName": text_of,
    "Account": lambda S, ctx, ty: [[x] for x in (S.field(S.roots["self"], "name"),)],
    "Flag": variants(Asterisk="*", Exclamation="!", Ampersand="&", Hash="#", Question="?", Percent="%", Letter=("'%0", "'%0.0")),
    "Booking": variants(
        Strict="STRICT", StrictWithSize="STRICT_WITH_SIZE", None_="NONE", Average="AVERAGE", Fifo="FIFO", Lifo="LIFO", Hifo="HIFO"
    ),
    "PluginProcessingMode": variants(Default="DEFAULT", Raw="RAW"),
    "Plugin": struct(lambda S, x, ctx: [['plugin"', x.module_name, '"'] + opt(S, x.config, '"', '"')]),
    "ExprValue": struct(lambda S, x, ctx: [[x.expr]]),
    "Expr": variants(Value="%0", Add="%0+%1", Sub="%0-%1", Mul="%0*%1", Div="%0/%1", Neg="-%0", Paren="(%0)"),
    "CompoundExprValue": variants(PerUnit="%0", Total="#%0", PerUnitAndTotal="%0#%1"),
    "ScopedExprValue": variants(PerUnit="%0", Total="#%0"),
    "Amount": struct(lambda S, x, ctx: [[x.number, x.currency]]),
    "AmountWithTolerance": struct(lambda S, x, ctx: [[x.amount] + opt(S, x.tolerance, "~")]),
    "CompoundAmount": variants(BareCurrency="%0", BareAmount="%0", CurrencyAmount="%0%1"),
    "CostSpec": struct(cost),
    "PriceSpec": variants(Unspecified="", BareCurrency="%0", BareAmount="%0", CurrencyAmount="%0%1"),
    "Spanned": lambda S, ctx, ty: [[S.field(S.roots["self"], "item")]],
    "Directive": lambda S, ctx, ty: directive(S, ctx),
}


def squash(out):
    """Tokens with whitespace removed and adjacent literals joined."""
    r = []
    for x in out:
        if isinstance(x, str):
            x = re.sub(r"\s+", "", x)
            if not x:
                continue
            if r and isinstance(r[-1], str):
                r[-1] += x
                continue
        r.append(x)
    return r


class S2(Shape):
    used = ()

    def truth_of(self, v):
        if isinstance(v, Obj):
            return self.pick(v, (False, True))
        return v


def deep_equal(a, b):
    """Equal up to looking through single-field wrappers (a flag letter is shown as its character)."""
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, Obj) and isinstance(y, Obj):
            px, py = x.path, y.path
            if px == py or px == py + ".0" or py == px + ".0":
                continue
        elif isinstance(x, str) and isinstance(y, str) and x == y:
            continue
        return False
    return True


def run(ctx):
    p = ctx.p
    found = set()
    for b in list(p.bodies.values()):
        if b["name"] != "fmt" or not b.get("trait") or short(b["trait"]) != "Display" or b["kind"] != "AssocFn":
            continue
        h = p.types[b["self"]]["h"]
        ty = short(h)
        if ty not in ELEMENTS or not h.startswith("beancount_parser_lima::types::"):
            continue
        found.add(ty)
        element(ctx, ty, b)
    for ty in ELEMENTS:
        ctx.ob(f"{ty}/displayed", ty in found, "has a Display implementation", "")


def element(ctx, ty, b):
    p = ctx.p
    where = ctx.at(b)
    rows = ctx.run(b)
    fn = b["params"][1]["p"]["v"].split("#")[0]
    used = set()
    for r in rows:
        used |= set(subterms(r.final(fn)))
        for c, _ in r.guards:
            used |= set(subterms(c))

    def one(choice):
        S = S2(p, {"self": Obj("self", b["self"])}, choice)
        S.used = used
        want = ELEMENTS[ty](S, ctx, ty)
        hit = S.select(rows)
        got = []
        for r in hit:
            add = appended(r.final(fn), sym(fn))
            if add is None:
                raise Unknown("what was written before is lost")
            got.append(squash(S.text(add, {})))
        return want, hit, got

    n = 0
    try:
        for choice, (want, hit, got) in explore(one):
            n += 1
            desc = ", ".join(f"{k.replace('self', ty, 1)}={v}" for k, v in choice.items())
            kind = next((v for k, v in choice.items() if isinstance(v, str) and v not in ("Some", "None")), "")
            okv = len(hit) >= 1 and all(any(deep_equal(g, squash(w)) for w in want) for g in got)
            ctx.ob(f"{ty}/{kind}", okv, f"with {desc}: writes {got}, expected {[squash(w) for w in want][:2]}"[:900], where)
            ctx.ob(f"{ty}/{kind}/ok", all(str(r.ret) == "Ok(())" for r in hit), "returns Ok", where)
    except Unknown as x:
        ctx.ob(f"{ty}/decided", False, f"cannot decide what is written: {x}", where)
    ctx.ob(f"{ty}/shapes", n > 0, f"{n} shapes", where)
