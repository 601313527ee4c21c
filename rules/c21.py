"""C21: every public accessor returns the value it is named after."""
from common import *

EXPLANATION = (
    "Dataflow over the type-checked program: on every path of every public accessor of the parsed elements the value returned "
    "is the element's own field of that name, unchanged (an option or list may be taken apart and rebuilt), and nothing is "
    "modified; conversions of identifiers to text return the stored text; constructors store each argument in its own field; "
    "metadata lookup by key answers from the key/values alone. An obligation is one accessor on one path."
)
ASSUMPTIONS = ["standard library conversions (as_ref, iter, copied, deref) are identities", "located keys compare by item (C24)"]
FLOOR = 120
TECHNIQUE = "interprocedural dataflow over THIR: returned value equals the named field on every path"

ACCESSORS = {
    "Directive": "date metadata variant",
    "Transaction": "flag payee narration postings",
    "Price": "currency amount",
    "Balance": "account atol",
    "Open": "account currencies booking",
    "Close": "account",
    "Commodity": "currency",
    "Pad": "account source",
    "Document": "account path",
    "Note": "account comment",
    "Event": "event_type description",
    "Query": "name content",
    "Custom": "type_ values",
    "Plugin": "module_name config",
    "Account": "account_type",
    "Posting": "flag account amount currency cost_spec price_annotation metadata",
    "Metadata": "key_values tags links",
    "ExprValue": "value expr",
    "Amount": "number currency",
    "AmountWithTolerance": "amount tolerance",
    "LooseAmount": "number currency",
    "CostSpec": "per_unit total currency date label merge",
    "Spanned": "item span",
}
TEXT = ("Account", "Subaccount", "AccountTypeName", "AccountName", "Currency", "Tag", "Link", "Key")


def run(ctx):
    p = ctx.p
    for ty, names in ACCESSORS.items():
        for n in names.split():
            accessor(ctx, f"{ty}::{n}", ty, n, S(n))
    # any other public argument-free method of these types named after a field
    for b in p.bodies.values():
        if b["kind"] != "AssocFn" or b.get("trait") or not b.get("reach") or b.get("self") is None or len(b["params"]) != 1:
            continue
        h = p.types[b["self"]]["h"]
        ty = short(h)
        if ty in ACCESSORS and b["name"] not in ACCESSORS[ty].split():
            a = p.adts.get(h)
            fs = [f["n"] for v in (a or {}).get("variants", []) for f in v["fs"]] if a and not a["enum"] else []
            if b["name"] in fs:
                check_accessor(ctx, f"{ty}::{b['name']}", b, S(b["name"]))
    accessor(ctx, "FlagLetter::char", "FlagLetter", "char", S("0"))
    # text of identifiers
    for ty in TEXT:
        f = text_field(ctx, ty)
        accessor(ctx, f"{ty}/text", ty, "as_ref", S(f), trait="AsRef")
    n = 0
    for b in p.bodies.values():
        if b["name"] == "from" and b.get("trait") and short(b["trait"]) == "From" and b.get("self") is not None and p.types[b["self"]]["s"].endswith("str"):
            a = [short(p.types[x]["h"]) if not p.types[x]["s"].startswith("&") else p.types[x]["s"] for x in b.get("trait_args") or ()]
            src = " ".join(p.types[x]["s"] for x in b.get("trait_args") or ())
            ty = next((t for t in TEXT if re.search(r"\b%s<" % t, src)), None)
            if ty:
                n += 1
                pn = [x for x in ctx.run(b)[0].params][0]
                check_accessor(ctx, f"{ty}/into text", b, fld(sym(pn), text_field(ctx, ty)))
    ctx.ob("text conversions", n >= 10, f"{n} conversions to text", "")
    # located elements
    accessor(ctx, "Spanned::deref", "Spanned", "deref", S("item"), trait="Deref")
    accessor(ctx, "Spanned::as_ref", "Spanned", "as_ref", SELF)
    for m in ("map", "map_into"):
        b = p.method("Spanned", m)
        for r in ctx.run(b):
            okv = fld(r.ret, "span") is S("span") and fld(r.ret, "item") is app("apply", sym("f"), S("item"))
            ctx.ob(f"Spanned::{m}", okv, str(r.ret)[:200], ctx.at(b))
    b = p.one("types::spanned")
    for r in ctx.run(b):
        ps = list(r.params)
        okv = fld(r.ret, "item") is sym(ps[0]) and fld(r.ret, "span") is sym(ps[1])
        ctx.ob("spanned/stores", okv, str(r.ret)[:200], ctx.at(b))
    for b in p.bodies.values():
        if b["name"] == "item" and b.get("trait") and short(b["trait"]) == "OptionalItem":
            for r in ctx.run(b):
                g = dict(r.guards)
                if g.get(is_(SELF, "Some")) or g.get(is_(SELF, "None")) is False:
                    okv = r.ret is some(fld(pay(SELF, "Some", "0"), "item"))
                else:
                    okv = r.ret is NONE
                ctx.ob("Option<Spanned>::item", okv, str(r.ret)[:200], ctx.at(b))
    # constructors
    for ty, fs in (("Amount", ("number", "currency")), ("LooseAmount", ("number", "currency")), ("AmountWithTolerance", ("amount", "tolerance"))):
        b = p.method(ty, "new")
        for r in ctx.run(b):
            ps = list(r.params)
            for i, f in enumerate(fs):
                want = fld(sym(ps[0]), str(i)) if len(ps) == 1 else sym(ps[i])
                ctx.ob(f"{ty}::new/{f}", fld(r.ret, f) is want, f"{f} is {str(fld(r.ret, f))[:150]}", ctx.at(b))
    # metadata
    b = p.method("Metadata", "is_empty")
    rows = ctx.run(b)
    fields = ("key_values", "tags", "links")
    for r in rows:
        g = dict(r.guards)
        v = r.ret
        ne = {f: g.get(app("nonempty", S(f))) for f in fields}
        if v is FALSE:
            okv = any(x is True for x in ne.values())
        elif v is TRUE:
            okv = all(x is False for x in ne.values())
        else:
            okv = any(
                v is app("not", app("nonempty", S(f))) and all(ne[x] is False for x in fields if x != f) for f in fields
            )
        ctx.ob("Metadata::is_empty", okv, f"when {showg(r.guards)}: {v}", ctx.at(b))
    b = p.method("Metadata", "key_value")
    for r in ctx.run(b):
        kv = S("key_values")
        key = sym(list(r.params)[1])
        g = dict(r.guards)
        if r.ret.op == "adt" and r.ret.a[1] == "Some":
            e = fld(r.ret, "0")
            okv = e.op == "ent" and e.a[0] is kv and is_key(e.a[1], key) or e.op == "fld" and e.a[1] == "1" and e.a[0].op == "first" and by_key(e.a[0], kv, key)
        else:
            okv = r.ret is NONE and (
                g.get(app("nonempty", kv)) is False
                or any(a.op == "exists" and by_key(a, kv, key) and not pol for a, pol in r.guards)
                or any(a.op == "app" and a.a[0] == "has" and a.a[1][0] is kv and is_key(a.a[1][1], key) and not pol for a, pol in r.guards)
            )
        ctx.ob("Metadata::key_value", okv, f"when {showg(r.guards)[:200]}: {str(r.ret)[:200]}", ctx.at(b))


def by_key(t, kv, key):
    """The entry with this key, searched for."""
    k = fld(el(kv), "0")
    wants = [frozenset({(app("eq", x, key), True)}) for x in (k, fld(k, "item"))] + [frozenset({(app("eq", key, x), True)}) for x in (k, fld(k, "item"))]
    return t.a[0] is kv and len(t.a[1]) == 1 and next(iter(t.a[1])) in wants


def is_key(t, key):
    return t is key or (t.op == "adt" and short(t.a[0]) == "Spanned" and fld(t, "item") is key)


def text_field(ctx, ty):
    """The field holding the text of an identifier type."""
    a = next(x for x in ctx.p.adts.values() if short(x["id"]) == ty)
    fs = [f["n"] for f in a["variants"][0]["fs"]]
    return "name" if "name" in fs else "0"
