"""C06: every element of a declaration lands in its own field."""
from values import *

EXPLANATION = (
    "The grammar is read from the type-checked program as a term of parser combinators; for every shape of every directive, "
    "pragma, posting and metadata line (each optional part present or absent, each alternative, repetitions abstracted) the "
    "value its conversion functions build is computed by dataflow and compared, field by field, with the documented one. "
    "Conversions of single tokens (accounts, currencies, tags, links, keys, bookings) keep the token's text. "
    "An obligation is one field of one shape."
)
ASSUMPTIONS = [
    "chumsky's combinators behave as documented",
    "an empty payee or narration counts as absent, a single string is the narration, and txn stands for the flag *",
]
FLOOR = 150
TECHNIQUE = "grammar extraction from THIR and dataflow through the conversion functions, compared with documented values"

BOOKING = {
    "STRICT": "Strict", "STRICT_WITH_SIZE": "StrictWithSize", "NONE": "None", "AVERAGE": "Average",
    "FIFO": "Fifo", "LIFO": "Lifo", "HIFO": "Hifo",
}


def run(ctx):
    d = decls(ctx)
    w = d.w
    res = compare_all(ctx, d)
    for kind, o, c in res:
        if kind is None:
            ctx.ob("shape/" + " ".join(o.shape()), False, "not a documented declaration", w)
            continue
        agg = {}
        for path, okv, msg in c.values:
            if path not in agg or not okv:
                agg[path] = (okv, msg)
        for path, (okv, msg) in agg.items():
            ctx.ob(f"{' '.join(o.shape())}/{path}", okv, msg, w)
    kinds = {k for k, _, _ in res}
    for k in KINDS:
        ctx.ob(f"kind/{k}", k in kinds, f"declarations of kind {k}", w)
    # conversions of single tokens
    for unit, tok in (("account", "Account"), ("currency", "Currency"), ("tag", "Tag"), ("link", "Link"), ("key", "Key")):
        us = d.unit(unit)
        ctx.ob(f"unit/{unit}", len(us) >= 1 and all(outs for _, outs, _ in us), "", w)
        for n, outs, _ in us:
            for o in outs:
                p = pay(o.toks[0], tok, "0")
                v = strip(o.val)
                fs = dict(v.a[2]) if v.op == "adt" else {}
                keeps = [f for f, x in fs.items() if x is p]
                ctx.ob(f"unit/{unit}/text", v.op == "adt" and len(keeps) == 1, f"{str(v)[:250]} keeps the text {p}", w)
    for n, outs, _ in d.unit("booking"):
        seen = {}
        for o in outs:
            s = [x.a[1] for a, p in o.guards if p and a.op == "app" and a.a[0] == "eq" for x in a.a[1] if x.op == "lit"]
            for x in s:
                seen[x] = o.val
        for x, v in BOOKING.items():
            t = seen.get(x)
            ctx.ob(f"unit/booking/{x}", t is not None and t.op == "adt" and t.a[1] == v, f"{x} is {t}", w)
    metadata_lines(ctx, d, w)


def metadata_lines(ctx, d, w):
    """Each metadata line's key and value."""
    for n, outs, O in d.unit("metadata"):
        for o in outs:
            kv = additions(fld(o.val, "key_values"))
            rep = o.toks[0]
            e = el(rep)
            items = O.items[rep][1]
            for i, it in enumerate(items):
                ts = [fld(e, t.a[0]) for t in line_end(it.toks) if name_of(t) != "Indent"]
                if not ts or name_of(ts[0]) != "key":
                    continue
                want = key_value(None, tuple(ts))
                name = " ".join(name_of(t) for t in ts)
                mine = [a for a in kv or () if a.src is rep and consistent(a.guards, ((is_(e, f"alt{i}"), True),))]
                ctx.ob(f"metadata/{name}/present", len(mine) == 1 and want is not None, f"{len(mine)} entries", w)
                for a in mine:
                    c = Cmp(d)
                    c.cmp(norm_spans(a.elem), want.fields["key"], "key")
                    c.cmp(norm_spans(a.value), want.fields["value"], "value")
                    for path, okv, msg in c.values:
                        ctx.ob(f"metadata/{name}/{path}", okv, msg, w)
