"""C33: reports name the kind of the element they are about."""
from common import *

EXPLANATION = (
    "Every implementation of the element kind, found among the type-checked program's trait implementations, is summarised by dataflow "
    "over all of its paths. A kind of element gives its own name on every path, a directive the name of its own variant on the path of "
    "that variant, references and boxes the name of what they refer to, and no two kinds share a name other than a directive and its "
    "variant. An obligation is one path of one implementation, or one pair of kinds."
)
ASSUMPTIONS = ["the message, related items and contexts built from an element use its kind (C23)"]
FLOOR = 30
TECHNIQUE = "dataflow summary of every implementation of the kind of an element, compared with the table of kinds"

NAMES = {
    "Flag": "flag", "Booking": "booking", "Price": "price", "Balance": "balance", "Account": "account",
    "AccountTypeName": "account type name", "AccountName": "account name", "Currency": "currency", "Posting": "posting",
    "SimpleValue": "simple value", "Tag": "tag", "Link": "link", "Key": "key", "ExprValue": "amount", "CostSpec": "cost specification",
}
VARIANTS = ("Transaction", "Price", "Balance", "Open", "Close", "Commodity", "Pad", "Document", "Note", "Event", "Query", "Custom")


def run(ctx):
    p = ctx.p
    bodies = [b for b in p.bodies.values() if b["name"] == "element_type" and b["kind"] == "AssocFn" and b.get("self") is not None and b.get("trait")]
    seen = {}
    for b in bodies:
        h = p.types[b["self"]]["h"]
        t = short(h)
        w = ctx.at(b)
        rows = ctx.run(b, opaque=("ElementType::element_type",))
        if t == "Directive":
            hit = set()
            for r in rows:
                vs = [v for v in VARIANTS if consistent(r.guards, ((is_(S("variant"), v), True),) + tuple((is_(S("variant"), x), False) for x in VARIANTS if x != v))]
                names = labels(r.ret)
                for v in vs:
                    hit.add(v)
                    ctx.ob(f"Directive/{v}", names == {v.lower()} or delegates(r.ret), f"a {v} is named {sorted(map(str, names))}", w)
            ctx.ob("Directive/every variant", hit == set(VARIANTS), f"{sorted(hit)}", w)
            continue
        for r in rows:
            names = labels(r.ret)
            if delegates(r.ret):
                ctx.ob(f"{t}/of what it refers to", t not in NAMES, f"{t} is named {r.ret}", w)
                continue
            want = NAMES.get(t)
            ctx.ob(f"{t}/own name", len(names) == 1 and None not in names and (want is None or names == {want}), f"{t} is named {sorted(map(str, names))}", w)
            seen.setdefault(t, set()).update(names)
    for t in NAMES:
        ctx.ob(f"{t}/implemented", t in seen, "has a kind" if t in seen else "has no kind", "")
    for t in sorted(seen):
        for u in sorted(seen):
            if t < u:
                ctx.ob(f"{t} and {u}/told apart", not (seen[t] & seen[u]), f"both are named {seen[t] & seen[u]}", "")


def labels(t):
    """The names a term can be; None stands for anything else."""
    if t.op == "lit":
        return {t.a[1]}
    if t.op == "ite":
        return labels(t.a[1]) | labels(t.a[2])
    return {None}


def delegates(t):
    """The kind of a part of self."""
    if t.op != "app" or not t.a[0].endswith("element_type") or len(t.a[1]) != 1:
        return False
    x = t.a[1][0]
    while x.op in ("fld", "pay", "deref"):
        x = x.a[0]
    return x is SELF
