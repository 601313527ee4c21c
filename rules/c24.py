"""C24: location never affects equality or hashing of elements."""
from common import *
from graph import derived

EXPLANATION = (
    "Every equality, hash and ordering of the crate's types is summarised as a decision table by dataflow over the type-checked program. "
    "Equality of two values of one type must be true exactly when all corresponding components other than locations are equal (decided by "
    "truth table over the component comparisons), hashing may only depend on components which equality compares and on each of the item's own "
    "hash, comparison with text must compare the stored text, and orderings must be the ordering of the text. "
    "An obligation is one table row or one truth assignment."
)
ASSUMPTIONS = ["equality, hashing and ordering of standard library and third-party types are lawful"]
FLOOR = 150
TECHNIQUE = "dataflow summaries of Eq, Hash and Ord implementations, truth tables over component comparisons"

LOCATION = {"Span", "SourceId", "SimpleSpan"}
TEXT = ("Subaccount", "AccountTypeName", "AccountName", "Currency", "Tag", "Link", "Key")
OTHER = sym("other")


def is_location(p, t, depth=0):
    h = p.head(t)
    if short(h) in LOCATION:
        return True
    a = p.adts.get(h)
    if a and not a["enum"] and depth < 3 and a["variants"][0]["fs"]:
        return all(is_location(p, f["t"], depth + 1) for f in a["variants"][0]["fs"])
    return False


def mate(atom, x, y):
    """For eq(a, b) of corresponding components of x and y: the component of x."""
    if atom.op == "app" and atom.a[0] in ("eq", "PartialEq::eq"):
        a, b = atom.a[1]
        for a, b in ((a, b), (b, a)):
            if mentions_(a, x) and not mentions_(a, y) and subst(a, {x: y}) is b:
                return a
    return None


def mentions_(t, x):
    return x in set(subterms(t))


def run(ctx):
    p = ctx.p
    n = {"eq": 0, "hash": 0, "cmp": 0}
    eqs = {}
    for b in p.bodies.values():
        if not b.get("trait") or b.get("self") is None or short(b["trait"]) not in ("PartialEq",) or b["name"] != "eq":
            continue
        h = p.head(b["self"])
        a = p.adts.get(h)
        if not a:
            continue
        ta = [p.types[x] for x in b.get("trait_args") or ()]
        rhs = p.head(b["trait_args"][1]) if len(ta) > 1 else h
        key = f"{short(h)}/eq"
        rows = ctx.run(b)
        ps = list(rows[0].params)
        x, y = sym(ps[0]), sym(ps[1])
        n["eq"] += 1
        if rhs == h:
            if short(h) in LOCATION or not a["reach"]:
                continue
            if a["enum"]:
                enum_eq(ctx, key, a, b, rows, x, y)
            else:
                eqs[h] = struct_eq(ctx, key, a, b, rows, x, y)
        else:
            # equality with text or number: the stored value
            for r in rows:
                f = r.ret
                okv = f.op == "app" and f.a[0] in ("eq", "PartialEq::eq") and {str(q) for q in f.a[1]} & {str(y)} and any(
                    q is fld(x, g) for q in f.a[1] for g in ("0", "name", "value", "item")
                )
                ctx.ob(f"{key} {p.types[b['trait_args'][1]]['s']}", okv and not r.guards, str(r.ret)[:200], ctx.at(b))
    # no type of elements compares without its own items
    for b in p.bodies.values():
        if b.get("trait") and short(b["trait"]) == "PartialEq" and b["name"] == "ne" and not derived(b):
            ctx.ob(f"{short(p.head(b['self']))}/ne", False, "inequality is defined apart from equality", ctx.at(b))
    for b in p.bodies.values():
        if not b.get("trait") or b.get("self") is None or short(b["trait"]) != "Hash" or b["name"] != "hash":
            continue
        h = p.head(b["self"])
        a = p.adts.get(h)
        if not a or short(h) in LOCATION:
            continue
        n["hash"] += 1
        key = f"{short(h)}/hash"
        for r in ctx.run(b):
            x = sym(list(r.params)[0])
            hs = [e for e in r.eff if e[0] == "call"]
            okc = all(e[1] == "Hash::hash" or e[1].startswith("Hasher::write") for e in hs)
            ctx.ob(key, okc, f"effects {[e[1] for e in hs]}", ctx.at(b))
            for e in hs:
                v = e[2][0] if e[1] == "Hash::hash" else e[2][-1]
                okv = hashable(p, a, v, x)
                ctx.ob(f"{key}/depends", okv, f"hashes {str(v)[:200]}", ctx.at(b))
            for c, _ in r.guards:
                ctx.ob(f"{key}/condition", not location_term(p, a, c), f"depends on {str(c)[:200]}", ctx.at(b))
            if short(h) == "Spanned":
                ctx.ob("Spanned/hash/item", [e[2][0] for e in hs] == [fld(x, "item")], f"hashes {[str(e[2][0]) for e in hs]}", ctx.at(b))
            elif short(h) in TEXT:
                ctx.ob(f"{key}/text", [e[2][0] for e in hs] == [fld(x, "0")], f"hashes {[str(e[2][0]) for e in hs]}", ctx.at(b))
    for b in p.bodies.values():
        if not b.get("trait") or b.get("self") is None or short(b["trait"]) not in ("Ord", "PartialOrd"):
            continue
        h = p.head(b["self"])
        if short(h) not in TEXT:
            continue
        n["cmp"] += 1
        for r in ctx.run(b):
            ps = list(r.params)
            x, y = sym(ps[0]), sym(ps[1])
            want = app("Ord::cmp", fld(x, "0"), fld(y, "0"))
            got = r.ret
            if b["name"] == "partial_cmp":
                ok1 = got is some(want) or got is app("PartialOrd::partial_cmp", fld(x, "0"), fld(y, "0"))
            elif b["name"] == "cmp":
                ok1 = got is want
            else:
                ok1 = derived(b)
            ctx.ob(f"{short(h)}/{b['name']}", ok1, str(got)[:200], ctx.at(b))
    ctx.ob("equalities", n["eq"] >= 30, f"{n['eq']}", "")
    ctx.ob("hashes", n["hash"] >= 8, f"{n['hash']}", "")
    ctx.ob("orderings", n["cmp"] >= 8, f"{n['cmp']}", "")
    for ty in ("Spanned",) + TEXT + ("Account", "Metadata", "Amount", "Posting", "Transaction", "Directive"):
        if not any(short(h) == ty for h in eqs):
            ctx.ob(f"{ty}/eq/present", ty in ("Metadata", "Posting", "Transaction", "Directive"), "equality is defined", "")


def hashable(p, a, v, x):
    """A discriminant or component of the value, other than a location."""
    if v.op == "app" and v.a[0] == "intrinsics::discriminant_value":
        return v.a[1][0] is x
    return mentions_(v, x) and not location_term(p, a, v)


def location_term(p, a, v):
    locs = {f["n"] for vr in a["variants"] for f in vr["fs"] if is_location(p, f["t"])}
    return any(
        t.op == "fld" and (t.a[1] in ("span",) or t.a[1] in locs and t.a[0].op == "sym") for t in subterms(v)
    )


def struct_eq(ctx, key, a, b, rows, x, y):
    p = ctx.p
    want = [f["n"] for f in a["variants"][0]["fs"] if not is_location(p, f["t"])]
    atoms_ = set()
    for r in rows:
        for c, _ in r.guards:
            atoms_.add(c)
        if r.ret.op != "lit":
            atoms_.add(r.ret.a[1][0] if r.ret.op == "app" and r.ret.a[0] == "not" else r.ret)
    by = {}
    for c in atoms_:
        m = mate(c, x, y)
        f = None
        if m is not None:
            t = m
            while t.op == "fld" and t.a[0] is not x:
                if t.a[1] not in ("item", "0"):
                    t = None
                    break
                t = t.a[0]
            if t is not None and t.op == "fld":
                f = t.a[1]
            elif m is x and len(want) == 1:
                f = want[0]
        okv = f in want
        ctx.ob(f"{key}/compares", okv, f"{str(c)[:200]}", ctx.at(b))
        if not okv:
            return want
        by.setdefault(f, []).append(c)
    ctx.ob(f"{key}/all", sorted(by) == sorted(want), f"compares {sorted(by)} of {sorted(want)}", ctx.at(b))
    if sorted(by) != sorted(want) or len(want) > 10:
        return want
    for bits in range(1 << len(want)):
        env = {c: bool(bits >> i & 1) for i, f in enumerate(want) for c in by[f]}
        sel = [r for r in rows if all(env[c] == pol for c, pol in r.guards)]
        vals = set()
        for r in sel:
            v = r.ret
            if v.op == "lit":
                vals.add(v.a[1])
            elif v.op == "app" and v.a[0] == "not":
                vals.add(not env[v.a[1][0]])
            else:
                vals.add(env[v])
        ctx.ob(f"{key}/truth", vals == {all(env.values())}, f"{bits:b}: {vals}", ctx.at(b))
    return want


def enum_eq(ctx, key, a, b, rows, x, y):
    """True exactly for the same variant with equal components."""
    p = ctx.p
    disc = {app("eq", app("intrinsics::discriminant_value", q), app("intrinsics::discriminant_value", r)) for q, r in ((x, y), (y, x))}
    vs = {v["n"]: [f["n"] for f in v["fs"] if not is_location(p, f["t"])] for v in a["variants"]}

    def decide(v, w, comp):
        """The results possible for a value of variant v and one of w with the component comparison."""
        out = set()

        def truth(c):
            if c in disc:
                return v == w
            if c.op == "is" and c.a[0] is x:
                return c.a[1] == v
            if c.op == "is" and c.a[0] is y:
                return c.a[1] == w
            if c.op == "app" and c.a[0] == "not":
                t = truth(c.a[1][0])
                return None if t is None else not t
            m = mate(c, x, y)
            if m is not None and v == w:
                while m.op == "fld" and m.a[1] in ("item", "0"):
                    m = m.a[0]
                if m.op == "pay" and m.a[0] is x:
                    return comp.get(m.a[2])
            return None

        for r in rows:
            ts = [truth(c) == pol if truth(c) is not None else None for c, pol in r.guards]
            if False in ts:
                continue
            if None in ts:
                out.add(None)
                continue
            out.add(r.ret.a[1] if r.ret.op == "lit" else truth(r.ret))
        return out

    for v, fs in vs.items():
        for w in vs:
            if v != w:
                got = decide(v, w, {})
                ctx.ob(f"{key}/variants", got == {False}, f"{v} and {w}: {got}", ctx.at(b))
        for bits in range(1 << len(fs)):
            comp = {f: bool(bits >> i & 1) for i, f in enumerate(fs)}
            got = decide(v, v, comp)
            ctx.ob(f"{key}/components", got == {all(comp.values())}, f"{v} with {comp}: {got}", ctx.at(b))
