"""C14: identifiers are always valid."""
from common import *
from graph import *
from words import *

EXPLANATION = (
    "Each validator is summarised as a decision table over the characters of its text (dataflow over the type-checked program) and "
    "compared with the specified language over all words up to length 3 of representatives of every character class and longer words "
    "of a reduced alphabet; both are decided by their first, inner and last characters and by class membership, so these words decide "
    "them. On acceptance the value holds exactly the text validated. Separately, every construction of an identifier type anywhere in "
    "the crate must be within its validator (or a helper used only by it), no field may be public or assigned, and no other trait "
    "(Default, FromStr, Deserialize) may build one. An obligation is one word, one construction site or one field."
)
ASSUMPTIONS = [
    "standard library character predicates (is_alphanumeric and the like) are as documented",
    "str::split, chars, find and similar are as documented",
]
FLOOR = 10000
TECHNIQUE = "validator predicates extracted by dataflow and compared with the specified languages; construction-site (typestate) analysis"
LEVEL_NOTE = "words up to length 5 over character-class representatives"


def alnum(c):
    return pred("is_alphanumeric", c)


def up(c):
    return c in "ABCDEFGHIJKLMNOPQRSTUVWXYZ"


def dig(c):
    return c in "0123456789"


def low(c):
    return c in "abcdefghijklmnopqrstuvwxyz"


def type_name(s):
    return len(s) > 0 and up(s[0]) and all(alnum(c) or c == "-" for c in s[1:])


def account_name(s):
    return (
        len(s) > 0
        and (up(s[0]) or dig(s[0]) or ord(s[0]) > 127 and pred("is_alphabetic", s[0]))
        and all(alnum(c) or c == "-" for c in s[1:])
    )


def subaccount(s):
    return all(account_name(x) for x in s.split(":"))


def currency(s):
    return (
        len(s) > 0
        and (up(s[0]) or s[0] == "/")
        and (up(s[-1]) or dig(s[-1]))
        and all(up(c) or dig(c) or c in "'._-" for c in s[1:-1])
        and any(up(c) for c in s)
    )


def tag_or_link(s):
    return len(s) > 0 and all(alnum(c) or c in "-_/." for c in s)


def key(s):
    return len(s) > 0 and low(s[0]) and all(alnum(c) or c in "-_" for c in s[1:])


SPECS = {
    "AccountTypeName": type_name,
    "AccountName": account_name,
    "Subaccount": subaccount,
    "Currency": currency,
    "Tag": tag_or_link,
    "Link": tag_or_link,
    "Key": key,
}
ALL = ASCII + OTHER
FEW = "Aa0-:/é"


def corpus(upto_all=3, upto_few=5):
    seen = set()
    for w in itertools.chain(words(ALL, 2), words("Aa0-_/.':éɐ 字"[:9] + OTHER[:4] + " #", upto_all), words(FEW, upto_few)):
        if w not in seen:
            seen.add(w)
            yield w


def check_validator(ctx, name, b, spec, ws, okf, maps=None, extra_env=None):
    """Every word is accepted exactly when the specification says so, as itself."""
    rows = ctx.run(b)
    W = Words(ctx.p, maps)
    ps = list(rows[0].params)
    s = sym(ps[0])
    n = 0
    bad = None
    for w in ws:
        env = {s: w}
        try:
            sel = W.select(rows, env)
            if not sel:
                raise Unknown(f"no path for {w!r}")
            for r in sel:
                got = r.ret.op == "adt" and r.ret.a[1] == "Ok"
                want = spec(w)
                if got != want:
                    bad = f"{name} {'accepts' if got else 'refuses'} {w!r}"
                elif got and not okf(W, fld(r.ret, "0"), env, w):
                    bad = f"{name} of {w!r} is {str(fld(r.ret, '0'))[:200]}"
        except Unknown as x:
            bad = f"cannot decide {w!r}: {x}"
        n += 1
        if bad:
            break
    ctx.ob(f"{name}/validator", not bad, bad or f"{n} words", ctx.at(b))
    if not bad:
        for i in range(n):
            ctx.obs.append((f"{name}/word", True, "", ""))
    return not bad


def run(ctx):
    p = ctx.p
    deep = ctx.tier == "thorough"
    for ty, spec in SPECS.items():
        b = p.method(ty, "try_from", "TryFrom")
        check_validator(
            ctx, ty, b, spec, corpus(4 if deep else 3, 6 if deep else 4), lambda W, t, env, w: W.val(fld(t, "0"), env) == w
        )
    b = p.method("FlagLetter", "try_from", "TryFrom")
    check_validator(ctx, "FlagLetter", b, up, list(ALL) + [chr(i) for i in range(128)], lambda W, t, env, w: W.val(fld(t, "0"), env) == w)
    constructions(ctx)


VALIDATOR = {**{t: ("try_from", "TryFrom") for t in SPECS}, "FlagLetter": ("try_from", "TryFrom"), "Account": ("new", None)}


def constructions(ctx):
    p = ctx.p
    g = graph(ctx)
    ids = {}
    for a in p.adts.values():
        if short(a["id"]) in VALIDATOR and "::types::" in a["id"]:
            ids[a["id"]] = short(a["id"])
    ctx.ob("types", len(ids) == len(VALIDATOR), f"found {sorted(ids.values())}", "")
    for i, ty in ids.items():
        for f in p.adts[i]["variants"][0]["fs"]:
            ctx.ob(f"{ty}/field {f['n']}", not f["vis"].startswith("Public"), f"visibility {f['vis']}", i)
    sites = 0
    for b in p.bodies.values():
        for n in exprs(b["body"]):
            t = None
            if n["k"] == "Adt" and n["adt"] in ids:
                t = ids[n["adt"]]
            elif n["k"] in ("Fn", "Call") and n.get("fn") and n["fn"].get("kind", "").startswith("Ctor") and n["fn"].get("local"):
                own = n["fn"]["path"].rsplit("::", 1)[0] if n["fn"]["path"].endswith("::{constructor#0}") else n["fn"]["path"]
                t = next((x for j, x in ids.items() if strip_generics(own) == j or strip_generics(own).startswith(j + "::")), None)
            if t is None and n["k"] == "Assign":
                l = n["l"]
                while l.get("k") in ("Deref", "Field"):
                    if l["k"] == "Field" and p.head(l["bt"]) in ids:
                        ctx.ob(f"{ids[p.head(l['bt'])]}/assigned in {g.owner(b['id'])['path']}", False, "a field is assigned", loc(n))
                    l = l["e"]
            if t is None:
                continue
            if derived(b) and b["name"] == "clone":
                continue
            sites += 1
            ok = guarded(ctx, g, b, t, set()) or of_literals(ctx, g, b, t, next(j for j, x in ids.items() if x == t))
            ctx.ob(f"{t}/constructed in {g.owner(b['id'])['path']}", ok, "constructed outside its validator" if not ok else "within the validator", loc(n))
    ctx.ob("construction sites", sites >= 9, f"{sites} sites", "")
    # the validated type names account names and others are built by no other means
    for b in p.bodies.values():
        if b.get("trait") and short(b["trait"]) in ("Default", "FromStr", "Deserialize") and b.get("self") is not None:
            h = p.head(b["self"])
            if h in ids:
                ctx.ob(f"{ids[h]}/{short(b['trait'])}", False, "an identifier can be built without its validator", ctx.at(b))


def of_literals(ctx, g, b, ty, i):
    """Are all values of the type which the function builds made of literals the validator accepts?"""
    if ty not in SPECS:
        return False
    try:
        rows = ctx.run(g.owner(b["id"]))
    except Exception:
        return False
    n = 0
    for r in rows:
        for t in [r.ret] + [x for e in r.eff for x in e if isinstance(x, T)] + [c for c, _ in r.guards]:
            for x in subterms(t):
                if x.op == "adt" and strip_generics(x.a[0]) == i:
                    v = fld(x, "0")
                    if not (v.op == "lit" and isinstance(v.a[1], str) and SPECS[ty](v.a[1])):
                        return False
                    n += 1
    return n > 0


def guarded(ctx, g, b, ty, seen):
    """Is b the validator of ty, or used by nothing else?"""
    p = ctx.p
    o = g.owner(b["id"])
    if o["id"] in seen:
        return True
    seen.add(o["id"])
    name, trait = VALIDATOR[ty]
    if (
        o["name"] == name
        and (short(o["trait"]) if o.get("trait") else None) == trait
        and o.get("self") is not None
        and short(p.types[o["self"]]["h"]) == ty
    ):
        return True
    if o.get("reach") or o.get("trait"):
        return False
    cs = {g.owner(c)["id"] for c in g.callers(o["id"])}
    return bool(cs) and all(guarded(ctx, g, p.bodies[c], ty, seen) for c in cs)
