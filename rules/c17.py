"""C17: cost specifications and price annotations keep every component once."""
from common import *
from values import *

EXPLANATION = (
    "Dataflow over the type-checked program: the value and the errors of every shape of a cost specification and of a price "
    "annotation are computed from the grammar's combinators and the functions it applies, for an arbitrary first component "
    "and inductively for each further one (what each kind of component does to each field and to the errors, depending on whether "
    "the field is set). Each component sets its own field, with its own value and location, if the field is unset; otherwise the "
    "field is kept and the specification refused. An obligation is one field for one kind of component in one shape."
)
ASSUMPTIONS = ["which token sequences are accepted is decided by C27", "the value of an amount by C16"]
FLOOR = 300
FIELDS = ("per_unit", "total", "currency", "date", "label", "merge")


def comps(toks):
    """Field -> value of one component with these tokens."""
    out = {}
    if not toks:
        return out
    names = [name_of(t) for t in toks]
    ex = [t for t in toks if name_of(t) == "expr"]
    if len(ex) == 2:
        out["per_unit"], out["total"] = ex
    elif len(ex) == 1:
        out["total" if names[0] == "Hash" else "per_unit"] = ex[0]
    for t in toks:
        n = name_of(t)
        if n == "currency":
            out["currency"] = t
        if n == "Date":
            out["date"] = pay(t, "Date", "0")
        if n == "StringLiteral":
            out["label"] = pay(t, "StringLiteral", "0")
        if n == "Asterisk":
            out["merge"] = TRUE
    return out


def located(v, val, toks):
    return v.op == "adt" and v.a[1] == "Some" and strip(fld(fld(v, "0"), "item")) is val and fld(fld(v, "0"), "span") is span_of(*toks)


def unset(f):
    return FALSE if f == "merge" else NONE


def run(ctx):
    d = decls(ctx)
    cost(ctx, d)
    price(ctx, d)


def alt_of(g, e):
    return [a.a[1] for a, p in g if p and a.op == "is" and a.a[0] is e and str(a.a[1]).startswith("alt")]


def cost(ctx, d):
    us = d.unit("cost")
    ctx.ob("cost/grammar", len(us) == 1, f"{len(us)} grammar rules for a cost specification", d.w)
    for n, outs, O in us:
        for o in outs:
            sh = o.shape()
            key = "cost/" + " ".join(sh)
            if sh == ("Lcurl", "Rcurl"):
                for f in FIELDS:
                    ctx.ob(f"{key}/{f}", fld(o.val, f) is unset(f), f"{f} is {str(fld(o.val, f))[:200]}", d.w)
                continue
            reps = [t for t in o.toks if t in O.items]
            first = [t for t in o.toks if t not in O.items and name_of(t) not in ("Lcurl", "Rcurl", "Comma")]
            ok = o.val.op == "adt" and len(reps) == 1
            if not ctx.ob(f"{key}/shape", ok, f"{sh} gives {str(o.val)[:200]}", d.w):
                continue
            rep = reps[0]
            e = el(rep)
            head = comps(first)
            alts = {}
            for i, x in enumerate(d.items.get(rep, O.items[rep])[1]):
                m = {t: fld(e, t.a[0]) for t in x.toks if t.op == "sym"}
                toks = tuple(subst(t, m) for t in x.toks if name_of(t) != "Comma")
                alts[f"alt{i}"] = toks
            for f in FIELDS:
                v = fld(o.val, f)
                init = v.a[0] if v.op == "fold" and v.a[1] is rep else v
                if f in head:
                    okv = init is TRUE if f == "merge" else located(init, head[f], first)
                    # what is set first is kept: no fold, or one which never changes a set field
                    if okv and v.op == "fold":
                        okv = all(t is mk("acc") or t is TRUE for g, t in v.a[2] if not any(a.op == "is" and a.a[0] is mk("acc") and a.a[1] == "None" and p for a, p in g))
                else:
                    okv = init is unset(f)
                ctx.ob(f"{key}/{f} of the first", okv, f"{f} starts as {str(init)[:250]}", d.w)
                if f in head:
                    continue
                rows = fold_rows(v, init, rep)
                if not ctx.ob(f"{key}/{f} accumulated", rows is not None and v.op == "fold", f"{f} is {str(v)[:250]}", d.w):
                    continue
                for a, toks in alts.items():
                    later(ctx, f"{key}/{f} of a later {' '.join(name_of(t) for t in toks)}", f, comps(toks), toks, a, rows, e, d.w)
            errors(ctx, key, o, head, alts, rep, e, d.w)


def later(ctx, key, f, cs, toks, a, rows, e, w):
    acc = mk("acc")
    n = {True: 0, False: 0}
    for r in rows:
        if not consistent(r.guards, ((is_(e, a), True),)):
            continue
        if alt_of(r.guards, e) not in ([a], []):
            continue
        g = dict(r.guards)
        if f == "merge":
            isset = g.get(acc)
        else:
            isset = g.get(is_(acc, "Some"), None if g.get(is_(acc, "None")) is None else not g[is_(acc, "None")])
        if f not in cs:
            ok = r.val is acc
        elif f == "merge":
            ok = r.val is TRUE or (isset is True and r.val is acc)
        elif isset is False:
            ok = located(r.val, cs[f], toks)
            n[False] += 1
        else:
            ok = isset is True and r.val is acc
            n[True] += 1
        ctx.ob(key, ok, f"when {showg(r.guards)[:300]}: {f} becomes {str(r.val)[:300]}", w)
    if f in cs and f != "merge":
        ctx.ob(key + "/covered", n[False] > 0, f"the component sets {f}", w)


def errors(ctx, key, o, head, alts, rep, e, w):
    es = [(a, p) for a, p in o.guards if a.op == "app" and a.a[0] == "nonempty" and not p]
    others = [(a, p) for a, p in o.guards if (a, p) not in es]
    if not ctx.ob(f"{key}/refused only with errors", len(es) == 1 and not others, f"accepted when {showg(o.guards)[:400]}", w):
        return
    E = es[0][0].a[1][0]
    if E.op == "seq":
        rows = fold_rows(E, EMPTY, rep)
    else:
        rows = fold_rows(E, EMPTY, rep) if E.op == "fold" else None
    if not ctx.ob(f"{key}/errors accumulated", rows is not None, f"errors are {str(E)[:300]}", w):
        return
    acc = mk("acc")
    for a, toks in alts.items():
        cs = comps(toks)
        n = 0
        for r in rows:
            if not consistent(r.guards, ((is_(e, a), True),)) or alt_of(r.guards, e) not in ([a], []):
                continue
            n += 1
            dup = 0
            unknown = []
            for f in cs:
                if f in head:
                    dup += 1
                    continue
                s = is_set(r.guards, f)
                if s is None:
                    unknown.append(f)
                elif s:
                    dup += 1
            ps = appended(r.val, acc)
            k = None if ps is None or any(p[0] != "one" for p in ps) else len(ps)
            if dup:
                ok = k is not None and k >= 1
            else:
                ok = k == 0 and not unknown
            ctx.ob(f"{key}/repeat by {' '.join(name_of(t) for t in toks)}", ok, f"when {showg(r.guards)[:400]}: errors {str(r.val)[:200]}, {dup} fields repeated", w)
        ctx.ob(f"{key}/repeat by {' '.join(name_of(t) for t in toks)} covered", n > 0, f"{n} paths", w)


def is_set(guards, f):
    """Does the path say that field f was set before this component?"""
    for a, p in guards:
        x, want = a, None
        if a.op == "is" and a.a[1] in ("Some", "None"):
            x, want = a.a[0], a.a[1] == "Some"
        else:
            want = True
        if x.op == "lv" and str(x.a[-1]).split(".")[-1] == f:
            return p == want
    return None


def price(ctx, d):
    us = d.unit("priceann")
    ctx.ob("price/grammar", len(us) == 1, f"{len(us)} grammar rules for a price annotation", d.w)
    seen = set()
    for n, outs, O in us:
        for o in outs:
            sh = o.shape()
            key = "price/" + " ".join(sh)
            seen.add(sh)
            k = Toks(o.toks)
            total = sh[0] == "AtAt"
            am = A1("Total" if total else "PerUnit", k.t("expr")) if "expr" in sh else None
            if "expr" in sh and "currency" in sh:
                want = A("CurrencyAmount", **{"0": am, "1": k.t("currency")})
            elif "expr" in sh:
                want = A1("BareAmount", am)
            elif "currency" in sh:
                want = A1("BareCurrency", k.t("currency"))
            else:
                want = A("Unspecified")
            c = Cmp(d)
            c.cmp(o.val, want, "price")
            for p, okv, msg in c.values:
                ctx.ob(f"{key}/{p}", okv, msg, d.w)
            ctx.ob(f"{key}/no condition", not o.guards and not parts(o.emits), f"accepted only when {showg(o.guards)[:200]}", d.w)
    want = {(a,) + b + c for a in ("At", "AtAt") for b in ((), ("expr",)) for c in ((), ("currency",))}
    ctx.ob("price/shapes", seen == want, f"{sorted(seen ^ want)}", d.w)
