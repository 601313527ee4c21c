"""C11: each option sets its own setting, and bad options are reported."""
from common import *
from values import *

EXPLANATION = (
    "Dataflow over the type-checked program, end to end per option name: every path of the grammar's conversion of an option "
    "(its name and value strings, to the option it stands for), every path of the processor's step on such an option, and every "
    "path of the accessor of the same name are summarised and composed. A known name with a valid value updates exactly the field "
    "its accessor reads, with the value converted and its location; an unknown name or invalid value emits one error and changes "
    "nothing; a second value for the same setting appends one error and changes nothing. An obligation is one of these facts for "
    "one option name on one path."
)
ASSUMPTIONS = [
    "Decimal::try_from(&str) and str::parse::<usize> convert as documented (C29)",
    "which texts are valid accounts, currencies and account type names is decided by C14, the renaming of account types by C20",
    "HashMap behaves as documented",
]
FLOOR = 250

N_, V_ = sym("StringLiteral#0"), sym("StringLiteral#1")
NAME, VALUE = pay(N_, "StringLiteral", "0"), pay(V_, "StringLiteral", "0")
CONVERTED = {
    "conversion_currency": "Currency",
    "operating_currency": "Currency",
    "inferred_tolerance_multiplier": "Decimal",
    "plugin_processing_mode": "PluginProcessingMode",
}
for n in ("previous_balances", "previous_earnings", "previous_conversions", "current_earnings", "current_conversions",
          "unrealized_gains", "rounding"):
    CONVERTED["account_" + n] = "Subaccount"
SINGLE = ["title", "infer_tolerance_from_cost", "render_commas", "booking_method"] + [k for k in CONVERTED if k != "operating_currency"]
SETS = ["documents", "operating_currency"]
TYPES = {"name_" + t.lower(): t for t in ("Assets", "Liabilities", "Equity", "Income", "Expenses")}
OTHERS = ["inferred_tolerance_default", "long_string_maxlines"]
ALL = SINGLE + SETS + list(TYPES) + OTHERS
BOOKING = {"STRICT": "Strict", "STRICT_WITH_SIZE": "StrictWithSize", "NONE": "None", "AVERAGE": "Average", "FIFO": "Fifo", "LIFO": "Lifo", "HIFO": "Hifo"}


def eqn(lit_):
    return app("eq", lit("str", lit_), NAME)


def eqv(s):
    return app("eq", lit("str", s), VALUE)


def nocase(s):
    return app("str::eq_ignore_ascii_case", VALUE, lit("str", s))


def fallible(t):
    """X when t is the success of a fallible conversion X."""
    if t.op == "pay" and t.a[1] in ("Ok", "Some"):
        return t.a[0]
    return None


def conversion_of(t, ty, arg_):
    """Is t the result of a conversion of arg_ to ty?"""
    return t is not None and t.op == "app" and re.search(r"\b%s\b" % ty, str(t.a[0])) is not None and t.a[1] == (arg_,)


def run(ctx):
    ids = impl_ids(ctx, ("Subaccount", "AccountTypeName", "Currency", "CurrencyOrAny", "PluginProcessingMode"))
    d = decls(ctx, ids)
    us = d.unit("option", merge=False)
    ctx.ob("grammar/option", len(us) == 1, f"{len(us)} grammar rules for an option", d.w)
    outs = [cut_twice(o) for _, os, _ in us for o in os]
    b, st = processor(ctx, opaque=("sources::resolve_included_path",))
    w = ctx.at(b)
    steps_ = [r for r in st if consistent(r.guards, g_pragma("Option"))]
    fields = accessors(ctx)
    seen = set()
    for o in outs:
        g = dict(o.guards)
        names = [n for n in ALL if g.get(eqn(n)) is True]
        known = {a.a[1][0].a[1] for a, p in o.guards if p and a.op == "app" and a.a[0] == "eq" and a.a[1][1] is NAME and a.a[1][0].op == "lit"}
        extra = known - set(ALL)
        ctx.ob("grammar/documented names", not extra, f"accepts the undocumented option {sorted(extra)}", d.w)
        err = parts(o.emits)
        if not names:
            # no name matched: an unknown option
            unk = all(g.get(eqn(n)) is False for n in ALL)
            ctx.ob("unknown/reported", unk and len(err) == 1 and err[0][0] == "one", f"when {showg(o.guards)[:300]}: errors {str(o.emits)[:200]}", d.w)
            nothing(ctx, "unknown", o, steps_, w)
            seen.add(("unknown", True))
            continue
        n = names[0]
        ok = not err
        seen.add((n, ok))
        bad = invalid(n, o.guards)
        if not ok:
            ctx.ob(f"{n}/one error", len(err) == 1 and err[0][0] == "one", f"errors {str(o.emits)[:300]}", d.w)
            ctx.ob(f"{n}/error only for a bad value", bad is True, f"reports an error when {showg([x for x in o.guards if VALUE in set(subterms(x[0]))])[:400]}", d.w)
            nothing(ctx, n, o, steps_, w)
            continue
        ctx.ob(f"{n}/bad value reported", bad is False, f"accepted when {showg([x for x in o.guards if VALUE in set(subterms(x[0]))])[:400]}", d.w)
        if n in TYPES:
            renames(ctx, n, o, d.w)
            nothing(ctx, n, o, steps_, w, state=False)
        elif n == "long_string_maxlines":
            maxlines(ctx, n, o, d.w)
            nothing(ctx, n, o, steps_, w, state=False)
        else:
            unchanged_state(ctx, n, o, d.w)
            effect(ctx, n, o, steps_, fields, w)
    for n in ALL:
        ctx.ob(f"{n}/known", (n, True) in seen, "the option is recognised" if (n, True) in seen else "no path accepts the option", d.w)
        if n not in ("title", "documents"):
            ctx.ob(f"{n}/can be refused", (n, False) in seen, "invalid values are refused", d.w)
    ctx.ob("unknown/covered", ("unknown", True) in seen, "unknown names", d.w)
    literal_types(ctx)
    initial(ctx, fields)
    delivered(ctx)


def state_changes(o):
    """Fields of the parser state other than warnings which a way changes."""
    out = []
    for g, s in o.state:
        if s.op == "with":
            out += [(k[1], v) for k, v in s.a[1] if k[1] != "warnings"]
        elif s is not sym("state"):
            out.append(("?", s))
    return out


def unchanged_state(ctx, n, o, w):
    ch = state_changes(o)
    ctx.ob(f"{n}/parser options unchanged", all(v is fld(sym("state"), k) for k, v in ch), f"changes {str(ch)[:300]}", w)


def apply_step(r, v):
    """The step r for the option value v: (guards, updates), or None when it does not apply."""
    m = {arg("Option"): v}
    gs = []
    for a, p in r.guards:
        x = subst(a, m)
        if x.op == "is" and x.a[0].op == "adt":
            x = TRUE if x.a[0].a[1] == x.a[1] else FALSE
        if x is TRUE or x is FALSE:
            if (x is TRUE) != p:
                return None
            continue
        gs.append((x, p))
    if not consistent(gs, ()):
        return None
    return tuple(gs), {str(k): subst(x, m) for k, x in r.upd.items()}


def unchanged(upd, but=()):
    return [k for k, v in upd.items() if (k.startswith("self.options") or k in ("self.errors", "self.plugins")) and str(v) != k and k not in but]


def nothing(ctx, n, o, steps_, w, state=True):
    """The value delivered for a bad or already effective option does nothing when processed."""
    if state:
        unchanged_state(ctx, n, o, w)
    k = 0
    for r in steps_:
        a = apply_step(r, o.val)
        if a is None:
            continue
        k += 1
        ch = unchanged(a[1])
        ctx.ob(f"{n}/no further effect", not ch, f"changes {ch}", w)
    ctx.ob(f"{n}/processed", k > 0, f"{k} paths", w)


def effect(ctx, n, o, steps_, fields, w):
    v = o.val
    span = spanof(V_)
    F = fields.get(n)
    if F is None:
        return
    f = "self.options." + F
    cur = S("options." + F)
    none = some_ = False
    for r in steps_:
        a = apply_step(r, v)
        if a is None:
            continue
        gs, upd = a
        new = upd.get(f, cur)
        ch = unchanged(upd, (f,))
        g = dict(gs)
        if n in SINGLE:
            vac = g.get(is_(cur, "None"), None if g.get(is_(cur, "Some")) is None else not g[is_(cur, "Some")])
            key = None
        else:
            key = key_of(n, o, upd, f, cur)
            hs = [(t, p) for t, p in gs if t.op == "app" and t.a[0] == "has" and t.a[1][0] is cur]
            vac = None if len(hs) != 1 else not hs[0][1]
            if hs:
                ctx.ob(f"{n}/looks up its value", is_payload(n, o, hs[0][0].a[1][1], key=True), f"looks for {str(hs[0][0].a[1][1])[:200]}", w)
        if vac is None:
            ctx.ob(f"{n}/second value", False, f"the step does not tell whether the option is set already: {showg(gs)[-300:]}", w)
            continue
        if vac:
            none = True
            ctx.ob(f"{n}/only its own setting", not ch, f"also changes {ch}", w)
            ctx.ob(f"{n}/value set", stores(n, o, new, cur, span), f"{f} becomes {str(new)[:400]}", w)
        else:
            some_ = True
            ctx.ob(f"{n}/first value kept", str(new) == f and not [x for x in ch if x != "self.errors"], f"changes {ch}, {f} becomes {str(new)[:200]}", w)
            ctx.ob(f"{n}/second value reported", adds_error(S("errors"))(upd.get("self.errors", S("errors")), None), f"errors: {str(upd.get('self.errors'))[:200]}", w)
    ctx.ob(f"{n}/cases", none and some_, "first and second values are both handled", w)


def spanof(t):
    return span_of(t)


def key_of(n, o, upd, f, cur):
    v = upd.get(f, cur)
    return v.a[1] if v.op == "mset" and v.a[0] is cur else None


def stores(n, o, new, cur, span):
    if n in SINGLE:
        if new.op != "adt" or new.a[1] != "Some":
            return False
        x = fld(fld(new, "0"), "spanned")
        return is_payload(n, o, fld(x, "item")) and fld(x, "span") is span
    if new.op != "mset" or new.a[0] is not cur or not is_payload(n, o, new.a[1], key=True):
        return False
    if n == "inferred_tolerance_default":
        return is_payload(n, o, fld(new.a[2], "0"), key=False)
    return True


def is_payload(n, o, t, key=False):
    g = dict(o.guards)
    if n == "title":
        return t is VALUE
    if n in CONVERTED:
        return conversion_of(fallible(t), CONVERTED[n], VALUE)
    if n in ("infer_tolerance_from_cost", "render_commas"):
        tr = truth(n, g)
        return tr is not None and t is (TRUE if tr else FALSE)
    if n == "booking_method":
        ls = [l for l in BOOKING if g.get(eqv(l)) is True]
        return len(ls) == 1 and t.op == "adt" and short(t.a[0]) == "Booking" and t.a[1] == BOOKING[ls[0]]
    if n == "documents":
        sp = [a for a, p in o.guards if a.op == "is" and a.a[1] in ("Some", "None")]
        par = app("Path::parent", pay(sym("source_path"), "Some", "0"))
        haspar = g.get(is_(par, "Some")) or g.get(is_(par, "None")) is False
        if haspar:
            return t is app("Path::join", pay(par, "Some", "0"), VALUE)
        return t is VALUE
    if n == "inferred_tolerance_default":
        x = fallible(t)
        fs = app("str::split", VALUE, lit("char", ":"))
        if key:
            return conversion_of(x, "CurrencyOrAny", app("head", fs))
        return conversion_of(x, "Decimal", app("head", app("tail", fs)))
    return False


def truth(n, g):
    t, f = g.get(nocase("true")), g.get(nocase("false"))
    if t:
        return True
    if f and t is False:
        return False
    if n == "render_commas":
        if g.get(eqv("1")):
            return True
        if g.get(eqv("0")):
            return False
    return None


def cut_twice(o):
    """What follows the first separator, if it has no other, is the second field."""
    for c, p in o.guards:
        if c.op == "app" and c.a[0] == "str::contains" and c.a[1][0].op == "app" and c.a[1][0].a[0] == "str::after" and c.a[1][1] is c.a[1][0].a[1][1]:
            rest = app("tail", app("str::split", *c.a[1][0].a[1]))
            m = {c: app("nonempty", app("tail", rest))}
            if not p:
                m[c.a[1][0]] = app("head", rest)
            o.guards = type(o.guards)((subst(a, m), q) for a, q in o.guards)
            o.val, o.emits = subst(o.val, m), subst(o.emits, m)
    return o


def invalid(n, guards):
    """Is the value invalid on a path with these guards?  None when the guards do not tell."""
    g = dict(guards)
    if n in ("title", "documents"):
        return False
    if n in ("infer_tolerance_from_cost", "render_commas"):
        if truth(n, g) is not None:
            return False
        tests = [nocase("true"), nocase("false")] + ([eqv("1"), eqv("0")] if n == "render_commas" else [])
        return True if all(g.get(t) is False for t in tests) else None
    if n == "booking_method":
        if any(g.get(eqv(l)) for l in BOOKING):
            return False
        return True if all(g.get(eqv(l)) is False for l in BOOKING) else None
    oks, errs = [], []
    for a, p in guards:
        if a.op == "is" and a.a[0].op == "app" and VALUE in set(subterms(a.a[0])) and a.a[1] in ("Ok", "Err"):
            good = (a.a[1] == "Ok") == p
            (oks if good else errs).append(a.a[0])
    if n == "inferred_tolerance_default":
        fs = app("str::split", VALUE, lit("char", ":"))
        second, third = app("nonempty", app("tail", fs)), app("nonempty", app("tail", app("tail", fs)))
        if g.get(second) is False or g.get(third) is True:
            return True
        if errs:
            return all(conversion_of(e, "CurrencyOrAny", app("head", fs)) or conversion_of(e, "Decimal", app("head", app("tail", fs))) for e in errs)
        okc = any(conversion_of(x, "CurrencyOrAny", app("head", fs)) for x in oks)
        okd = any(conversion_of(x, "Decimal", app("head", app("tail", fs))) for x in oks)
        return False if okc and okd and g.get(third) is False else None
    ty = "usize" if n == "long_string_maxlines" else "AccountTypeName" if n in TYPES else CONVERTED[n]
    if any(conversion_of(e, ty, VALUE) for e in errs):
        return True
    if n in TYPES:
        # a name in use by another type is refused (C20 decides what is in use)
        for a, p in guards:
            if a.op == "app" and a.a[0] == "has" and a.a[1][0].op == "fld" and conversion_of(fallible(a.a[1][1]), ty, VALUE):
                if not p:
                    return False
                own = g.get(is_(ent(a.a[1][0], a.a[1][1]), TYPES[n]))
                return None if own is None else not own
        return None
    return False if any(conversion_of(x, ty, VALUE) for x in oks) else None


def renames(ctx, n, o, w):
    """name_x updates the account type names only (how is decided by C20), for the type x."""
    ch = state_changes(o)
    okv = all(k == "options" for k, _ in ch)
    for k, v in ch:
        if v.op == "with":
            okv &= all(f[1] == "account_type_names" for f, _ in v.a[1])
        ts = {s.a[1] for s in subterms(v) if s.op == "adt" and short(s.a[0]) == "AccountType"}
        okv &= ts == {TYPES[n]}
    ctx.ob(f"{n}/names its own type", okv, f"changes {str(ch)[:400]}", w)


def maxlines(ctx, n, o, w):
    ch = state_changes(o)
    okv = len(ch) == 1 and ch[0][0] == "options" and ch[0][1].op == "with"
    if okv:
        fs = {f[1]: v for f, v in ch[0][1].a[1]}
        okv = set(fs) == {"long_string_maxlines"}
        v = fs.get("long_string_maxlines")
        if okv:
            x = fld(fld(v, "0"), "spanned") if v.op == "adt" and v.a[1] == "Some" else NONE
            okv = conversion_of(fallible(fld(x, "item")), "usize", VALUE) and norm_spans(fld(x, "span")) is spanof(V_)
    ctx.ob(f"{n}/value set", okv, f"changes {str(ch)[:400]}", w)


def accessors(ctx):
    """The accessor of each option, and the field of the options it reads."""
    p = ctx.p
    out = {}
    for n in SINGLE:
        b = p.method("Options", n)
        fs = set()
        for r in ctx.run(b):
            fs |= {s.a[1] for t in [r.ret] + [a for a, _ in r.guards] for s in subterms(t) if s.op == "fld" and s.a[0] is SELF}
        ctx.ob(f"{n}/accessor reads one field", len(fs) == 1, f"reads {sorted(fs)}", ctx.at(b))
        if len(fs) != 1:
            continue
        F = out[n] = next(iter(fs))
        for r in ctx.run(b):
            g = dict(r.guards)
            src = S(F)
            isnone = g.get(is_(src, "None"), None if g.get(is_(src, "Some")) is None else not g[is_(src, "Some")])
            want = NONE if isnone else some(fld(pay(src, "Some", "0"), "spanned"))
            ctx.ob(f"{n}/accessor", isnone is not None and r.ret is want, f"when {showg(r.guards)} returns {str(r.ret)[:200]}", ctx.at(b))
    for n in SETS:
        b = p.method("Options", n)
        for r in ctx.run(b):
            ps = parts(r.ret)
            okv = len(ps) == 1 and ps[0][0] == "each" and ps[0][1].op == "fld" and ps[0][1].a[0] is SELF
            if okv:
                F = out[n] = ps[0][1].a[1]
                okv = all(not g and pp == (("one", fld(el(ps[0][1]), "0")),) for g, pp in ps[0][2])
            ctx.ob(f"{n}/accessor", okv, f"returns {str(r.ret)[:300]}", ctx.at(b))
    # tolerance defaults
    n = "inferred_tolerance_default"
    b = p.method("Options", n)
    rows = ctx.run(b)
    cur = sym(list(rows[0].params)[1])
    maps = {a.a[1][0] for r in rows for a, _ in r.guards if a.op == "app" and a.a[0] == "has"}
    ctx.ob(f"{n}/accessor reads one field", len(maps) == 1, f"reads {maps}", ctx.at(b))
    if len(maps) == 1:
        m = next(iter(maps))
        out[n] = m.a[1]

        def kind(k):
            return k.a[1] if k.op == "adt" and short(k.a[0]) == "CurrencyOrAny" and (k.a[1] == "Any" or fld(k, "0") is cur) else None

        for r in rows:
            has = {kind(a.a[1][1]): p_ for a, p_ in r.guards if a.op == "app" and a.a[0] == "has"}
            k = next((a.a[1][1] for a, p_ in r.guards if p_ and a.op == "app" and a.a[0] == "has"), None)
            if has.get("Currency"):
                k = next(a.a[1][1] for a, p_ in r.guards if a.op == "app" and a.a[0] == "has" and kind(a.a[1][1]) == "Currency")
                okv = r.ret is some(fld(ent(m, k), "0"))
            elif has.get("Currency") is False and has.get("Any"):
                okv = r.ret is some(fld(ent(m, next(a.a[1][1] for a, p_ in r.guards if a.op == "app" and a.a[0] == "has" and kind(a.a[1][1]) == "Any")), "0"))
            else:
                okv = r.ret is NONE and has.get("Currency") is False and has.get("Any") is False
            ctx.ob(f"{n}/accessor", okv, f"when {showg(r.guards)} returns {str(r.ret)[:200]}", ctx.at(b))
        b = p.method("Options", n + "_fallback")
        for r in ctx.run(b):
            hs = [(a, p_) for a, p_ in r.guards if a.op == "app" and a.a[0] == "has" and a.a[1][0] is m and kind(a.a[1][1]) == "Any"]
            okv = len(hs) == 1 and r.ret is (some(fld(ent(m, hs[0][0].a[1][1]), "0")) if hs[0][1] else NONE)
            ctx.ob(f"{n}_fallback/accessor", okv, f"when {showg(r.guards)} returns {str(r.ret)[:200]}", ctx.at(b))
        b = p.method("Options", n + "s")
        for r in ctx.run(b):
            ps = parts(r.ret)
            okv = len(ps) == 1 and ps[0][0] == "each" and ps[0][1] is m and complete([g for g, _ in ps[0][2]])
            if okv:
                e = el(m)
                k, v = fld(e, "0"), fld(fld(e, "1"), "0")
                for g, pp in ps[0][2]:
                    d = dict(g)
                    any_ = d.get(is_(k, "Any"), None if d.get(is_(k, "Currency")) is None else not d[is_(k, "Currency")])
                    want = tup(NONE if any_ else some(pay(k, "Currency", "0")), v)
                    okv &= any_ is not None and pp == (("one", want),)
            ctx.ob(f"{n}s/accessor", okv, f"returns {str(r.ret)[:400]}", ctx.at(b))
    b = p.method("Options", "long_string_maxlines")
    for r in ctx.run(b):
        src = S("parser_options.long_string_maxlines")
        g = dict(r.guards)
        isnone = g.get(is_(src, "None"), None if g.get(is_(src, "Some")) is None else not g[is_(src, "Some")])
        okv = r.ret is (NONE if isnone else some(fld(pay(src, "Some", "0"), "spanned")))
        ctx.ob("long_string_maxlines/accessor", okv, f"when {showg(r.guards)} returns {str(r.ret)[:200]}", ctx.at(b))
    b = p.method("Options", "account_type_name")
    for r in ctx.run(b):
        okv = "name_by_type" in str(r.ret) and sym("account_type") in set(subterms(r.ret)) or r.ret.op == "app"
        ctx.ob("account_type_name/accessor", okv, f"returns {str(r.ret)[:200]}", ctx.at(b))
    fs = list(out.values())
    ctx.ob("accessors/distinct", len(set(fs)) == len(fs), f"fields read: {sorted(fs)}", "")
    return out


def literal_types(ctx):
    """The texts of the processing modes."""
    b = ctx.p.method("PluginProcessingMode", "try_from", "TryFrom")
    rows = ctx.run(b)
    got = {}
    for r in rows:
        if r.ret.op == "adt" and r.ret.a[1] == "Ok":
            for a, p in r.guards:
                if p and a.op == "app" and a.a[0] == "eq" and a.a[1][0].op == "lit":
                    v = fld(r.ret, "0")
                    got[a.a[1][0].a[1]] = v.a[1] if v.op == "adt" else str(v)
    ctx.ob("plugin_processing_mode/values", got == {"DEFAULT": "Default", "RAW": "Raw"}, str(got), ctx.at(b))


def initial(ctx, fields):
    b = ctx.p.method("Options", "new")
    for r in ctx.run(b):
        for n, f in fields.items():
            v = fld(r.ret, f)
            ctx.ob(f"{n}/initially unset", v is NONE or v is MEMPTY, f"starts as {str(v)[:100]}", ctx.at(b))
        v = fld(r.ret, "parser_options")
        ctx.ob("parser options/kept", v is sym(list(r.params)[0]), str(v)[:200], ctx.at(b))


def delivered(ctx):
    """The options delivered are the ones accumulated."""
    rb = ctx.p.method("PragmaProcessor", "result")
    for r in ctx.run(rb):
        ctx.ob("result/options", fld(r.ret, "0") is S("options"), str(fld(r.ret, "0"))[:200], ctx.at(rb))
    nb = ctx.p.method("PragmaProcessor", "new")
    for r in ctx.run(nb):
        v = fld(r.ret, "options")
        ctx.ob("processor/options", v.op == "sym" and v.a[0] in r.params, str(v)[:200], ctx.at(nb))
    b = ctx.p.method("BeancountParser", "parse")
    OPQ = ("BeancountParser::parse_declarations", "PragmaProcessor::new", "PragmaProcessor::result", "BeancountSources::error_paths")
    n = 0
    for r in ctx.run(b, opaque=OPQ, streams=("PragmaProcessor",)):
        if r.ret.op == "adt" and r.ret.a[1] == "Ok":
            n += 1
            v = fld(fld(r.ret, "0"), "options")
            ctx.ob("parse/options", v.op == "fld" and v.a[1] == "0" and "result" in str(v.a[0])[:60], str(v)[:200], ctx.at(b))
    ctx.ob("parse/covered", n > 0, f"{n} successful paths", ctx.at(b))
