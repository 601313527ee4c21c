"""C20: account names resolve by the account type names in force."""
from common import *
from syntax import *
from values import *
from words import *
import c14

EXPLANATION = (
    "The table from account type names to types is modelled as extracted: its initial value binds the five standard names; its update "
    "and its lookups, and the grammar's account rule and option rule with their effect on the parser state, are decision tables over "
    "texts and the table (dataflow over the type-checked program). They are compared with the specification on every combination of "
    "account type, kind of name (own, another type's, new, invalid) and table, and for accounts on every text of up to three components "
    "of representative characters. An obligation is one such case."
)
ASSUMPTIONS = ["hash maps and vectors are as documented", "account texts come from the lexer with at least one colon (C15)"]
FLOOR = 700
TECHNIQUE = "dataflow summaries of the name table's operations compared with the specified table, case by case"

TYPES = ("Assets", "Liabilities", "Equity", "Income", "Expenses")


def name(s):
    return ("adt", "AccountTypeName", (("0", s),))


def typ(t):
    return ("adt", t, ())


class Table:
    """A name table in both of its representations."""

    def __init__(self, ctx, names):
        self.names = names  # {type: name}
        order = ctx.p.variants[next(i for i in ctx.p.adts if i.endswith("types::AccountType"))]
        self.by_type = tuple(name(names[t]) for t in order)
        self.by_name = {name(n): typ(t) for t, n in names.items()}

    def env(self, base):
        e = {}
        e[fld(base, "name_by_type")] = self.by_type
        e[fld(base, "type_by_name")] = self.by_name
        return e


def same(ctx, W, base, env, want):
    """Does the table given as a term equal the wanted one?"""
    t = Table(ctx, want)
    by_type, by_name = fld(base, "name_by_type"), fld(base, "type_by_name")
    return tuple(W.val(by_type, env)) == t.by_type and W.val(by_name, env) == t.by_name


TABLES = [
    dict(zip(TYPES, TYPES)),
    {"Assets": "A", "Liabilities": "Ab", "Equity": "A-", "Income": "Z", "Expenses": "A0"},
    {"Assets": "Liabilities", "Liabilities": "X", "Equity": "Equity", "Income": "B", "Expenses": "Assets"},
]


def renamed(t, ty, n):
    """The specification of renaming: the new table, or None if refused."""
    holder = next((k for k, v in t.items() if v == n), None)
    if holder is not None and holder != ty:
        return None
    return {**t, ty: n}


def run(ctx):
    p = ctx.p
    order = p.variants[next(i for i in p.adts if i.endswith("types::AccountType"))]
    ctx.ob("types", sorted(order) == sorted(TYPES), f"{order}", "")
    W = Words(p, discr={v: i for i, v in enumerate(order)})

    def case(key, f, where):
        try:
            okv, msg = f()
        except Unknown as x:
            okv, msg = False, f"cannot decide: {x}"
        return ctx.ob(key, okv, msg, where)

    # the initial table
    b = p.method("AccountTypeNames", "default", "Default")
    rows = ctx.run(b)
    for r in rows:
        case("default", lambda: (same(ctx, W, r.ret, {}, TABLES[0]), str(r.ret)[:300]), ctx.at(b))
    # lookups
    for m, dom, want in (
        ("name", [typ(t) for t in TYPES], lambda t, x: name(t[x[1]])),
        ("get", [name(n) for n in ("Assets", "A", "Liabilities", "X", "Nope")], lambda t, x: option({v: k for k, v in t.items()}.get(x[2][0][1]))),
    ):
        b = p.method("AccountTypeNames", m)
        rows = ctx.run(b)
        arg_ = sym(list(rows[0].params)[1])
        for t in TABLES:
            for x in dom:
                env = {**Table(ctx, t).env(SELF), arg_: x}

                def f():
                    sel = W.select(rows, env)
                    got = [W.val(r.ret, env) for r in sel]
                    return bool(sel) and all(g == want(t, x) for g in got), f"{m} of {x} in {t} is {got}"

                case(f"AccountTypeNames::{m}", f, ctx.at(b))
    for owner in ("Options", "ParserOptions"):
        try:
            b = p.method(owner, "account_type_name")
        except MissingAnchor:
            if owner == "Options":
                raise
            continue
        rows = ctx.run(b)
        arg_ = sym(list(rows[0].params)[1])
        base = SELF
        for f_ in ("parser_options", "account_type_names") if owner == "Options" else ("account_type_names",):
            base = fld(base, f_)
        for t in TABLES:
            for ty in TYPES:
                env = {**Table(ctx, t).env(base), arg_: typ(ty)}

                def f():
                    sel = W.select(rows, env)
                    got = [W.val(r.ret, env) for r in sel]
                    return bool(sel) and all(g == name(t[ty]) for g in got), f"name of {ty} in {t} is {got}"

                case(f"{owner}::account_type_name", f, ctx.at(b))
    # renaming
    b = p.method("AccountTypeNames", "update")
    rows = steps(ctx.run(b))
    ps = list(ctx.run(b)[0].params)
    for t in TABLES:
        for ty in TYPES:
            for n in sorted(set(t.values()) | {"New", "Assets", "Q1"}):
                env = {**Table(ctx, t).env(SELF), sym(ps[1]): typ(ty), sym(ps[2]): name(n)}

                def f():
                    sel = [r for r in rows if W.conj(r.guards, env)]
                    if not sel:
                        return False, "no path"
                    want = renamed(t, ty, n)
                    for r in sel:
                        okr = r.ret.op == "adt" and r.ret.a[1] == ("Ok" if want else "Err")
                        base = {}
                        bt, bn = r.get("self.name_by_type"), r.get("self.type_by_name")
                        w = Table(ctx, want or t)
                        if not okr or tuple(W.val(bt, env)) != w.by_type or W.val(bn, env) != w.by_name:
                            return False, f"renaming {ty} to {n} in {t}: {str(r.ret)[:100]} {str(bt)[:200]} {str(bn)[:200]}"
                    return True, ""

                case("AccountTypeNames::update", f, ctx.at(b))
    accounts(ctx, W, case)
    options(ctx, W, case)


def option(x):
    return NONE_ if x is None else ("adt", "Some", (("0", typ(x)),))


NAMES = fld(fld(sym("state"), "options"), "account_type_names")


def accounts(ctx, W, case):
    """The grammar's account rule."""
    d = decls(ctx)
    units = d.unit("account", merge=False)
    comps = ["", "A", "Ab", "A-", "a", "Z", "0", "Éa", "éb", "A b", "A_", "1a-", "-A", "A0", "字", "½", "ǅ", "aB"]
    texts = [":".join(x) for n in (1, 2, 3) for x in itertools.product(comps, repeat=n)]
    if ctx.tier != "thorough":
        texts = [x for x in texts if x.count(":") < 2] + [":".join(x) for x in itertools.product(["A", "Ab", "a", "", "0"], ["A", "a", "", "é"], comps)]
    t = TABLES[1]
    inv = {v: k for k, v in t.items()}
    n = 0
    for node, outs, O in units:
        for w in texts:
            if ":" not in w:
                continue
            parts_ = w.split(":")
            # a validated name starts with an ASCII capital, and the table's names are such
            want = inv.get(parts_[0]) if all(c14.account_name(x) for x in parts_[1:]) else None

            def f():
                okn = 0
                for o in outs:
                    tok = o.toks[0]
                    env = {**Table(ctx, t).env(NAMES), pay(tok, "Account", "0"): w}
                    if not W.conj(o.guards, env):
                        continue
                    okn += 1
                    v = o.val
                    if want is None:
                        return False, f"accepts {w!r}"
                    if W.val(fld(v, "account_type"), env) != typ(want) or W.val(fld(v, "name"), env) != w:
                        return False, f"{w!r} is {str(v)[:200]}, expected {want}"
                if want is not None and not okn:
                    return False, f"refuses {w!r}"
                return True, ""

            n += 1
            if not case("account", f, "the account rule of the grammar"):
                return
    ctx.ob("account rules", n >= 300, f"{n} texts", "")


def options(ctx, W, case):
    """The effect of the options name_assets and so on on the names in force."""
    d = decls(ctx)
    n = 0
    ops = {x.id for node, _, _ in d.unit("option", merge=False) for x in [node, *below(node)]}
    for x, g, f, v in state_effects(d):
        keeps = f is not None and (f != "options" or fld(v, "account_type_names") is NAMES)
        ctx.ob("names set by options only", keeps or x.id in ops, f"when {showg(g)[:200]} the {f or 'state'} becomes {str(v)[:300]}", f"a rule of the grammar ({x.how})")
    for node, outs, O in d.unit("option", merge=False):
        for ty in TYPES:
            key = "name_" + ty.lower()
            for t in TABLES[:2] if ctx.tier != "thorough" else TABLES:
                for v in sorted(set(t.values()) | {"New", "a", "", "A:b", "A_"}):
                    want = renamed(t, ty, v) if c14.type_name(v) else None

                    def f():
                        hit = 0
                        for o in outs:
                            toks = [x for x in o.toks if "StringLiteral" in str(x)]
                            if len(toks) < 2:
                                continue
                            env = {
                                **Table(ctx, t).env(NAMES),
                                pay(toks[0], "StringLiteral", "0"): key,
                                pay(toks[1], "StringLiteral", "0"): v,
                                fld(fld(sym("state"), "options"), "long_string_maxlines"): NONE_,
                            }
                            if not W.conj(o.guards, env):
                                continue
                            hit += 1
                            refused = o.emits is not EMPTY
                            if refused != (want is None):
                                return False, f"{key} {v!r} with {t}: {'refused' if refused else 'accepted'}"
                            cur = Table(ctx, t)
                            changed = 0
                            for g, s in o.state:
                                names = fld(fld(s, "options"), "account_type_names")
                                if names is NAMES or not W.conj(g, env):
                                    continue
                                changed += 1
                                w = Table(ctx, want or t)
                                got = W.val(fld(names, "name_by_type"), env), W.val(fld(names, "type_by_name"), env)
                                if changed > 1 or tuple(got[0]) != w.by_type or got[1] != w.by_name:
                                    return False, f"{key} {v!r} with {t} gives {str(got)[:300]}"
                            if not changed and want is not None and want != t:
                                return False, f"{key} {v!r} with {t} has no effect"
                        return hit > 0, f"{hit} paths for {key} {v!r}"

                    n += 1
                    if not case(f"option {key}", f, "the option rule of the grammar"):
                        break
    ctx.ob("option rules", n >= 60, f"{n} cases", "")
