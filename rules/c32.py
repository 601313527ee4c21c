"""C32: an error is located at what it is about."""
from common import *
from syntax import *
from values import *
from rulelib import Ctx
import c11

EXPLANATION = (
    "Every function by which the grammar converts or validates what it has read is found by walking the grammar as extracted, and "
    "summarised by dataflow for an arbitrary value and extent: each error it can give, under which conditions, and with which "
    "location. A refusal must be located at exactly what the rule has read (or at a part of it), a report of a repeated element at an "
    "occurrence of the element looked up, and for options the error at the name if that is unknown, else at the value. Errors of the "
    "processing of options are followed to the option's own strings, with the earlier value as the related item. An obligation is "
    "one error of one function on one path."
)
ASSUMPTIONS = [
    "chumsky locates its own syntax errors at the unexpected token, and hands each rule the extent of what it read",
    "locations of errors for pragmas and includes are decided by C08 and C10, of the conversion to reports by C23",
]
FLOOR = 100
TECHNIQUE = "grammar walk and dataflow summaries of every error construction, tracing its location to what was read"

VALUE_, SPAN_ = sym("value"), sym("span")


def errors(t, guards=()):
    """The errors a term of emissions consists of: [(guards, error or None)]."""
    acc = mk("acc")
    if t is EMPTY or t is acc:
        return []
    if t.op == "fold":
        out = errors(t.a[0], guards)
        for g, r in t.a[2]:
            out += errors(r, tuple(guards) + tuple(g))
        return out
    if t.op == "ite":
        return errors(t.a[1], tuple(guards) + ((t.a[0], True),)) + errors(t.a[2], tuple(guards) + ((t.a[0], False),))
    if t.op == "seq":
        return in_parts(parts(t), guards)
    return [(guards, None)]


def in_parts(ps, guards):
    out = []
    for p in ps:
        if p[0] == "one":
            out.append((guards, p[1]))
        elif p[0] == "all":
            out += errors(p[1], guards)
        elif p[0] == "each":
            for g, pp in p[2]:
                out += in_parts(pp, tuple(guards) + tuple(g))
        else:
            out.append((guards, None))
    return out


def location(e):
    """Where a syntax error is located: the span itself, without conversions."""
    if e is None or e.op != "app" or e.a[0] != "Rich::custom":
        return None
    s = norm_spans(e.a[1][0])
    while s.op == "app" and s.a[0] == "spanof" and len(s.a[1]) == 1:
        s = s.a[1][0]
    return s


def owner(s):
    """The element whose own location s is."""
    return s.a[0] if s.op == "fld" and s.a[1] == "span" else None


def looked_up(guards):
    """The elements found to be there already, under some conditions."""
    out = []
    for a, pol in guards:
        if pol and a.op == "app" and a.a[0] == "has":
            m, k = a.a[1]
            out += [(m, k)] + ([(m, k.a[0])] if k.op == "fld" and k.a[1] == "item" else [])
    return out


def run(ctx):
    d = decls(ctx)
    opts = {x.id for node, _, _ in d.unit("option", merge=False) for x in [node, *below(node)]}
    n = k = 0
    for node in d.s.nodes:
        if node.kind != "fn" or node.how not in ("validate", "try_map", "try_map_with"):
            continue
        if node.how == "validate" and node.id in opts:
            continue
        k += 1
        w = f"a rule of the grammar ({node.how})"
        for g, v, em, st in apply_fn(d.s.g.ev, node, VALUE_, SPAN_):
            if node.how != "validate" and v.op == "adt" and v.a[1] == "Err":
                s = location(fld(v, "0"))
                o = owner(s) if s is not None else None
                okv = s is SPAN_ or (o is not None and VALUE_ in set(subterms(o)))
                ctx.ob("refusal at what was read", okv, f"when {showg(g)[:200]} the error is at {s}, not what the rule read", w)
                n += 1
            for g2, e in errors(em, g):
                s = location(e)
                o = owner(s) if s is not None else None
                ls = looked_up(g2)
                if o is None:
                    okv = False
                elif ls:
                    okv = any(o is y or (o.op == "app" and o.a[0] == "stored" and o.a[1] == (m, y)) for m, y in ls)
                else:
                    okv = VALUE_ in set(subterms(o)) and any(o in set(subterms(a)) for a, _ in g2)
                ctx.ob("report at the repeated element", okv, f"when {showg(g2)[-300:]} the error is at {str(s)[:200]}", w)
                n += 1
    ctx.ob("rules", k >= 12 and n >= 40, f"{k} rules, {n} errors", "the grammar")
    options(ctx)


def options(ctx):
    ids = impl_ids(ctx, ("Subaccount", "AccountTypeName", "Currency", "CurrencyOrAny", "PluginProcessingMode"))
    d = decls(ctx, ids)
    b, st = processor(ctx, opaque=("sources::resolve_included_path",))
    w = ctx.at(b)
    steps_ = [r for r in st if consistent(r.guards, g_pragma("Option"))]
    fields = c11.accessors(Ctx(ctx.pid, ctx.p, ctx.tier))  # itself decided by C11
    NAME, VAL = span_of(c11.N_), span_of(c11.V_)
    unknown = refused = second = 0
    for node, outs, _ in d.unit("option", merge=False):
        for o in outs:
            g = dict(o.guards)
            names = [n for n in c11.ALL if g.get(c11.eqn(n)) is True]
            for g2, e in errors(o.emits, o.guards):
                s = norm_spans(e.a[1][0]) if location(e) is not None else None
                while s is not None and s.op == "app" and s.a[0] == "spanof" and s.a[1][0].op == "app" and s.a[1][0].a[0] == "spanof":
                    s = s.a[1][0]
                if names:
                    refused += 1
                    ctx.ob(f"option {names[0]}/refused at its value", s is VAL, f"the error is at {s}", d.w)
                else:
                    unknown += 1
                    ctx.ob("unknown option/at its name", s is NAME, f"the error is at {s}", d.w)
            if not names or o.emits is not EMPTY or names[0] not in fields:
                continue
            n = names[0]
            cur = S("options." + fields[n])
            for r in steps_:
                a = c11.apply_step(r, o.val)
                if a is None:
                    continue
                new = a[1].get("self.errors", S("errors"))
                ps = appended(new, S("errors"))
                for p in ps or ():
                    second += 1
                    f = report_fields(p[1]) if p[0] == "one" else None
                    s = norm_spans(f["span"]) if f else None
                    ctx.ob(f"option {n}/second value at its own strings", s is NAME or s is VAL, f"the error is at {str(s)[:200]}", w)
                    rel = f["related"] if f else NONE
                    rs = [x[1] for x in parts(fld(rel, "0"))] if rel.op == "adt" and rel.a[1] == "Some" else []
                    okr = len(rs) == 1 and within(fld(rs[0], "1"), cur)
                    ctx.ob(f"option {n}/second value related to the first", okr, f"related to {str(rel)[:300]}", w)
    ctx.ob("options/covered", unknown >= 1 and refused >= 15 and second >= 15, f"{unknown} unknown, {refused} refused, {second} repeated", d.w)


def within(t, cur):
    """Is t a part of what the setting cur holds already?"""
    while t is not cur:
        if t.op in ("fld", "pay"):
            t = t.a[0]
        elif t.op == "app" and t.a[0] in ("stored", "get", "mget", "spanof"):
            t = t.a[1][0]
        elif t.op == "ent":
            t = t.a[0]
        else:
            return False
    return True
