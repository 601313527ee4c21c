"""C02: reporting and span resolution never panic, whatever the span."""
from common import *
from panics import *
from spans import Where
import c13

TECHNIQUE = "enumeration of every panic-capable operation reachable in the call graph, each discharged by dataflow over all paths that reach it"
EXPLANATION = (
    "From every public method of real and synthetic sources, the call graph gives all reachable functions and in them every operation which "
    "can panic: slicing, indexing, unwrapping, arithmetic, panicking macros and panicking library calls, including those inside closures. "
    "For each, the conditions and operands on every path which reaches it are computed (in the function itself or, when the reason lies "
    "there, in every caller), and the panic must be excluded by them: the same range was tested against the same text, the end comes from "
    "trimming a tested range, the subtrahend is bounded by a comparison or by the order of two positions, an index was compared with the "
    "length or is an id the tables give out. The latter is established where the tables are built, whose obligations are part of this check. "
    "Further, on every path where the conditions make the span unusable, the text is empty and a position given to the renderer starts where "
    "it ends. An obligation is one operation, one construction of state, or one path with an unusable span."
)
ASSUMPTIONS = [
    "sizes and counts of what is in memory do not overflow when a few of them are added; a synthetic span is within memory when created",
    "functions of other crates panic only where documented and listed in rules/panics.py; ariadne does not panic on positions in order",
    "no more than 2^32 sources",
]
FLOOR = 20


def run(ctx):
    roots = []
    for b in ctx.p.bodies.values():
        if b["kind"] == "AssocFn" and b.get("self") is not None and short(ctx.p.head(b["self"])) in ("BeancountSources", "SyntheticSources") and b.get("reach") and not b.get("trait"):
            roots.append(b)
    names = {b["name"] for b in roots}
    for n in ("write_report", "resolve_span", "error_source_text"):
        ctx.ob(f"entry {n}", n in names, f"no public method {n}")
    Panics(ctx, roots).all()
    for ty in ("BeancountSources", "SyntheticSources"):
        fallback(ctx, ty)


def unusable(w, guards):
    """Do the conditions say that the span names no text, or cannot be cut from it?"""
    if any(p and c.op == "app" and c.a[0] == "nonempty" and empty(c.a[1][0]) for c, p in guards):
        return False  # cannot be
    kind, x = w.text()
    if kind == "unknown":
        return False
    if kind == "nowhere":
        return not (w.is_syn() and w.is_root())
    return w.valid(x.text) is False


def fallback(ctx, ty):
    p = ctx.p
    real, syn = c13.sides(ty)
    n = 0
    for m in ("resolve_span", "error_source_text"):
        b = p.method(ty, m)
        for r in ctx.run(b):
            a = sym(list(r.params)[1])
            sp, v = (a, lambda: fld(r.ret, "content")) if m == "resolve_span" else (fld(fld(a, "0"), "span"), lambda: r.ret)
            if unusable(Where(r.guards, sp, real, syn), r.guards):
                n += 1
                ctx.ob(f"{ty}::{m}/empty", empty(v()), f"the text of an unusable span is {str(v())[:200]} when {showg(r.guards)[-300:]}", ctx.at(b))
    b = p.method(ty, "write_report")
    rows = ctx.run(b)
    own = app("Report::span", sym(list(rows[0].params)[2]))
    for r in rows:
        for e in r.eff:
            if e[0] == "call" and e[1] in ("Report::build", "Label::new") and unusable(Where(r.guards, own, real, syn), r.guards):
                pos = e[2][-1]
                q = rng(fld(pos, "1")) if pos.op == "tup" else None
                n += 1
                ctx.ob(f"{ty}::write_report/empty", q is not None and q[1] is not None and same_num(simple(q[0]), simple(q[1])), f"the position of an unusable span is {str(pos)[:200]} when {showg(r.guards)[-300:]}", e[3])
    ctx.ob(f"{ty}/unusable spans", n >= 3, f"{n} paths with an unusable span", "")


def empty(v):
    """Is this text certainly empty?"""
    if v.op == "lit" and v.a[1] == "" or v is EMPTY:
        return True
    if v.op != "app":
        return False
    n, a = v.a
    if n in ("str::trim_end", "str::trim", "str::trim_start", "str::trim_end_matches"):
        return empty(a[0])
    if n == "index" and len(a) == 2 and a[1].op == "adt":
        q = rng(a[1])
        return q is not None and (empty(a[0]) or q[1] is not None and same_num(simple(q[0]), simple(q[1])))
    return False


def simple(t):
    """With the lengths of empty texts, and counts within nothing, as 0."""
    m = {}
    for s in subterms(t):
        if s.op == "app" and s.a[0] == "len" and empty(s.a[1][0]):
            m[s] = lint(0)
        elif s.op == "app" and s.a[0] == "slice::partition_point" and s.a[1][0] is EMPTY:
            m[s] = lint(0)
    return rebuild(subst(t, m)) if m else t
