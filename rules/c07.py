"""C07: tags, links and metadata of a directive are kept, and duplicates reported."""
from values import *

EXPLANATION = (
    "Dataflow through the grammar's conversion functions: the sets of tags and links of a header line, the tags, links and "
    "key/values of metadata lines and the currencies of an open are summarised over an arbitrary repetition. Every "
    "element is added, one that is there already is kept and exactly then an error is emitted; every directive's metadata is "
    "that of its own lines joined with the header's tags and links, again with an error exactly for those in both. "
    "An obligation is one case of one set of one directive shape."
)
ASSUMPTIONS = ["HashSet and HashMap behave as documented", "chumsky's combinators behave as documented", "located elements compare by item (C24)"]
FLOOR = 60
TECHNIQUE = "grammar extraction from THIR and dataflow over set-building folds"


def run(ctx):
    d = decls(ctx)
    w = d.w
    # the header line
    for n, outs, O in d.unit("tagslinks"):
        for o in outs:
            rep = o.toks[0]
            e = el(rep)
            for f, tok in (("tags", "tag"), ("links", "link")):
                v = subst(d.component(sym("H"), f), {sym("H"): o.val})
                v = fld(o.val, d.component(sym("H"), f).a[1])
                cases = []
                for i, it in enumerate(O.items[rep][1]):
                    g = ((is_(e, f"alt{i}"), True),) if len(O.items[rep][1]) > 1 else ()
                    ts = [fld(e, t.a[0]) for t in it.toks]
                    cases.append((name_of(ts[0]), g, ts[0] if name_of(ts[0]) == tok else None))
                ctx.ob(f"header/{f}/cases", any(c[2] is not None for c in cases), "", w)
                check_set(ctx, f"header/{f}", v, o.emits, rep, cases, w)
    ctx.ob("header", bool(d.unit("tagslinks")), "", w)
    # metadata lines
    for n, outs, O in d.unit("metadata"):
        for o in outs:
            rep = o.toks[0]
            e = el(rep)
            items = O.items[rep][1]
            for f, tok in (("tags", "tag"), ("links", "link"), ("key_values", "key")):
                cases = []
                for i, it in enumerate(items):
                    ts = [fld(e, t.a[0]) for t in line_end(it.toks) if name_of(t) != "Indent"]
                    cases.append((" ".join(name_of(t) for t in ts), ((is_(e, f"alt{i}"), True),), ts[0] if name_of(ts[0]) == tok else None))
                ctx.ob(f"metadata/{f}/cases", any(c[2] is not None for c in cases), "", w)
                check_set(ctx, f"metadata/{f}", fld(o.val, f), o.emits, rep, cases, w)
    ctx.ob("metadata", bool(d.unit("metadata")), "", w)
    # currencies of an open
    us = d.unit("currencies")
    ctx.ob("currencies", bool(us), "", w)
    for n, outs, O in us:
        for o in outs:
            first = o.toks[0]
            rep = o.toks[1]
            e = el(rep)
            ts = [fld(e, t.a[0]) for t in O.items[rep][1][0].toks if name_of(t) == "currency"]
            check_set(ctx, "currencies", o.val, o.emits, rep, [("currency", (), ts[0])], w)
            ad = additions(o.val) or []
            there = has_atom(o.guards, first)
            mine = [a for a in ad if a.src is None and strip(a.elem) is strip(first)]
            ctx.ob("currencies/first/kept", len(mine) == 1 or there is True, f"{str(o.val)[:200]}", w)
            n_err = len(direct_errors(o.emits))
            ctx.ob("currencies/first/reported", n_err == (1 if there is True else 0), f"{n_err} errors", w)
    # every directive
    res = compare_all(ctx, d)
    kinds = set()
    for kind, o, c in res:
        if kind not in DIRECTIVES:
            continue
        kinds.add(kind)
        for path, okv, msg in c.values:
            if ".metadata" in path and "[" not in path:
                ctx.ob(f"{' '.join(o.shape())}/{path}", okv, msg, w)
        k = Toks(o.toks)
        if "tagslinks" in k:
            for f in ("tags", "links"):
                src = d.component(k.t("tagslinks"), f)
                e = el(src)
                errs = errors_per_case(o.emits, src)
                key = f"{' '.join(o.shape())}/{f} in both"
                ctx.ob(f"{key}/understood", errs is not None, str(o.emits)[:200], w)
                yes = [n for g, n in errs or () if has_atom(g, e) is True]
                other = [n for g, n in errs or () if has_atom(g, e) is not True]
                ctx.ob(f"{key}/reported", yes and all(n >= 1 for n in yes), f"errors for one in both: {yes}", w)
                ctx.ob(f"{key}/not otherwise", all(n == 0 for n in other), f"errors for one not in both: {other}", w)
            ctx.ob(f"{' '.join(o.shape())}/no other errors", not direct_errors(o.emits), str(direct_errors(o.emits))[:200], w)
        elif kind != "Custom":
            ctx.ob(f"{' '.join(o.shape())}/header", False, "the directive has no tags and links on its header line", w)
    for kd in DIRECTIVES:
        ctx.ob(f"kind/{kd}", kd in kinds, "", w)
