"""C12: each parsed element carries the span of its own text in its own file."""
from common import *
from values import *
import streams

EXPLANATION = (
    "Three stages, each for all input. (1) The adaptors between the generated lexer and the grammar are explored as finite "
    "transducers over token kinds with abstract positions, together with a specification, until no new configuration appears: "
    "every token leaves with its own range, one from a range lexed again with that range's offset added. (2) Dataflow: tokens are "
    "paired with the id of the source whose text was lexed, and each source is parsed with its own tokens, id and end. "
    "(3) For every shape of every declaration and unit of the grammar, the span of each element and of each error reported is "
    "computed as an extent of tokens and compared with the element's own. Conversions between span types keep start, end and "
    "source. An obligation is one span of one shape, or one stage."
)
ASSUMPTIONS = [
    "chumsky gives a parser the extent of the tokens it takes, logos the byte range of each token",
    "the extent of a tag pragma or popmeta covers keyword and element, that of an amount in an amount with tolerance covers the whole",
]
FLOOR = 250
TECHNIQUE = "finite transducer exploration, grammar extraction and dataflow of spans"


def run(ctx):
    p = ctx.p
    streams.report(ctx, {"span"}, "tokens")
    files(ctx)
    conversions(ctx)
    d = decls(ctx)
    w = d.w
    res = compare_all(ctx, d)
    for kind, o, c in res:
        agg = {}
        for path, okv, msg in c.spans:
            if path not in agg or not okv:
                agg[path] = (okv, msg)
        for path, (okv, msg) in agg.items():
            ctx.ob(f"{' '.join(o.shape())}/{path}", okv, msg, w)
        errors_at(ctx, f"{' '.join(o.shape())}/errors", o.emits, w)
    for u in sorted(d.leafnodes):
        if u == "expr":
            continue
        for n, outs, O in d.unit(u):
            for o in outs:
                spanned_in(ctx, f"unit/{u}", o, O, w)
                if u != "option":
                    errors_at(ctx, f"unit/{u}/errors", o.emits, w)
            for node, toks, g, e in O.failures:
                e = norm_spans(e)
                es = report_span(e)
                ok_ = es is not None and es.op == "app" and es.a[0] in ("spanof", "extent") and set(tokens_of(es)) <= set(toks) and tokens_of(es)
                ctx.ob(f"unit/{u}/refusal", ok_, f"refused {[str(t) for t in toks]} at {str(es)[:200]}", w)
    option_errors(ctx, d, w)
    pushed(ctx)


def pushed(ctx):
    """A key added from a push has the location recorded with the value it comes with."""
    b, st = processor(ctx)
    w = ctx.at(b)
    n = 0
    for r in st:
        if not consistent(r.guards, G_DIR):
            continue
        kv = fld(fld(fld(pay(r.ret, "Some", "0"), "item"), "metadata"), "key_values")
        for k, v in added_keys(kv):
            n += 1
            x = v.a[0] if v.op == "fld" and v.a[1] == "1" else None
            # (location of the key, value) or (key, value) is what a push keeps
            okv = x is not None and (fld(k, "span") is fld(x, "0") or fld(k, "span") is fld(fld(x, "0"), "span"))
            ctx.ob("pushed key", okv, f"the key {str(k)[:200]} is added with the value {str(v)[:200]}", w)
    ctx.ob("pushed keys", n >= 1, f"{n} ways to add a pushed key", w)


def added_keys(t):
    """The keys and values set in a map term."""
    out = []
    for s in subterms(t):
        if s.op == "mset":
            out += choices(s.a[1], s.a[2])
        elif s.op == "mext":
            for p in parts(s.a[1]):
                for g, pp in p[2] if p[0] == "each" else ():
                    out += [(q[1].a[0][0], q[1].a[0][1]) for q in pp if q[0] == "one" and q[1].op == "tup" and len(q[1].a[0]) == 2]
    return out


def choices(k, v):
    if k.op == "ite":
        return choices(k.a[1], v) + choices(k.a[2], v)
    return [(k, v)]


def report_span(e):
    for s in subterms(e):
        if s.op == "app" and s.a[0] == "Rich::custom":
            return s.a[1][0]
    return None


def tokens_of(t):
    """The tokens an extent names."""
    out = []
    if t.op == "app" and t.a[0] == "spanof":
        return tokens_of(t.a[1][0])
    if t.op == "app" and t.a[0] == "extent":
        return list(t.a[1])
    return out


def emitted(em):
    """[(guards, error term)] of everything emitted."""
    out = []

    def go(t, g):
        if t.op == "fold":
            go(t.a[0], g)
            for gg, r in t.a[2]:
                if r.op == "seq":
                    for q in parts(r):
                        if q[0] == "one":
                            out.append((g + tuple(gg), q[1]))
        elif t.op == "seq":
            for q in parts(t):
                if q[0] == "one":
                    out.append((g, q[1]))
                elif q[0] == "all":
                    go(q[1], g)
                else:
                    for gg, pp in q[2]:
                        for x in pp:
                            if x[0] == "one":
                                out.append((g + tuple(gg), x[1]))

    go(em, ())
    return out


def errors_at(ctx, key, em, w):
    """A repeated element is reported at its own position."""
    for g, e in emitted(em):
        es = report_span(e)
        reps = [a.a[1][1] for a, pol in g if pol and a.op == "app" and a.a[0] == "has"]
        want = []
        for r in reps:
            want.append(fld(r, "span"))
        ok_ = es is not None and (any(es is norm_spans(x) or same_span(es, x) for x in want) if want else bool(tokens_of(es)))
        ctx.ob(key, ok_, f"an error about {[str(r)[:80] for r in reps]} is placed at {str(es)[:200]}", w)


def same_span(a, b):
    """Span and SimpleSpan of the same text."""
    na, nb = norm_spans(a), norm_spans(b)
    if na is nb:
        return True
    # the one there already is as good a place as the repetition
    m = {}
    for s in subterms(na):
        if s.op == "app" and s.a[0] == "stored":
            m[s] = s.a[1][1]
    if m:
        return same_span(subst(na, m), b)
    # converted field by field
    if a.op == "adt":
        dct = dict(a.a[2])
        return "start" in dct and dct["start"] is fld(b, "start") and dct["end"] is fld(b, "end")
    return na.op == "app" and na.a[0] == "spanof" and na.a[1][0] is nb


VALUE = ("StringLiteral", "Number", "Date", "Time", "account", "currency", "tag", "link", "key", "expr", "booking")


def toks_in(t, atoms_):
    """Tokens (symbols or fields of repetition elements) in a term."""
    out = set()
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "app" and x.a[0] == "spanof":
            continue
        if is_tok(x):
            out.add(x)
            continue
        st.extend(children(x))
    return out


def is_tok(x):
    if x.op == "sym":
        return "#" in x.a[0] and not x.a[0].startswith("rep")
    return x.op == "fld" and x.a[0].op == "el" and "#" in str(x.a[1])


def spanned_in(ctx, key, o, O, w):
    """Every located element built by a unit has the extent of its own tokens."""
    val = norm_spans(o.val)
    done = set()
    for s in subterms(val):
        if s.op != "adt" or short(s.a[0]) != "Spanned" or s in done:
            continue
        done.add(s)
        item, span = fld(s, "item"), fld(s, "span")
        mine = {t for t in toks_in(item, None)}
        ext = set(tokens_of(span))
        values_ = {t for t in ext if tname(t) in VALUE}
        if not mine:
            # a keyword, flag or marker: any extent of the unit's own tokens
            ctx.ob(f"{key}/{tname_list(ext) or 'absent'}", not values_ and span.op == "app" and span.a[0] == "spanof", f"{str(item)[:100]} is given {str(span)[:150]}", w)
            continue
        if any(t.op == "sym" and t.a[0].startswith("rep") for t in ext):
            continue
        # the parts of a cost component share the extent of the component
        ok_ = mine <= ext and (values_ <= mine or key == "unit/cost")
        ctx.ob(f"{key}/{tname_list(mine)}", ok_, f"{str(item)[:120]} is given the extent {str(span)[:160]}", w)


def tname(t):
    return name_of(t) if t.op == "sym" else str(t.a[1]).split("#")[0]


def tname_list(ts):
    return "+".join(sorted(tname(t) for t in ts))[:80]


def option_errors(ctx, d, w):
    """A bad option is reported at its name if unknown, at its value otherwise."""
    us = d.unit("option", merge=False)
    ctx.ob("option", bool(us), "", w)
    for n, outs, O in us:
        for o in outs:
            name = [t for t in o.toks if name_of(t) == "StringLiteral"]
            for g, e in emitted(o.emits):
                es = report_span(e)
                npay = pay(name[0], "StringLiteral", "0")
                known = any(pol and a.op == "app" and a.a[0] == "eq" and npay in a.a[1] for a, pol in tuple(o.guards) + g)
                want = span_of(name[1]) if known else span_of(name[0])
                ctx.ob(f"option/{'value' if known else 'name'}", es is want or tokens_of(es) == tokens_of(want), f"error at {str(es)[:150]}", w)


# ---------------------------------------------------------------- files


def files(ctx):
    p = ctx.p
    lexid = p.one("lexer::lex")["id"]
    lb = p.one("lex_with_source")
    sid, text = None, None
    for r in ctx.run(lb, opaque=(lexid,)):
        ps = list(r.params)
        sid, text = sym(ps[0]), sym(ps[1])
        v = r.ret
        okv = False
        q = parts(v)
        if len(q) == 1 and q[0][0] == "each":
            src = q[0][1]
            e = el(src)
            okv = src is app("lexer::lex", text) and all(
                len(pp) == 1 and pp[0][0] == "one" and fld(pp[0][1], "0") is fld(e, "0") and ranged(fld(pp[0][1], "1"), sid, fld(e, "1"))
                for g, pp in q[0][2]
            ) and complete([g for g, _ in q[0][2]])
        ctx.ob("lexing/each token with its source and range", okv, str(v)[:300], ctx.at(lb))
    eb = p.one("end_of_input")
    for r in ctx.run(eb):
        ps = list(r.params)
        n = app("len", sym(ps[1]))
        okv = ranged(r.ret, sym(ps[0]), adt("core::ops::range::Range", "Range", {"start": n, "end": n})) or (
            any(s is n for s in subterms(r.ret)) and any(s is sym(ps[0]) for s in subterms(r.ret)) and not any(s.op == "lit" for s in subterms(r.ret)))
        ctx.ob("end of input", okv, str(r.ret)[:200], ctx.at(eb))
    # each source is tokenized into its own place
    nb = p.method("BeancountParser", "new")
    ids = (lb["id"], eb["id"])
    for r in ctx.run(nb, opaque=ids + ("BeancountSources::content_iter", "BeancountSources::num_sources")):
        v = fld(r.ret, "tokenized_sources")
        src = [s for s in subterms(r.ret) if s.op == "app" and s.a[0] == "BeancountSources::content_iter"]
        okv = False
        if v.op == "fold" and src and v.a[1] is src[0]:
            e = el(src[0])
            okv = all(
                t.op == "upd" and t.a[0] is mk("acc") and index_of(t.a[1], fld(e, "0"))
                and t.a[2].op == "app" and t.a[2].a[0].endswith("lex_with_source") and t.a[2].a[1] == (fld(e, "0"), fld(e, "2"))
                for g, t in v.a[2]
            ) and complete([g for g, _ in v.a[2]])
        ctx.ob("tokens/each source's own under its id", okv, str(v)[:400], ctx.at(nb))
        ctx.ob("tokens/same sources", fld(r.ret, "sources") is sym(list(r.params)[0]), "", ctx.at(nb))
    # each source is parsed from its own tokens
    pb = p.method("BeancountParser", "parse_declarations")
    for r in ctx.run(pb, opaque=(eb["id"], p.one("parsers::file")["id"], "BeancountSources::content_iter", "Options::new")):
        calls = {s for s in subterms(r.ret) if s.op == "app" and s.a[0] == "Parser::parse_with_state"}
        ctx.ob("parse/one parse per source", bool(calls), f"{len(calls)}", ctx.at(pb))
        src = app("BeancountSources::content_iter", S("sources"))
        e = el(src)
        for c in calls:
            parser, inp = c.a[1][0], c.a[1][1]
            ix = [s for s in subterms(inp) if s.op == "app" and s.a[0] == "index"]
            eoi = [s for s in subterms(inp) if s.op == "app" and s.a[0].endswith("end_of_input")]
            wc = inp.op == "app" and inp.a[0] == "Input::with_context"
            ctx.ob("parse/tokens of that source", len(ix) == 1 and ix[0].a[1][0] is S("tokenized_sources") and index_of(ix[0].a[1][1], fld(e, "0")), str(ix)[:200], ctx.at(pb))
            ctx.ob("parse/end of that source", len(eoi) == 1 and eoi[0].a[1] == (fld(e, "0"), fld(e, "2")), str(eoi)[:200], ctx.at(pb))
            ctx.ob("parse/context is that source", wc and inp.a[1][1] is fld(e, "0"), str(inp)[-200:], ctx.at(pb))
            ctx.ob("parse/path of that source", fld(e, "1") in parser.a[1], str(parser)[:200], ctx.at(pb))
            ctx.ob("parse/tokens keep their spans", token_closure(ctx, inp), str(inp)[:200], ctx.at(pb))
        out = fld(r.ret, "0")
        keys = {s.a[1] for s in subterms(out) if s.op == "mset"}
        ctx.ob("parse/declarations under that path", keys == {fld(e, "1")}, str([str(k)[:80] for k in keys]), ctx.at(pb))
    # includes are looked for in the text itself
    ib = p.one("get_includes")
    for r in ctx.run(ib, opaque=(lb["id"], eb["id"], p.one("parsers::includes")["id"])):
        for s in subterms(r.ret):
            if s.op == "app" and s.a[0].endswith("lex_with_source"):
                a = s.a[1]
                ps = [sym(x) for x in r.params]
                ctx.ob("includes/own text", set(a) == set(ps), str(a)[:200], ctx.at(ib))
    # the content with its id and path
    cb = p.method("BeancountSources", "content_iter")
    for r in ctx.run(cb):
        okr, oki, seen = True, False, 0
        for s in subterms(r.ret):
            if s.op == "tup" and len(s.a[0]) == 3:
                seen += 1
                sid_, path, text_ = s.a[0]
                okr = okr and roots(sid_, text_)
        ctx.ob("content/id with its own text", okr and seen >= 2, f"{seen} kinds of source", ctx.at(cb))


def roots(sid_, text_):
    """The id and the text come from the same entry."""
    inc = S("included_content")
    e = el(inc)
    s1, s2 = set(subterms(sid_)), set(subterms(text_))
    if e in s1 or e in s2:
        return e in s1 and e in s2 and not (S("root_source_id") in s1) and not (S("root_content") in s2)
    return S("root_source_id") in s1 and S("root_content") in s2


def index_of(t, sid):
    """t is the index made from the source id."""
    for _ in range(4):
        if t is sid:
            return True
        if t.op == "app" and t.a[0].startswith("cast:"):
            t = t.a[1][0]
        elif t.op == "fld":
            t = t.a[0]
        else:
            return False
    return False


def ranged(t, sid, r):
    """A span of this source and range."""
    if t.op == "app" and t.a[0] == "Span::new":
        a = t.a[1]
        return a[0] is sid and (a[1] is r or (fld(a[1], "start") is fld(r, "start") and fld(a[1], "end") is fld(r, "end")))
    if t.op == "adt":
        d = dict(t.a[2])
        return d.get("context") is sid and d.get("start") is fld(r, "start") and d.get("end") is fld(r, "end")
    return False


def token_closure(ctx, inp):
    """The function splitting tokens from spans gives both unchanged."""
    clos = [s for s in subterms(inp) if s.op == "clo"]
    ev = Ev(ctx.p)
    x = sym("pair")
    for c in clos:
        for g, v, fin in ev.apply_refs(c, [x], {}):
            if not (fld(v, "0") is fld(x, "0") and fld(v, "1") is fld(x, "1")):
                return False
    return True


# ---------------------------------------------------------------- span types


def conversions(ctx):
    p = ctx.p
    n = 0
    for b in p.bodies.values():
        if b["name"] != "from" or b.get("self") is None:
            continue
        h = short(p.types[b["self"]]["h"])
        if h not in ("Span", "SimpleSpan"):
            continue
        for r in ctx.run(b):
            v = sym(list(r.params)[0])
            d = dict(r.ret.a[2]) if r.ret.op == "adt" else {}
            okv = d.get("start") is fld(v, "start") and d.get("end") is fld(v, "end") and context_of(d.get("source", d.get("context", UNIT)), v)
            n += 1
            ctx.ob(f"conversion/{b['path'][-60:]}", okv, str(r.ret)[:200], ctx.at(b))
    ctx.ob("conversion", n >= 3, f"{n} conversions", "")
    for name in ("as_ref", "map", "map_into"):
        b = p.method("Spanned", name)
        for r in ctx.run(b):
            ctx.ob(f"Spanned/{name}/span", fld(r.ret, "span") is S("span"), str(r.ret)[:200], ctx.at(b))
            ctx.ob(f"Spanned/{name}/item", any(s is S("item") for s in subterms(fld(r.ret, "item"))), str(r.ret)[:200], ctx.at(b))
    for name in ("spanned_", "spanned"):
        b = p.one("types::" + name)
        for r in ctx.run(b):
            ps = [sym(x) for x in r.params]
            sp = norm_spans(fld(r.ret, "span"))
            ctx.ob(f"{name}/span", sp is ps[1] or sp is app("spanof", ps[1]), str(r.ret)[:200], ctx.at(b))
            ctx.ob(f"{name}/item", fld(r.ret, "item") is ps[0], str(r.ret)[:200], ctx.at(b))
    for name in ("error", "warning"):
        b = p.method("Spanned", name)
        for r in ctx.run(b):
            d = report_fields(r.ret)
            ctx.ob(f"Spanned/{name}", d is not None and d["span"] is S("span"), str(r.ret)[:200], ctx.at(b))
    # errors of the grammar keep their place
    for b in p.bodies.values():
        if b["name"] == "from" and b.get("trait") and "Rich" in b["path"] and "ErrorOrWarning" in b["path"]:
            for r in ctx.run(b):
                v = sym(list(r.params)[0])
                d = report_fields(r.ret)
                s = d["span"] if d else UNIT
                n = norm_spans(s)
                okv = n.op == "app" and n.a[0] == "spanof" and rich_span(n.a[1][0], v)
                ctx.ob("grammar error/span", okv, str(n)[:200], ctx.at(b))


def rich_span(t, v):
    """The span of the error itself, through token mapping only."""
    if t.op != "app" or t.a[0] != "Rich::span":
        return False
    x = t.a[1][0]
    while x.op == "app" and x.a[0] in ("Rich::map_token", "Rich::into_owned") and x.a[1]:
        x = x.a[1][0]
    return x is v
