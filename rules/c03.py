"""C03: parsing succeeds exactly when no error was found, and loses no report."""
from common import *
from syntax import *

EXPLANATION = (
    "Dataflow over the type-checked program: (1) every path of BeancountParser::parse returns Ok exactly when both "
    "error lists (grammar, processor) are empty, and the error and warning fields of the result contain both lists "
    "whole; (2) parse_declarations collects the errors of the parse of every source and returns the warnings recorded in "
    "the parser state; (3) on every path of every step of the processor the error and warning lists are only extended, and "
    "an option that fails is appended; (4) the final result keeps both lists and adds an error for everything left pushed; "
    "(5) nothing else in the crate discards or replaces these lists (every write to the fields is one of the analysed "
    "ones). An obligation is one output of one path."
)
ASSUMPTIONS = ["chumsky's into_output_errors returns every error recorded during the parse"]
FLOOR = 40

OPQ = ("BeancountParser::parse_declarations", "PragmaProcessor::new", "PragmaProcessor::result", "BeancountSources::error_paths")


def contains_all(v, src):
    """Is every element of src an element of the sequence v?"""
    return any(p[0] == "all" and p[1] is src for p in parts(v))


def run(ctx):
    b = ctx.p.method("BeancountParser", "parse")
    rows = ctx.run(b, opaque=OPQ, streams=("PragmaProcessor",))
    w = ctx.at(b)
    pd = app("BeancountParser::parse_declarations", SELF)
    kinds = set()
    for r in rows:
        res = None
        for _, args in [(0, 0)]:
            pass
        procs = {s for s in subterms(r.ret) if s.op == "app" and s.a[0] == "PragmaProcessor::result"}
        procs |= {s for c, p in r.guards for s in subterms(c) if s.op == "app" and s.a[0] == "PragmaProcessor::result"}
        if not ctx.ob("one processor", len(procs) == 1, f"{len(procs)} results", w):
            continue
        pr = procs.pop()
        ctx.ob("processor exhausted", pr.a[1][0].op == "app" and pr.a[1][0].a[0] == "drained", f"{str(pr.a[1][0])[:200]}", w)
        ge, pe, gw, pw = fld(pd, "2"), fld(pr, "2"), fld(pd, "3"), fld(pr, "3")
        n_ge, n_pe = app("nonempty", ge), app("nonempty", pe)
        v = r.ret.a[1] if r.ret.op == "adt" else None
        kinds.add(v)
        if v == "Ok":
            ctx.ob("success needs no grammar error", holds(r.guards, n_ge, False), showg(r.guards)[:400], w)
            ctx.ob("success needs no processing error", holds(r.guards, n_pe, False), showg(r.guards)[:400], w)
            o = pay(r.ret, "Ok", "0")
            ctx.ob("success options", fld(o, "options") is fld(pr, "0"), str(fld(o, "options"))[:200], w)
        elif v == "Err":
            ctx.ob("failure needs an error", holds(r.guards, n_ge, True) or holds(r.guards, n_pe, True), showg(r.guards)[:400], w)
            o = pay(r.ret, "Err", "0")
            ctx.ob("grammar errors returned", contains_all(fld(o, "errors"), ge) or holds(r.guards, n_ge, False), str(fld(o, "errors"))[:300], w)
            ctx.ob("processing errors returned", contains_all(fld(o, "errors"), pe) or holds(r.guards, n_pe, False), str(fld(o, "errors"))[:300], w)
        else:
            ctx.ob("result", False, str(r.ret)[:200], w)
            continue
        ws = fld(o, "warnings")
        ctx.ob("grammar warnings returned", contains_all(ws, gw), str(ws)[:300], w)
        ctx.ob("processing warnings returned", contains_all(ws, pw), str(ws)[:300], w)
    ctx.ob("both outcomes", kinds == {"Ok", "Err"}, str(kinds), w)
    ctx.ob("outcomes complete", complete([r.guards for r in rows]), "every case returns", w)

    declarations(ctx)

    b, st = processor(ctx)
    w = ctx.at(b)
    opt = arg("Option")
    asm = app("Options::assimilate", S("options"), opt)
    for i, s in enumerate(st):
        for f in ("errors", "warnings"):
            v = s.get("self." + f)
            okv = appended(v, S(f)) is not None
            if not okv and v.op == "fold" and v.a[0] is S(f):
                okv = all(appended(t, mk("acc")) is not None for g, t in v.a[2])
            ctx.ob(f"step/{f} only grow", okv, f"when {showg(s.guards)[-300:]}: {f} becomes {str(v)[:300]}", w)
        bad = holds(s.guards, is_(asm, "Err"), True)
        if bad:
            ps = appended(s.get("self.errors"), S("errors")) or ()
            ctx.ob("step/failed option reported", any(p == ("one", pay(asm, "Err", "0")) for p in ps), str(ps)[:300], w)
    ctx.ob(
        "step/failed option considered",
        any(holds(s.guards, is_(asm, "Err"), True) for s in st),
        "the outcome of setting an option is examined", w,
    )
    rb = ctx.p.method("PragmaProcessor", "result")
    w = ctx.at(rb)
    for r in ctx.run(rb):
        ctx.ob("result/errors kept", appended(fld(r.ret, "2"), S("errors")) is not None, str(fld(r.ret, "2"))[:300], w)
        ctx.ob("result/warnings kept", appended(fld(r.ret, "3"), S("warnings")) is not None, str(fld(r.ret, "3"))[:300], w)
        for f in ("tags", "meta_key_values"):
            ps = appended(fld(r.ret, "2"), S("errors")) or ()
            okv = any(
                p[0] == "each" and p[1] is S(f) and complete([g for g, pp in p[2] if any(q[0] == "one" for q in pp)])
                for p in ps
            )
            ctx.ob(f"result/{f} left pushed", okv, str(ps)[:300], w)
    nb = ctx.p.method("PragmaProcessor", "new")
    for r in ctx.run(nb):
        for f in ("errors", "warnings"):
            ctx.ob(f"new/{f}", fld(r.ret, f) is EMPTY, str(fld(r.ret, f)), ctx.at(nb))
    warnings_recorded(ctx)


def declarations(ctx):
    """Errors and output of every source's parse are returned, with the state's warnings."""
    b = ctx.p.method("BeancountParser", "parse_declarations")
    w = ctx.at(b)
    rows = ctx.run(b, opaque=("parsers::file", "BeancountSources::content_iter", "beancount_parser_lima::end_of_input", "Options::new"))
    src = app("BeancountSources::content_iter", S("sources"))
    x = el(src)
    for r in rows:
        errs, warns, outs = fld(r.ret, "2"), fld(r.ret, "3"), fld(r.ret, "0")
        flat = flat_append(errs, src)
        okv = flat is not None and len(flat) == 1
        R = None
        if okv:
            f = flat[0]
            okv = f.op == "fld" and f.a[1] == "1" and f.a[0].op == "app" and f.a[0].a[0] == "ParseResult::into_output_errors"
            R = f.a[0] if okv else None
        ctx.ob("declarations/errors of every source", okv, f"errors: {str(errs)[:700]}", w)
        if R is None:
            continue
        pw = R.a[1][0]
        okp = pw.op == "app" and pw.a[0] == "Parser::parse_with_state" and mentions(pw, fld(x, "1")) and mentions(pw, fld(x, "0"))
        ctx.ob("declarations/parse of the source", okp, str(pw)[:300], w)
        # the state threads through every parse, and its warnings are returned
        st = pw.a[1][2] if okp else None
        okt = st is not None and st.op == "lv" and warns.op == "fld" and warns.a[1] == "warnings"
        base = warns
        while base.op == "fld":
            base = base.a[0]
        okt = okt and base.op == "fold" and base.a[1] is src and all(
            t.op == "app" and t.a[0].startswith("after:Parser::parse_with_state") and mk("acc") in t.a[1] for g, t in base.a[2]
        )
        ctx.ob("declarations/warnings of the state", okt, f"warnings: {str(warns)[-300:]}", w)


def flat_append(v, src):
    """If v is, element by element of src, a concatenation of sequences (each element converted
    one by one), those sequences."""
    ps = parts(v)
    if len(ps) != 1:
        return None
    p = ps[0]
    if p[0] == "each" and p[1].op == "fold" and all(not g and len(pp) == 1 and pp[0][0] == "one" for g, pp in p[2]):
        return flat_append(p[1], src)
    if p[0] == "each" and p[1] is src:
        out = []
        if not complete([g for g, _ in p[2]]):
            return None
        for g, pp in p[2]:
            if len(pp) != 1:
                return None
            q = pp[0]
            if q[0] == "all":
                out.append(q[1])
            elif q[0] == "each" and all(not g2 and len(p2) == 1 and p2[0][0] == "one" for g2, p2 in q[2]):
                out.append(q[1])
            else:
                return None
        return list(dict.fromkeys(out))
    if p[0] == "each" and all(complete([g for g, _ in p[2]]) and len(pp) == 1 and pp[0][0] == "one" for g, pp in p[2]):
        return flat_append(p[1], src)
    if p[0] == "all" and p[1].op == "fold" and p[1].a[0] is EMPTY and p[1].a[1] is src:
        out = []
        if not complete([g for g, _ in p[1].a[2]]):
            return None
        for g, t in p[1].a[2]:
            ap = appended(t, mk("acc"))
            if not ap or len(ap) != 1:
                return None
            q = ap[0]
            if q[0] == "all":
                out.append(q[1])
            elif q[0] == "each" and all(not g2 and len(p2) == 1 and p2[0][0] == "one" for g2, p2 in q[2]):
                out.append(q[1])
            else:
                return None
        return list(dict.fromkeys(out))
    return None


def warnings_recorded(ctx):
    """Whatever rule of the grammar touches the parser state's warnings only adds to them."""
    old = fld(sym("state"), "warnings")
    for n, g, f, v in state_effects(decls(ctx)):
        if f not in (None, "warnings"):
            continue
        ps = parts(v) if f else ()
        ctx.ob("grammar/warnings are only added to", bool(ps) and ps[0] == ("all", old), f"when {showg(g)[:200]} the {f or 'state'} becomes {str(v)[:300]}", f"a rule of the grammar ({n.how})")
