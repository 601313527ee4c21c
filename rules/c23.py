"""C23: a report carries its message, reason, location, context and related items."""
from common import *
from terms import *
import re

EXPLANATION = (
    "Every function which builds or extends an error or warning is summarised by dataflow and composed with every accessor of the Report "
    "trait: what the accessor shows of the result is compared with what it shows of the report it started from plus what was added. The "
    "writers of reports are evaluated up to the calls of the report renderer; the builder calls are decoded and compared: message, reason "
    "label at the report's own span, one label per context and per related item showing its text at its own span, every report in order, "
    "then its annotation, and the kind of the marker type. An obligation is one path of one such function and what one accessor or "
    "renderer call shows of it."
)
ASSUMPTIONS = ["ariadne renders the message and every label it is given", "chumsky's Rich error accessors are as documented"]
FLOOR = 110
TECHNIQUE = "dataflow summaries of report constructors composed with accessors; decoding of the renderer calls on every path"

ACC = ("message", "reason", "span", "contexts", "related")


def shown(ctx, acc, report):
    """What an accessor shows of a report term: [(guards, value)]."""
    b = ctx.p.method("ErrorOrWarning", acc, "Report")
    ev = Ev(ctx.p)
    rows = ev.run(b, args=[report])
    ctx.analysed.add(b["path"])
    return [(r.guards, r.ret) for r in rows], ctx.at(b)


def norm(t):
    """Texts up to conversion to String or str."""
    while t.op == "app" and t.a[0] in ("disp",) and len(t.a[1]) == 1:
        t = t.a[1][0]
    return t


def items(v):
    """The parts of a list of (text, span) pairs, normalised."""
    out = []
    for p in parts(v):
        if p[0] == "all":
            x = p[1]
            e = el(x)
            out.append(("each", x, frozenset({((), (("one", fld(e, "0"), fld(e, "1")),))})))
        elif p[0] == "one":
            out.append(("one", norm(fld(p[1], "0")), fld(p[1], "1")))
        elif p[0] == "each":
            rows = frozenset(
                (tuple(sorted(g, key=str)), tuple(("one", norm(fld(q[1], "0")), fld(q[1], "1")) if q[0] == "one" else q for q in pp))
                for g, pp in p[2]
            )
            out.append(("each", p[1], rows))
        else:
            out.append(p)
    return tuple(out)


def merge(*gs):
    out = []
    for g in gs:
        for x in g:
            if x not in out:
                out.append(x)
    return tuple(out)


def builder(ctx, name, added, b=None, base=SELF):
    """A method of a report: accessors other than `added`'s show the same, and that one the items more."""
    b = b or ctx.p.method("ErrorOrWarning", name)
    rows = ctx.run(b)
    ctx.ob(f"{name}/paths", rows and complete([r.guards for r in rows]), f"{len(rows)} paths", ctx.at(b))
    for r in rows:
        for acc in ACC:
            old, _ = shown(ctx, acc, base)
            new, _ = shown(ctx, acc, r.ret)
            n = 0
            for g1, v1 in new:
                if not consistent(g1, r.guards):
                    continue
                for g0, v0 in old:
                    if not consistent(merge(g1, r.guards), g0):
                        continue
                    n += 1
                    if acc in ("contexts", "related"):
                        want = items(v0) + (added[1] if added and added[0] == acc else ())
                        got = items(v1)
                    else:
                        want, got = v0, v1
                    ctx.ob(
                        f"{name}/{acc}",
                        got == want if isinstance(got, tuple) else got is want,
                        f"when {showg(r.guards)[:200]}: {acc} of the result is {str(v1)[:500]}; expected {str(want)[:400]}",
                        ctx.at(b),
                    )
            ctx.ob(f"{name}/{acc}/compared", n > 0, f"{n} cases", ctx.at(b))


def etype(e):
    return app("ElementType::element_type", e)


def one(text, span):
    return (("one", text, span),)


def every(src):
    return (("each", src, frozenset({((), (("one", etype(el(src)), fld(el(src), "span")),))})),)


def construct(ctx):
    p = ctx.p
    # the constructors
    b = p.method("ErrorOrWarning", "new")
    fresh(ctx, "new", b, {"message": sym("message"), "reason": sym("reason"), "span": sym("span")}, ctx.run(b))
    for name in ("error", "warning"):
        b = p.method("Spanned", name)
        kind = "ErrorKind" if name == "error" else "WarningKind"
        ctx.ob(f"Spanned::{name}/kind", kind in full(p, b["ret"]), f"returns {full(p, b['ret'])}", ctx.at(b))
        fresh(ctx, "Spanned::" + name, b, {"reason": sym("reason"), "span": fld(SELF, "span")}, ctx.run(b))
        for r in ctx.run(b):
            for g, v in shown(ctx, "message", r.ret)[0]:
                ctx.ob(f"Spanned::{name}/message", etype(SELF) in set(subterms(v)), f"the message says what was wrong: {str(v)[:200]}", ctx.at(b))
    # what extends them
    e, es = sym("element"), sym("elements")
    builder(ctx, "related_to", ("related", one(etype(e), fld(e, "span"))))
    builder(ctx, "related_to_all", ("related", every(es)))
    builder(ctx, "related_to_named_span", ("related", one(sym("name"), sym("span"))))
    builder(ctx, "in_context", ("contexts", one(etype(e), fld(e, "span"))))
    builder(ctx, "in_contexts", ("contexts", every(es)))
    builder(ctx, "in_explicitly_labelled_contexts", ("contexts", items(seq((("all", es),)))))
    # annotation
    b = p.method("ErrorOrWarning", "with_annotation")
    ann = p.method("AnnotatedErrorOrWarning", "annotation")
    deref = p.method("AnnotatedErrorOrWarning", "deref", "Deref")
    frm = p.method("AnnotatedErrorOrWarning", "from", "From")
    for key, bb, want, inner in (
        ("with_annotation", b, sym("annotation"), SELF),
        ("from", frm, None, sym(pname(frm))),
    ):
        rows = ctx.run(bb)
        ctx.ob(f"{key}/paths", rows, f"{len(rows)} paths", ctx.at(bb))
        for r in rows:
            for x in Ev(p).run(ann, args=[r.ret]):
                if not consistent(x.guards, r.guards):
                    continue
                v = x.ret
                okv = (v is NONE) if want is None else (v.op == "adt" and v.a[1] == "Some" and norm(fld(v, "0")) is want)
                ctx.ob(f"{key}/annotation", okv, f"annotation is {str(v)[:200]}", ctx.at(bb))
            for x in Ev(p).run(deref, args=[r.ret]):
                ctx.ob(f"{key}/report", x.ret is inner, f"the report is {str(x.ret)[:200]}", ctx.at(bb))
    for bb in (ann, deref):
        ctx.analysed.add(bb["path"])
    converted(ctx)


def converted(ctx):
    """An error of the grammar."""
    p = ctx.p
    cands = [
        b
        for b in p.bodies.values()
        if b["name"] == "from" and b.get("trait") and b["params"] and short(p.head(b["params"][0]["t"])) == "Rich" and "ErrorOrWarning" in full(p, b["self"])
    ]
    ctx.ob("rich/found", len(cands) == 1, f"{len(cands)} conversions of grammar errors", "")
    for b in cands:
        err = sym(pname(b))
        rows = ctx.run(b)
        ctx.ob("rich/paths", rows and complete([r.guards for r in rows]), f"{len(rows)} paths", ctx.at(b))
        for r in rows:
            for acc in ACC:
                for g, v in shown(ctx, acc, r.ret)[0]:
                    if not consistent(g, r.guards):
                        continue
                    ctx.ob(f"rich/{acc}", rich(acc, v, err), f"{acc} is {str(v)[:600]}", ctx.at(b))


def pname(b, i=0):
    return b["params"][i]["p"]["v"].split("#")[0]


def full(p, t):
    """A type spelled out with its parameters."""
    x = p.types[t]
    return x["s"] + " " + " ".join(full(p, a) for a in x["a"])


def mapped(t, err):
    """The grammar error, with its tokens converted."""
    while t.op == "app" and t.a[0] in ("Rich::map_token", "Rich::into_owned", "Clone::clone") and t.a[1]:
        t = t.a[1][0]
    return t is err


def rich(acc, v, err):
    def of(t, f):
        return t.op == "app" and t.a[0] in (f, f.replace("Rich::", "Error::")) and mapped(t.a[1][0], err)

    def span(t, s):
        """t is the span s in this crate's form"""
        if t is s:
            return True
        return (
            t.op == "adt"
            and dict(t.a[2]).get("start") is fld(s, "start")
            and dict(t.a[2]).get("end") is fld(s, "end")
            and "source" in dict(t.a[2])
            and s in set(subterms(dict(t.a[2])["source"]))
        )

    if acc == "message":
        return any(mapped(x, err) for x in subterms(v))
    if acc == "reason":
        return any(of(x, "Rich::reason") for x in subterms(v))
    if acc == "span":
        return any(of(x, "Rich::span") and span(v, x) for x in subterms(v))
    if acc == "related":
        return v is seq(()) or not parts(v)
    ps = items(v)
    if len(ps) != 1 or ps[0][0] != "each" or not of(ps[0][1], "Rich::contexts"):
        return False
    e = el(ps[0][1])
    rows = list(ps[0][2])
    return complete([g for g, _ in rows]) and all(
        len(pp) == 1 and pp[0][0] == "one" and norm(pp[0][1]) is fld(e, "0") and span(pp[0][2], fld(e, "1")) for g, pp in rows
    )


def fresh(ctx, key, b, want, rows):
    """A new report: as given, with nothing accumulated yet."""
    ctx.ob(f"{key}/paths", rows and complete([r.guards for r in rows]), f"{len(rows)} paths", ctx.at(b))
    for r in rows:
        for acc, w in want.items():
            for g, v in shown(ctx, acc, r.ret)[0]:
                ctx.ob(f"{key}/{acc}", norm(v) is w, f"{acc} is {str(v)[:300]}, expected {w}", ctx.at(b))
        for acc in ("contexts", "related"):
            for g, v in shown(ctx, acc, r.ret)[0]:
                if consistent(g, r.guards):
                    ctx.ob(f"{key}/{acc}", not parts(v), f"{acc} is {str(v)[:300]}", ctx.at(b))


# ---------------------------------------------------------------- rendering


def span_maps(p):
    """The functions of the sources from spans to spans, which C13 decides."""
    return tuple(
        b["id"]
        for b in p.bodies.values()
        if b["kind"] != "Closure"
        and not b.get("expn")
        and b["body"]
        and "::sources::" in b["id"]
        and any(p.head(x["t"]).endswith("types::Span") for x in b["params"])
        and re.search(r"\bSpan\b", full(p, b["ret"]))
    )


class Bad(Exception):
    pass


class Builder:
    """A decoded report of the renderer."""

    def __init__(self):
        self.kind = self.loc = self.message = None
        self.labels = []  # ("one", label) or ("each", src, rows of (guards, labels))


def decode(t, acc=None, into=None):
    """The builder calls which made a report."""
    calls = []
    B = into or Builder()
    while True:
        if acc is not None and t is acc:
            break
        if t.op == "fold":
            calls.append(("fold", t))
            t = t.a[0]
            continue
        if t.op != "app":
            raise Bad(f"not made by the report builder: {str(t)[:200]}")
        f, a = t.a
        f = re.sub(r"^after:(.*)#\d+$", r"\1", f)
        if f == "Report::build":
            B.kind, B.loc = a[0], a[1]
            break
        if not f.startswith("ReportBuilder::") or not a:
            raise Bad(f"not made by the report builder: {str(t)[:200]}")
        calls.append((f[15:], a))
        t = a[0]
    for f, a in reversed(calls):
        if f == "fold":
            src, rows = a.a[1], a.a[2]
            out = []
            for g, v in rows:
                b2 = decode(v, acc=mk("acc"), into=Builder())
                if b2.message is not None:
                    raise Bad("the message is set per item")
                out.append((g, b2.labels))
            B.labels.append(("each", src, out))
        elif f in ("with_message", "set_message"):
            B.message = a[1]
        elif f in ("with_label", "add_label"):
            B.labels.append(("one", label(a[1])))
        elif f in ("with_labels", "add_labels"):
            v = a[1]
            if v.op == "adt" and v.a[1] == "Some":
                B.labels.append(("one", label(fld(v, "0"))))
                continue
            if v is NONE:
                continue
            for p in parts(v):
                if p[0] == "one":
                    B.labels.append(("one", label(p[1])))
                elif p[0] == "each":
                    out = []
                    for g, pp in p[2]:
                        if any(q[0] != "one" for q in pp):
                            raise Bad("nested labels")
                        out.append((g, [("one", label(q[1])) for q in pp]))
                    B.labels.append(("each", p[1], out))
                else:
                    raise Bad(f"labels which are not built here: {str(p)[:200]}")
        elif f in ("finish", "with_config", "with_note", "with_help", "with_code", "set_note", "set_help", "add_note", "add_help"):
            pass
        else:
            raise Bad(f"ReportBuilder::{f}")
    return B


def label(t):
    msg = None
    while True:
        if t.op != "app" or not t.a[1]:
            raise Bad(f"not a label: {str(t)[:200]}")
        f, a = t.a
        if f == "Label::new":
            return (a[0], msg)
        if f == "Label::with_message":
            msg = msg or a[1]
        elif not f.startswith("Label::with_"):
            raise Bad(f"not a label: {str(t)[:200]}")
        t = a[0]


class Render:
    def __init__(self, ctx, key, where):
        self.ctx, self.key, self.where = ctx, key, where

    def ob(self, k, okv, msg):
        self.ctx.ob(f"{self.key}/{k}", okv, msg, self.where)

    def get(self, R, what):
        """The terms which stand for an accessor of the report R."""
        return {app("Report::" + what, R), fld(fld(R, "0"), what)}

    def isof(self, t, R, what):
        return norm(t) in self.get(R, what)

    def placed(self, loc, R, item):
        """A location given to the renderer: at the given span and no other."""
        spans = {t for t in subterms(loc) if t in self.get(R, "span")} | {
            t for t in subterms(loc) if t.op in ("fld",) and t.a[1] == "1" and t.a[0].op in ("each", "el")
        }
        rng = fld(loc, "1")
        s, e = fld(rng, "start"), fld(rng, "end")
        ordered = s is not e and (s.op != "fld" or s.a[1] != "end") and (e.op != "fld" or e.a[1] != "start")
        return ordered and bool(spans) and spans <= item

    def texts(self, msg):
        """The terms a label's message shows."""
        if msg is None:
            return set()
        if msg.op == "adt" and msg.a[1] == "LazyFormat":
            out = None
            for g, v, st in Ev(self.ctx.p).apply_refs(fld(msg, "0"), ["f"], {"f": sym("f")}):
                s = set(subterms(st["f"]))
                out = s if out is None else out & s
            return out or set()
        return set(subterms(msg))

    def report(self, t, R):
        """One report handed to the renderer: (report, cache) of report R."""
        try:
            B = decode(t)
        except Bad as x:
            return self.ob("decode", False, str(x))
        self.ob("kind", B.kind is app("ErrorOrWarningKind::report_kind"), f"rendered as {B.kind}")
        self.ob("location", self.placed(B.loc, R, self.get(R, "span")), f"the report is placed at {str(B.loc)[:300]}")
        self.ob("message", B.message is not None and self.isof(B.message, R, "message"), f"the message is {str(B.message)[:200]}")
        reasons = [l for l in B.labels if l[0] == "one"]
        hit = [l for _, l in reasons if l[1] is not None and self.get(R, "reason") & self.texts(l[1])]
        self.ob("reason", len(hit) == 1 and self.placed(hit[0][0], R, self.get(R, "span")), f"{len(hit)} labels with the reason at the span")
        for acc in ("contexts", "related"):
            srcs = self.get(R, acc)
            n = 0
            for l in B.labels:
                if l[0] != "each" or not (l[1] in srcs or (l[1].op == "pay" and l[1].a[0] in srcs)):
                    continue
                n += 1
                e = el(l[1])
                self.ob(f"{acc}/all", complete([g for g, _ in l[2]]), "every item has a label")
                for g, ls in l[2]:
                    okv = (
                        len(ls) == 1
                        and ls[0][0] == "one"
                        and fld(e, "0") in self.texts(ls[0][1][1])
                        and self.placed(ls[0][1][0], R, {fld(e, "1")})
                    )
                    self.ob(f"{acc}/label", okv, f"when {showg(g)[:100]} the labels of an item are {str(ls)[:500]}")
            self.ob(f"{acc}/shown", n == 1, f"labels for {acc}: {n}")


def write_call(t, w):
    """after:Report::write#i(report, cache, w) -> report"""
    if t.op == "app" and re.match(r"^after:Report::write(_for_stdout)?#\d+$", t.a[0]) and len(t.a[1]) == 3 and t.a[1][2] is w:
        return t.a[1][0]
    return None


def rendering(ctx):
    p = ctx.p
    om = span_maps(p)
    ctx.ob("span-maps", len(om) >= 2, f"{len(om)} functions from spans to spans", "")
    for ty in ("BeancountSources", "SyntheticSources"):
        b = p.method(ty, "write_report")
        rows = ctx.run(b, opaque=om)
        w, rep = sym(pname(b, 1)), sym(pname(b, 2))
        Rr = Render(ctx, ty + "::write_report", ctx.at(b))
        Rr.ob("paths", rows and complete([r.guards for r in rows]), f"{len(rows)} paths")
        for r in rows:
            t = write_call(r.final(pname(b, 1)), w)
            Rr.ob("written", t is not None, f"w becomes {str(r.final(pname(b, 1)))[:200]}")
            if t is not None:
                Rr.report(t, rep)
            called = app("Report::write", *r.final(pname(b, 1)).a[1]) if t is not None else None
            res = r.ret is called or (r.ret.op == "adt" and called is not None and holds(r.guards, is_(called, r.ret.a[1])))
            Rr.ob("result", res, f"returns {str(r.ret)[:200]}")
        # all of them, in order
        b = p.method(ty, "write_errors_or_warnings")
        rows = ctx.run(b, opaque=om)
        wn = pname(b, 1)
        w, src = sym(wn), sym(pname(b, 2))
        Rr = Render(ctx, ty + "::write_errors_or_warnings", ctx.at(b))
        n = 0
        for r in rows:
            if r.ret.op == "adt" and r.ret.a[1] == "Err":
                Rr.ob("failed", any(pp and c.op in ("exists", "is") for c, pp in r.guards), "an error of the writer is returned")
                continue
            n += 1
            fin = r.final(wn)
            okf = fin.op == "fold" and fin.a[0] is w and fin.a[1] is src
            if not okf:
                per = fold_rows(fin, w, src)
            else:
                per = fold_rows(fin, w, src)
            Rr.ob("each", per is not None, f"w becomes {fin.op} over {str(fin.a[1])[:200] if len(fin.a) > 1 else ''}")
            anns = set()
            for x in per or ():
                self_ = [t for t in subterms(x.val) if t.op == "app" and t.a[0] == "into:AnnotatedErrorOrWarning"]
                A = app("into:AnnotatedErrorOrWarning", el(src))
                Rr.ob("item", self_ and all(t is A for t in self_), f"reports written are {set(str(t) for t in self_)}"[:300])
                ann = fld(A, "annotation")
                v = x.val
                tail = ()
                if v.op == "seq":
                    ps = parts(v)
                    v = ps[0][1]
                    tail = ps[1:]
                t = write_call(v, mk("acc"))
                Rr.ob("written", t is not None, f"each adds {str(v)[:200]}")
                if t is not None:
                    Rr.report(t, fld(A, "error_or_warning"))
                texts = set()
                for q in tail:
                    for y in q[1:]:
                        if isinstance(y, T):
                            texts |= set(subterms(y))
                shows = pay(ann, "Some", "0") in texts
                if holds(x.guards, is_(ann, "Some")):
                    anns.add("Some")
                    Rr.ob("annotation", shows, f"the annotation follows: {str(tail)[:200]}")
                elif holds(x.guards, is_(ann, "None")) or holds(x.guards, is_(ann, "Some"), False):
                    anns.add("None")
                    Rr.ob("no-annotation", not tail, f"nothing follows: {str(tail)[:200]}")
                else:
                    anns |= {"Some", "None"}
                    Rr.ob("annotation", ann in texts, f"the annotation follows: {str(tail)[:200]}")
            Rr.ob("annotations", anns == {"Some", "None"}, f"{anns}")
        Rr.ob("succeeds", n == 1, f"{n} paths on which all are written")
    for k, v in (("ErrorKind", "Error"), ("WarningKind", "Warning")):
        b = p.method(k, "report_kind", "ErrorOrWarningKind")
        for r in ctx.run(b):
            ctx.ob(f"{k}/kind", str(r.ret) == "ReportKind::" + v, f"rendered as {r.ret}", ctx.at(b))
    # shown as text
    shows = [
        b
        for b in p.bodies.values()
        if b["name"] == "fmt" and b.get("trait") and short(b["trait"]) == "Display" and short(p.head(b["self"])) == "ErrorOrWarning"
    ]
    ctx.ob("display/found", len(shows) == 2, f"{len(shows)} implementations", "")
    for b in shows:
        fn = pname(b, 1)
        for r in ctx.run(b):
            seen = set(subterms(r.final(fn)))
            for acc in ("message", "reason"):
                vals = [v for g, v in shown(ctx, acc, SELF)[0]]
                ctx.ob(f"display/{acc}", all(v in seen for v in vals), f"shown when {showg(r.guards)[:200]}", ctx.at(b))


def run(ctx):
    construct(ctx)
    rendering(ctx)
