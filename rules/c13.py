"""C13: span resolution uses the right file, byte range and line numbers."""
from common import *
from ev import is_
import c09
from spans import *

TECHNIQUE = "dataflow summaries over every path of the span functions, compared term by term with the meaning of a span (bytes, characters, lines) of the source it names"
EXPLANATION = (
    "Every path of resolving a span, of the text of an error and of writing a report is summarised as conditions and result, for real and "
    "synthetic sources. On each path where the conditions make the span usable, the source is the one with the span's id; the text is the "
    "cut of its content by the span's byte offsets without trailing whitespace; the positions given to the report renderer are the counts of "
    "characters before those bytes; the first line is one more than the newlines before and the last adds those within; the file name is the "
    "name under that id, absent only for an inline root. A fallback is allowed only where the conditions show that the source has no text or "
    "that the span cannot be cut from it. The contents given to the renderer are those of every source under its name. The tables used "
    "(characters to bytes, ids to names) are established where they are built: by each conversion into sources and by creating a synthetic "
    "span, which must extend what is there. An obligation is one path of one function for one part of its result."
)
ASSUMPTIONS = [
    "str::trim_end, slice::partition_point and char_indices do what they document; ariadne positions count characters",
    "no two sources have the same name",
]
FLOOR = 200


class Quiet:
    """The context of a rule whose obligations are another check's; its rows are visited."""

    def __init__(self, ctx, visit):
        self._c, self.visit = ctx, visit

    def __getattr__(self, n):
        return getattr(self._c, n)

    def ob(self, k, okv, *a):
        return okv


def run(ctx):
    for ty in ("BeancountSources", "SyntheticSources"):
        resolve(ctx, ty)
        error_text(ctx, ty)
        report(ctx, ty)
    synthetic(ctx)
    tables(ctx)


def sides(ty):
    return (SELF, None) if ty == "BeancountSources" else (S("sources"), SELF)


def usable(ctx, key, w, at, guards):
    """(kind, text) on a row where the span is usable; None where it rightly is not, or after a violation."""
    kind, x = w.text()
    if kind == "unknown":
        ctx.ob(f"{key}/source", False, f"the source is not told apart when {showg(guards)[:400]}", at)
        return None
    if kind == "nowhere":
        return None
    v = w.valid(x.text)
    if v is None:
        ctx.ob(f"{key}/range", False, f"a span of {str(x.text)[:100]} is used unchecked when {showg(guards)[:400]}", at)
        return None
    if v is False:
        return None
    e, t = w.end(x.text)
    if e is None:
        ctx.ob(f"{key}/trim", False, f"trailing whitespace is not trimmed when {showg(guards)[:400]}", at)
        return None
    # cutting at the end of the trimmed piece is always possible
    s = fld(w.sp, "start")
    for a, pol in w.d.items():
        if pol is False and a.op == "app" and a.a[0] == "inbounds" and a.a[1][0] is x.text:
            r = rng(a.a[1][1])
            if r is not None and r[1] is not None and same_num(r[0], s) and same_num(r[1], e):
                return None
    return kind, x, s, e, t


def is_cut(x, v, s, e, t):
    if t is not None and v is t:
        return True
    c = cut(v, x.text)
    return c is not None and c[1] is not None and same_num(c[0], s) and same_num(c[1], e)


# ---------------------------------------------------------------- resolving


def resolve(ctx, ty):
    b = ctx.p.method(ty, "resolve_span")
    at = ctx.at(b)
    real, syn = sides(ty)
    key = f"{ty}::resolve_span"
    seen = set()
    for r in ctx.run(b):
        sp = sym(list(r.params)[1])
        w = Where(r.guards, sp, real, syn)
        u = usable(ctx, key, w, at, r.guards)
        v = r.ret
        if u is None:
            continue
        kind, x, s, e, t = u
        seen.add(kind)
        g = showg(r.guards)[:300]
        ctx.ob(f"{key}/{kind}/content", is_cut(x, fld(v, "content"), s, e, t), f"the content is {str(fld(v, 'content'))[:200]} when {g}", at)
        f = fld(v, "file_name")
        inline = w.truth(lambda a: a is is_(fld(real, "root_path"), "None"))
        if inline is None:
            inline = w.truth(lambda a: a is is_(fld(real, "root_path"), "Some"))
            inline = None if inline is None else not inline
        if kind == "root" and inline:
            okf = f is NONE
        else:
            okf = (kind != "root" or inline is False) and f.op == "adt" and f.a[1] == "Some" and w.name(fld(f, "0"))
        ctx.ob(f"{key}/{kind}/file name", okf, f"the file name is {str(f)[:200]} when {g}", at)
        first = [y for y in total(fld(v, "start_line"))]
        oks = lines(x, first, lint(0), s)
        ctx.ob(f"{key}/{kind}/start line", oks, f"the first line is {str(fld(v, 'start_line'))[:300]} when {g}", at)
        last = total(fld(v, "end_line"))
        oke = lines(x, last, lint(0), e) or through(x, last, s, e)
        ctx.ob(f"{key}/{kind}/end line", oke, f"the last line is {str(fld(v, 'end_line'))[:300]} when {g}", at)
    want = {"root", "included"} | ({"synthetic"} if syn is not None else set())
    ctx.ob(f"{key}/sources", want <= seen, f"spans are resolved only in {sorted(seen)} sources", at)


def ones(ts):
    return sum(t.a[1] for t in ts if t.op == "lit"), [t for t in ts if t.op != "lit"]


def lines(x, ts, a, b):
    """One more than the newlines between."""
    n, rest = ones(ts)
    if n != 1:
        return False
    if not rest:
        return same_num(a, b)
    return len(rest) == 1 and x.newlines(rest[0], a, b)


def through(x, ts, s, e):
    n, rest = ones(ts)
    if n != 1 or len(rest) != 2:
        return False
    return any(x.newlines(p, lint(0), s) and x.newlines(q, s, e) for p, q in (rest, rest[::-1]))


def error_text(ctx, ty):
    b = ctx.p.method(ty, "error_source_text")
    at = ctx.at(b)
    real, syn = sides(ty)
    key = f"{ty}::error_source_text"
    n = 0
    for r in ctx.run(b):
        er = sym(list(r.params)[1])
        w = Where(r.guards, fld(fld(er, "0"), "span"), real, syn)
        u = usable(ctx, key, w, at, r.guards)
        if u is None:
            continue
        kind, x, s, e, t = u
        n += 1
        ctx.ob(f"{key}/{kind}", is_cut(x, r.ret, s, e, t), f"the text is {str(r.ret)[:200]} when {showg(r.guards)[:300]}", at)
    ctx.ob(f"{key}/usable", n > 0, "no span is usable", at)


# ---------------------------------------------------------------- reports


def report(ctx, ty):
    b = ctx.p.method(ty, "write_report")
    at = ctx.at(b)
    real, syn = sides(ty)
    key = f"{ty}::write_report"
    rows = ctx.run(b)
    rep = sym(list(rows[0].params)[2])
    own = app("Report::span", rep)
    n = {}
    for r in rows:
        outer = tuple(r.guards)
        places(ctx, key, r.eff, outer, own, rep, real, syn, at, n)
        out = [e for e in r.eff if e[0] == "call" and e[1] == "Report::write"]
        if not ctx.ob(f"{key}/written", len(out) == 1 and r.ret.op == "app" and r.ret.a[0] == "Report::write", f"the report is written {len(out)} times; the result is {str(r.ret)[:100]}", at):
            continue
        built, cache, writer = out[0][2][0], out[0][2][1], out[0][2][2] if len(out[0][2]) > 2 else None
        ctx.ob(f"{key}/writer", writer is sym(list(r.params)[1]), f"written to {str(writer)[:100]}", at)
        contents(ctx, key, cache, real, syn, at)
        said = {s.a[0] for s in subterms(built) if s.op == "app"}
        for m in ("Report::message", "Report::reason", "Report::contexts", "Report::related"):
            ctx.ob(f"{key}/{m}", m in said, "not part of what is written", at)
        attached = {s for s in subterms(built) if s.op == "app" and s.a[0] == "Label::new"}
        for where, lab in n.get("labels", ()):
            ctx.ob(f"{key}/{where}/attached", lab in attached or where != "span", "the label of the span is not part of what is written", at)
        n["labels"] = []
    for what in ("head", "span", "contexts", "related"):
        ctx.ob(f"{key}/{what} placed", n.get(what, 0) > 0, f"no {what} position given to the renderer", at)


def places(ctx, key, eff, guards, own, rep, real, syn, at, n, item=None):
    for e in eff:
        if e[0] == "call" and e[1] in ("Report::build", "Label::new"):
            pos = e[2][-1]
            sp, what = own, "head" if e[1] == "Report::build" else "span"
            if item is not None and e[1] == "Label::new":
                sp, what = item
            if e[1] == "Label::new":
                n.setdefault("labels", []).append((what, app("Label::new", *e[2])))
            n[what] = n.get(what, 0) + 1
            w = Where(guards, sp, real, syn)
            u = usable(ctx, f"{key}/{what}", w, at, guards)
            if u is None:
                continue
            kind, x, s, en, t = u
            g = showg(guards)[-300:]
            name, r = (fld(pos, "0"), rng(fld(pos, "1"))) if pos.op == "tup" else (pos, None)
            if not ctx.ob(f"{key}/{what}/{kind}/position", r is not None and r[1] is not None, f"the position is {str(pos)[:200]}", e[3]):
                continue
            ctx.ob(f"{key}/{what}/{kind}/name", w.name(name), f"the source is {str(name)[:200]} when {g}", e[3])
            ctx.ob(f"{key}/{what}/{kind}/start", x.chars(r[0], s), f"the position starts at {str(r[0])[:200]} when {g}", e[3])
            ctx.ob(f"{key}/{what}/{kind}/end", x.chars(r[1], en), f"the position ends at {str(r[1])[:200]} when {g}", e[3])
        elif e[0] == "foreach":
            src = e[1]
            it = None
            for nm in ("contexts", "related"):
                if src is app(f"Report::{nm}", rep):
                    it = (fld(el(src), "1"), nm)
            for row in e[2]:
                places(ctx, key, row[1], guards + tuple(row[0]), own, rep, real, syn, at, n, it)
                if it is not None:
                    ctx.ob(f"{key}/{it[1]}/each", any(y[0] == "call" and y[1] == "Label::new" for y in row[1]), f"one is left out when {showg(row[0])[:300]}", at)


def contents(ctx, key, cache, real, syn, at):
    """Every source is given to the renderer under its name."""
    lists = [s for s in subterms(cache) if s.op == "app" and s.a[0] == "ariadne::sources"]
    if not ctx.ob(f"{key}/contents", len(lists) == 1, f"the renderer is given {str(cache)[:200]}", at):
        return
    strs, inc = fld(real, "source_id_strings"), fld(real, "included_content")
    got = set()
    for p_ in parts(lists[0].a[1][0]):
        if p_[0] == "one":
            nm, tx = fld(p_[1], "0"), fld(p_[1], "1")
            okp = nm.op == "app" and nm.a[0] == "index" and nm.a[1][0] is strs and same_id(nm.a[1][1], fld(real, "root_source_id")) and tx is fld(real, "root_content")
            ctx.ob(f"{key}/contents/root", okp, f"{str(p_[1])[:200]}", at)
            got.add("root")
            continue
        src = p_[1]
        rows = p_[2] if p_[0] == "each" else (((), (("one", el(src)),)),)
        e = el(src)
        if src is inc:
            for g, ps in rows:
                is_c = dict(g).get(is_(fld(e, "1"), "Content"))
                c = fld(e, "1")
                if is_c is not True:
                    continue
                okp = len(ps) == 1 and ps[0][0] == "one" and len(tuple(g)) == 1
                if okp:
                    nm, tx = fld(ps[0][1], "0"), fld(ps[0][1], "1")
                    okp = nm.op == "app" and nm.a[0] == "index" and nm.a[1][0] is strs and same_id(nm.a[1][1], pay(c, "Content", "0")) and tx is pay(c, "Content", "1")
                if ctx.ob(f"{key}/contents/included", okp, f"when {showg(g)[:200]}: {str(ps)[:300]}", at):
                    got.add("included")
        elif syn is not None and src is fld(syn, "content"):
            for g, ps in rows:
                okp = len(ps) == 1 and ps[0][0] == "one" and fld(ps[0][1], "0") is fld(e, "0") and fld(ps[0][1], "1") is fld(fld(e, "1"), "1") and not tuple(g)
                if ctx.ob(f"{key}/contents/synthetic", okp, f"when {showg(g)[:200]}: {str(ps)[:300]}", at):
                    got.add("synthetic")
        else:
            ctx.ob(f"{key}/contents/other", False, str(p_)[:200], at)
    want = {"root", "included"} | ({"synthetic"} if syn is not None else set())
    ctx.ob(f"{key}/contents/all", want <= got, f"the renderer is given only the contents of {sorted(got)} sources", at)


# ---------------------------------------------------------------- the tables


def is_table(t, text, offset=None):
    """The byte offsets of the characters of the text, each moved by the offset."""
    ps = parts(t)
    if len(ps) != 1 or ps[0][0] != "each":
        return False
    src, rows = ps[0][1], ps[0][2]
    if src is not app("str::char_indices", text) or len(rows) != 1 or tuple(rows[0][0]) or len(rows[0][1]) != 1 or rows[0][1][0][0] != "one":
        return False
    got = rows[0][1][0][1]
    base = fld(el(src), "0")
    return got is base if offset is None else same_sum(got, app("Add", base, offset))


def synthetic(ctx):
    p = ctx.p
    b = p.method("SyntheticSources", "create_synthetic_span")
    at = ctx.at(b)
    key = "create_synthetic_span"
    strs, base, content = S("source_id_strings"), S("base_id"), S("content")
    seen = set()
    for r in ctx.run(b):
        ps = list(r.params)
        name, frag = sym(ps[1]), sym(ps[2])
        fin = r.final("self")
        d = dict(r.guards)
        had = d.get(app("has", content, name))
        seen.add(had)
        v = r.ret
        old = ent(content, name)
        new = fld(fin, "content")
        g = showg(r.guards)[:200]
        if not ctx.ob(f"{key}/case", had is not None and new.op == "mset" and new.a[0] is content and new.a[1] is name, f"the content becomes {str(new)[:200]} when {g}", at):
            continue
        e = new.a[2]
        if had:
            n = app("len", fld(old, "1"))
            ctx.ob(f"{key}/more/id", same_id(fld(e, "0"), fld(old, "0")) and same_id(fld(v, "source"), fld(old, "0")) and fld(fin, "source_id_strings") is strs, f"the source id of a further fragment is {str(fld(v, 'source'))[:100]}", at)
            a = appended(fld(e, "1"), fld(old, "1"))
            ctx.ob(f"{key}/more/content", a == (("all", frag),), f"the content becomes {str(fld(e, '1'))[:200]}", at)
            a = appended(fld(e, "2"), fld(old, "2"))
            ctx.ob(f"{key}/more/characters", a is not None and is_table(seq(a), frag, n), f"the characters become {str(fld(e, '2'))[:300]}", at)
            ctx.ob(f"{key}/more/span", same_num(fld(v, "start"), n) and same_num(fld(v, "end"), app("Add", n, app("len", frag))), f"the span is {str(v)[:300]}", at)
        else:
            i = app("Add", app("len", strs), base)
            ctx.ob(f"{key}/new/id", same_sum(num(fld(e, "0")), i) and same_sum(num(fld(v, "source")), i), f"the source id of a new source is {str(fld(v, 'source'))[:100]}", at)
            ctx.ob(f"{key}/new/name", appended(fld(fin, "source_id_strings"), strs) == (("one", name),), f"the names become {str(fld(fin, 'source_id_strings'))[:200]}", at)
            ctx.ob(f"{key}/new/content", fld(e, "1") is frag, f"the content is {str(fld(e, '1'))[:200]}", at)
            ctx.ob(f"{key}/new/characters", is_table(fld(e, "2"), frag), f"the characters are {str(fld(e, '2'))[:200]}", at)
            ctx.ob(f"{key}/new/span", fld(v, "start") is lint(0) and fld(v, "end") is app("len", frag), f"the span is {str(v)[:200]}", at)
    ctx.ob(f"{key}/cases", seen == {True, False}, f"cases {seen}", at)
    n = p.method("SyntheticSources", "new")
    for r in ctx.run(n):
        src = sym(list(r.params)[0])
        v = r.ret
        ctx.ob("synthetic/new", fld(v, "sources") is src and fld(v, "base_id") is app("len", fld(src, "source_id_strings")) and fld(v, "source_id_strings") is EMPTY and fld(v, "content").op == "mempty", f"new synthetic sources are {str(v)[:300]}", ctx.at(n))
    # nothing else changes a synthetic source, and nothing changes sources once loaded
    for ty in ("BeancountSources", "SyntheticSources"):
        for x in p.bodies.values():
            if x["kind"] not in ("Fn", "AssocFn") or x["id"] == b["id"]:
                continue
            for q in x["params"]:
                t = q.get("t")
                if t is not None and p.types[t]["h"] == "&mut" and short(p.head(p.types[t]["a"][0])) == ty:
                    ctx.ob(f"{ty}/changed", False, f"{x['path']} may change {ty}", ctx.at(x))


def tables(ctx):
    p = ctx.p
    gi = c09.finder(Quiet(ctx, None))
    if not ctx.ob("tables/finder", gi is not None, "no function finds the includes of a text"):
        return
    for k in (("From", "from"), ("TryFrom", "try_from")):
        for b in p.trait_bodies.get(k, ()):
            if b.get("self") is None or short(p.head(b["self"])) != "BeancountSources":
                continue
            what = p.types[b["trait_args"][1]]["s"].rsplit("::", 1)[-1]
            key = f"{k[1]} {what}"
            hits = {"content": 0, "ids": 0}

            def visit(name, cn, v, acc, path, names, at, key=key, hits=hits):
                if name == "content" and v.op == "mset" and v.a[2].op == "adt" and v.a[2].a[1] == "Content":
                    c = v.a[2]
                    hits["content"] += 1
                    i = num(fld(c, "0"))
                    ctx.ob(f"{key}/included/id", cn == "read" and i.op == "app" and i.a[0] == "len" and names.get(c09.lv_name(i.a[1][0])) == "ids", f"the id of a file is {str(i)[-120:]}", at)
                    ctx.ob(f"{key}/included/characters", is_table(fld(c, "2"), fld(c, "1")), f"the characters of a file are {str(fld(c, '2'))[-200:]}", at)
                if name == "ids" and v is not acc:
                    a = appended(v, acc)
                    hits["ids"] += 1
                    ctx.ob(f"{key}/included/name", a is not None and len(a) == 1 and a[0][0] == "one" and named(a[0][1], path), f"the name of a file is {str(v)[-200:]}", at)

            at = ctx.at(b)
            c09.conversion(Quiet(ctx, visit), b, gi, k[0] == "TryFrom", what)
            ctx.ob(f"{key}/included", all(hits.values()), f"included files are not recorded: {hits}", at)
            for r in ctx.run(b, opaque=(gi["id"],)):
                v = r.ret
                if k[0] == "TryFrom":
                    if v.a[1] != "Ok":
                        continue
                    v = fld(v, "0")
                src = sym(list(r.params)[0])
                ctx.ob(f"{key}/root/characters", is_table(fld(v, "root_content_char_indices"), fld(v, "root_content")), f"{str(fld(v, 'root_content_char_indices'))[:200]}", at)
                L = [e[1] for e in r.eff if e[0] == "loop" and fld(v, "source_id_strings") in e[1].init]
                if not ctx.ob(f"{key}/root/loop", len(L) == 1, "no single loop loads the includes", at):
                    continue
                first = L[0].init[fld(v, "source_id_strings")]
                ctx.ob(f"{key}/root/id", num(fld(v, "root_source_id")) is lint(0), f"the id of the root is {str(fld(v, 'root_source_id'))[:100]}", at)
                ps = parts(first)
                ctx.ob(f"{key}/root/name", len(ps) == 1 and ps[0][0] == "one" and (named(ps[0][1], src) or k[0] == "From"), f"the first names are {str(first)[:200]}", at)


def named(t, path):
    return t is app("Path::to_string_lossy", path) or t is app("disp", app("Path::display", path))
