"""C10: every include is either processed or reported."""
from common import *

EXPLANATION = (
    "Dataflow over the type-checked program: every path of one step of the declaration processor that handles an include, "
    "and the effect of its loop on each expanded path, is compared with a decision table: a file not yet processed becomes "
    "the current one, the includer's remaining declarations and path are stacked, and the pushed tags and metadata in force "
    "are recorded for it; a file which could not be read, an empty or failed expansion and a repeat in another scope each "
    "append an error at the include; a repeat in the same scope is the only silent case. Also: at the end of a file the "
    "stacked file resumes, the initial state hands over every parsed file, and no other step touches this state. "
    "An obligation is one output of one case on one path."
)
ASSUMPTIONS = ["HashMap/VecDeque behave as documented", "every include met while processing was expanded while loading (C09)"]
FLOOR = 60


def ne(t):
    return app("nonempty", t)


def run(ctx):
    b, st = processor(ctx)
    w = ctx.at(b)
    inc = arg("Include")
    span = fld(inc, "span")
    globs = S("included_globs")
    path = S("current_path")
    glob = app("sources::resolve_included_path", path, fld(inc, "item"))
    rows = [r for r in st if consistent(r.guards, g_pragma("Include"))]
    # the key looked up is the path resolved against the current file
    looked = {g.a[1][1] for r in rows for g, _ in r.guards if g.op == "app" and g.a[0] == "has" and g.a[1][0] is globs}
    ctx.ob("include/resolved against the including file", looked == {glob}, f"expansion looked up by {sorted(map(str, looked))}", w)
    e_glob = ent(globs, glob)
    paths = pay(e_glob, "Expanded", "0")
    hasg = (app("has", globs, glob), True)
    exp = (is_(e_glob, "Expanded"), True)
    failed = (is_(e_glob, "Error"), True)
    errors = S("errors")
    rest = app("tail", DECLS)
    same = {f: S(f) for f in ("stacked", "remaining", "include_by_canonical_path", "current_path", "error_paths", "included_globs")}
    check_table(
        ctx, "include", rows,
        [
            ("expansion failed", g_pragma("Include") + (hasg, failed),
             {"errors": adds_error(errors, span), "current_declarations": rest, **same}),
            ("nothing matched", g_pragma("Include") + (hasg, exp, (ne(paths), False)),
             {"errors": adds_error(errors, span), "current_declarations": any_of(rest, nofold(rest, paths)), **{k: any_of(v, nofold(v, paths)) for k, v in same.items()}}),
        ],
        step_get, w,
    )
    good = [r for r in rows if consistent(r.guards, (hasg, exp, (ne(paths), True)))]
    ctx.ob("include/expanded covered", bool(good), "a path handles the expanded include", w)
    e = sym("file")
    x = some(e)
    rem, ep, ctxs = S("remaining"), S("error_paths"), S("include_by_canonical_path")
    can = app("Path::canonicalize", e)
    c = pay(can, "Ok", "0")
    # which end of the stack of files is its top: where the end of a file resumes from
    back = any(consistent(r.guards, G_POP) and r.get("self.stacked") is app("init", S("stacked")) for r in st)
    for r in good:
        for field, cases in table(x, e, ep, ctxs, can, c, span, errors, back):
            v = r.get("self." + field)
            base = rest if field == "current_declarations" else S(field)
            fr = fold_rows(v, base, paths)
            if not ctx.ob(f"include/{field} per path", fr is not None, f"{field} is updated once for each expanded path: {str(v)[:500]}", w):
                continue
            check_table(ctx, f"include each/{field}", norm(fr, field, paths), [(n, g, {"val": o}) for n, g, o in cases], lambda q, o: q.val, w)
    # the end of a file
    hd = app("last" if back else "head", S("stacked"))
    check_table(
        ctx, "end of file", st,
        [
            ("resume", G_POP, {
                "current_path": fld(hd, "0"), "current_declarations": fld(hd, "1"), "stacked": app("init" if back else "tail", S("stacked")),
                "ret": sym("no item"), "remaining": rem, "errors": errors, "include_by_canonical_path": ctxs}),
            ("finished", G_END, {"ret": NONE, "remaining": rem, "errors": errors}),
        ],
        step_get, w,
    )
    # nothing else moves between files
    for k in PRAGMAS:
        if k != "Include":
            check_table(ctx, "frame", st, [(k.lower(), g_pragma(k), {"current_declarations": rest, **same})], step_get, w)
    check_table(ctx, "frame", st, [("directive", G_DIR, {"current_declarations": rest, **same})], step_get, w)
    initial(ctx)
    read_only(ctx)


def any_of(*ms):
    return M(" or ".join(str(m)[:80] for m in ms), lambda v, r: any(match_out(m, v, r) for m in ms))


def nofold(base, src):
    """Folding over the paths of an empty expansion changes nothing."""
    return M(f"{base} folded over nothing", lambda v, r: fold_rows(v, base, src) is not None)


def norm(rows, field, paths):
    """Name the path at hand, and replace the accumulator's own state by acc."""
    m1 = {el(paths): sym("file")}
    m2 = {S(field): mk("acc")}
    out = []
    for r in rows:
        class R:
            pass
        q = R()
        q.guards = tuple((subst(subst(g, m1), m2), p) for g, p in r.guards)
        q.val = subst(subst(r.val, m1), m2)
        out.append(q)
    return out


def table(x, e, ep, ctxs, can, c, span, errors, back):
    acc = mk("acc")
    rem = S("remaining")

    def R(field):
        return acc if field == "remaining" else rem

    def C(field):
        return acc if field == "include_by_canonical_path" else ctxs

    def fresh(f):
        return ((app("has", R(f), x), True),)

    def old(f):
        return ((app("has", R(f), x), False),)

    def okc(v=True):
        return (is_(can, "Ok"), v)

    def bad_read(f):
        return old(f) + ((app("has", ep, x), True),)

    def dup(f, *more):
        return old(f) + ((app("has", ep, x), False),) + more

    seen = lambda f: (app("has", C(f), c), True)
    ic = lambda f: ent(C(f), c)
    same_tags = lambda f: eq(fld(ic(f), "tags"), S("tags"))
    same_meta = lambda f: eq(fld(ic(f), "meta_key_values"), S("meta_key_values"))
    adds = lambda: adds_error(acc, span)
    f = "current_declarations"
    yield f, [("fresh", fresh(f), ent(rem, x)), ("not fresh", old(f), acc)]
    f = "current_path"
    yield f, [("fresh", fresh(f), x), ("not fresh", old(f), acc)]
    f = "stacked"
    top = tup(S("current_path"), S("current_declarations"))
    yield f, [
        ("fresh", fresh(f), cat(acc, one(top)) if back else cat(one(top), acc)),
        ("not fresh", old(f), acc),
    ]
    f = "remaining"
    yield f, [("fresh", fresh(f), mrem(acc, x)), ("not fresh", old(f), acc)]
    f = "include_by_canonical_path"
    yield f, [
        ("fresh", fresh(f) + (okc(),), M("the scope in force recorded under the canonical path", lambda v, r: scope_recorded(v, acc, c, span))),
        ("not fresh", old(f), acc),
    ]
    f = "errors"
    yield f, [
        ("fresh", fresh(f), acc),
        ("cannot be read", bad_read(f), adds()),
        ("repeat, never resolved", dup(f, okc(False)), adds()),
        ("repeat, not processed before", dup(f, okc(), (app("has", C(f), c), False)), adds()),
        ("repeat with other tags", dup(f, okc(), seen(f), (same_tags(f), False)), adds()),
        ("repeat with other metadata", dup(f, okc(), seen(f), (same_meta(f), False)), adds()),
    ]


def scope_recorded(v, acc, c, span):
    if v.op != "mset" or v.a[0] is not acc or v.a[1] is not c:
        return False
    t = v.a[2]
    return fld(t, "tags") is S("tags") and fld(t, "meta_key_values") is S("meta_key_values")


def initial(ctx):
    nb = ctx.p.method("PragmaProcessor", "new")
    w = ctx.at(nb)
    for r in ctx.run(nb):
        ps = [sym(p) for p in r.params]
        root, parsed, globs, errs = ps[0], ps[1], ps[2], ps[3]
        f = lambda n: fld(r.ret, n)
        cur = f("current_path")
        okp = cur is root or (cur.op == "adt" and consistent(r.guards, ((is_(root, cur.a[1]), True),)) and (cur.a[1] == "None" or pay(cur, "Some", "0") is pay(root, "Some", "0")))
        ctx.ob("new/current path is the root's", okp, str(cur)[:200], w)
        d = f("current_declarations")
        okd = d.op == "ent" and d.a[1] is cur and whole(d.a[0], parsed)
        ctx.ob("new/starts with the root's declarations", okd, str(d)[:300], w)
        rem = f("remaining")
        okr = rem.op == "mrem" and rem.a[1] is cur and whole(rem.a[0], parsed)
        ctx.ob("new/all other parsed files remain", okr, str(rem)[:300], w)
        ctx.ob("new/error paths", whole(f("error_paths"), errs), str(f("error_paths"))[:300], w)
        ctx.ob("new/expansions", f("included_globs") is globs, str(f("included_globs"))[:200], w)
        ctx.ob("new/nothing stacked", f("stacked") is EMPTY and f("include_by_canonical_path") is MEMPTY, "", w)
    # unreadable files are handed over whole
    eb = ctx.p.method("BeancountSources", "error_paths")
    for r in ctx.run(eb):
        inc = S("included_content")
        v = r.ret
        okv = False
        if v.op == "mext" and v.a[0] is MEMPTY:
            ps = parts(v.a[1])
            if len(ps) == 1 and ps[0][0] == "each" and ps[0][1] is inc:
                e = el(inc)
                bad = ((is_(fld(e, "1"), "Error"), True),)
                okv = any(
                    set(g) <= set(bad) and len(pp) == 1 and pp[0][0] == "one"
                    and fld(pp[0][1], "0") is some(fld(e, "0")) and fld(pp[0][1], "1") is pay(fld(e, "1"), "Error", "0")
                    for g, pp in ps[0][2]
                )
        ctx.ob("error paths/every unreadable file", okv, str(v)[:400], ctx.at(eb))


def whole(v, src):
    """v is the map src, rebuilt key by key with equal keys and values."""
    if v is src:
        return True
    if v.op != "mext" or v.a[0] is not MEMPTY:
        return False
    ps = parts(v.a[1])
    if len(ps) != 1 or ps[0][0] != "each" or ps[0][1] is not src:
        return len(ps) == 1 and ps[0][0] == "all" and ps[0][1] is src
    e = el(src)
    k = fld(e, "0")
    if not complete([g for g, _ in ps[0][2]]):
        return False
    for g, pp in ps[0][2]:
        if len(pp) != 1 or pp[0][0] != "one":
            return False
        nk, nv = fld(pp[0][1], "0"), fld(pp[0][1], "1")
        if nv is not fld(e, "1"):
            return False
        same_key = nk is k or (nk.op == "adt" and holds(g, is_(k, nk.a[1])) and (nk.a[1] == "None" or pay(nk, "Some", "0") is pay(k, "Some", "0")))
        if not same_key:
            return False
    return True


def read_only(ctx):
    """What the processor gets: the parse of every source and the tables of the sources."""
    pb = ctx.p.method("BeancountParser", "parse")
    rows = ctx.run(
        pb,
        opaque=("BeancountParser::parse_declarations", "PragmaProcessor::new", "PragmaProcessor::result", "BeancountSources::error_paths"),
        streams=("PragmaProcessor",),
    )
    news = {s for r in rows for t in [r.ret] for s in subterms(t) if s.op == "app" and s.a[0] == "PragmaProcessor::new"}
    ctx.ob("parse/one processor", len(news) == 1, str([str(x)[:300] for x in news]), ctx.at(pb))
    for t in news:
        a = t.a[1]
        src = fld(SELF, "sources")
        ctx.ob("parse/root path", a[0] is fld(src, "root_path"), str(a[0])[:200], ctx.at(pb))
        ctx.ob("parse/parsed declarations", a[1].op == "fld" and a[1].a[1] == "0" and "parse_declarations" in str(a[1].a[0]), str(a[1])[:200], ctx.at(pb))
        ctx.ob("parse/expansions", a[2] is fld(src, "included_globs"), str(a[2])[:200], ctx.at(pb))
        ctx.ob("parse/error paths", str(a[3]).startswith("BeancountSources::error_paths("), str(a[3])[:200], ctx.at(pb))
