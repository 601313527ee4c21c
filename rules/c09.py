"""C09: loading reads each included file once, relative to its includer, and terminates."""
from common import *
from syntax import Syntax, strip_values, apply_fn

TECHNIQUE = "dataflow transition summary of the loading loop (dataflow over every path of a turn), matched against the transitions of a work list of includes"
EXPLANATION = (
    "For each conversion which makes sources (from a path or from text), the loop which loads includes is summarised: initial state, "
    "every path of one turn with its conditions and updates, and its exits. The turn must take one pending include and expand it as a "
    "glob, recording the error or the list of all matches under that include. Each match which cannot be listed, resolved or read must be "
    "recorded as an error under its path; one whose canonical path was seen must leave what is recorded alone; otherwise the canonical path "
    "is remembered, the file is read, its text recorded under its path, and its includes, each joined to its directory, become pending. "
    "Files are read on no other path. The loop ends only when nothing is pending, and pending grows only with a file not seen before, so it "
    "terminates. The search for includes in a text accepts every include token followed by a string and yields that string. An obligation "
    "is one path of a turn in one case for one part of the state."
)
ASSUMPTIONS = [
    "the files of a ledger are finitely many and each has one canonical path (std::fs::canonicalize)",
    "Path::join, Path::parent and glob do what they document; the including directory's own name is read as part of the pattern",
    "the tokens of a text are those of C04 and C15",
]
FLOOR = 120

READS = ("File::open", "Read::read_to_string", "fs::read_to_string", "fs::read", "Read::read_to_end")


def run(ctx):
    p = ctx.p
    gi = finder(ctx)
    if gi is None:
        return
    found = 0
    for k in (("From", "from"), ("TryFrom", "try_from")):
        for b in p.trait_bodies.get(k, ()):
            if b.get("self") is None or short(p.head(b["self"])) != "BeancountSources":
                continue
            found += 1
            conversion(ctx, b, gi, k[0] == "TryFrom", p.types[b["trait_args"][1]]["s"].rsplit("::", 1)[-1])
    ctx.ob("conversions", found >= 4, f"{found} conversions into sources")
    search(ctx, gi)


def finder(ctx):
    """The function which finds the includes in a text."""
    p = ctx.p
    c = [
        b for b in p.bodies.values()
        if b["kind"] in ("Fn", "AssocFn") and b.get("ret") is not None and p.types[b["ret"]]["s"] == "std::vec::Vec<std::string::String>"
        and any(q.get("t") is not None and p.types[q["t"]]["s"] == "&str" for q in b["params"])
        and any(q.get("t") is not None and short(p.head(q["t"])) == "SourceId" for q in b["params"])
    ]
    if not ctx.ob("finder", len(c) == 1, f"functions which find the includes of a text: {[x['path'] for x in c]}"):
        return None
    return c[0]


# ---------------------------------------------------------------- conversions


def conversion(ctx, b, gi, fallible, what):
    key = f"{'try_from' if fallible else 'from'} {what}"
    at = ctx.at(b)
    rows = ctx.run(b, opaque=(gi["id"],))
    src = sym(list(rows[0].params)[0])
    good = 0
    for r in rows:
        st = status(dict(r.guards), src)
        v = r.ret
        if fallible:
            if v.op == "adt" and v.a[1] == "Err":
                ctx.ob(f"{key}/root unreadable", st["read"] == "err", f"an error although {showg(r.guards)[:300]}", at)
                continue
            if not ctx.ob(f"{key}/root read", v.op == "adt" and v.a[1] == "Ok" and st["read"] != "err", f"{str(v)[:200]} when {showg(r.guards)[:300]}", at):
                continue
            v = fld(v, "0")
        if not ctx.ob(f"{key}/sources", v.op == "adt" and short(v.a[0]) == "BeancountSources", str(v)[:200], at):
            continue
        good += 1
        text = fld(v, "root_content")
        if fallible:
            ctx.ob(f"{key}/root text", is_text(text, src), f"the root's content is {str(text)[:200]}", at)
            ctx.ob(f"{key}/root path", fld(v, "root_path") is some(src), str(fld(v, "root_path"))[:200], at)
        else:
            ctx.ob(f"{key}/root text", text is src, str(text)[:200], at)
            ctx.ob(f"{key}/root path", fld(v, "root_path") is NONE, str(fld(v, "root_path"))[:200], at)
        loop(ctx, key, r, v, text, src if fallible else None, gi, at)
    ctx.ob(f"{key}/loads", good > 0, "no path makes sources", at)
    if fallible:
        ctx.ob(f"{key}/fails", any(r.ret.op == "adt" and r.ret.a[1] == "Err" for r in rows), "an unreadable root is not an error", at)


def loop(ctx, key, r, v, text, root, gi, at):
    loops = [e[1] for e in r.eff if e[0] == "loop"]
    content, globs = fld(v, "included_content"), fld(v, "included_globs")
    loops = [l for l in loops if content in l.init and globs in l.init]
    if not ctx.ob(f"{key}/loop", len(loops) == 1, "what is included is not the result of one loop", at):
        return
    L = loops[0]
    # the work list: the loop ends only when it is empty
    pend = None
    for g, ctl in L.exits:
        a = [x for x, pol in g if not pol and x.op == "app" and x.a[0] == "nonempty" and x.a[1][0] in L.init]
        if len(a) == 1 and len(g) == 1:
            pend = a[0].a[1][0]
        else:
            ctx.ob(f"{key}/ends early", False, f"the loop ends when {showg(g)[:300]}", L.span)
    if not ctx.ob(f"{key}/work list", pend is not None and all(any(x is app("nonempty", pend) for x, _ in g) for g, _ in L.exits), "the loop does not end by running out of pending includes", L.span):
        return
    ctx.ob(f"{key}/starts empty", all(mk("mempty") is L.init[x] or str(L.init[x]) == "mempty<>" for x in (content, globs)), "something is recorded before anything is loaded", L.span)
    rid = fld(v, "root_source_id")
    pending(ctx, f"{key}/root includes", parts(L.init[pend]), text, rid, root, gi, L.span)
    strs = fld(v, "source_id_strings")
    for g, upd_, *rest in L.cont:
        turn(ctx, key, L, g, upd_, rest[0] if rest else (), pend, content, globs, strs, root, dict(r.guards), gi)
    ctx.ob(f"{key}/turns", len(L.cont) >= 2, "an include is expanded or its glob is in error", L.span)


def pending(ctx, key, ps, text, rid, path, gi, at):
    """Is the list the includes of the text, each joined to the directory of the path?"""
    if len(ps) == 1 and ps[0][0] == "all":
        ps = [("each", ps[0][1], (((), (("one", el(ps[0][1])),)),))]
    ok = len(ps) == 1 and ps[0][0] == "each"
    if ok:
        src = ps[0][1]
        ok = src.op == "app" and short(src.a[0]) == gi["name"] and set(src.a[1]) == {text, rid}
    if not ctx.ob(f"{key}/all", ok, f"the pending includes are {str(seq(ps))[:300]}", at):
        return
    e = el(src)
    dirs = None
    if path is not None:
        par = app("Path::parent", path)
        dirs = pay(par, "Some", "0")
    for g, pp in ps[0][2]:
        d = dict(g)
        if not ctx.ob(f"{key}/each", len(pp) == 1 and pp[0][0] == "one", f"not one pending include for each found: when {showg(g)[:200]} {str(seq(pp))[:200]}", at):
            continue
        t = pp[0][1]
        if path is None:
            ctx.ob(f"{key}/as written", same_path(t, e), str(t)[:200], at)
            continue
        nodir = d.get(is_(par, "None")) is True or d.get(is_(par, "Some")) is False or d.get(app("nonempty", dirs)) is False
        joined = t.op == "app" and t.a[0] == "Path::join" and t.a[1][0] is dirs and same_path(t.a[1][1], e)
        if same_path(t, e):
            ctx.ob(f"{key}/relative", nodir, f"not resolved against the including directory when {showg(g)[:300]}", at)
        else:
            ctx.ob(f"{key}/relative", joined and d.get(is_(par, "None")) is not True, f"resolved as {str(t)[:200]}", at)


def same_path(t, e):
    while t is not e and t.op == "app" and t.a[0] in ("Path::new", "PathBuf::from", "Path::to_path_buf") and len(t.a[1]) == 1:
        t = t.a[1][0]
    return t is e


# ---------------------------------------------------------------- one turn


def turn(ctx, key, L, g, upd_, eff, pend, content, globs, strs, root, rg, gi):
    at = L.span
    d = dict(g)
    nxt = lambda v: upd_.get(v, v)
    if not ctx.ob(f"{key}/turn needs an include", d.get(app("nonempty", pend)) is True, showg(g)[:200], at):
        return
    head, rest = app("head", pend), app("tail", pend)
    if not mentions(nxt(pend), rest):
        head, rest = app("last", pend), app("init", pend)
    gl = {s for a, _ in g for s in subterms(a) if s.op == "app" and s.a[0] in ("glob::glob_with", "glob::glob")}
    pat = next(iter(gl)).a[1][0] if len(gl) == 1 else None
    okp = pat is not None and any(pat is app(f, head) for f in ("Path::to_string_lossy",)) or pat is not None and pat is pay(app("Path::to_str", head), "Some", "0")
    if not ctx.ob(f"{key}/expanded", len(gl) == 1 and okp, f"the include expanded is {str(pat)[:200]}", at):
        return
    G = next(iter(gl))
    if d.get(is_(G, "Err")) is True or d.get(is_(G, "Ok")) is False:
        n = nxt(globs)
        okv = n.op == "mset" and n.a[0] is globs and n.a[1] is head and n.a[2].op == "adt" and n.a[2].a[1] == "Error"
        ctx.ob(f"{key}/bad glob recorded", okv, f"a glob which cannot be expanded: {str(n)[:200]}", at)
        ctx.ob(f"{key}/bad glob taken", nxt(pend) is rest, f"pending becomes {str(nxt(pend))[:200]}", at)
        for x in (content, strs):
            ctx.ob(f"{key}/bad glob otherwise", nxt(x) is x, f"{str(nxt(x))[:200]}", at)
        return
    src = pay(G, "Ok", "0")
    I = el(src)
    n = nxt(globs)
    okv = n.op == "mset" and n.a[0] is globs and n.a[1] is head and n.a[2].op == "adt" and n.a[2].a[1] == "Expanded"
    if ctx.ob(f"{key}/expansion recorded", okv, f"the matches of a glob: {str(n)[:200]}", at):
        expansion(ctx, key, fld(n.a[2], "0"), src, I, at)
    canon = None
    tables = {}
    for name, var, base in (("content", content, content), ("pending", pend, rest), ("ids", strs, strs)):
        fr = fold_rows(nxt(var), base, src)
        if not ctx.ob(f"{key}/{name} per match", fr is not None, f"not updated once per match: {str(nxt(var))[:300]}", at):
            return
        tables[name] = (fr, var)
    # the set of canonical paths seen
    path = pay(I, "Ok", "0")
    cans = {s for fr, _ in tables.values() for r in fr for a, _ in r.guards for s in subterms(a) if s.op == "app" and s.a[0] in ("Path::canonicalize", "fs::canonicalize") and s.a[1] == (path,)}
    if not ctx.ob(f"{key}/canonical", len(cans) == 1, "matches are not told apart by canonical path", at):
        return
    C = next(iter(cans))
    cp = pay(C, "Ok", "0")
    seen = [v for v in L.init if v not in (content, globs, pend, strs) and any(a.op == "app" and a.a[0] == "has" and a.a[1][1] is cp and lv_name(a.a[1][0]) == lv_name(v) for fr, _ in tables.values() for r in fr for a, _ in r.guards)]
    if not ctx.ob(f"{key}/seen", len(seen) == 1, f"no set of files seen: {[str(x)[:60] for x in L.init]}", at):
        return
    K = seen[0]
    # the root counts as seen
    init = L.init[K]
    if root is not None:
        rc = [s for s in {x for a in rg for x in subterms(a)} if s.op == "app" and s.a[0] in ("Path::canonicalize", "fs::canonicalize") and s.a[1] == (root,)]
        if ctx.ob(f"{key}/root canonical", len(rc) == 1, "the root's canonical path is not asked for", at) and rg.get(is_(rc[0], "Ok")) is True:
            ctx.ob(f"{key}/root seen", pay(rc[0], "Ok", "0") in set(subterms(init)), f"the root is not among the files seen: {str(init)[:200]}", at)
        if rc and rg.get(is_(rc[0], "Ok")) is not True:
            ctx.ob(f"{key}/root seen", str(init) == "mempty<>", str(init)[:200], at)
    else:
        ctx.ob(f"{key}/nothing seen", str(init) == "mempty<>", str(init)[:200], at)
    fr = fold_rows(nxt(K), K, src)
    if not ctx.ob(f"{key}/seen per match", fr is not None, f"not updated once per match: {str(nxt(K))[:300]}", at):
        return
    tables["seen"] = (fr, K)
    ctx.ob(f"{key}/other state", True)
    for name, (fr, var) in tables.items():
        hit = set()
        for r in fr:
            rowcase(ctx, key, name, r, var, tables, C, cp, I, path, gi, at, hit)
        ctx.ob(f"{key}/{name} cases", name != "content" or hit >= {"unlisted", "unresolved", "duplicate", "unread", "read"}, f"cases not found: {sorted({'unlisted', 'unresolved', 'duplicate', 'unread', 'read'} - hit)}", at)
    reads(ctx, key, eff, src, K, cp, path, at)


def lv_name(t):
    return t.a[1] if t.op == "lv" else None


def expansion(ctx, key, t, src, I, at):
    fr = fold_rows(t, EMPTY, src) if t is not EMPTY else None
    if fr is None and t.op == "seq":
        ps = parts(t)
        if len(ps) == 1 and ps[0][0] == "each" and ps[0][1] is src:
            class R:
                pass
            fr = []
            for g, pp in ps[0][2]:
                r = R()
                r.guards, r.val = g, cat(mk("acc"), seq(pp))
                fr.append(r)
    if not ctx.ob(f"{key}/every match", fr is not None, f"the matches recorded are {str(t)[:300]}", at):
        return
    for r in fr:
        d = dict(r.guards)
        good = is_item(d, I)
        a = appended(r.val, mk("acc"))
        okv = a is not None and len(a) == 1 and a[0][0] == "one" and (a[0][1] is pay(I, "Ok", "0") if good == "ok" else good == "err" and a[0][1] is app("GlobError::path", pay(I, "Err", "0")))
        ctx.ob(f"{key}/every match in order", okv, f"when {showg(r.guards)[:200]}: {str(r.val)[:200]}", at)


def is_item(d, x):
    if d.get(is_(x, "Ok")) is True or d.get(is_(x, "Err")) is False:
        return "ok"
    if d.get(is_(x, "Err")) is True or d.get(is_(x, "Ok")) is False:
        return "err"
    return None


def status(d, path):
    """Whether reading the path succeeded, as far as the conditions tell."""
    st = None
    reads = 0
    for a, pol in d.items():
        if a.op != "is":
            continue
        t, v = a.a[0], a.a[1]
        if not (t.op == "app" and t.a[0] in READS and (t.a[1][0] is path or path in set(subterms(t)))):
            continue
        okp = (v == "Ok") == pol
        if not okp:
            return {"read": "err"}
        if t.a[0] != "File::open":
            st = "ok"
    return {"read": st}


def is_text(t, path):
    """Is it the whole content of the file?"""
    if t.op == "app" and t.a[0].startswith("after:Read::read_to_string#1"):
        a = t.a[1]
        f = a[0]
        while f.op == "app" and f.a[0] in ("BufReader::new", "Read::by_ref") and f.a[1]:
            f = f.a[1][0]
        return f is pay(app("File::open", path), "Ok", "0") and a[1] is EMPTY
    return any(t is pay(app(n, path), "Ok", "0") for n in ("fs::read_to_string", "io::read_to_string"))


def rowcase(ctx, key, name, r, var, tables, C, cp, I, path, gi, at, hit):
    acc = mk("acc")
    names = {lv_name(v): n for n, (_, v) in tables.items()}
    d = dict(r.guards)
    item, can = is_item(d, I), is_item(d, C)
    seen = None
    present = None
    for a, pol in d.items():
        if a.op == "app" and a.a[0] == "has":
            who = name if a.a[1][0] is acc else names.get(lv_name(a.a[1][0]))
            if who == "seen" and a.a[1][1] is cp:
                seen = pol
            if who == "content" and a.a[1][1] is path:
                present = pol
    read = status(d, path)["read"]
    cases = []
    for cn, ci, cc, cs, cr in (
        ("unlisted", "err", None, None, None),
        ("unresolved", "ok", "err", None, None),
        ("duplicate", "ok", "ok", True, None),
        ("unread", "ok", "ok", False, "err"),
        ("read", "ok", "ok", False, "ok"),
    ):
        if item not in (None, ci) or (ci == "ok" and can not in (None, cc)) or (cc == "ok" and seen not in (None, cs)) or (cs is False and read not in (None, cr)):
            continue
        if ci == "err" and (can is not None or read is not None):
            continue
        cases.append(cn)
    v = r.val
    for cn in cases:
        hit.add(cn)
        if hasattr(ctx, "visit"):
            ctx.visit(name, cn, v, acc, path, names, at)
        what, okv = expected(name, cn, v, acc, path, I, cp, present, tables, names, gi)
        ctx.ob(f"{key}/{cn}/{name}", okv, f"when {showg(r.guards)[-400:]}: {name} becomes {str(v)[:300]}, but {what}", at)


def expected(name, cn, v, acc, path, I, cp, present, tables, names, gi):
    def sets(k, variant):
        return v.op == "mset" and v.a[0] is acc and v.a[1] is k and v.a[2].op == "adt" and v.a[2].a[1] == variant

    if name == "content":
        if cn == "unlisted":
            return "it must record the error under the path", sets(app("GlobError::path", pay(I, "Err", "0")), "Error")
        if cn in ("unresolved", "unread"):
            return "it must record the error under the path", sets(path, "Error")
        if cn == "duplicate":
            return "a file already seen must not change what is recorded", v is acc or (present is False and sets(path, "Duplicate"))
        okv = sets(path, "Content")
        if okv:
            okv = is_text(fld(v.a[2], "1"), path)
        return "it must record the text of the file under its path", okv
    if name == "seen":
        if cn in ("unread", "read"):
            return "the file must be remembered", v.op == "mset" and v.a[0] is acc and v.a[1] is cp
        if cn == "duplicate":
            return "nothing changes", v is acc or (v.op == "mset" and v.a[0] is acc and v.a[1] is cp)
        return "nothing is seen", v is acc
    if name == "ids":
        a = appended(v, acc)
        if cn == "read":
            return "the file needs an id of its own", a is not None and len(a) == 1
        if cn == "unread":
            return "one id at most", v is acc or (a is not None and len(a) == 1)
        return "no id is used", v is acc
    # pending
    if cn != "read":
        return "nothing becomes pending", v is acc
    a = appended(v, acc)
    if a is None or len(a) != 1 or a[0][0] not in ("each", "all"):
        return "its includes become pending", False

    class Quiet:
        bad = False

        def ob(self, k, ok, *_):
            self.bad = self.bad or not ok
            return ok

    q = Quiet()
    src = a[0][1]
    args = src.a[1] if src.op == "app" else ()
    text = next((x for x in args if is_text(x, path)), None)
    rid = next((x for x in args if x is not text), None)
    # the id is the number of ids before
    own = rid is not None and any(s.op == "app" and s.a[0] == "len" and names.get(lv_name(s.a[1][0])) == "ids" for s in subterms(rid))
    pending(q, "", a, text, rid, path, gi, "")
    return "its includes, joined to its directory, become pending", text is not None and own and not q.bad


def reads(ctx, key, eff, src, K, cp, path, at):
    """Files are read only when not seen before."""
    n = 0

    def visit(e, g):
        nonlocal n
        if e[0] == "call" and e[1] in READS:
            n += 1
            d = dict(g)
            okv = any(a.op == "app" and a.a[0] == "has" and a.a[1][1] is cp and not pol for a, pol in d.items())
            okp = any(x is path for t in e[2] for x in subterms(t))
            ctx.ob(f"{key}/read once", okv and okp, f"{e[1]} of {str(e[2])[:200]} when {showg(g)[:300]}", e[3] if len(e) > 3 else at)
        elif e[0] == "foreach":
            for row in e[2]:
                gg, ee = row[0], row[1]
                for x in ee:
                    visit(x, tuple(g) + tuple(gg))
        elif e[0] == "loop":
            ctx.ob(f"{key}/read once", False, "a further loop within the turn", at)

    for e in eff:
        visit(e, ())
    ctx.ob(f"{key}/files read", n > 0, "no file is read", at)


# ---------------------------------------------------------------- finding the includes in a text


def search(ctx, gi):
    p = ctx.p
    at = ctx.at(gi)
    rows = ctx.run(gi, opaque=tuple(b["id"] for b in p.bodies.values() if b["name"] in ("lex_with_source", "end_of_input") and b["kind"] == "Fn"))
    sx = Syntax(ctx)
    n = 0
    for r in rows:
        for s in subterms(r.ret):
            if s.op == "app" and s.a[0] == "Parser::parse_with_state":
                n += 1
                grammar(ctx, sx, sx.g.node(s.a[1][0]), at)
        o = [s for s in subterms(r.ret) if s.op == "app" and short(s.a[0]) == "into_output"]
        ctx.ob("search/result", bool(o) and (r.ret is EMPTY or any(r.ret is pay(x, "Some", "0") for x in o)) or r.ret is EMPTY, str(r.ret)[:200], at)
    ctx.ob("search/parses", n > 0, f"no parser is applied to the tokens: {[str(r.ret)[:200] for r in rows]}", at)


def grammar(ctx, sx, n, at):
    outer = []
    x = n
    while x.kind in ("same", "collect", "fn"):
        if x.kind == "fn":
            outer.append(x)
        x = x.kids[0]
    ok = x.kind == "rep" and not x.lo and x.hi is None and strip_same(x.kids[0]).kind == "alt"
    if not ctx.ob("search/every token", ok, f"not a repetition over every token: {x.kind}", at):
        return
    alts = strip_same(x.kids[0]).kids
    toks = [flat(strip_values(a)) for a in alts]
    ctx.ob("search/include first", toks[:1] == [["Include", "StringLiteral"]], f"alternatives {[t if t is None or len(t) < 5 else 'any' for t in toks]}", at)
    last = strip_values(alts[-1])
    ctx.ob("search/skips anything else", len(alts) == 2 and last.kind == "tok" and {c for c, f in last.alts} == set(sx.g.tokens), "a token may stop the search", at)
    if toks[:1] != [["Include", "StringLiteral"]] or len(alts) != 2:
        return
    # the values: an include's string, and nothing for anything else
    ev = sx.g.ev
    S0 = sym("string")
    va = chain_value(ev, alts[0], S0)
    vb = chain_value(ev, alts[1], sym("token"))
    ctx.ob("search/string kept", [v for _, v in va] == [some(S0)], f"{[str(v)[:100] for _, v in va]}", at)
    ctx.ob("search/nothing else kept", [v for _, v in vb] == [NONE], f"{[str(v)[:100] for _, v in vb]}", at)
    res = [((), sym("found"))]
    for f in reversed(outer):
        res = [(g, v2) for g, v in res for g2, v2, *_ in apply_fn(ev, f, v, sym("span"))]
    src = sym("found")
    for _, v in res:
        ps = parts(v)
        okv = v is src
        if len(ps) == 1 and ps[0][0] == "each" and ps[0][1] is src:
            e = el(src)
            okv = True
            for g, pp in ps[0][2]:
                it = dict(g)
                some_ = it.get(is_(e, "Some")) is True or it.get(is_(e, "None")) is False
                want = [("one", pay(e, "Some", "0"))] if some_ else []
                okv = okv and list(pp) == want
        ctx.ob("search/all strings", okv, str(v)[:300], at)


def strip_same(n):
    while n.kind in ("same",):
        n = n.kids[0]
    return n


def flat(n):
    n = strip_values(n)
    if n.kind == "tok":
        return [c for c, _ in n.alts] if len(n.alts) == 1 else None
    if n.kind == "seq":
        out = []
        for k in n.kids:
            f = flat(k)
            if f is None:
                return None
            out += f
        return out
    return None


def chain_value(ev, n, v):
    """The value of an alternative for the string (or token) it accepts."""
    fs = []
    while n.kind in ("same", "collect", "fn"):
        if n.kind == "fn":
            fs.append(n)
        n = n.kids[0]
    if n.kind == "seq":
        # the string's own conversions only warn (C03)
        if n.val != 1:
            return [((), tup(sym("include"), v))]
    res = [((), v)]
    for f in reversed(fs):
        res = [(g, v2) for g, x in res for g2, v2, *_ in apply_fn(ev, f, x, sym("span"))]
    return res
