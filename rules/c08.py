"""C08: pushed tags and metadata apply to exactly the directives in their scope."""
from common import *

EXPLANATION = (
    "Dataflow over the type-checked program: every path of one step of the declaration processor "
    "(PragmaProcessor's Iterator::next with all helpers inlined) is summarised as guards and updates of the "
    "pushed-tag and pushed-metadata tables, and compared with the stack discipline, case by case: push appends, pop "
    "removes the latest or reports an error, nothing else touches the tables, a directive receives exactly the pushed "
    "tags and keys it does not have with the latest value of each key, and whatever is left at the end becomes an error. "
    "An obligation is one output of one case on one path."
)
ASSUMPTIONS = [
    "HashMap/HashSet/Vec behave as documented",
    "the stack of a key that is present is not empty (established by the push cases checked here)",
]
FLOOR = 60


def by_length(g):
    """More than one in a stack: the rest of it is not empty."""
    a, p = g
    if a.op == "app" and a.a[0] == "lt" and a.a[1][0] is lint(1) and a.a[1][1].op == "app" and a.a[1][1].a[0] == "len":
        return app("nonempty", app("init", a.a[1][1].a[1][0])), p
    if a.op == "app" and a.a[0] == "eq" and lint(1) in a.a[1] and p:
        for x in a.a[1]:
            if x.op == "app" and x.a[0] == "len":
                return app("nonempty", app("init", x.a[1][0])), False
    return g


def run(ctx):
    b, st = processor(ctx)
    for r in st:
        r.guards = tuple(by_length(g) for g in r.guards)
    w = ctx.at(b)
    tags, meta, errors = S("tags"), S("meta_key_values"), S("errors")
    t = arg("Pushtag")
    pt = arg("Poptag")
    pm = arg("Pushmeta")
    ppm = arg("Popmeta")
    has = lambda m, k: app("has", m, k)
    frame_t = {"meta_key_values": meta}
    frame_m = {"tags": tags}
    mval = tup(fld(fld(pm, "key"), "span"), fld(pm, "value"))
    mk_ = fld(pm, "key")
    spec = [
        ("pushtag again", g_pragma("Pushtag") + ((has(tags, t), True),),
         {"tags": mset(tags, t, cat(ent(tags, t), one(t))), "errors": errors, **frame_t}),
        ("pushtag first", g_pragma("Pushtag") + ((has(tags, t), False),),
         {"tags": mset(tags, t, EMPTY), "errors": errors, **frame_t}),
        ("poptag of several", g_pragma("Poptag") + ((has(tags, pt), True), (app("nonempty", ent(tags, pt)), True)),
         {"tags": mset(tags, pt, app("init", ent(tags, pt))), "errors": errors, **frame_t}),
        ("poptag of one", g_pragma("Poptag") + ((has(tags, pt), True), (app("nonempty", ent(tags, pt)), False)),
         {"tags": mrem(tags, pt), "errors": errors, **frame_t}),
        ("poptag of none", g_pragma("Poptag") + ((has(tags, pt), False),),
         {"tags": tags, "errors": adds_error(errors, fld(pt, "span")), **frame_t}),
        ("pushmeta again", g_pragma("Pushmeta") + ((has(meta, mk_), True),),
         {"meta_key_values": mset(meta, mk_, cat(ent(meta, mk_), one(mval))), "errors": errors, **frame_m}),
        ("pushmeta first", g_pragma("Pushmeta") + ((has(meta, mk_), False),),
         {"meta_key_values": mset(meta, mk_, one(mval)), "errors": errors, **frame_m}),
        ("popmeta of several", g_pragma("Popmeta") + ((has(meta, ppm), True), (app("nonempty", ent(meta, ppm)), True),
                                                       (app("nonempty", app("init", ent(meta, ppm))), True)),
         {"meta_key_values": mset(meta, ppm, app("init", ent(meta, ppm))), "errors": errors, **frame_m}),
        ("popmeta of one", g_pragma("Popmeta") + ((has(meta, ppm), True), (app("nonempty", ent(meta, ppm)), True),
                                                   (app("nonempty", app("init", ent(meta, ppm))), False)),
         {"meta_key_values": mrem(meta, ppm), "errors": errors, **frame_m}),
        ("popmeta of none", g_pragma("Popmeta") + ((has(meta, ppm), False),),
         {"meta_key_values": meta, "errors": adds_error(errors, fld(ppm, "span")), **frame_m}),
    ]
    for k in ("Include", "Option", "Plugin"):
        spec.append((k.lower(), g_pragma(k), {"tags": tags, "meta_key_values": meta}))
    spec.append(("end of included file", G_POP, {"tags": tags, "meta_key_values": meta}))
    spec.append(("end", G_END, {"tags": tags, "meta_key_values": meta}))
    # a directive
    md = fld(DIRECTIVE, "metadata")

    def augmented(v, row):
        # Some(Spanned{item: directive with metadata})
        it = fld(pay(v, "Some", "0"), "item")
        if it.op != "with" or it.a[0] is not DIRECTIVE or len(it.a[1]) != 1:
            return False
        m = fld(it, "metadata")
        return check_augment(ctx, m, md, tags, meta, w)

    spec.append(("directive", G_DIR, {"tags": tags, "meta_key_values": meta, "errors": errors, "ret": M("the directive with pushed tags and metadata added", augmented)}))
    check_table(ctx, "step", st, spec, step_get, w)
    # initially nothing is pushed
    nb = ctx.p.method("PragmaProcessor", "new")
    for r in ctx.run(nb):
        for f in ("tags", "meta_key_values"):
            ctx.ob(f"new/{f}", fld(r.ret, f) is MEMPTY, f"{f} starts as {str(fld(r.ret, f))[:200]}", ctx.at(nb))
    # what is left pushed at the end is an error
    rb = ctx.p.method("PragmaProcessor", "result")
    for r in ctx.run(rb):
        ps = appended(fld(r.ret, "2"), errors)
        ctx.ob("result/keeps errors", ps is not None, str(fld(r.ret, "2"))[:300], ctx.at(rb))
        for f, src in (("tags", tags), ("meta_key_values", meta)):
            okv = any(
                p[0] == "each" and p[1] is src and all(any(q[0] == "one" for q in pp) and not g for g, pp in p[2])
                for p in ps or ()
            )
            ctx.ob(f"result/{f} left over", okv, f"for every entry left in {f} an error is appended: {str(fld(r.ret, '2'))[:400]}", ctx.at(rb))
            locs = [
                report_fields(q[1]) for p in ps or () if p[0] == "each" and p[1] is src for g, pp in p[2] for q in pp if q[0] == "one"
            ]
            ctx.ob(f"result/{f} span", any(d and d["span"] is fld(fld(el(src), "0"), "span") for d in locs), "the error is at the push", ctx.at(rb))
        others = fld(el(tags), "1")
        okv = any(
            p[0] == "each" and p[1] is tags and any(q[0] == "each" and q[1] is others for g, pp in p[2] for q in pp)
            for p in ps or ()
        )
        ctx.ob("result/every repeated push left over", okv, "one error per remaining push of a tag", ctx.at(rb))


def check_augment(ctx, m, md, tags, meta, w):
    if m.op != "with" or m.a[0] is not md:
        return False
    d = {k[1]: v for k, v in m.a[1]}
    ok = True
    ok &= ctx.ob("directive/only tags and key_values", set(d) <= {"tags", "key_values"}, str(sorted(d)), w)
    # tags: every pushed tag not already there
    t0 = fld(md, "tags")
    v = d.get("tags")
    okt = False
    if v is not None:
        e = fld(el(tags), "0")
        # the repeated pushes kept with a tag are equal to it, differing in location only
        okt = set_adds(v, t0, tags, e, (app("last", fld(el(tags), "1")), app("head", fld(el(tags), "1"))))
    ok &= ctx.ob("directive/pushed tags added", okt, f"metadata.tags becomes {str(v)[:600]}", w)
    k0 = fld(md, "key_values")
    v = d.get("key_values")
    okk = False
    if v is not None and v.op == "fold" and v.a[0] is k0 and v.a[1] is meta:
        key, vals = fld(el(meta), "0"), fld(el(meta), "1")
        acc = mk("acc")
        okk = True
        for g, t in v.a[2]:
            # a located key is looked up by the key alone
            g = tuple(
                (app("has", acc, key), p)
                if c.op == "app" and c.a[0] == "has" and c.a[1][0] is acc and fld(c.a[1][1], "item") is fld(key, "item")
                else (c, p)
                for c, p in g
            )
            if holds(g, app("has", acc, key), True):
                okk &= t is acc
            elif holds(g, app("nonempty", vals), False):
                pass  # not reachable: the stack of a present key is not empty
            else:
                okk &= holds(g, app("has", acc, key), False) and is_latest(t, acc, key, vals)
        okk &= any(is_latest(t, acc, key, vals) for g, t in v.a[2])
    ok &= ctx.ob("directive/pushed metadata added", okk, f"metadata.key_values becomes {str(v)[:700]}", w)
    return ok


def is_latest(t, acc, key, vals):
    """acc with key (compared by item only) set to the latest pushed value."""
    if t.op != "mset" or t.a[0] is not acc:
        return False
    k, v = t.a[1], t.a[2]
    if k is not key and fld(k, "item") is not fld(key, "item"):
        return False
    return v is fld(app("last", vals), "1")


def set_adds(v, base, src, e, equal=()):
    """v is the set base with e (or an equal element) added for every element of src (adding a
    present one is a no-op)."""
    es = (e,) + tuple(equal)
    if v.op == "fold" and v.a[0] is base and v.a[1] is src:
        acc = mk("acc")
        hs = [app("has", acc, x) for x in es]
        ok = True
        for g, t in v.a[2]:
            adds = t.op == "mset" and t.a[0] is acc and t.a[1] in es
            if any(holds(g, h, True) for h in hs):
                ok &= adds or t is acc
            else:
                ok &= adds
        return ok and any(t is not acc for g, t in v.a[2])
    if v.op == "mext" and v.a[0] is base:
        ps = parts(v.a[1])
        if len(ps) == 1 and ps[0][0] == "each" and ps[0][1] is src:
            # every case adds one element, and the cases leave none out
            return complete([g for g, _ in ps[0][2]]) and all(
                len(pp) == 1 and pp[0][0] == "one" and pp[0][1] in es + tuple(tup(x, UNIT) for x in es)
                for g, pp in ps[0][2]
            )
        if len(ps) == 1 and ps[0][0] == "all":
            return ps[0][1] is e
    return False
