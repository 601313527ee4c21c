"""C05: directives come out in date order, opens then balances first, stably."""
from common import *

EXPLANATION = (
    "Dataflow over the type-checked program: the value of ParseSuccess.directives is followed from the processor's "
    "items through the sort. Rules: the sort consumes every item once; on every path the item is appended to the "
    "bucket of its own key and no other bucket changes; the key is (date, rank) with rank Open < Balance < all other "
    "variants, by every path of the key function; the sorted iterator yields the buckets in increasing key order and "
    "each bucket first to last, losing none. A stable standard-library sort by the same key is accepted too."
)
ASSUMPTIONS = ["BTreeMap iterates in key order, tuples compare lexicographically, time::Date orders by date, slice::sort_by_key is stable"]
FLOOR = 20

OPQ = ("BeancountParser::parse_declarations", "PragmaProcessor::new", "PragmaProcessor::result", "BeancountSources::error_paths")


def run(ctx):
    b = ctx.p.method("BeancountParser", "parse")
    rows = ctx.run(b, opaque=OPQ, streams=("PragmaProcessor",))
    w = ctx.at(b)
    n = 0
    for r in rows:
        if r.ret.op == "adt" and r.ret.a[1] == "Ok":
            n += 1
            check_sorted(ctx, b, fld(pay(r.ret, "Ok", "0"), "directives"), w)
    ctx.ob("success paths", n >= 1, f"{n} success paths", w)


def check_sorted(ctx, b, v, w):
    src = None
    for s in subterms(v):
        if s.op == "app" and s.a[0] == "items" and s.a[1][0].op == "app" and s.a[1][0].a[0] == "PragmaProcessor::new":
            src = s
    if not ctx.ob("source", src is not None, f"directives do not come from the processor: {str(v)[:300]}", w):
        return
    x = el(src)
    if v.op == "app" and v.a[0] in ("sort_by_key", "sort_by_cached_key") and v.a[1][0] is src:
        ev = Ev(ctx.p)
        keys = ev.apply_value(v.a[1][1], [x])
        check_key(ctx, [(g, k) for g, k in keys], x, w)
        return
    if v.op == "app" and v.a[0] == "items" and v.a[1][0].op == "adt":
        so = v.a[1][0]
        f = dict(so.a[2])
        m = f.get("tail_buckets")
        h = f.get("head_bucket")
        if m is MEMPTY and h is not None and h.op == "adt" and h.a[1] == "Some" and fld(h, "0").op == "app":
            # one bucket, sorted by the library
            check_sorted(ctx, b, fld(h, "0"), w)
            check_next(ctx, so.a[0])
            return
        ctx.ob("no item bypasses the buckets", f.get("head_bucket") is NONE, str(f.get("head_bucket")), w)
        okf = m is not None and m.op == "fold" and m.a[0] is MEMPTY and m.a[1] is src
        if not ctx.ob("every item goes through the buckets", okf, f"{str(m)[:400]}", w):
            return
        acc = mk("acc")
        keys = []
        for g, t in m.a[2]:
            okt = t.op == "mset" and t.a[0] is acc
            if not ctx.ob("one bucket changes per item", okt, f"when {showg(g)[-300:]}: {str(t)[:300]}", w):
                continue
            k, val = t.a[1], t.a[2]
            h = app("has", acc, k)
            if holds(g, h, True):
                ctx.ob("append to an existing bucket", val is cat(ent(acc, k), one(x)), f"bucket becomes {str(val)[-300:]}", w)
            else:
                ctx.ob("start a bucket", holds(g, h, False) and val is one(x), f"bucket becomes {str(val)[-300:]}", w)
            keys.append((tuple((c, p) for c, p in g if c is not h), k))
        check_key(ctx, keys, x, w)
        check_next(ctx, so.a[0])
        return
    ctx.ob("recognised sort", False, f"directives are {str(v)[:500]}", w)


def check_key(ctx, keys, x, w):
    date = fld(fld(fld(x, "item"), "date"), "item")
    variant = [fld(x, "variant"), fld(fld(x, "item"), "variant")]
    rank = {}
    for g, k in keys:
        okk = k.op == "tup" and len(k.a[0]) == 2 and k.a[0][0] is date and k.a[0][1].op == "lit"
        if not ctx.ob("key is date then rank", okk, f"key {str(k)[-300:]}", w):
            continue
        c = None
        no = set()
        pos = set()
        for a, p in g:
            if a.op == "is" and a.a[0] in variant:
                (pos if p else no).add(a.a[1])
            else:
                ctx.ob("rank depends on the variant only", False, f"{a}", w)
        rank.setdefault((frozenset(pos), frozenset(no)), set()).add(k.a[0][1].a[1])
    vs = ctx.p.variants
    dv = [v for n, v in vs.items() if n.endswith("DirectiveVariant")]
    if not ctx.ob("variants", len(dv) == 1, "DirectiveVariant", w):
        return
    by = {}
    for v in dv[0]:
        rs = set()
        for (pos, no), r in rank.items():
            if (not pos or v in pos) and v not in no:
                rs |= r
        ctx.ob(f"rank of {v}", len(rs) == 1, f"rank {rs}", w)
        by[v] = min(rs) if rs else None
    rest = {by[v] for v in dv[0] if v not in ("Open", "Balance")}
    ctx.ob(
        "opens, then balances, then the rest",
        len(rest) == 1 and None not in by.values() and by["Open"] < by["Balance"] < min(rest),
        f"ranks {by}", w,
    )


def check_next(ctx, adtname):
    b = ctx.p.method(short(adtname), "next", "Iterator")
    w = ctx.at(b)
    rows = ctx.run(b)
    hb, tb = S("head_bucket"), S("tail_buckets")
    cur = pay(hb, "Some", "0")
    mn = app("minkey", tb)
    nb = ent(tb, mn)
    fullbucket = (app("nonempty", nb), True)
    spec = [
        ("in a bucket", ((is_(hb, "Some"), True), (app("nonempty", cur), True)),
         {"ret": some(app("head", cur)), "bucket": app("tail", cur), "rest": tb}),
    ]
    for nm, g in (("no bucket", ((is_(hb, "None"), True),)), ("bucket done", ((is_(hb, "Some"), True), (app("nonempty", cur), False)))):
        spec.append((nm + ", more", g + ((app("nonempty", tb), True), fullbucket),
                     {"ret": some(app("head", nb)), "bucket": app("tail", nb), "rest": mrem(tb, mn)}))
        spec.append((nm + ", at end", g + ((app("nonempty", tb), False),), {"ret": NONE}))

    loops = {id(e[1]): e[1] for r in rows for e in r.eff if e[0] == "loop"}
    if loops:
        # a loop over the same state: a turn which goes on leaves a state which yields the same items
        turns = steps(rows, "self")
        ctx.ob("next/one loop", len(loops) == 1 and all(any(e[0] == "loop" for e in r.eff) for r in rows), f"{len(loops)} loops", w)
        for L in loops.values():
            for lv, v in L.init.items():
                ctx.ob("next/loop starts from the state", v is lv_to_state(lv, {"self"}), f"{lv} starts as {v}", w)
        spec = spec[:1]
        for nm, g in (("no bucket", ((is_(hb, "None"), True),)), ("bucket done", ((is_(hb, "Some"), True), (app("nonempty", cur), False)))):
            spec.append((nm + ", more", g + ((app("nonempty", tb), True),), {"ret": None, "bucket": nb, "rest": mrem(tb, mn)}))
            spec.append((nm + ", at end", g + ((app("nonempty", tb), False),), {"ret": NONE}))

        def turn(r, o):
            if o == "ret":
                return r.ret if r.kind == "return" else None
            if o == "bucket":
                return r.upd.get(cur) or pay(r.upd.get(hb, hb), "Some", "0")
            return r.upd.get(tb, tb)

        check_table(ctx, "next", turns, spec, turn, w)
        return

    def get(r, o):
        s = r.final("self")
        if o == "ret":
            return r.ret
        if o == "bucket":
            return pay(fld(s, "head_bucket"), "Some", "0")
        return fld(s, "tail_buckets")

    check_table(ctx, "next", rows, spec, get, w)
