"""C26: the stack does not grow with the length of the input."""
from common import *
from graph import *
import c15

TECHNIQUE = "recursion analysis: strongly connected components of the instantiated call graph, recursive data types, and discharge of the one bounded recursion over its path conditions"
EXPLANATION = (
    "Stack can grow with the input only through recursion: of the crate's functions, of the values they drop, clone or compare, of boxed "
    "iterators or closures chained in a loop, or of the grammar. The call graph covers every body of the crate (closures, macro and Logos "
    "expansions included) with callees as resolved by the compiler; calls on a type parameter are instantiated at the call sites which "
    "choose it. Every cycle must be over expressions only (each function takes an Expr), or be bounded: starting from any state, the "
    "feasible paths through the cycle end within two further rounds, where a lexer over the non-empty text of a lexing failure is known to "
    "yield something. No data type other than Expr contains itself, no value is a boxed iterator or function, and the grammar is recursive "
    "only in expressions. An obligation is one function, one type or one use of a recursive parser."
)
ASSUMPTIONS = [
    "a lexing failure reported by Logos has a non-empty range, and a lexer without skipped patterns yields at least one item for non-empty text",
    "functions of other crates use stack independent of the length of their input, except recursive parsers of chumsky, and call back only what they are passed",
]
FLOOR = 900

BOXED = re.compile(r"\bdyn (?!std::fmt::|core::fmt::|std::error::|core::error::|std::any::|core::any::|chumsky::|std::io::)([\w:]+)")


class Calls(Graph):
    """The call graph with calls on type parameters moved to where the type is chosen."""

    def __init__(self, p):
        self.tp = {}
        self.soft = set()  # edges known only by the types involved
        super().__init__(p)
        # methods of type parameters a generic function may call, itself or through its callees
        tp = {k: set(v) for k, v in self.tp.items()}
        ch = True
        while ch:
            ch = False
            for a, ts in self.edges.items():
                for t in ts:
                    if tp.get(t) and not tp[t] <= tp.setdefault(a, set()):
                        tp[a] |= tp[t]
                        ch = True
        for b in p.bodies.values():
            for n in exprs(b["body"]):
                fn = n.get("fn")
                if n["k"] not in ("Call", "Fn", "Const") or not fn:
                    continue
                for t in self.targets(fn):
                    if not tp.get(t):
                        continue
                    heads = set()
                    for x in self.own_targs(fn):
                        self.heads(x, heads)
                    for k in tp[t]:
                        for c in p.trait_bodies.get(k, ()):
                            if c.get("self") is not None and p.head(c["self"]) in heads:
                                self.edges[b["id"]].setdefault(c["id"], n)
                                self.soft.add((b["id"], c["id"]))
        self.rev = {}
        for a, ts in self.edges.items():
            for t in ts:
                self.rev.setdefault(t, set()).add(a)

    def own_targs(self, fn):
        return list((fn.get("res") or {}).get("targs") or fn.get("targs") or ())

    def param(self, t):
        """Is the type a type parameter, or a reference to one?"""
        x = self.p.types[t]
        while x["h"] in ("&", "&mut") and x["a"]:
            x = self.p.types[x["a"][0]]
        s = x["s"]
        return not x["a"] and (re.fullmatch(r"[A-Z][A-Za-z0-9]{0,2}|Self", s) is not None or s.startswith("impl "))

    def scan(self, b):
        self.at = b["id"]
        super().scan(b)

    def targets(self, fn):
        r = fn.get("res")
        if r and r.get("local"):
            return [r["id"]] if r["id"] in self.p.bodies else []
        if r:
            return []
        if fn.get("trait"):
            k = (short(fn["trait"]), short(fn["path"]))
            if fn.get("targs") and self.param(fn["targs"][0]):
                self.tp.setdefault(self.at, set()).add(k)
                # a provided method of a local trait is itself a body
                return [fn["id"]] if fn["local"] and fn["id"] in self.p.bodies else []
            if fn["local"] and fn["id"] in self.p.bodies:
                return [fn["id"]]
            if fn["local"]:
                ts = [b["id"] for b in self.p.trait_bodies.get(k, ())]
                self.soft |= {(self.at, t) for t in ts}
                return ts
            return []
        if fn["local"] and fn["id"] in self.p.bodies:
            return [fn["id"]]
        return []

    def indirect(self, fn):
        ts = self.callbacks(fn)
        self.soft |= {(self.at, t) for t in ts}
        return ts

    def callbacks(self, fn):
        name = short(fn["path"])
        k = self.CALLBACK.get(name)
        ts = list(fn.get("targs") or ())
        if k and any(self.param(t) for t in ts):
            self.tp.setdefault(self.at, set()).add(k)
        if name in ("into", "try_into", "parse", "from", "try_from") and len(ts) >= 2:
            want = ts[1] if name in ("into", "try_into", "parse") else ts[0]
            src = ts[0] if name in ("into", "try_into") else ts[1] if name in ("from", "try_from") else None
            if k is None:
                return []
            out = []
            for b in self.p.trait_bodies.get(k, ()):
                if b.get("self") is None or self.p.head(b["self"]) != self.p.head(want):
                    continue
                a = b.get("trait_args") or []
                if src is not None and len(a) > 1 and not self.p.unify(a[1], src) and not self.param(a[1]) and not self.param(src):
                    continue
                out.append(b["id"])
            return out
        return super().indirect(fn)


def expr_type(p, t, depth=0):
    x = p.types[t]
    if short(x["h"]) == "Expr":
        return True
    return depth < 4 and x["h"] in ("&", "&mut", "Box", "std::boxed::Box") or short(x["h"]) == "Box" and any(expr_type(p, a, depth + 1) for a in x["a"] or ())


def takes_expr(p, g, b):
    o = g.owner(b["id"])
    return any(prm.get("t") is not None and mentions(p, prm["t"], "Expr", 3) for prm in o["params"]) or (o.get("self") is not None and short(p.head(o["self"])) == "Expr")


def mentions(p, t, name, depth):
    x = p.types[t]
    if short(x["h"]) == name:
        return True
    return depth > 0 and any(mentions(p, a, name, depth - 1) for a in x["a"] or ())


def run(ctx):
    p = ctx.p
    g = Calls(p)
    inscc = {}
    for s in g.sccs():
        for x in s:
            inscc[x] = s
    done = {}
    for b in p.bodies.values():
        s = inscc.get(b["id"])
        key = "recursion/" + (b["path"].split("beancount_parser_lima::", 1)[-1] if s else "none")
        if s is None:
            ctx.ob(key, True, "", ctx.at(b))
            continue
        t = tuple(s)
        if t not in done:
            done[t] = judge(ctx, g, s)
        ctx.ob(key, done[t] is None, f"part of a cycle of calls not bounded independently of the input: {done[t]}", ctx.at(b))
    types(ctx)
    boxed(ctx)
    grammar(ctx, g)


def judge(ctx, g, s):
    p = ctx.p
    if all(takes_expr(p, g, p.bodies[x]) for x in s):
        return None
    names = " -> ".join(p.bodies[x]["path"].split("::", 1)[-1] for x in s)
    fns = [x for x in s if p.bodies[x]["kind"] != "Closure"]
    if any((x, y) in g.soft for x in s for y in g.edges[x] if y in s) or len(fns) != len(s):
        return names
    for r in fns:
        try:
            if bounded(ctx, r, set(fns), None, 0):
                return None
        except (TooComplex, AssertionError, KeyError, IndexError, AttributeError, RecursionError):
            continue
    return names


class Watch(Ev):
    """Evaluates with calls of one function left alone, and of others of the cycle inlined once."""

    def __init__(self, p, r, scc):
        super().__init__(p)
        self.r, self.scc = r, scc

    def call(self, st, fn, args, e, fr):
        res = fn.get("res")
        t = res["id"] if res is not None and res.get("local") else fn["id"] if res is None and fn.get("local") else None
        if t in self.scc:
            if t == self.r:
                return self.opaque_call(st, "RECURSE", args, e)
            if t in fr.stack:
                return self.opaque_call(st, "REENTER", args, e)
            return self.inline_call(st, t, args, e, fr, self.p.fname(fn))
        return super().call(st, fn, args, e, fr)


def bounded(ctx, r, scc, args, depth):
    """Do all feasible paths from the arguments end within a few more rounds?"""
    if depth > 2:
        return False
    body = ctx.p.bodies[r]
    ev = Watch(ctx.p, r, scc)
    rows = ev.run(body, args=args)
    ctx.analysed.add(body["path"])
    for row in rows:
        if any(impossible(ctx, a, v) for a, v in dict(row.guards).items()):
            continue
        calls = [e for e in row.eff if e[0] == "call" and e[1] == "RECURSE"]
        rest = [e for e in row.eff if e not in calls]
        if "REENTER" in str(row.eff) or any("RECURSE" in str(e) for e in rest if e[0] != "call"):
            return False
        if not calls and "RECURSE" in str(row.ret):
            return False
        for e in calls:
            if not bounded(ctx, r, scc, list(e[2]), depth + 1):
                return False
    return True


def impossible(ctx, a, v):
    """A lexer over the non-empty text of a failure is not empty."""
    if v or a.op != "app" or a.a[0] != "nonempty":
        return False
    return fresh(ctx, a.a[1][0])


def fresh(ctx, t):
    if not (t.op == "app" and t.a[0] == "Lexer::spanned"):
        return False
    l = t.a[1][0]
    if not (l.op == "app" and l.a[0] == "Logos::lexer" and noskip(ctx)):
        return False
    i = l.a[1][0]
    if not (i.op == "app" and i.a[0] in ("index", "slice") and len(i.a[1]) == 2):
        return False
    x = i.a[1][1]
    h = x
    if x.op == "adt" and short(str(x.a[0])) == "Range":
        st, en = fld(x, "start"), fld(x, "end")
        h = next((c for c in subterms(st) if fld(c, "start") == st and fld(c, "end") == en), None)
    # the range of the item at the head of the lexer's output
    return h is not None and any(c.op == "app" and c.a[0] == "head" and fld(c, "1") == h for c in subterms(h))


def noskip(ctx):
    if not hasattr(ctx, "_noskip"):
        ls = c15.lexers(ctx)
        ctx._noskip = bool(ls) and all(not any(l.variant is None for l in f[2].leaves) for f, voc in ls if voc is c15.RECOVERY)
    return ctx._noskip


def types(ctx):
    p = ctx.p
    adts = {a["id"]: a for a in (p.raw["adts"].values() if isinstance(p.raw["adts"], dict) else p.raw["adts"])}
    heads = {}

    def of(t, out, seen):
        if t in seen:
            return
        seen.add(t)
        x = p.types[t]
        for i in adts:
            if i == x["h"] or i.endswith("::" + x["h"]):
                out.add(i)
        for a in x["a"] or ():
            of(a, out, seen)

    for i, a in adts.items():
        out = set()
        for v in a["variants"]:
            for f in v["fs"]:
                of(f["t"], out, set())
        heads[i] = out
    for i, a in adts.items():
        if "Logos" in str(a.get("attrs")):
            pass
        seen, todo = set(), list(heads[i])
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += heads[x]
        ctx.ob(f"type/{i.split('::', 1)[-1]}", i not in seen or short(i) == "Expr", "the type contains itself, so dropping, cloning or comparing a value recurses on its size", a["s"])


def boxed(ctx):
    for t in ctx.p.types:
        m = BOXED.search(t["s"])
        if not m:
            continue
        ctx.ob(f"boxed/{m[1]}", False, f"a boxed {m[1]} may be chained in a loop: {t['s'][:120]}", "")
    ctx.ob("boxed", True)


def grammar(ctx, g):
    p = ctx.p
    n = 0
    for bid, xs in g.ext.items():
        for fn, node in xs:
            path = fn["path"]
            if "chumsky::recursive::" not in path:
                continue
            n += 1
            ts = [p.types[t] for t in fn.get("targs") or ()]
            if short(path) == "recursive":
                ok = any(short(x["h"]) == "Expr" for x in ts)
                ctx.ob("grammar/recursive", ok, "a parser of something other than an expression is recursive", f"{g.owner(bid)['path']} ({loc(node)})")
            elif short(path) in ("declare", "define"):
                ok = any(mentions(p, t, "Expr", 4) for t in fn.get("targs") or ())
                ctx.ob("grammar/recursive", ok, "a parser of something other than an expression is recursive", f"{g.owner(bid)['path']} ({loc(node)})")
    ctx.ob("grammar", True)
