"""The adaptors between the generated lexer and the grammar, as transducers (shared by C04, C12, C15)."""
from common import *
from machine import *
import itertools

TOKEN = None
KEYWORDS = {
    v: v.lower()
    for v in (
        "Txn Balance Open Close Commodity Pad Event Query Custom Price Note Document Pushtag Poptag Pushmeta Popmeta "
        "Option Options Plugin Include"
    ).split()
}
PAYLOAD = "Currency DedicatedFlag Date Time Account StringLiteral Number Tag Link Key Error".split()
EOLS = ("Eol", "EolThenIndent", "EolComment")

_fresh = itertools.count(1)


def tok(v, *pl):
    return adt(TOKEN, v, {str(i): x for i, x in enumerate(pl)})


class Item:
    """An input item: kind (None for any other token), token term and position."""

    def __init__(self, kind, plain=True):
        n = next(_fresh)
        self.n, self.kind = n, kind
        self.t = sym(f"other#{n}") if kind is None else tok(kind, *([sym(f"value#{n}")] if kind in PAYLOAD else []))
        self.s, self.e = sym(f"s#{n}"), sym(f"e#{n}")
        self.span = rng(self.s, self.e)
        self.term = tup(self.t, self.span)

    def __repr__(self):
        return f"{self.kind or 'other'}#{self.n}"


class Spec:
    def copy(self):
        c = object.__new__(type(self))
        c.__dict__ = {k: (list(v) if isinstance(v, list) else v) for k, v in self.__dict__.items()}
        return c

    def show(self):
        return repr(sorted(self.__dict__.items()))

    # outputs are (kind, token matcher, span matcher, description)
    def take(self, ret):
        if ret is NONE:
            if self.queue:
                raise Mismatch("loss", f"the stream ends although {self.queue[0]} is still to come")
            if not self.ended:
                raise Mismatch("loss", "the stream ends before its input")
            return False
        if ret.op != "adt" or ret.a[1] != "Some":
            raise Mismatch("loss", f"result not understood: {str(ret)[:300]}")
        t, span = fld(fld(ret, "0"), "0"), fld(fld(ret, "0"), "1")
        while self.queue and self.queue[0].optional and not self.queue[0].matches(t):
            self.queue.pop(0)
        if not self.queue:
            raise Mismatch("extra", f"emits {str(t)[:100]} at {str(span)[:100]}, which nothing in the input calls for")
        w = self.queue.pop(0)
        if not w.matches(t):
            raise Mismatch(w.cat, f"emits {str(t)[:100]} where {w} is due")
        if not w.spanned(span):
            raise Mismatch("span", f"{w} is given the position {str(span)[:160]}")
        return True


class Want:
    def __init__(self, t, spans, what, optional=False, cat="token"):
        self.t, self.spans, self.what, self.optional, self.cat = t, spans, what, optional, cat

    def matches(self, t):
        return t is self.t

    def spanned(self, span):
        return self.spans(fld(span, "start"), fld(span, "end"))

    def __repr__(self):
        return self.what


def exact(item):
    return lambda s, e: s is item.s and e is item.e


def same(item):
    return Want(item.t, exact(item), f"{item}")


def opt_queue_ok(q):
    return [w for w in q if not w.optional]


# ---------------------------------------------------------------- ends of line and indents


class EolSpec(Spec):
    def __init__(self, final):
        self.phase, self.run, self.queue, self.ended, self.any, self.final = "init", [], [], False, False, final

    def put(self, w):
        self.queue.append(w)
        self.any = True

    def emit_run(self, last_line=False):
        run = list(self.run)
        starts = {i.s for i in run}
        edges = starts | {i.e for i in run if i.kind != "EolComment"}  # a comment is not part of what precedes it
        last = run[-1]
        self.put(Want(tok("Eol"), lambda s, e: s in starts and e in edges, f"the end of line for {run}"))
        if last.kind == "EolThenIndent" and not last_line:
            self.put(Want(tok("Indent"), lambda s, e: e is last.e and is_pred(s, e), f"the indent ending {last}"))
        self.run = []

    def feed(self, it):
        ph = self.phase
        if it is None:
            self.ended = True
            if ph == "eols":
                # a line of nothing is not indented
                self.emit_run(True)
            if self.any and self.final is not None:
                f = self.final
                self.queue.append(Want(tok("Eol"), lambda s, e: s is fld(f, "start") and e is fld(f, "end"), "a final end of line", optional=True))
            return
        eol = it.kind in EOLS
        if ph == "init":
            if it.kind == "Colon":
                self.phase = "initskip"
            elif not eol:
                self.put(same(it))
                self.phase = "line"
        elif ph == "initskip":
            if eol:
                self.phase = "init"
        elif ph == "line":
            if eol:
                self.run, self.phase = [it], "eols"
            else:
                self.put(same(it))
        elif ph == "eols":
            if eol:
                # only the outermost ends matter
                self.run = self.run[:1] + [it]
            elif it.kind == "Colon" and self.run[-1].kind == "EolThenIndent":
                self.run, self.phase = [], "skip"
            else:
                self.emit_run()
                self.put(same(it))
                self.phase = "line"
        elif ph == "skip":
            if eol:
                self.run, self.phase = [it], "eols"

    def take(self, ret):
        if ret is NONE:
            self.queue = opt_queue_ok(self.queue)
        return super().take(ret)


def is_pred(s, e):
    return s.op == "app" and "sub" in s.a[0].lower() and len(s.a[1]) == 2 and s.a[1][0] is e and s.a[1][1] is lint(1)


# ---------------------------------------------------------------- keyword before colon


class KeySpec(Spec):
    def __init__(self):
        self.pend, self.queue, self.ended = None, [], False

    def feed(self, it):
        p, self.pend = self.pend, None
        if it is None:
            self.ended = True
            if p:
                self.queue.append(same(p))
            return
        if p:
            if it.kind == "Colon":
                self.queue.append(Want(tok("Key", lstr(KEYWORDS[p.kind])), exact(p), f"the key {KEYWORDS[p.kind]}", cat="key"))
            else:
                self.queue.append(same(p))
        if it.kind in KEYWORDS:
            self.pend = it
        else:
            self.queue.append(same(it))


# ---------------------------------------------------------------- lexing a failed range again


class RecSpec(Spec):
    def __init__(self):
        self.failed, self.queue, self.ended = None, [], False


def plus(t, a, b):
    return t.op == "app" and t.a[0] == "Add" and set(t.a[1]) == {a, b}


class Results:
    def __init__(self):
        self.n = 0
        self.outs = 0
        self.bad = []
        self.info = []


def rows_of(ctx, b, opaque=()):
    return ctx.run(b, opaque=opaque)


def recursive_calls(ctx, rows):
    """Functions a path ends in calling, because they are already being evaluated."""
    out = {}
    for r in rows:
        if r.ret.op == "app" and "::" in r.ret.a[0]:
            out[r.ret.a[0]] = None
    return out


def adaptors(ctx):
    """The local iterator types between the generated lexer and its users, innermost first, with
    the constructor call that builds each."""
    p = ctx.p
    its = {}
    for b in p.bodies.values():
        if b["name"] == "next" and short(b.get("trait") or "") == "Iterator" and b.get("self") is not None:
            h = p.types[b["self"]]["h"]
            if "::lexer::" in h:
                its[short(h)] = b
    return its


def analyse(ctx):
    global TOKEN
    if hasattr(ctx, "_streams"):
        return ctx._streams
    p = ctx.p
    res = Results()
    ctx._streams = res
    TOKEN = next(h for h in p.variants if h.endswith("lexer::Token"))
    its = adaptors(ctx)
    news = tuple(
        b["id"] for b in p.bodies.values()
        if b["name"] == "new" and not b.get("trait") and b.get("self") is not None and short(p.types[b["self"]]["h"]) in its
    )
    lexb = p.one("lexer::lex")
    res.where = ctx.at(lexb)
    rows = ctx.run(lexb, opaque=news)
    res.lex = rows
    if len(rows) != 1:
        res.bad.append(("loss", f"lex has {len(rows)} paths", ""))
        return res
    t = rows[0].ret
    chain = []
    src = sym(list(rows[0].params)[0])
    while True:
        if t.op == "app" and t.a[0].endswith("::new") and t.a[0][:-5] in its:
            chain.append((t.a[0][:-5], t))
            t = next((x for x in t.a[1] if x.op in ("app", "adt") and (is_ad(x, its) or is_base(x))), None)
        elif t.op == "adt" and short(t.a[0]) in its:
            chain.append((short(t.a[0]), t))
            t = next((v for _, v in t.a[2] if is_ad(v, its) or is_base(v)), None)
        else:
            break
        if t is None:
            break
    base = t
    res.base_ok = base is not None and is_base(base) and any(s is src for s in subterms(base))
    if not res.base_ok:
        res.bad.append(("loss", f"the tokens do not come from the generated lexer on the whole text: {str(base)[:300]}", ""))
    res.chain = [n for n, _ in chain]
    roles = {}
    for n, ctor in chain:
        roles[n] = role(ctx, its[n])
    got = [roles[n] for n, _ in reversed(chain)]
    res.roles = got
    if got != ["recovery", "key", "eol"]:
        res.bad.append(("loss", f"the stages between the lexer and the grammar are {got}", ""))
        return res
    for n, ctor in reversed(chain):
        stage(ctx, res, roles[n], n, ctor, its[n], src)
    return res


def is_ad(x, its):
    return (x.op == "app" and x.a[0].endswith("::new") and x.a[0][:-5] in its) or (x.op == "adt" and short(x.a[0]) in its)


def is_base(x):
    return x.op == "app" and x.a[0] in ("Lexer::spanned", "Logos::lexer")


def role(ctx, b):
    """Which stage an adaptor is, by what its items are."""
    rows = ctx.run(b)
    names = set()
    for r in rows:
        for t in [r.ret] + [c for c, _ in r.guards]:
            for s in subterms(t):
                if s.op == "adt" and s.a[0] == TOKEN:
                    names.add(s.a[1])
    fall = any(s.op == "is" and s.a[1] == "Err" for r in rows for c, _ in r.guards for s in subterms(c))
    if fall:
        return "recovery"
    if "Key" in names:
        return "key"
    return "eol"


def stage(ctx, res, what, name, ctor, body, src):
    IN = sym("IN")
    rows = ctx.run(body, plain=True)
    functions = {}
    todo = list(recursive_calls(ctx, rows))
    while todo:
        f = todo.pop()
        if f in functions:
            continue
        # the stage's own `next`, or one of its methods
        bs = [body] if f == "Iterator::next" else find_fn(ctx, f)
        if len(bs) != 1:
            continue
        rr = ctx.run(bs[0], plain=True)
        functions[f] = row_paths(rr)
        todo += recursive_calls(ctx, rr)
    paths = row_paths(rows)
    # initial state
    if ctor.op == "adt":
        inner = next(v for _, v in ctor.a[2] if is_ad(v, adaptors(ctx)) or is_base(v))
        inits = [("state", subst(ctor, {inner: IN}))]
    else:
        nb = ctx.p.method(name, "new")
        nrows = ctx.run(nb, plain=True)
        ps = list(nrows[0].params)
        env = {}
        for q, a in zip(ps, ctor.a[1]):
            env[sym(q)] = IN if is_base(a) or is_ad(a, adaptors(ctx)) else a
        inits = [("new", nrows, env)]
    kinds = {}
    if what == "eol":
        final = None
        for s in subterms(ctor):
            if s.op == "adt" and s.a[1] == "Some":
                final = fld(s, "0")
        classes = list(EOLS) + ["Colon", None]
        spec = EolSpec(final)
        choices = simple_choices(IN, classes)
    elif what == "key":
        classes = list(KEYWORDS) + ["Colon", None]
        spec = KeySpec()
        choices = simple_choices(IN, classes)
    else:
        spec = RecSpec()
        choices = rec_choices(ctx, IN, src)
    if what in ("eol", "key"):
        classes += sorted(token_kinds(ctx, rows, functions) - set(k for k in classes if k))
    try:
        states = []
        for i in inits:
            if i[0] == "state":
                states.append((start(paths, {SELF: i[1]}), spec))
            else:
                for st, sp in construct(i[1], i[2], spec, choices):
                    states.append((start(paths, {SELF: st}), sp))
        n, outs, bad = explore(paths, functions, states, spec, choices, kinds)
        res.n += n
        res.outs += outs
        res.info.append(f"{name} ({what}): {n} configurations, {outs} emitted items compared")
        if not outs:
            res.bad.append(("loss", f"{name} emits nothing", ""))
        seen = set()
        for cat, msg, sp in bad:
            k = (what, cat, _num_free(msg))
            if k not in seen:
                seen.add(k)
                res.bad.append((cat, f"{name}: {msg}", what))
    except Stuck as e:
        res.bad.append(("stuck", f"{name}: {e}", what))


def _num_free(s):
    import re

    return re.sub(r"#\d+", "", s)


def find_fn(ctx, f):
    parts_ = f.split("::")
    return [
        b for b in ctx.p.bodies.values()
        if b["name"] == parts_[-1] and b.get("self") is not None and not b.get("trait") and short(ctx.p.types[b["self"]]["h"]) == parts_[0]
    ]


def token_kinds(ctx, rows, functions):
    """Token variants the conditions mention."""
    vs = set(ctx.p.variants[TOKEN])
    out = set()

    def scan(t):
        for s in subterms(t):
            if s.op == "is" and s.a[1] in vs:
                out.add(s.a[1])
            if s.op == "adt" and s.a[0] == TOKEN:
                out.add(s.a[1])

    def path(p):
        for c, _ in p.guards:
            scan(c)
        for L in p.loops:
            for q in cont_paths(L):
                path(q)

    for p in row_paths(rows):
        path(p)
    out -= {"Some", "None", "Ok", "Err"}
    return out


def construct(rows, env, spec, choices):
    """Run a constructor, which may consume input."""
    seen, todo, out = set(), [(start(row_paths(rows), env), spec)], []
    while todo:
        c, sp = todo.pop()
        k = canon(*c.key(), sp.show())
        if k in seen:
            continue
        seen.add(k)
        if len(seen) > 20000 or weight(k) > LAG:
            raise Stuck("takes in more and more before it gives out what it has to")
        try:
            r = step(c, {})
        except Need as n:
            for t, sp2 in choices(n.stream, sp):
                todo.append((c.subst({n.stream: t}), sp2))
            continue
        if r[0] == "go":
            todo.append((r[1], sp))
        else:
            out.append((r[2](r[1].ret), sp))
    return out


def simple_choices(IN, classes):
    def f(stream, sp):
        if stream is not IN:
            raise Stuck(f"reads from {str(stream)[:200]}")
        out = []
        for k in classes + ["end"]:
            s2 = sp.copy()
            if k == "end":
                s2.feed(None)
                out.append((EMPTY, s2))
            else:
                it = Item(k)
                s2.feed(it)
                out.append((mk("seq", (("one", it.term), ("all", IN))), s2))
        return out

    return f


def rec_choices(ctx, IN, src):
    R = sym("REC")
    rt = next((h for h in ctx.p.variants if h.endswith("::RecoveryToken")), None)

    def f(stream, sp):
        out = []
        if stream is IN:
            # a good token
            it = Item(None)
            s2 = sp.copy()
            if sp.failed is not None:
                raise_later(s2, "the tokens of a failed range are not all used")
            s2.queue.append(same(it))
            out.append((mk("seq", (("one", tup(ok(it.t), it.span)), ("all", IN))), s2))
            # a failed range
            it = Item(None)
            s2 = sp.copy()
            if sp.failed is not None:
                raise_later(s2, "the tokens of a failed range are not all used")
            s2.failed = (it, False)
            out.append((mk("seq", (("one", tup(err(sym(f"e#{it.n}")), it.span)), ("all", IN))), s2))
            s2 = sp.copy()
            if sp.failed is not None:
                raise_later(s2, "the tokens of a failed range are not all used")
            s2.ended = True
            out.append((EMPTY, s2))
            return out
        if sp.failed is None:
            raise Stuck(f"reads from {str(stream)[:200]}")
        it, begun = sp.failed
        if not begun:
            if not relex(stream, it, src):
                raise Stuck(f"a failed range is lexed again from {str(stream)[:300]}, not from its own text")
        elif stream is not R:
            raise Stuck(f"reads from {str(stream)[:200]}")
        for v in list(ctx.p.variants[rt]) + ["Err", "end"]:
            s2 = sp.copy()
            if v == "end":
                s2.failed = None
                out.append((EMPTY, s2))
                continue
            n = next(_fresh)
            s2.failed = (it, True)
            s, e = sym(f"s#{n}"), sym(f"e#{n}")
            pl = [sym(f"value#{n}")] if v in ("Date", "Number") else []
            val = err(sym(f"error#{n}")) if v == "Err" else ok(adt(rt, v, {str(i): x for i, x in enumerate(pl)}))
            want = tok("Error", sym(f"error#{n}")) if v == "Err" else tok(v, *pl)
            sp_ok = lambda a, b, s=s, e=e: plus(a, s, it.s) and plus(b, e, it.s)
            s2.queue.append(Want(want, sp_ok, f"{v} of a range lexed again"))
            out.append((mk("seq", (("one", tup(val, rng(s, e))), ("all", R))), s2))
        return out

    return f


class Doom(Want):
    def __init__(self, msg):
        super().__init__(None, None, msg)

    def matches(self, t):
        raise Mismatch("loss", self.what)


def raise_later(sp, msg):
    sp.queue.append(Doom(msg))


def relex(stream, it, src):
    """Is the stream the lexing of the text of the failed item?"""
    for s in subterms(stream):
        if s.op == "app" and s.a[0] == "index" and s.a[1][0] is src:
            r = s.a[1][1]
            return fld(r, "start") is it.s and fld(r, "end") is it.e
    return False


def report(ctx, cats, key="tokens"):
    """The findings of some categories as obligations."""
    res = analyse(ctx)
    mine = [b for b in res.bad if b[0] in cats or b[0] == "stuck"]
    for cat, msg, what in mine:
        ctx.ob(f"{key}/{what or 'stream'}/{cat}", False, msg, res.where)
    if not mine:
        for s in res.info:
            ctx.ob(f"{key}/{s.split(' ')[1]}", True, s, res.where)
    ctx.note("; ".join(res.info))
    return res
