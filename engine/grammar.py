"""Parser combinator values as grammars: language and output.

The functions of src/parsers.rs evaluate to one term built from chumsky's combinators. Here such a
term becomes a parsing expression grammar over token classes, with two questions answered exactly:
which token sequences it accepts (as an automaton), and which value it yields for each shape of
input it accepts.
"""
import sys

from terms import *
from ev import *


class Unsupported(Exception):
    pass


class N:
    """A grammar node."""

    n = 0

    def __init__(self, kind, kids=(), **kw):
        self.kind = kind
        self.kids = list(kids)
        self.__dict__.update(kw)
        N.n += 1
        self.id = N.n

    def __repr__(self):
        return show_node(self)


def show_node(n, d=0):
    if n.kind == "tok":
        return "/".join(sorted(c for c, _ in n.alts))
    if d > 6:
        return ".."
    k = ",".join(show_node(x, d + 1) for x in n.kids)
    return f"{n.kind}({k})"


TOKEN = "Token"


class Grammar:
    def __init__(self, prog, ev=None):
        self.p = prog
        self.ev = ev or Ev(prog)
        self.memo = {}
        cands = [k for k in prog.variants if k.endswith("lexer::Token")]
        if len(cands) != 1:
            from ir import MissingAnchor

            raise MissingAnchor("the token type lexer::Token")
        self.tokens = list(prog.variants[cands[0]])
        self.rec = {}
        self.inrec = []

    # ------------------------------------------------------------ terms to nodes

    def node(self, t):
        n = self.memo.get(t)
        if n is None:
            n = self.build(t)
            n.term = t
            self.memo[t] = n
        return n

    def build(self, t):
        if t.op == "sym" and t in self.rec:
            return N("recref", target=self.rec[t])
        if t.op == "tup":
            return N("seq", [self.node(x) for x in t.a[0]], val="tuple")
        if t.op != "app":
            raise Unsupported(f"not a parser: {str(t)[:200]}")
        f, a = t.a
        f2 = f.rsplit("::", 1)[-1]
        owner = f.rsplit("::", 2)[-2] if "::" in f else ""
        if f == "primitive::just":
            return self.just(a[0])
        if f in ("primitive::select_ref", "primitive::select"):
            return self.select(a[0])
        if f in ("primitive::any_ref", "primitive::any"):
            return N("tok", alts=[(c, None) for c in self.tokens], any=True, f=None)
        if f == "primitive::end":
            return N("end")
        if f == "primitive::empty":
            return N("seq", [], val="unit")
        if f in ("primitive::one_of", "primitive::none_of"):
            cs = self.token_set(a[0])
            if f.endswith("none_of"):
                cs = [c for c in self.tokens if c not in cs]
            return N("tok", alts=[(c, None) for c in cs], any=False, f=None)
        if f == "primitive::choice" or f == "Parser::or":
            if f == "primitive::choice":
                xs = self.elems(a[0])
            else:
                xs = a
            return N("alt", [self.node(x) for x in xs])
        if f == "primitive::group":
            return N("seq", [self.node(x) for x in self.elems(a[0])], val="tuple")
        if f == "Parser::then":
            return N("seq", [self.node(a[0]), self.node(a[1])], val="tuple")
        if f == "Parser::ignore_then":
            return N("seq", [self.node(a[0]), self.node(a[1])], val=1)
        if f == "Parser::then_ignore":
            return N("seq", [self.node(a[0]), self.node(a[1])], val=0)
        if f == "Parser::delimited_by":
            return N("seq", [self.node(a[1]), self.node(a[0]), self.node(a[2])], val=1)
        if f == "Parser::padded_by":
            return N("seq", [self.node(a[1]), self.node(a[0]), self.node(a[1])], val=1)
        if f == "Parser::or_not":
            return N("opt", [self.node(a[0])])
        if f == "Parser::repeated":
            return N("rep", [self.node(a[0])], lo=0, hi=None)
        if f2 in ("at_least", "at_most", "exactly") and owner in ("Repeated", "SeparatedBy"):
            x = self.node(a[0])
            if a[1].op != "lit":
                raise Unsupported(f"{f} of {a[1]}")
            kw = {k: v for k, v in x.__dict__.items() if k not in ("kind", "kids", "id", "term")}
            n = N(x.kind, x.kids, **kw)
            k = a[1].a[1]
            if f2 in ("at_least", "exactly"):
                n.lo = k
            if f2 in ("at_most", "exactly"):
                n.hi = k
            return n
        if f == "Parser::separated_by":
            return N("sep", [self.node(a[0]), self.node(a[1])], lo=0, hi=None, lead=False, trail=False)
        if f == "SeparatedBy::allow_trailing":
            x = self.node(a[0])
            return N("sep", x.kids, lo=x.lo, hi=x.hi, lead=x.lead, trail=True)
        if f == "IterParser::collect":
            return N("collect", [self.node(a[0])])
        if f == "Parser::foldl":
            return N("foldl", [self.node(a[0]), self.node(a[1])], f=a[2])
        if f in ("Parser::map", "Parser::map_with", "Parser::to", "Parser::validate", "Parser::try_map", "Parser::try_map_with"):
            return N("fn", [self.node(a[0])], how=f2, f=a[1])
        if f == "Parser::ignored":
            return N("fn", [self.node(a[0])], how="to", f=UNIT)
        if f in ("Parser::labelled", "Labelled::labelled"):
            return N("same", [self.node(a[0])], label=a[1].a[1] if a[1].op == "lit" else None, context=None)
        if f == "Labelled::as_context":
            x = self.node(a[0])
            return N("same", [x], label=None, context=getattr(x, "label", None))
        if f in ("Parser::labelled", "Labelled::as_context", "Parser::boxed", "Labelled::labelled", "Parser::memoized"):
            return N("same", [self.node(a[0])])
        if f == "Clone::clone":
            return self.node(a[0])
        if f == "Parser::recover_with":
            return N("recover", [self.node(a[0])], strategy=a[1])
        if f == "recursive::recursive":
            return self.recursive(a[0])
        raise Unsupported(f"combinator {f}")

    def elems(self, t):
        if t.op == "tup":
            return t.a[0]
        if t.op == "seq":
            ps = parts(t)
            if all(p[0] == "one" for p in ps):
                return tuple(p[1] for p in ps)
        raise Unsupported(f"a list of parsers: {str(t)[:200]}")

    def token_class(self, t):
        if t.op == "adt" and t.a[1] in self.tokens:
            if t.a[2]:
                raise Unsupported(f"a token with a value: {t}")
            return t.a[1]
        raise Unsupported(f"token {str(t)[:100]}")

    def token_set(self, t):
        return [self.token_class(x) for x in self.elems(t)]

    def just(self, t):
        if t.op in ("tup", "seq"):
            return N("seq", [self.just(x) for x in self.elems(t)], val="last")
        return N("tok", alts=[(self.token_class(t), t)], any=False, f=None)

    def select(self, f):
        """One token, with the classes the function accepts and its value for each."""
        tok = sym("token")
        rows = self.ev.apply_refs(f, [tok, "e"], {"e": sym("extra")})
        alts = []
        for c in self.tokens:
            mine = []
            for g, v, _ in rows:
                okr = True
                rest = []
                for a, p in g:
                    if a.op == "is" and a.a[0] is tok:
                        if (a.a[1] == c) != p:
                            okr = False
                            break
                    else:
                        rest.append((a, p))
                if okr and not (v.op == "adt" and v.a[1] == "None"):
                    mine.append((tuple(rest), v))
            if mine:
                if len(mine) > 1 or mine[0][0] or not (mine[0][1].op == "adt" and mine[0][1].a[1] == "Some"):
                    raise Unsupported(f"a selected token {c} with conditions: {[(showg(g)[:80], str(v)[:80]) for g, v in mine]}")
                alts.append((c, pay(mine[0][1], "Some", "0")))
        if not alts:
            raise Unsupported("a selection of no token")
        return N("tok", alts=alts, any=len(alts) == len(self.tokens), f=f)

    def recursive(self, f):
        s = sym(f"rec#{len(self.rec)}")
        n = N("rec", [])
        self.rec[s] = n
        rows = self.ev.apply_refs(f, [s], {})
        if len(rows) != 1:
            raise Unsupported("a recursive parser with cases")
        n.kids = [self.node(rows[0][1])]
        n.param = s
        return n

    # ------------------------------------------------------------ queries

    def walk(self, n, seen=None, into_rec=True):
        seen = set() if seen is None else seen
        if n.id in seen:
            return
        seen.add(n.id)
        yield n
        if n.kind == "rec" and not into_rec:
            return
        for k in n.kids:
            yield from self.walk(k, seen, into_rec)

    def classes(self, n):
        return {c for x in self.walk(n) if x.kind == "tok" for c, _ in x.alts}


# ---------------------------------------------------------------- languages


class Peg:
    """The language of a node as a deterministic automaton reading the input backwards.

    A variable is (node, continuation): "parsing node here, then the continuation, succeeds". Its
    value at position i is determined by the variables at i and i+1, as in memoising PEG parsers.
    """

    def __init__(self, abstract):
        # abstract(node) -> set of symbols when the node is taken as a single symbol, else None
        self.abstract = abstract
        self.vars = []  # defs
        self.memo = {}
        self.TRUE = self.var(("true",))

    def var(self, d):
        self.vars.append(d)
        return len(self.vars) - 1

    def m(self, n, k):
        key = (n.id, k)
        v = self.memo.get(key)
        if v is not None:
            return v
        v = self.var(None)
        self.memo[key] = v
        self.vars[v] = self.define(n, k)
        return v

    def define(self, n, k):
        s = self.abstract(n)
        if s is not None:
            return ("tok", frozenset(s), k)
        if n.kind == "seq":
            for x in reversed(n.kids):
                k = self.m(x, k)
            return ("=", k)
        if n.kind == "alt":
            if not n.kids:
                return ("false",)
            return self.alt(n.kids, k)
        if n.kind == "opt":
            a = n.kids[0]
            return ("if", self.m(a, self.TRUE), self.m(a, k), k)
        if n.kind in ("same", "fn", "recover", "collect", "rec"):
            return ("=", self.m(n.kids[0], k))
        if n.kind == "rep":
            return self.rep(n, n.kids[0], n.lo, n.hi, k)
        if n.kind == "foldl":
            return ("=", self.m(n.kids[0], self.m(n.kids[1], k)))
        if n.kind == "sep":
            item, sp = n.kids
            more = self.memo.get((n.id, "more", k))
            if more is None:
                more = self.var(None)
                self.memo[(n.id, "more", k)] = more
                both_t = self.m(sp, self.m(item, self.TRUE))
                both = self.m(sp, self.m(item, more))
                tail = k
                if n.trail:
                    tail = self.var(("if", self.m(sp, self.TRUE), self.m(sp, k), k))
                self.vars[more] = ("if", both_t, both, tail)
            if n.lo > 1 or n.hi is not None or n.lead:
                raise Unsupported("bounded separated_by")
            if n.lo == 1:
                return ("=", self.m(item, more))
            return ("if", self.m(item, self.TRUE), self.m(item, more), k)
        if n.kind == "end":
            return ("end", k)
        raise Unsupported(f"language of {n.kind}")

    def alt(self, kids, k):
        if len(kids) == 1:
            return ("=", self.m(kids[0], k))
        rest = self.var(self.alt(kids[1:], k))
        return ("if", self.m(kids[0], self.TRUE), self.m(kids[0], k), rest)

    def rep(self, n, a, lo, hi, k):
        if hi is not None:
            if hi == 0:
                return ("=", k)
            sub = self.var(self.rep(n, a, max(lo - 1, 0), hi - 1, k))
        elif lo > 0:
            sub = self.var(self.rep(n, a, lo - 1, None, k))
        else:
            sub = self.memo[(n.id, k)] if (n.id, k) in self.memo and self.vars[self.memo[(n.id, k)]] is None else None
            if sub is None:
                sub = self.memo.get((n.id, "loop", k))
                if sub is None:
                    sub = self.var(None)
                    self.memo[(n.id, "loop", k)] = sub
                    self.vars[sub] = ("if", self.m(a, self.TRUE), self.m(a, sub), k)
                return ("=", sub)
        if lo > 0:
            return ("=", self.m(a, sub))
        return ("if", self.m(a, self.TRUE), self.m(a, sub), k)

    def dfa(self, root, alphabet):
        """(start vector, step(vector, symbol), accepting(vector)) reading right to left."""
        order = self.order()
        defs = self.vars
        nv = len(defs)

        def compute(nxt, s):
            cur = [None] * nv
            for v in order:
                d = defs[v]
                o = d[0]
                if o == "true":
                    r = True
                elif o == "false":
                    r = False
                elif o == "tok":
                    r = s is not None and s in d[1] and nxt[d[2]]
                elif o == "end":
                    r = s is None and cur[d[1]]
                elif o == "=":
                    r = cur[d[1]]
                else:
                    r = cur[d[2]] if cur[d[1]] else cur[d[3]]
                cur[v] = r
            return tuple(cur)

        memo = {}

        def step(vec, s):
            key = (vec, s)
            r = memo.get(key)
            if r is None:
                r = memo[key] = compute(vec, s)
            return r

        return compute(None, None), step, lambda vec: vec[root]

    def order(self):
        """Variables ordered so that those needed at the same position come first."""
        out, state = [], {}
        for v0 in range(len(self.vars)):
            if v0 in state:
                continue
            stack = [(v0, iter(self.deps(v0)))]
            state[v0] = 1
            while stack:
                v, it = stack[-1]
                for w in it:
                    if state.get(w) == 1:
                        raise Unsupported("left recursion, or a repetition that may consume nothing")
                    if w not in state:
                        state[w] = 1
                        stack.append((w, iter(self.deps(w))))
                        break
                else:
                    state[v] = 2
                    out.append(v)
                    stack.pop()
        return out

    def deps(self, v):
        d = self.vars[v]
        if d[0] == "=":
            return [d[1]]
        if d[0] == "end":
            return [d[1]]
        if d[0] == "if":
            return [d[1], d[2], d[3]]
        return []


# regular expressions: ("sym", set) ("seq", ..) ("alt", ..) ("star", r) ("opt", r) ("eps",) ("end",)


def R(x):
    if isinstance(x, str):
        return ("sym", frozenset([x]))
    return x


def rseq(*xs):
    return ("seq",) + tuple(R(x) for x in xs)


def ralt(*xs):
    return ("alt",) + tuple(R(x) for x in xs)


def rstar(*xs):
    return ("star", rseq(*xs))


def ropt(*xs):
    return ("opt", rseq(*xs))


def rplus(*xs):
    return rseq(rseq(*xs), rstar(*xs))


REND = ("end",)


class Nfa:
    """A regular expression, read backwards. REND matches only the end of the input."""

    def __init__(self, r):
        self.eps, self.tr = [], []
        self.only_end = set()
        a, b = self.build(r)
        self.first, self.last = a, b

    def st(self):
        self.eps.append([])
        self.tr.append([])
        return len(self.eps) - 1

    def build(self, r):
        """Backward fragments: from the right end to the left end."""
        a, b = self.st(), self.st()
        k = r[0]
        if k == "sym":
            self.tr[a].append((r[1], b))
        elif k == "seq":
            cur = a
            for x in reversed(r[1:]):
                p, q = self.build(x)
                self.eps[cur].append((p, False))
                cur = q
            self.eps[cur].append((b, False))
        elif k == "alt":
            for x in r[1:]:
                p, q = self.build(x)
                self.eps[a].append((p, False))
                self.eps[q].append((b, False))
        elif k in ("star", "opt"):
            p, q = self.build(r[1])
            self.eps[a].append((p, False))
            self.eps[q].append((b, False))
            self.eps[a].append((b, False))
            if k == "star":
                self.eps[q].append((p, False))
        elif k == "eps":
            self.eps[a].append((b, False))
        elif k == "end":
            self.eps[a].append((b, True))
        else:
            raise ValueError(k)
        return a, b

    def closure(self, ss, at_end):
        seen = set(ss)
        todo = list(ss)
        while todo:
            s = todo.pop()
            for t, e in self.eps[s]:
                if e and not at_end:
                    continue
                if t not in seen:
                    seen.add(t)
                    todo.append(t)
        return frozenset(seen)

    def dfa(self):
        # a prefix match: the node may stop anywhere, so start also from any position
        start = self.closure([self.first], True)

        def step(ss, s):
            return self.closure([t for x in ss for cs, t in self.tr[x] if s in cs], False)

        return start, step, lambda ss: self.last in ss


def difference(peg_dfa, nfa_dfa, alphabet, limit=400000):
    """None if the two automata accept the same words, else (word, accepted by the first?)."""
    s1, t1, a1 = peg_dfa
    s2, t2, a2 = nfa_dfa
    seen = {(s1, s2): None}
    todo = [(s1, s2)]
    i = 0
    while i < len(todo):
        p = todo[i]
        i += 1
        if a1(p[0]) != a2(p[1]):
            w = []
            q = p
            while seen[q] is not None:
                q, s = seen[q]
                w.append(s)
            return (w, a1(p[0]), len(seen))
        for s in alphabet:
            q = (t1(p[0], s), t2(p[1], s))
            if q not in seen:
                if len(seen) > limit:
                    raise Unsupported("too many states")
                seen[q] = (p, s)
                todo.append(q)
    return (None, None, len(seen))
