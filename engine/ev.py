"""Path-sensitive abstract evaluation of THIR.

Every path through a function is summarised as a row: the conditions under which the path is
taken (guards), the value returned, the final value of every place reachable from the
parameters, and the effects performed.  Local functions and closures are inlined, so a row does
not depend on how the code is divided into helpers.  Loops are summarised once for an arbitrary
iteration.  Nothing is executed and no solver is involved: conditions are uninterpreted atoms.
"""
import re
import sys

from terms import *
from ir import MissingAnchor

sys.setrecursionlimit(20000)


class TooComplex(Exception):
    pass


class Ctl:
    __slots__ = ("kind", "lbl", "val")

    def __init__(self, kind, lbl=None, val=None):
        self.kind, self.lbl, self.val = kind, lbl, val


class LoopInfo:
    def __init__(self, lid, init, cont, exits, span):
        self.lid, self.init, self.cont, self.exits, self.span = lid, init, cont, exits, span


class St:
    __slots__ = ("store", "vf", "bf", "guards", "eff")

    def __init__(self):
        self.store, self.vf, self.bf, self.guards, self.eff = {}, {}, {}, (), ()

    def fork(self):
        s = St()
        s.store, s.vf, s.bf = dict(self.store), dict(self.vf), dict(self.bf)
        s.guards, s.eff = self.guards, self.eff
        return s


class Frame:
    __slots__ = ("vars", "fid", "stack", "sub")

    def __init__(self, fid, stack, sub):
        self.vars, self.fid, self.stack, self.sub = {}, fid, stack, sub


class Row:
    """One path: guards, return value, final store."""

    def __init__(self, st, ret, params):
        self.st, self.ret, self.params = st, ret, params
        self.guards, self.eff = st.guards, st.eff

    def final(self, p):
        """The final value of the place behind parameter p."""
        return self.params[p](self.st)

    def __repr__(self):
        return f"[{showg(self.guards)}] -> {self.ret}"


def is_(t, v):
    while t.op == "with":
        # an update of fields does not change the variant
        t = t.a[0]
    return mk("is", t, v)


def parse_const(v):
    """A constant pattern as printed by rustc."""
    v = str(v)
    m = re.match(r"^Branch\(\[(.*)\]\): str$", v)
    if m:
        bs = [int(re.match(r"(?:Leaf\()?(\d+)", x.strip()).group(1)) for x in m.group(1).split(",") if x.strip()]
        return lstr(bytes(bs).decode("utf-8", "replace"))
    m = re.match(r"^'(.*)'$", v, re.S)
    if m:
        c = m.group(1)
        if len(c) > 1 and c[0] == "\\":
            c = {"\\n": "\n", "\\t": "\t", "\\r": "\r", "\\'": "'", "\\\\": "\\", "\\0": "\0"}.get(c) or (
                chr(int(re.sub(r"[^0-9a-fA-F]", "", c[2:]), 16)) if c.startswith("\\u") else c
            )
        return lit("char", c)
    m = re.match(r"^(-?\d+)(?:_[iu](?:\d+|size))?$", v)
    if m:
        return lint(int(m.group(1)))
    if v in ("true", "false"):
        return lbool(v == "true")
    m = re.match(r'^"(.*)"$', v, re.S)
    if m:
        return lstr(m.group(1))
    return lit("const", v)


class Ev:
    def __init__(self, prog, opaque=(), limit=4000000, inline=True, streams=(), plain=False):
        self.p = prog
        self.plain = plain  # keep every loop a loop, for exploration as a machine
        self.streams = set(streams)  # local iterator types treated as streams of items
        self.opaque = set(opaque)  # canonical names or ids never inlined
        self.limit = limit
        self.inline = inline
        self.nroot = 0
        self.inlined = set()
        self.unknown = set()
        self.steps = 0
        import models

        self.models = models.MODELS
        self.maxdepth = 60
        self.unroll = False  # follow recursion on arguments whose structure is known

    # ---------------------------------------------------------------- state

    def newroot(self, st, v, hint="tmp"):
        self.nroot += 1
        r = (self.nroot, hint)
        st.store[r] = v
        return r

    def follow(self, st, root, path):
        """Resolve references in the middle of a path."""
        t = st.store[root]
        if t.op == "ref":
            return self.follow(st, t.a[0], t.a[1] + path)
        for i, el_ in enumerate(path):
            t = proj(t, el_)
            if t.op == "ref":
                return self.follow(st, t.a[0], t.a[1] + path[i + 1 :])
        return root, path

    def read(self, st, root, path=()):
        root, path = self.follow(st, root, path)
        t = st.store[root]
        for el_ in path:
            t = proj(t, el_)
        return t

    def write(self, st, root, path, v):
        if path:
            root, pre = self.follow(st, root, path[:-1])
            path = pre + (path[-1],)
            # the base may itself be a root reference
            def go(t, path):
                if not path:
                    return v
                return upd(t, path[0], go(proj(t, path[0]), path[1:]))

            st.store[root] = go(st.store[root], path)
        else:
            st.store[root] = v

    def rv(self, st, x):
        """The value behind x, if x is a reference."""
        n = 0
        while x.op == "ref":
            x = self.read(st, x.a[0], x.a[1])
            n += 1
            if n > 50:
                raise TooComplex("reference cycle")
        return x

    def setref(self, st, ref, v):
        root, path = self.follow(st, ref.a[0], ref.a[1])
        self.write(st, root, path, v)

    # ---------------------------------------------------------------- conditions

    def variants_of(self, t, v):
        return None

    def assume(self, st, atom, pol, variants=None):
        """Add a fact to st (in place); False if contradictory."""
        if atom.op == "lit":
            return atom.a[1] == pol
        if atom.op == "app" and atom.a[0] == "not":
            return self.assume(st, atom.a[1][0], not pol)
        if atom.op == "is":
            t, v = atom.a
            if t.op == "adt":
                return (t.a[1] == v) == pol
            cur = st.vf.get(t)
            if pol:
                if isinstance(cur, str):
                    return cur == v
                if cur and v in cur:
                    return False
                st.vf[t] = v
            else:
                if isinstance(cur, str):
                    return cur != v
                ex = (cur or frozenset()) | {v}
                if variants:
                    rest = [x for x in variants if x not in ex]
                    if not rest:
                        return False
                    if len(rest) == 1:
                        st.vf[t] = rest[0]
                        st.guards += ((is_(t, rest[0]), True),)
                        return True
                if cur and v in cur:
                    return True
                st.vf[t] = ex
            st.guards += ((atom, pol),)
            return True
        cur = st.bf.get(atom)
        if cur is not None:
            return cur == pol
        st.bf[atom] = pol
        st.guards += ((atom, pol),)
        # a value equal to one literal is different from the others
        if atom.op == "app" and atom.a[0] == "eq" and pol:
            x, y = atom.a[1]
            if x.op == "lit":
                x, y = y, x
            if y.op == "lit":
                k = ("eqlit", x)
                old = st.bf.get(k)
                if old is not None and old is not y:
                    return False
                st.bf[k] = y
        return True

    def known(self, st, atom):
        if atom.op == "lit":
            return atom.a[1]
        if atom.op == "app" and atom.a[0] == "not":
            k = self.known(st, atom.a[1][0])
            return None if k is None else not k
        if atom.op == "is":
            t, v = atom.a
            if t.op == "adt":
                return t.a[1] == v
            cur = st.vf.get(t)
            if isinstance(cur, str):
                return cur == v
            if cur and v in cur:
                return False
            return None
        if atom.op == "app" and atom.a[0] == "eq":
            x, y = atom.a[1]
            if x.op == "lit":
                x, y = y, x
            if y.op == "lit":
                o = st.bf.get(("eqlit", x))
                if o is not None:
                    return o is y
        return st.bf.get(atom)

    def split(self, st, c, variants=None):
        """Fork on a condition: [(state, bool)]."""
        if c.op == "app" and c.a[0] == "not":
            return [(s, not b) for s, b in self.split(st, c.a[1][0], variants)]
        if c.op == "app" and c.a[0] in ("and", "BitAnd"):
            out = []
            for s, b in self.split(st, c.a[1][0]):
                out += self.split(s, c.a[1][1]) if b else [(s, False)]
            return out
        if c.op == "app" and c.a[0] in ("or", "BitOr"):
            out = []
            for s, b in self.split(st, c.a[1][0]):
                out += [(s, True)] if b else self.split(s, c.a[1][1])
            return out
        if c.op == "ite":
            out = []
            for s, b in self.split(st, c.a[0]):
                out += self.split(s, c.a[1] if b else c.a[2])
            return out
        if c.op == "app" and c.a[0] == "eq":
            for x, y in (c.a[1], c.a[1][::-1]):
                if y.op == "lit" and y.a[0] == "bool":
                    r = self.split(st, x)
                    return r if y.a[1] else [(s, not b) for s, b in r]
        k = self.known(st, c)
        if k is not None:
            return [(st, k)]
        out = []
        a = st.fork()
        if self.assume(a, c, True, variants):
            out.append((a, True))
        b = st
        if self.assume(b, c, False, variants):
            out.append((b, False))
        return out

    def case(self, st, v, enum):
        """Fork on the variant of v: [(state, variant)]."""
        vs = self.p.variants.get(enum)
        if v.op == "adt":
            return [(st, v.a[1])]
        cur = st.vf.get(v)
        if isinstance(cur, str):
            return [(st, cur)]
        out = []
        rest = [x for x in vs if not (cur and x in cur)]
        for i, x in enumerate(rest):
            s = st.fork() if i + 1 < len(rest) else st
            if self.assume(s, is_(v, x), True):
                out.append((s, x))
        return out

    # ---------------------------------------------------------------- sequencing helpers

    def bind(self, outs, f):
        res = []
        for s, v in outs:
            if isinstance(v, Ctl):
                res.append((s, v))
            else:
                res += f(s, v)
        if len(res) > self.limit:
            raise TooComplex(f"{len(res)} paths")
        return res

    def evals(self, es, st, fr):
        outs = [(st, ())]
        for e in es:
            nxt = []
            for s, vs in outs:
                if isinstance(vs, Ctl):
                    nxt.append((s, vs))
                    continue
                for s2, v in self.eval(e, s, fr):
                    nxt.append((s2, v if isinstance(v, Ctl) else vs + (v,)))
            outs = nxt
            if len(outs) > self.limit:
                raise TooComplex(f"{len(outs)} paths")
        return outs

    # ---------------------------------------------------------------- places

    PLACE = {"Var", "Upvar", "Field", "Deref", "Index"}

    def place(self, e, st, fr):
        """[(state, (root, path) | Ctl)]"""
        k = e["k"]
        if k in ("Var", "Upvar"):
            r = fr.vars.get(e["v"])
            if r is None:
                r = self.newroot(st, sym("?" + e["v"].split("#")[0]), e["v"])
                fr.vars[e["v"]] = r
            if r not in st.store:
                st.store[r] = sym("?" + e["v"].split("#")[0])
            return [(st, (r, ()))]
        if k == "Field":
            return self.bind2(
                self.place(e["e"], st, fr), lambda s, pl: [(s, (pl[0], pl[1] + (("f", e["f"]),)))]
            )
        if k == "Deref":
            return self.bind2(self.place(e["e"], st, fr), lambda s, pl: [(s, self.follow_all(s, pl))])
        if k == "Index":

            def idx(s, pl):
                def at(s2, i):
                    self.hazard("index", s2, e, fr, self.rv(s2, self.read(s2, *pl)), self.rv(s2, i), "")
                    return [(s2, (pl[0], pl[1] + (("i", i),)))]

                return self.bind(self.eval(e["i"], s, fr), at)

            return self.bind2(self.place(e["e"], st, fr), idx)
        # an rvalue: put it in a temporary
        def tmp(s, v):
            if v.op == "ref":
                return [(s, (v.a[0], v.a[1]))]
            return [(s, (self.newroot(s, v), ()))]

        return self.bind2(self.eval(e, st, fr), tmp)

    def bind2(self, outs, f):
        res = []
        for s, v in outs:
            res += [(s, v)] if isinstance(v, Ctl) else f(s, v)
        return res

    def follow_all(self, st, pl):
        root, path = self.follow(st, *pl)
        while True:
            t = self.read(st, root, path)
            if t.op != "ref":
                return root, path
            root, path = self.follow(st, t.a[0], t.a[1])

    # ---------------------------------------------------------------- expressions

    def eval(self, e, st, fr):
        """[(state, value | Ctl)]"""
        self.steps += 1
        if self.steps > self.limit:
            raise TooComplex(f"more than {self.limit} evaluation steps")
        if e is None:
            return [(st, UNIT)]
        return getattr(self, "e_" + e["k"], self.e_other)(e, st, fr)

    def e_other(self, e, st, fr):
        return [(st, app("opaque:" + e["k"], lstr(e.get("s", ""))))]

    def e_place(self, e, st, fr):
        if e["k"] in ("Var", "Upvar") and e.get("t") is not None:
            # moving a mutable reference keeps it a reference
            t = self.p.types[e["t"]]
            if t["h"] == "&mut" or re.match(r"^[A-Z]\w*$", t["s"]):
                r = fr.vars.get(e["v"])
                v = st.store.get(r) if r is not None else None
                if v is not None and v.op == "ref":
                    return [(st, v)]
        return self.bind2(self.place(e, st, fr), lambda s, pl: [(s, self.read(s, *pl))])

    e_Var = e_Upvar = e_Field = e_Index = e_place

    def e_Deref(self, e, st, fr):
        return self.bind(self.eval(e["e"], st, fr), lambda s, v: [(s, self.rv(s, v))])

    def e_Borrow(self, e, st, fr):
        if e["m"]:
            return self.bind2(
                self.place(e["e"], st, fr),
                lambda s, pl: [(s, mk("ref", *self.follow_all(s, pl)))],
            )
        return self.bind(self.eval(e["e"], st, fr), lambda s, v: [(s, v)])

    def e_Lit(self, e, st, fr):
        return [(st, lit(e["lk"], e["v"]))]

    def e_Never(self, e, st, fr):
        return self.eval(e["e"], st, fr)

    e_Coerce = e_Never

    def e_Cast(self, e, st, fr):
        def f(s, v):
            src = self.p.types[e["e"]["t"]]["s"]
            dst = self.p.types[e["t"]]["s"]
            if v.op == "lit":
                return [(s, v)]
            if src == dst:
                return [(s, v)]
            return [(s, app("cast:" + dst, v))]

        return self.bind(self.eval(e["e"], st, fr), f)

    def e_Unary(self, e, st, fr):
        def f(s, v):
            if e["op"] == "Not":
                return [(s, self.negate(v))]
            if v.op == "lit":
                return [(s, lit("int", -v.a[1]))]
            return [(s, app("Neg", v))]

        return self.bind(self.eval(e["e"], st, fr), f)

    def negate(self, v):
        if v.op == "lit":
            return lbool(not v.a[1])
        if v.op == "app" and v.a[0] == "not":
            return v.a[1][0]
        return app("not", v)

    def e_Binary(self, e, st, fr):
        return self.bind(
            self.evals([e["l"], e["r"]], st, fr),
            lambda s, vs: self.binop_at(s, e["op"], self.rv(s, vs[0]), self.rv(s, vs[1]), e, fr),
        )

    def loop_seen(self, lv, init, updates):
        """Called with the place of each loop variable."""

    def hazard(self, kind, st, e, fr, *detail):
        """Called where execution would panic unless something holds; watched by the rules on panics."""

    def binop_at(self, st, op, a, b, e, fr):
        if op in ("Add", "Sub", "Mul", "Div", "Rem", "Shl", "Shr"):
            self.hazard("arith", st, e, fr, op, a, b)
        return self.binop(st, op, a, b)

    def binop(self, st, op, a, b):
        if op in ("BitAnd", "BitOr") and (a.op == "lit" and a.a[0] == "bool" or b.op == "lit" and b.a[0] == "bool"):
            if a.op != "lit":
                a, b = b, a
            if op == "BitAnd":
                return [(st, b if a.a[1] else FALSE)]
            return [(st, TRUE if a.a[1] else b)]
        if op == "Eq":
            return [(st, self.mkeq(st, a, b))]
        if op == "Ne":
            return [(st, self.negate(self.mkeq(st, a, b)))]
        if op in ("Lt", "Le", "Gt", "Ge"):
            return [(st, self.cmp(op, a, b))]
        if a.op == "lit" and b.op == "lit" and isinstance(a.a[1], int) and isinstance(b.a[1], int):
            x, y = a.a[1], b.a[1]
            try:
                r = {"Add": x + y, "Sub": x - y, "Mul": x * y}.get(op)
            except Exception:
                r = None
            if r is not None:
                return [(st, lint(r))]
        if op in ("Add", "Mul"):
            if op == "Add":
                if a is lint(0):
                    return [(st, b)]
                if b is lint(0):
                    return [(st, a)]
            if show(b) < show(a):
                a, b = b, a
        if op == "Sub" and b is lint(0):
            return [(st, a)]
        return [(st, app(op, a, b))]

    def cmp(self, op, a, b):
        if a.op == "lit" and b.op == "lit":
            x, y = a.a[1], b.a[1]
            return lbool({"Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op])
        # lengths against small constants
        if op == "Gt":
            return self.cmp("Lt", b, a)
        if op == "Le":
            return self.negate(self.cmp("Lt", b, a))
        if op == "Ge":
            return self.negate(self.cmp("Lt", a, b))
        if a is lint(0) and b.op == "app" and b.a[0] == "len":
            return app("nonempty", b.a[1][0])
        if b is lint(1) and a.op == "app" and a.a[0] == "len":
            return self.negate(app("nonempty", a.a[1][0]))
        return app("lt", a, b)

    def mkeq(self, st, a, b):
        for x, y in ((a, b), (b, a)):
            if y is lint(0) and x.op == "app" and x.a[0] == "len":
                return self.negate(app("nonempty", x.a[1][0]))
            if y.op == "lit" and y.a[0] == "str" and y.a[1] == "" and x.op != "lit":
                return self.negate(app("nonempty", x))
            if y.op == "lit" and y.a[0] == "bool":
                return x if y.a[1] else self.negate(x)
            if y.op == "adt" and x.op != "adt" and not y.a[2]:
                return is_(x, y.a[1])
            if y is EMPTY:
                return self.negate(app("nonempty", x))
            if x.op == "app" and y.op == "lit" and y.a[0] == "str" and x.a[0].endswith(("::to_ascii_lowercase", "::to_ascii_uppercase")):
                up = x.a[0].endswith("uppercase")
                if not any(("a" <= c <= "z") if up else ("A" <= c <= "Z") for c in y.a[1]):
                    return app("str::eq_ignore_ascii_case", x.a[1][0], y)
                return FALSE
        if a.op == "adt" and b.op == "adt":
            if a.a[1] != b.a[1]:
                return FALSE
            if not a.a[2]:
                return TRUE
        if a.op == "tup" and b.op == "tup" and len(a.a[0]) == len(b.a[0]):
            r = TRUE
            for x, y in zip(a.a[0], b.a[0]):
                c = self.mkeq(st, x, y)
                if c is FALSE:
                    return FALSE
                r = c if r is TRUE else (r if c is TRUE else app("and", r, c))
            return r
        return eq(a, b)

    def e_Logical(self, e, st, fr):
        is_and = e["op"] == "And"

        def f(s, v):
            out = []
            for s2, b in self.split(s, v):
                if b == is_and:
                    out += self.eval(e["r"], s2, fr)
                else:
                    out.append((s2, lbool(not is_and)))
            return out

        return self.bind(self.eval(e["l"], st, fr), f)

    def e_If(self, e, st, fr):
        def f(s, v):
            out = []
            for s2, b in self.split(s, v):
                out += self.eval(e["th"] if b else e.get("el"), s2, fr)
            return out

        return self.bind(self.eval(e["c"], st, fr), f)

    def e_Let(self, e, st, fr):
        def f(s, pl):
            return [(s2, lbool(b)) for s2, b in self.match(s, pl, e["p"], fr)]

        return self.bind2(self.place(e["e"], st, fr), f)

    def e_Match(self, e, st, fr):
        def f(s, pl):
            out = []
            pend = [s]
            for arm in e["arms"]:
                nxt = []
                for s1 in pend:
                    for s2, b in self.match(s1, pl, arm["p"], fr):
                        if not b:
                            nxt.append(s2)
                        elif arm.get("g"):
                            for s3, g in self.eval(arm["g"], s2, fr):
                                if isinstance(g, Ctl):
                                    out.append((s3, g))
                                    continue
                                for s4, gb in self.split(s3, g):
                                    if gb:
                                        out += self.eval(arm["b"], s4, fr)
                                    else:
                                        nxt.append(s4)
                        else:
                            out += self.eval(arm["b"], s2, fr)
                pend = nxt
            return out

        return self.bind2(self.place(e["e"], st, fr), f)

    # -- patterns

    def match(self, st, pl, p, fr):
        k = p["k"]
        if k == "Wild":
            return [(st, True)]
        if k == "Bind":
            by = p.get("by")
            root, path = pl
            if by == "refmut":
                v = mk("ref", *self.follow_all(st, pl))
            else:
                v = self.read(st, root, path) if by == "ref" else self.read_raw(st, root, path)
            st.store[self.varroot(fr, p["v"])] = v
            if p.get("sub"):
                return self.match(st, pl, p["sub"], fr)
            return [(st, True)]
        if k == "Deref":
            return self.match(st, self.follow_all(st, pl), p["p"], fr)
        if k == "Variant":
            pl = self.follow_all(st, pl)
            v = self.read(st, *pl)
            enum, var = p["adt"], p["variant"]
            if v.op == "entry":
                return self.match_entry(st, v, p, fr)
            if v.op == "adt":
                if v.a[1] != var:
                    return [(st, False)]
                forks = [(st, True)]
            else:
                forks = self.split(st, is_(v, var), self.p.variants.get(enum))
            out = []
            for s, b in forks:
                if not b:
                    out.append((s, False))
                else:
                    out += self.match_fields(
                        s, [((pl[0], pl[1] + (("v", var, f),)), q) for f, q in p["fs"].items()], fr
                    )
            return out
        if k == "Leaf":
            pl = self.follow_all(st, pl)
            return self.match_fields(
                st, [((pl[0], pl[1] + (("f", f),)), q) for f, q in p["fs"].items()], fr
            )
        if k in ("Const", "ConstStr"):
            v = self.rv(st, self.read(st, *pl))
            c = parse_const(p["v"]) if k == "Const" else lstr(p["v"])
            return self.split(st, self.mkeq(st, v, c))
        if k == "Range":
            v = self.rv(st, self.read(st, *pl))
            return self.split(st, app("inrange", v, lstr(str(p["v"]))))
        if k == "Or":
            out = []
            pend = [st]
            for q in p["ps"]:
                nxt = []
                for s in pend:
                    for s2, b in self.match(s, pl, q, fr):
                        (out.append((s2, True)) if b else nxt.append(s2))
                pend = nxt
            return out + [(s, False) for s in pend]
        if k == "Slice":
            pl = self.follow_all(st, pl)
            v = self.read(st, *pl)
            pre, sl, suf = p["pre"], p.get("sl"), p.get("suf") or []
            n = len(pre) + len(suf)
            arr = self.p.types[p["t"]]["h"] == "array"
            ps = parts(v)
            if v.op == "seq" and all(x[0] == "one" for x in ps):
                ln = len(ps)
                okn = ln == n if not sl else ln >= n
                if not okn:
                    return [(st, False)]
                forks = [(st, True)]
            elif arr:
                forks = [(st, True)]
            else:
                c = eq(app("len", v), lint(n)) if not sl else self.cmp("Ge", app("len", v), lint(n))
                if not sl and n == 0:
                    c = self.negate(app("nonempty", v))
                elif sl and n == 1:
                    c = app("nonempty", v)
                forks = self.split(st, c)
            out = []
            for s, b in forks:
                if not b:
                    out.append((s, False))
                    continue
                subs = []
                for i, q in enumerate(pre):
                    if v.op != "seq" and not arr and i == 0:
                        subs.append(((self.newroot(s, app("head", v)), ()), q))
                    else:
                        subs.append(((pl[0], pl[1] + (("i", lint(i)),)), q))
                if sl:
                    if v.op == "seq":
                        rest = seq(ps[len(pre) : len(ps) - len(suf)])
                    else:
                        rest = v
                        for _ in pre:
                            rest = app("tail", rest)
                        for _ in suf:
                            rest = app("init", rest)
                    subs.append(((self.newroot(s, rest), ()), sl))
                for i, q in enumerate(suf):
                    x = ps[len(ps) - len(suf) + i][1] if v.op == "seq" else (
                        app("last", v) if i == len(suf) - 1 else app("fromend", v, lint(len(suf) - i))
                    )
                    subs.append(((self.newroot(s, x), ()), q))
                out += self.match_fields(s, subs, fr)
            return out
        raise TooComplex("pattern " + k)

    def read_raw(self, st, root, path):
        root, path = self.follow(st, root, path[:-1]) if False else (root, path)
        # do not follow a final reference, so that moving a &mut moves the reference
        if not path:
            return st.store[root]
        r2, p2 = self.follow(st, root, path[:-1])
        t = st.store[r2]
        if t.op == "ref":
            return self.read(st, root, path)
        for x in p2:
            t = proj(t, x)
        return proj(t, path[-1])

    def match_fields(self, st, subs, fr):
        out = []
        pend = [st]
        for pl, q in subs:
            nxt = []
            for s in pend:
                for s2, b in self.match(s, pl, q, fr):
                    (nxt.append(s2) if b else out.append((s2, False)))
            pend = nxt
        return out + [(s, True) for s in pend]

    def match_entry(self, st, v, p, fr):
        ref, key = v.a
        m = self.rv(st, ref)
        out = []
        for s, b in self.has(st, m, key):
            want = p["variant"] == "Occupied"
            if b != want:
                out.append((s, False))
            else:
                r = self.newroot(s, v)
                out += self.match_fields(s, [((r, ()), q) for q in p["fs"].values()], fr)
        return out

    # -- statements

    def e_Block(self, e, st, fr):
        outs = [(st, UNIT)]
        for stmt in e["st"]:
            if stmt["k"] == "E":
                outs = self.bind(outs, lambda s, _: self.eval(stmt["e"], s, fr))
            else:
                outs = self.bind(outs, lambda s, _: self.let(stmt, s, fr))
        outs = self.bind(outs, lambda s, _: self.eval(e["e"], s, fr) if e.get("e") else [(s, UNIT)])
        if e.get("lbl") is not None:
            outs = [
                (s, v.val) if isinstance(v, Ctl) and v.kind == "brk" and v.lbl == e["lbl"] else (s, v)
                for s, v in outs
            ]
        return outs

    def let(self, stmt, st, fr):
        p = stmt["p"]
        if stmt.get("e") is None:
            # declared, assigned later
            self.declare(p, st, fr)
            return [(st, UNIT)]
        if p["k"] == "Bind" and not p.get("sub") and p.get("by") == "val":
            return self.let_simple(p, stmt, st, fr)

        def f(s, pl):
            out = []
            for s2, b in self.match(s, pl, p, fr):
                if b:
                    out.append((s2, UNIT))
                elif stmt.get("el"):
                    out += self.eval(stmt["el"], s2, fr)
            return out

        return self.bind2(self.place(stmt["e"], st, fr), f)

    def let_simple(self, p, stmt, st, fr):
        outs = self.eval(stmt["e"], st, fr)
        r = None
        res = []
        for s, v in outs:
            if isinstance(v, Ctl):
                res.append((s, v))
                continue
            if r is None:
                r = self.varroot(fr, p["v"])
            s.store[r] = v
            res.append((s, UNIT))
        return res

    def varroot(self, fr, v):
        """One root per variable and frame: forked states share the name, not the value."""
        r = fr.vars.get(v)
        if r is None or r[1] != v:
            self.nroot += 1
            r = (self.nroot, v)
            fr.vars[v] = r
        return r

    def declare(self, p, st, fr):
        if p["k"] == "Bind":
            st.store[self.varroot(fr, p["v"])] = mk("uninit")

    def e_Assign(self, e, st, fr):
        def f(s, v):
            return self.bind2(
                self.place(e["l"], s, fr),
                lambda s2, pl: (self.write(s2, *pl, v), [(s2, UNIT)])[1],
            )

        return self.bind(self.eval(e["r"], st, fr), f)

    def e_AssignOp(self, e, st, fr):
        op = e["op"].replace("Assign", "")

        def f(s, v):
            def g(s2, pl):
                old = self.rv(s2, self.read(s2, *pl))
                out = []
                for s3, n in self.binop_at(s2, op, old, self.rv(s2, v), e, fr):
                    root, path = self.follow_all(s3, pl)
                    self.write(s3, root, path, n)
                    out.append((s3, UNIT))
                return out

            return self.bind2(self.place(e["l"], s, fr), g)

        return self.bind(self.eval(e["r"], st, fr), f)

    def e_Break(self, e, st, fr):
        return self.bind(
            self.eval(e.get("e"), st, fr), lambda s, v: [(s, Ctl("brk", e["lbl"], v))]
        )

    def e_Continue(self, e, st, fr):
        return [(st, Ctl("cont", e["lbl"]))]

    def e_Return(self, e, st, fr):
        return self.bind(self.eval(e.get("e"), st, fr), lambda s, v: [(s, Ctl("ret", None, v))])

    def e_Tuple(self, e, st, fr):
        return self.bind(self.evals(e["a"], st, fr), lambda s, vs: [(s, tup(*vs))])

    def e_Array(self, e, st, fr):
        return self.bind(self.evals(e["a"], st, fr), lambda s, vs: [(s, one(*vs))])

    def e_Repeat(self, e, st, fr):
        return self.bind(
            self.eval(e["e"], st, fr), lambda s, v: [(s, app("repeat", v, lstr(str(e.get("n")))))]
        )

    def e_Adt(self, e, st, fr):
        fs = list(e["fs"].items())

        def f(s, vs):
            d = {n: v for (n, _), v in zip(fs, vs)}
            if e.get("base"):
                a = self.p.adts.get(e["adt"])
                b = e["base"]

                def g(s2, bv):
                    bv = self.rv(s2, bv)
                    dd = dict(d)
                    if a:
                        for fd in a["variants"][0]["fs"]:
                            if fd["n"] not in dd:
                                dd[fd["n"]] = fld(bv, fd["n"])
                    return [(s2, adt(e["adt"], e["variant"], dd))]

                return self.bind(self.eval(b, s, fr), g)
            return [(s, adt(e["adt"], e["variant"], d))]

        return self.bind(self.evals([x for _, x in fs], st, fr), f)

    def e_Closure(self, e, st, fr):
        caps = []
        seen = set()

        def rootvar(x):
            m = False
            while True:
                if x["k"] == "Borrow":
                    m = m or x["m"]
                    x = x["e"]
                elif x["k"] in ("Deref", "Field", "Cast", "Coerce", "Never"):
                    x = x["e"]
                elif x["k"] in ("Var", "Upvar"):
                    return x["v"], m
                else:
                    return None, m

        for u in e.get("up") or []:
            v, m = rootvar(u)
            if v is None:
                continue
            if (v, True) in seen or (v, m) in seen:
                continue
            seen.add((v, m))
            r = fr.vars.get(v)
            if r is None:
                continue
            if m:
                val = mk("ref", r, ())
            else:
                val = st.store.get(r, sym("?" + v))
            caps = [c for c in caps if c[0] != v] + [(v, val, m)]
        return [(st, mk("clo", e["id"], tuple(sorted(caps, key=lambda c: c[0]))))]

    def e_Fn(self, e, st, fr):
        return [(st, mk("fn", FnRef(e["fn"], e.get("t"))))]

    def e_Const(self, e, st, fr):
        b = self.p.bodies.get(e["fn"]["id"])
        if b is not None and b.get("body"):
            f2 = Frame(fr.fid + ("const",), fr.stack, fr.sub)
            try:
                outs = self.eval(b["body"], st.fork(), f2)
            except TooComplex:
                outs = []
            if len(outs) == 1 and not isinstance(outs[0][1], Ctl):
                return [(st, outs[0][1])]
        n = strip(e["fn"]["path"])
        return [(st, app("const:" + n))]

    def e_Static(self, e, st, fr):
        b = self.p.bodies.get(e["id"])
        t = self.p.types[b["body"]["t"]]["s"] if b is not None and b.get("body") else ""
        if b is not None and "mutability: Not" in b["kind"] and not re.search(r"Cell|Atomic|Mutex|RwLock|Once|Lazy", t):
            return self.e_Const({"fn": {"id": e["id"], "path": e["id"]}}, st, fr)
        return [(st, app("static:" + str(e["id"])))]

    def e_Zst(self, e, st, fr):
        return [(st, UNIT)]

    # ---------------------------------------------------------------- calls

    def e_Call(self, e, st, fr):
        fn = e.get("fn")
        if fn is None:

            def g(s, vs):
                return self.apply(s, vs[0], vs[1:], e, fr)

            return self.bind(self.evals([e["fx"]] + e["a"], st, fr), g)
        return self.bind(
            self.evals(e["a"], st, fr), lambda s, vs: self.call(s, fn, list(vs), e, fr)
        )

    def apply(self, st, f, args, e, fr):
        """Call a function value."""
        f = self.rv(st, f)
        if f.op == "clo":
            return self.call_closure(st, f, args, e, fr)
        if f.op == "fn":
            fn = f.a[0].fn
            if fn["kind"].startswith("Ctor"):
                return [(st, self.ctor(fn, args))]
            return self.call(st, fn, list(args), {"t": None, "s": e.get("s", "") if e else "", "k": "Call"}, fr)
        args = [self.rv(st, a) for a in args]
        r = app("apply", f, *args)
        return [(st, r)]

    def ctor(self, fn, args):
        ps = fn["id"].split("::")
        if ps[-1].startswith("{constructor"):
            ps = ps[:-1]
        if "Variant" in fn["kind"]:
            a, v = "::".join(ps[:-1]), ps[-1]
        else:
            a, v = "::".join(ps), ps[-1]
        return adt(a, v, {str(i): x for i, x in enumerate(args)})

    def call_closure(self, st, c, args, e, fr):
        cid, caps = c.a
        b = self.p.bodies.get(cid)
        if b is None or len(fr.stack) > self.maxdepth:
            return [(st, app("closure", c, *args))]
        f2 = Frame(fr.fid + ((e or {}).get("s", ""), cid), fr.stack + (cid,), fr.sub)
        for v, val, m in caps:
            if m and val.op == "ref" and not val.a[1]:
                f2.vars[v] = val.a[0]
            else:
                f2.vars[v] = self.newroot(st, val, v)
        ps = [x for x in b["params"]][1:]
        return self.run_body(st, b, ps, args, f2)

    def run_body(self, st, b, ps, args, f2):
        pend = [st]
        for prm, a in zip(ps, args):
            nxt = []
            for s in pend:
                if prm.get("p") is None:
                    nxt.append(s)
                    continue
                r = self.newroot(s, a)
                nxt += [s2 for s2, okb in self.match(s, (r, ()), prm["p"], f2) if okb]
            pend = nxt
        out = []
        for s in pend:
            for s2, v in self.eval(b["body"], s, f2):
                if isinstance(v, Ctl):
                    if v.kind == "ret":
                        out.append((s2, v.val))
                    else:
                        out.append((s2, v))
                else:
                    out.append((s2, v))
        return out

    def call(self, st, fn, args, e, fr):
        name = self.p.fname(fn)
        res = fn.get("res")
        target = None
        if res is not None:
            if res.get("local"):
                target = res["id"]
        elif fn.get("local"):
            target = fn["id"]
        m = self.models.get(name)
        if fn.get("local") and m is not None and not fn.get("trait"):
            m = None
        if target and target in self.opaque:
            tb = self.p.bodies.get(target)
            if tb is not None and tb.get("trait") and tb.get("self") is not None:
                # which implementation is part of the name
                name = short(self.p.types[tb["self"]]["h"]) + "::" + tb["name"]
            return self.opaque_call(st, name, args, e)
        if name in self.opaque:
            return self.opaque_call(st, name, args, e)
        if m is not None:
            r = m(self, st, fn, args, e, fr)
            if r is not None:
                return r
        if target and target in self.p.bodies:
            return self.inline_call(st, target, args, e, fr, name)
        if not target and fn.get("trait") and args:
            # a trait method on a type known only at the call: dispatch on the value
            a0 = self.rv(st, args[0])
            if a0.op == "adt":
                b = self.impl_for_adt(short(fn["trait"]), short(fn["path"]), a0.a[0])
                if b is not None:
                    return self.inline_call(st, b["id"], args, e, fr, name)
        return self.opaque_call(st, name, args, e)

    def impl_for_adt(self, trait, method, adtname):
        c = [
            b
            for b in self.p.trait_bodies.get((trait, method), ())
            if b.get("self") is not None and self.p.types[b["self"]]["h"] == adtname
        ]
        return c[0] if len(c) == 1 else None

    def inline_call(self, st, target, args, e, fr, name):
        b = self.p.bodies[target]
        again = target in fr.stack and not (self.unroll and any(self.rv(st, a).op == "adt" for a in args))
        if b.get("logos") or not self.inline or again or len(fr.stack) > self.maxdepth or b.get("body") is None:
            return self.opaque_call(st, name, args, e)
        self.inlined.add(target)
        f2 = Frame(fr.fid + (e.get("s", ""), target), fr.stack + (target,), fr.sub)
        return self.run_body(st, b, b["params"], args, f2)

    def opaque_call(self, st, name, args, e):
        """A function that is not analysed: an uninterpreted result, and every mutable
        reference passed to it may change."""
        self.unknown.add(name)
        vals = [self.rv(st, a) for a in args]
        r = app(name, *vals)
        st.eff += (("call", name, tuple(vals), e.get("s", "") if e else ""),)
        for i, a in enumerate(args):
            if a.op == "ref":
                self.setref(st, a, app(f"after:{name}#{i}", *vals))
        return [(st, r)]

    # ---------------------------------------------------------------- sequences

    def nonempty(self, st, v):
        """[(state, bool)]"""
        v = self.rv(st, v)
        if v.op == "seq":
            ps = v.a[0]
            if any(p[0] == "one" for p in ps):
                return [(st, True)]
            out = []
            pend = [st]
            for p in ps:
                nxt = []
                for s in pend:
                    c = self.part_nonempty(p)
                    for s2, b in self.split(s, c):
                        (out.append((s2, True)) if b else nxt.append(s2))
                pend = nxt
            return out + [(s, False) for s in pend]
        if v.op == "lit" and v.a[0] in ("str", "bytes"):
            return [(st, len(v.a[1]) > 0)]
        return self.split(st, app("nonempty", v))

    def part_nonempty(self, p):
        if p[0] == "all":
            if p[1].op == "lit":
                return lbool(len(p[1].a[1]) > 0)
            return app("nonempty", p[1])
        src, rows = p[1], p[2]
        rows = [(g, ps) for g, ps in rows if ps]
        if any(not g for g, _ in rows):
            return app("nonempty", src)
        return mk("exists", src, frozenset(frozenset(g) for g, _ in rows))

    def pop_front(self, st, ref):
        """Remove the first element of the sequence at ref: [(state, Option)]."""
        v = self.rv(st, ref)
        if v.op == "lit" and v.a[0] == "str":
            v = seq([("one", lit("char", c)) for c in v.a[1]])
        ps = parts(v)
        if not ps:
            return [(st, NONE)]
        p = ps[0]
        rest = ps[1:]
        if p[0] == "one":
            self.setref(st, ref, seq(rest))
            return [(st, some(p[1]))]
        out = []
        if p[0] == "all":
            src = p[1]
            for s, b in self.split(st, app("nonempty", src)):
                if b:
                    self.setref(s, ref, seq((("all", app("tail", src)),) + rest))
                    out.append((s, some(app("head", src))))
                else:
                    self.setref(s, ref, seq(rest))
                    out += self.pop_front(s, ref)
            return out
        src, rows = p[1], p[2]
        if len(rows) == 1 and not rows[0][0] and len(rows[0][1]) == 1 and rows[0][1][0][0] == "one":
            x = rows[0][1][0][1]
            for s, b in self.split(st, app("nonempty", src)):
                if b:
                    t = app("tail", src)
                    row = (((), (("one", subst(x, {el(src): el(t)})),)),)
                    self.setref(s, ref, seq((("each", t, row),) + rest))
                    out.append((s, some(subst(x, {el(src): app("head", src)}))))
                else:
                    self.setref(s, ref, seq(rest))
                    out += self.pop_front(s, ref)
            return out
        whole = v
        for s, b in self.split(st, app("nonempty", whole)):
            if b:
                self.setref(s, ref, app("tail", whole))
                out.append((s, some(app("head", whole))))
            else:
                self.setref(s, ref, EMPTY)
                out.append((s, NONE))
        return out

    def pop_back(self, st, ref):
        v = self.rv(st, ref)
        ps = parts(v)
        if not ps:
            return [(st, NONE)]
        if ps[-1][0] == "one":
            self.setref(st, ref, seq(ps[:-1]))
            return [(st, some(ps[-1][1]))]
        out = []
        for s, b in self.nonempty(st, v):
            if b:
                self.setref(s, ref, app("init", v))
                out.append((s, some(app("last", v))))
            else:
                out.append((s, NONE))
        return out

    def append(self, st, ref, more):
        v = self.rv(st, ref)
        self.setref(st, ref, cat(v, more))

    def has(self, st, m, k):
        """[(state, bool)] whether map or set m has key k."""
        m = self.rv(st, m)
        if m.op == "mset":
            if m.a[1] is k:
                return [(st, True)]
            if distinct(m.a[1], k):
                return self.has(st, m.a[0], k)
            c = self.known(st, eq(m.a[1], k))
            if c is True:
                return [(st, True)]
            if c is False:
                return self.has(st, m.a[0], k)
        if m.op == "mrem" and m.a[1] is k:
            return [(st, False)]
        if m is MEMPTY:
            return [(st, False)]
        return self.split(st, app("has", m, k))

    # -- iteration over a sequence with a body

    def foreach(self, st, s_term, body, fr, site, want="map"):
        """Run body(state, element) -> [(state, value|Ctl)] for every element, and return
        [(state, seq of values)] where values are spliced according to `want`:
        'map' - each value is one element; 'parts' - each value is a sequence spliced in."""
        acc = self.newroot(st, EMPTY, "acc@" + site)

        def step(s, x):
            out = []
            for s2, v in body(s, x):
                if isinstance(v, Ctl):
                    out.append((s2, v))
                    continue
                add = one(v) if want == "map" else v
                s2.store[acc] = cat(s2.store[acc], add)
                out.append((s2, UNIT))
            return out

        outs = self.iterate(st, s_term, step, fr, site)
        return [(s, v if isinstance(v, Ctl) else s.store[acc]) for s, v in outs]

    def iterate(self, st, s_term, step, fr, site):
        """Run step for each element of a sequence term. [(state, UNIT|Ctl)]"""
        ps = parts(s_term)
        outs = [(st, UNIT)]
        for i, p in enumerate(ps):
            if p[0] == "one":
                outs = self.bind(outs, lambda s, _: step(s, p[1]))
            elif p[0] == "all" and p[1].op == "lit" and p[1].a[0] == "str":
                for c in p[1].a[1]:
                    outs = self.bind(outs, lambda s, _: step(s, lit("char", c)))
            else:
                src = p[1]
                rows = p[2] if p[0] == "each" else (((), (("one", el(src)),)),)
                outs = self.bind(
                    outs, lambda s, _: self.iter_part(s, src, rows, step, fr, site + f"/{i}")
                )
            # values of one step are discarded
            outs = [(s, v if isinstance(v, Ctl) else UNIT) for s, v in outs]
        return outs

    def iter_part(self, st, src, rows, step, fr, site):
        lid = repr((fr.fid, site))

        def body(s):
            out = []
            for g, ps in rows:
                s1 = s.fork()
                if not all(self.assume(s1, c, pol) for c, pol in g):
                    continue
                o = [(s1, UNIT)]
                for p in ps:
                    if p[0] == "one":
                        o = self.bind(o, lambda s2, _: step(s2, p[1]))
                    else:
                        o = self.bind(
                            o, lambda s2, _: self.iterate(s2, seq((p,)), step, fr, site + "n")
                        )
                out += o
            # rows may be partial: the remaining elements contribute nothing
            if not any(not g for g, _ in rows):
                s1 = s.fork()
                if self.exclude(s1, [g for g, _ in rows]):
                    out.append((s1, UNIT))
            return out

        conts, exits, carried, init = self.fix(st, body, lid, None)
        for k, lv in carried.items():
            self.loop_seen(lv, init[k], [(s.guards[len(st.guards) :], self.read(s, *k)) for s in conts])
        base = len(st.guards)
        return self.finish_foreach(st, src, conts, exits, carried, init, base, None, lid)

    def exclude(self, st, gs):
        """Assume none of the guard conjunctions holds, where that is a single literal."""
        for g in gs:
            if len(g) == 1:
                c, pol = g[0]
                if not self.assume(st, c, not pol):
                    return False
        return True

    def diff(self, old, new):
        if old is new:
            return []
        if old.op == "tup" and new.op == "tup" and len(old.a[0]) == len(new.a[0]):
            r = []
            for i, (x, y) in enumerate(zip(old.a[0], new.a[0])):
                r += [(("f", str(i)),) + d for d in self.diff(x, y)]
            return r
        if (
            old.op == "adt"
            and new.op == "adt"
            and old.a[1] == new.a[1]
            and not self.p.variants.get(old.a[0])
        ):
            r = []
            do, dn = dict(old.a[2]), dict(new.a[2])
            if set(do) == set(dn):
                for f in do:
                    r += [(("f", f),) + d for d in self.diff(do[f], dn[f])]
                return r
        if new.op == "with" or old.op == "with":
            ob, od = (old.a[0], dict(old.a[1])) if old.op == "with" else (old, {})
            nb, nd = (new.a[0], dict(new.a[1])) if new.op == "with" else (new, {})
            if ob is nb and all(k[0] == "f" for k in list(od) + list(nd)):
                r = []
                for k in sorted(set(od) | set(nd), key=repr):
                    r += [(k,) + d for d in self.diff(proj(old, k), proj(new, k))]
                return r
        return [()]

    def fix(self, st, body, lid, lbl):
        """Find the places a loop body changes and its rows for an arbitrary iteration.
        Returns (continue rows, exits, carried {place: lv}, init {place: term})."""
        carried = {}
        for _ in range(8):
            s0 = st.fork()
            for (r, path), lv in carried.items():
                self.write(s0, r, path, lv)
            before = dict(s0.store)
            outs = body(s0.fork())
            changed = set()
            for s, v in outs:
                if isinstance(v, Ctl) and not (v.kind == "cont" and (lbl is None or v.lbl == lbl)):
                    # exits do not feed back
                    continue
                for r, old in before.items():
                    new = s.store.get(r)
                    if new is None or new is old:
                        continue
                    for d in self.diff(old, new):
                        changed.add((r, d))
            new = {}
            for r, d in changed:
                if any(r == r2 and d[: len(d2)] == d2 for r2, d2 in carried):
                    continue
                new[(r, d)] = mk("lv", lid, r[1].split("#")[0] + "".join("." + str(x[-1]) for x in d))
            if not new:
                break
            # a wider place replaces narrower ones
            carried = {
                k: v
                for k, v in carried.items()
                if not any(k[0] == r and k[1][: len(d)] == d for r, d in new)
            }
            # deterministic, unique names
            used = {v for v in carried.values()}
            for k in sorted(new, key=repr):
                lv = new[k]
                n = 0
                while lv in used:
                    n += 1
                    lv = mk("lv", lid, new[k].a[1] + f"'{n}")
                used.add(lv)
                carried[k] = lv
        else:
            raise TooComplex("loop does not stabilise")
        init = {k: self.read(st, *k) for k in carried}
        conts, exits = [], []
        for s, v in outs:
            if not isinstance(v, Ctl) or (v.kind == "cont" and (lbl is None or v.lbl == lbl)):
                conts.append(s)
            else:
                exits.append((s, v))
        return conts, exits, carried, init

    def enums_with(self, v):
        return [vs for vs in self.p.variants.values() if v in vs]

    def simplify_rows(self, rows):
        """Merge rows with the same contribution whose guards differ in one condition."""
        cur = {}
        for g, c in rows:
            cur.setdefault(c, set()).add(frozenset(g))
        res = []
        for c, gs in cur.items():
            changed = True
            while changed:
                changed = False
                for g in list(gs):
                    for lit_ in g:
                        other = (g - {lit_}) | {(lit_[0], not lit_[1])}
                        if other in gs:
                            gs.discard(g)
                            gs.discard(other)
                            gs.add(g - {lit_})
                            changed = True
                            break
                        # every variant of an enum
                        if lit_[1] and lit_[0].op == "is":
                            t, v = lit_[0].a
                            rest = g - {lit_}
                            for vs in self.enums_with(v):
                                allv = [rest | {(mk("is", t, x), True)} for x in vs]
                                if all(x in gs for x in allv):
                                    for x in allv:
                                        gs.discard(x)
                                    gs.add(rest)
                                    changed = True
                                    break
                            if changed:
                                break
                        # implied by a weaker row
                        if any(h < g for h in gs):
                            gs.discard(g)
                            changed = True
                            break
                    if changed:
                        break
            for g in gs:
                res.append((tuple(sorted(g, key=lambda x: (show(x[0]), x[1]))), c))
        res.sort(key=lambda r: (showg(r[0]), repr(r[1])))
        return tuple(res)

    def finish_foreach(self, st, src, conts, exits, carried, init, base, itplace, lid, mapping=None):
        """Summarise a loop over all elements of src."""
        mapping = dict(mapping or {})
        lvs = {lv: k for k, lv in carried.items()}
        once = set()
        if not exits:
            for k, lv in carried.items():
                if k != itplace:
                    t = self.after_first(src, lv, init[k], [(s.guards[base:], self.read(s, *k)) for s in conts], lvs)
                    if t is not None:
                        mapping[lv] = t
                        once.add(lv)

        def gs(s):
            out = []
            for c, p in s.guards[base:]:
                if c in mapping and mapping[c] is TRUE:
                    continue
                c = subst(c, mapping)
                while c.op == "app" and c.a[0] == "not":
                    c, p = c.a[1][0], not p
                out.append((c, p))
            return tuple(out)

        def sub(t):
            return subst(t, mapping) if mapping else t

        rows = [(tuple((c, p) for c, p in gs(s) if c is not TRUE), s) for s in conts]
        out_st = st.fork()
        for k, lv in carried.items():
            if k == itplace:
                self.write(out_st, *k, EMPTY)
                continue
            if lv in once:
                # one value before the first item and another from then on
                new = next(v for v in (self.read(s, *k) for s in conts) if v is not lv)
                self.write(out_st, *k, mk("ite", app("nonempty", src), new, init[k]) if init[k] is not new else new)
                continue
            vals = [(g, sub(self.read(s, *k))) for g, s in rows]
            if all(v is lv for _, v in vals):
                continue
            self.write(out_st, *k, self.accumulate(init[k], src, lv, vals, lvs))
        # effects of the body
        eff_rows = []
        for g, s in rows:
            new = s.eff[len(st.eff) :]
            if new:
                eff_rows.append((g, tuple(self.sub_eff(x, mapping) for x in new)))
        if eff_rows:
            out_st.eff += (("foreach", src, tuple(eff_rows)),)
        res = []
        for s, v in exits:
            g = frozenset((c, p) for c, p in gs(s) if c is not TRUE)
            cond = mk("exists", src, frozenset([g]))
            first = mk("first", src, frozenset([g]))
            m2 = dict(mapping)
            m2[el(src)] = first
            s2 = st.fork()
            if not self.assume(s2, cond, True):
                continue
            for c, p in sorted(g, key=lambda x: show(x[0])):
                self.assume(s2, subst(c, {el(src): first}), p)
            for r in s.store:
                if r not in s2.store:
                    s2.store[r] = s.store[r]
            mm = dict(mapping)

            def ss(t):
                return subst(sub(t), {el(src): first})

            for r in list(st.store):
                if s.store[r] is not st.store[r]:
                    v0 = s.store[r]
                    back = {}
                    for k, lv in carried.items():
                        back[lv] = mk("partial", out_st.store[k[0]]) if k[1] == () else mk(
                            "partial", self.read(out_st, *k)
                        )
                        if all(self.read(cs, *k) is lv for cs in conts):
                            back[lv] = init[k]
                    s2.store[r] = subst(ss(v0), back)
            new = s.eff[len(st.eff) :]
            if new:
                s2.eff += (("foreach-exit", src, ((tuple(sorted(g, key=lambda x: show(x[0]))), new),)),)
            val = v
            if v.val is not None:
                val = Ctl(v.kind, v.lbl, ss(v.val))
            res.append((s2, val))
        alive = True
        for s, v in exits:
            g = frozenset((c, p) for c, p in gs(s) if c is not TRUE)
            if not self.assume(out_st, mk("exists", src, frozenset([g])), False):
                alive = False
        if alive:
            res.append((out_st, UNIT))
        return res

    def after_first(self, src, lv, init, vals, lvs):
        """A place which has another value from the second item on: its value at an item, by the item's position."""
        news = {v for _, v in vals if v is not lv}
        if len(news) != 1:
            return None
        (new,) = news
        if new is init or any(x in lvs or x is el(src) or x is app("pos", src) for x in subterms(new)):
            return None
        if any(x in lvs for x in subterms(init)):
            return None
        for g, v in vals:
            if v is lv and not (new.op == "lit" and new.a[1] in (True, False) and (lv, new.a[1]) in tuple(g)):
                return None
        first = app("eq", app("pos", src), lint(0))
        if init is TRUE and new is FALSE:
            return first
        if init is FALSE and new is TRUE:
            return app("not", first)
        if init.op == "lit" and init.a[1] in (True, False) and init.a[0] == "bool":
            return None
        return mk("ite", first, init, new)

    def sub_eff(self, e, mapping):
        if not mapping:
            return e
        def go(x):
            if isinstance(x, T):
                return subst(x, mapping)
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            return x

        return go(e)

    def accumulate(self, init, src, lv, vals, lvs):
        """The value after the loop of a place whose value per iteration is given."""

        def has_lv(t):
            return any(x in lvs for x in subterms(t))

        # only parts of it change, each on its own
        ks = {p for _, v in vals if v.op == "with" and v.a[0] is lv for p, _ in v.a[1]}
        if ks and all(v is lv or v.op == "with" and v.a[0] is lv for _, v in vals) and all(k[0] in "fv" for k in ks):
            own = {proj(lv, k): mk("lv", "part", lv, k) for k in ks}
            r = init
            for k in ks:
                n = own[proj(lv, k)]
                vs = [
                    (tuple((subst(c, own), p) for c, p in g), subst(dict(v.a[1]).get(k, proj(lv, k)) if v is not lv else proj(lv, k), own))
                    for g, v in vals
                ]
                if any(lv in subterms(subst(x, {n: UNIT})) for g, v in vs for x in [v] + [c for c, _ in g]):
                    r = None
                    break
                r = upd(r, k, self.accumulate(proj(init, k), src, n, vs, set(lvs) | set(own.values())))
            if r is not None:
                return r
        # append only
        contrib = []
        okk = True
        for g, v in vals:
            ps = parts(v)
            if v is lv:
                contrib.append((g, ()))
            elif v.op == "seq" and ps and ps[0] == ("all", lv):
                rest = ps[1:]
                if has_lv(mk("seq", rest)) or any(has_lv(c) for c, _ in g):
                    okk = False
                    break
                contrib.append((g, rest))
            else:
                okk = False
                break
        if okk:
            rows = self.simplify_rows(contrib)
            rows = tuple((g, ps) for g, ps in rows if ps)
            return cat(init, seq((("each", src, rows),)))
        # insert only
        contrib = []
        okk = True
        for g, v in vals:
            ks = []
            t = v
            while t.op == "mset" and t is not lv:
                ks.append(tup(t.a[1], t.a[2]))
                t = t.a[0]
            if t.op == "mext" and t.a[0] is lv:
                ks = [None]
            if t is not lv or any(k is None or has_lv(k) for k in ks):
                okk = False
                break
            # conditions on the key not being there yet do not matter for a set
            g2 = []
            for c, p in g:
                if c.op == "app" and c.a[0] == "has" and c.a[1][0] is lv:
                    if all(k.a[0][1] is UNIT for k in ks):
                        continue
                g2.append((c, p))
            if any(has_lv(c) for c, _ in g2):
                okk = False
                break
            contrib.append((tuple(g2), tuple(("one", k) for k in reversed(ks))))
        if okk:
            rows = self.simplify_rows(contrib)
            rows = tuple((g, ps) for g, ps in rows if ps)
            return mext(init, seq((("each", src, rows),)))
        m = {lv: mk("acc")}
        rows = self.simplify_rows(
            [(tuple((subst(c, m), p) for c, p in g), subst(v, m)) for g, v in vals]
        )
        return mk("fold", init, src, rows)

    def e_Loop(self, e, st, fr):
        lbl = e.get("lbl")
        # concrete iteration over a known list
        known = self.try_unroll(e, st, fr)
        if known is not None:
            return known
        lid = repr((fr.fid, e.get("s", "")))

        def body(s):
            f2 = fr
            return self.eval(e["body"], s, f2)

        return self.looped(st, body, lid, lbl, fr, e.get("s", ""))

    def looped(self, st, body, lid, lbl, fr, site):
        conts, exits, carried, init = self.fix(st, body, lid, lbl)
        for k, lv in carried.items():
            self.loop_seen(lv, init[k], [(s.guards[len(st.guards) :], self.read(s, *k)) for s in conts])
        base = len(st.guards)
        # is it an iteration draining a sequence?
        for k, lv in sorted(carried.items(), key=lambda kv: repr(kv[0])):
            if self.plain:
                break
            ne = app("nonempty", lv)
            hd, tl = app("head", lv), app("tail", lv)

            def pol(s):
                for c, p in s.guards[base:]:
                    if c is ne:
                        return p
                return None

            if not conts or not all(
                pol(s) is True and self.read(s, *k) is tl for s in conts
            ):
                continue
            exh = [
                (s, v)
                for s, v in exits
                if pol(s) is False and v.kind == "brk" and v.lbl == lbl
            ]
            if not exh or any(pol(s) is None for s, v in exits):
                continue
            other = [(s, v) for s, v in exits if pol(s) is True]
            if len(exh) + len(other) != len(exits) or len(exh) != 1:
                continue
            # exhaustion must not do anything else
            es, ev = exh[0]
            others_same = all(self.read(es, *k2) is lv2 for k2, lv2 in carried.items() if k2 != k)
            if not others_same or len(es.eff) != len(st.eff):
                continue
            return self.drain(st, k, lv, conts, other, carried, init, base, lid, fr, lbl, es, ev, body)
        # a general loop
        if not exits:
            return []
        info = LoopInfo(
            lid,
            {lv: init[k] for k, lv in carried.items()},
            [(s.guards[base:], {lv: self.read(s, *k) for k, lv in carried.items()}, s.eff[len(st.eff) :]) for s in conts],
            [(s.guards[base:], v) for s, v in exits],
            site,
        )
        res = []
        if not conts:
            # never repeats
            pass
        for s, v in exits:
            s.eff = st.eff + ((("loop", info),) if conts else ()) + s.eff[len(st.eff) :]
            if v.kind == "brk" and v.lbl == lbl:
                res.append((s, v.val if v.val is not None else UNIT))
            else:
                res.append((s, v))
        return res

    def drain(self, st, k, lv, conts, other, carried, init, base, lid, fr, lbl, es, ev, body):
        src0 = init[k]
        ps = parts(src0)
        ne, hd = app("nonempty", lv), app("head", lv)
        if len(ps) == 1 and ps[0][0] == "all":
            src = ps[0][1]
            rows = None
        elif len(ps) == 1 and ps[0][0] == "each":
            src = ps[0][1]
            rows = ps[0][2]
            if not all(len(x) == 1 and x[0][0] == "one" for _, x in rows):
                src, rows = src0, None
        else:
            src, rows = src0, None
        alts = [((), el(src))] if rows is None else [(g, x[0][1]) for g, x in rows]
        outs_c, outs_e = [], []
        for g, x in alts:
            m = {hd: x, ne: TRUE, app("tail", lv): app("rest", src)}
            for s in conts:
                s2 = s.fork()
                s2.guards = s.guards[:base] + tuple(g) + self.undecided((subst(c, m), p) for c, p in s.guards[base:] if c is not ne)
                s2.store = {r: (subst(t, m) if isinstance(t, T) else t) for r, t in s.store.items()}
                s2.eff = s.eff[: len(st.eff)] + tuple(self.sub_eff(x2, m) for x2 in s.eff[len(st.eff) :])
                outs_c.append(s2)
            for s, v in other:
                s2 = s.fork()
                s2.guards = s.guards[:base] + tuple(g) + self.undecided((subst(c, m), p) for c, p in s.guards[base:] if c is not ne)
                s2.store = {r: (subst(t, m) if isinstance(t, T) else t) for r, t in s.store.items()}
                s2.eff = s.eff[: len(st.eff)] + tuple(self.sub_eff(x2, m) for x2 in s.eff[len(st.eff) :])
                v2 = Ctl(v.kind, v.lbl, subst(v.val, m) if v.val is not None else None)
                outs_e.append((s2, v2))
        outs_c = [s for s in outs_c if self.feasible(s, base)]
        outs_e = [(s, v) for s, v in outs_e if self.feasible(s, base)]
        # the iterator itself ends empty
        car = {k2: l2 for k2, l2 in carried.items() if k2 != k}
        res = self.finish_foreach(st, src, outs_c, outs_e, car, init, base, None, lid)
        out = []
        for s, v in res:
            if isinstance(v, Ctl):
                if v.kind == "brk" and v.lbl == lbl:
                    out.append((s, v.val if v.val is not None else UNIT))
                else:
                    out.append((s, v))
            else:
                self.write(s, *k, EMPTY)
                bv = ev.val if ev.val is not None else UNIT
                out.append((s, bv))
        return out

    @staticmethod
    def undecided(gs):
        """Without the conditions which hold by themselves (one which does not stays, for feasible to see)."""
        return tuple((c, p) for c, p in gs if not (c.op == "is" and c.a[0].op == "adt" and (c.a[0].a[1] == c.a[1]) == p or c is (TRUE if p else FALSE)))

    def feasible(self, s, base):
        t = St()
        for c, p in s.guards:
            if not self.assume(t, c, p):
                return False
        return True

    def try_unroll(self, e, st, fr):
        """Unroll a for loop over a list known element by element."""
        b = e["body"]
        it = None
        # body: { match next(&mut iter) {None => break, Some(x) => ...} }
        m = b
        while m and m["k"] == "Block":
            if m["st"]:
                m = m["st"][0]["e"] if m["st"][0]["k"] == "E" else None
            else:
                m = m.get("e")
        if not m or m["k"] != "Match" or not (m.get("src") or "").startswith("ForLoop"):
            return None
        call = m["e"]
        if call["k"] != "Call":
            return None
        a = call["a"][0]
        while a["k"] in ("Borrow", "Deref"):
            a = a["e"]
        if a["k"] not in ("Var", "Upvar"):
            return None
        r = fr.vars.get(a["v"])
        if r is None:
            return None
        v = self.rv(st, st.store[r])
        if v.op != "seq":
            return None
        lbl = e.get("lbl")
        if not all(p[0] == "one" for p in v.a[0]):
            return self.part_by_part(e, st, fr, r, v, lbl)
        if len(v.a[0]) > 12:
            return None
        res = []
        pend = [st]
        for _ in range(len(v.a[0]) + 1):
            nxt = []
            for s in pend:
                for s2, x in self.eval(e["body"], s, fr):
                    if not isinstance(x, Ctl) or (x.kind == "cont" and x.lbl == lbl):
                        nxt.append(s2)
                    elif x.kind == "brk" and x.lbl == lbl:
                        res.append((s2, x.val if x.val is not None else UNIT))
                    else:
                        res.append((s2, x))
            pend = nxt
        return res

    def part_by_part(self, e, st, fr, r, v, lbl):
        """A for loop over the concatenation of several sequences is a loop over each in turn."""
        ps = parts(v)
        if len(ps) < 2 and not (ps[0][0] == "each" and any(len(x) != 1 or x[0][0] != "one" for _, x in ps[0][2])):
            return None

        def step(s, x):
            s.store[r] = one(x)
            out = []
            for s2, c in self.eval(e["body"], s, fr):
                if not isinstance(c, Ctl) or (c.kind == "cont" and c.lbl == lbl):
                    c = UNIT
                s2.store[r] = EMPTY
                out.append((s2, c))
            return out

        st.store[r] = EMPTY
        res = []
        for s, c in self.iterate(st, v, step, fr, e.get("s", "")):
            if isinstance(c, Ctl) and c.kind == "brk" and c.lbl == lbl:
                c = c.val if c.val is not None else UNIT
            res.append((s, c if c is not None else UNIT))
        return res

    # ---------------------------------------------------------------- entry point

    def run(self, body, args=None, names=None):
        """Summarise a function over its inputs. Returns rows."""
        st = St()
        fr = Frame((body["id"],), (body["id"],), {})
        vals = []
        params = {}
        for i, prm in enumerate(body["params"]):
            pn = None
            if prm.get("p") is not None and prm["p"]["k"] == "Bind":
                pn = prm["p"]["v"].split("#")[0]
            pn = pn or f"arg{i}"
            if names and i < len(names) and names[i]:
                pn = names[i]
            v = args[i] if args and i < len(args) and args[i] is not None else sym(pn)
            t = self.p.types[prm["t"]] if prm.get("t") is not None else None
            if t is not None and t["h"] == "&mut" and v.op != "ref":
                r = self.newroot(st, v, pn)
                vals.append(mk("ref", r, ()))
                params[pn] = (lambda r: lambda s: s.store[r])(r)
            else:
                vals.append(v)
                params[pn] = (lambda v: lambda s: v)(v)
        outs = self.run_body(st, body, body["params"], vals, fr)
        rows = []
        for s, v in outs:
            if isinstance(v, Ctl):
                if v.kind == "div":
                    continue
                raise TooComplex("stray " + v.kind)
            rows.append(Row(s, self.deep(s, v), params))
        return rows

    def apply_value(self, f, args):
        """Apply a function value to argument terms: [(guards, result)]."""
        st = St()
        fr = Frame(("apply",), (), {})
        return [(s.guards, self.deep(s, v)) for s, v in self.apply(st, f, args, {"s": "", "k": "Call", "t": None}, fr) if not isinstance(v, Ctl)]

    def apply_refs(self, f, args, refs):
        """Apply a function value; args are terms or names of refs, which are mutable places with
        the initial values given: [(guards, result, {name: final value})]."""
        st = St()
        fr = Frame(("apply",), (), {})
        roots = {n: self.newroot(st, v, n) for n, v in refs.items()}
        av = [mk("ref", roots[a], ()) if isinstance(a, str) else a for a in args]
        out = []
        for s, v in self.apply(st, f, av, {"s": "", "k": "Call", "t": None}, fr):
            if isinstance(v, Ctl):
                continue
            out.append((s.guards, self.deep(s, v), {n: s.store[r] for n, r in roots.items()}))
        return out

    def deep(self, st, v):
        """Replace references in a value by what they refer to."""
        if v.op == "ref":
            return self.deep(st, self.rv(st, v))
        return v


class FnRef:
    """A function item, compared by identity of the item."""

    _tab = {}

    def __new__(cls, fn, t):
        k = (fn["id"], tuple(fn.get("targs") or ()))
        o = cls._tab.get(k)
        if o is None:
            o = object.__new__(cls)
            o.fn = fn
            cls._tab[k] = o
        return o

    def __repr__(self):
        return strip(self.fn["path"]).replace("beancount_parser_lima::", "")


def strip(p):
    from ir import strip_generics

    return strip_generics(p) if "<" in p else p


def mext(m, s):
    """Map or set m extended by the pairs of s."""
    if s is EMPTY:
        return m
    if m.op == "mext":
        return mk("mext", m.a[0], cat(m.a[1], s))
    return mk("mext", m, s)
