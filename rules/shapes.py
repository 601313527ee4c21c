"""Evaluates extracted terms over every shape of a value: each option present or absent, each list
of none, one or two items, each enum in each of its variants; contents stay abstract. Choices are
made when first asked for and enumerated exhaustively. No code runs: the terms are the analysis' own."""
from terms import *
from ir import short

SPANNED = "Spanned"
LISTS = ("Vec", "HashSet", "BTreeSet", "VecDeque", "slice", "SmallVec")
MAPS = ("HashMap", "BTreeMap")


class Need(Exception):
    def __init__(self, path, options):
        self.path, self.options = path, options


class Unknown(Exception):
    pass


class Obj:
    """A value of the element: where it is in it and its type."""

    __slots__ = ("path", "t")

    def __init__(self, path, t):
        self.path, self.t = path, t

    def __eq__(self, o):
        return isinstance(o, Obj) and o.path == self.path

    def __hash__(self):
        return hash(self.path)

    def __repr__(self):
        return f"<{self.path}>"


class Shape:
    def __init__(self, prog, roots, choice):
        self.p, self.choice = prog, choice
        self.roots = roots  # {sym name: Obj}

    # ------------------------------------------------------------ types
    def ty(self, o):
        """The type of a value through references, boxes and spans."""
        t = o.t
        if t is None:
            return None
        while True:
            x = self.p.types[t]
            if x["h"] in ("&", "&mut", "alloc::boxed::Box") and x["a"]:
                t = x["a"][0]
            elif short(x["h"]) == SPANNED and x["a"]:
                t = x["a"][-1]
            else:
                return x

    def kind(self, o):
        x = self.ty(o)
        if x is None:
            return "leaf"
        h = short(x["h"])
        if h == "Option":
            return "opt"
        if h in LISTS or x["s"].startswith("["):
            return "list"
        if h in MAPS:
            return "map"
        if x["s"] == "bool":
            return "bool"
        if x["h"] in self.p.adts and self.p.adts[x["h"]]["enum"]:
            return "enum"
        return "leaf"

    def pick(self, o, options):
        c = self.choice.get(o.path)
        if c is None:
            raise Need(o.path, options)
        return c

    def variant(self, o):
        k = self.kind(o)
        if k == "opt":
            return self.pick(o, ("None", "Some"))
        if k == "enum":
            return self.pick(o, tuple(self.p.variants[self.ty(o)["h"]]))
        raise Unknown(f"the variant of {o} of type {self.ty(o)}")

    def field(self, o, f, variant=None):
        x = self.ty(o)
        if variant == "Some" and x and short(x["h"]) == "Option":
            return Obj(o.path + "?", x["a"][-1])
        if f == "item":
            return o
        if f == "span":
            return Obj(o.path + "@", None)
        t = None
        if x and x["h"] in self.p.adts:
            for v in self.p.adts[x["h"]]["variants"]:
                if variant is None or v["n"] == variant:
                    for fd in v["fs"]:
                        if fd["n"] == f:
                            t = fd["t"]
        elif x and x["a"] and (x["h"] in ("tuple", "(") or x["s"].startswith("(")):
            t = x["a"][int(f)] if f.isdigit() and int(f) < len(x["a"]) else None
        return Obj(o.path + (("~" + variant) if variant else "") + "." + f, t)

    def items(self, v):
        """The items of an iterable value."""
        if isinstance(v, list):
            return v
        if v is None:
            return []
        if isinstance(v, tuple) and v and v[0] == "Some":
            return [v[1]]
        if isinstance(v, Obj):
            k = self.kind(v)
            if k == "opt":
                return [self.field(v, "0", "Some")] if self.variant(v) == "Some" else []
            if k in ("list", "map"):
                n = self.pick(v, (0, 1, 2))
                x = self.ty(v)
                if k == "map":
                    return [(Obj(f"{v.path}[{i}].key", x["a"][0]), Obj(f"{v.path}[{i}].value", x["a"][1])) for i in range(n)]
                return [Obj(f"{v.path}[{i}]", x["a"][0] if x["a"] else None) for i in range(n)]
        raise Unknown(f"the items of {v}")

    # ------------------------------------------------------------ terms
    def val(self, t, env):
        if t in env:
            return env[t]
        o = t.op
        if o == "sym":
            if t.a[0] in self.roots:
                return self.roots[t.a[0]]
            raise Unknown(str(t))
        if o == "lit":
            return t.a[1]
        if o == "fld":
            return self.sel(self.val(t.a[0], env), t.a[1])
        if o == "pay":
            b = self.val(t.a[0], env)
            if isinstance(b, tuple) and b and b[0] == "Some":
                return b[1]
            if not isinstance(b, Obj):
                raise Unknown(str(t)[:100])
            return self.field(b, t.a[2], t.a[1])
        if o == "tup":
            return tuple(self.val(x, env) for x in t.a[0])
        if o == "adt":
            if t.a[1] == "None":
                return None
            if t.a[1] == "Some":
                return ("Some", self.val(fld(t, "0"), env))
            raise Unknown(str(t)[:100])
        if o == "seq":
            return self.seq(parts(t), env)
        if o == "is":
            b = self.val(t.a[0], env)
            if b is None or (isinstance(b, tuple) and b and b[0] == "Some"):
                return ("None" if b is None else "Some") == t.a[1]
            if isinstance(b, Obj):
                return self.variant(b) == t.a[1]
            raise Unknown(str(t)[:100])
        if o == "app":
            f, a = t.a
            if f == "head":
                return self.items(self.val(a[0], env))[0]
            if f == "tail":
                return self.items(self.val(a[0], env))[1:]
            if f == "nonempty":
                return len(self.items(self.val(a[0], env))) > 0
            if f == "len":
                return len(self.items(self.val(a[0], env)))
            if f == "eq":
                return self.val(a[0], env) == self.val(a[1], env)
            if f in ("lt", "le"):
                x, y = self.val(a[0], env), self.val(a[1], env)
                if isinstance(x, int) and isinstance(y, int):
                    return x < y if f == "lt" else x <= y
            if f == "not":
                return not self.truth(a[0], env)
            if f.startswith("sort"):
                return self.items(self.val(a[0], env))
            if f in ("disp", "into", "Clone::clone"):
                return self.val(a[0], env)
        if o == "ite":
            return self.val(t.a[1] if self.truth(t.a[0], env) else t.a[2], env)
        if o == "exists":
            src = self.items(self.val(t.a[0], env))
            return any(all(self.truth(c, {**env, el(t.a[0]): x}) == p for c, p in g) for x in src for g in t.a[1])
        raise Unknown(str(t)[:100])

    def sel(self, b, f):
        if isinstance(b, Obj):
            return self.field(b, f)
        if isinstance(b, tuple) and f.isdigit() and int(f) < len(b):
            return b[int(f)]
        raise Unknown(f"field {f} of {b}")

    def truth(self, c, env):
        v = self.val(c, env)
        if isinstance(v, Obj) and self.kind(v) == "bool":
            v = self.pick(v, (False, True))
        if not isinstance(v, bool):
            raise Unknown(f"the truth of {str(c)[:100]}")
        return v

    def holds(self, gs, env):
        und = None
        for c, p in gs:
            try:
                if self.truth(c, env) != p:
                    return False
            except Unknown as x:
                und = x
            except IndexError:
                return False  # the head of an empty list: a path that cannot be taken
        if und:
            raise und
        return True

    def seq(self, ps, env):
        out = []
        for p in ps:
            if p[0] == "one":
                out.append(self.val(p[1], env))
            elif p[0] == "all":
                out += self.items(self.val(p[1], env))
            else:
                for i, x in enumerate(self.items(self.val(p[1], env))):
                    e = {**env, el(p[1]): x, app("pos", p[1]): i}
                    for g, pp in p[2]:
                        if self.holds(g, e):
                            out += self.seq(pp, e)
                            break
        return out

    def select(self, rows, env=None):
        return [r for r in rows if self.holds(r.guards, env or {})]

    # ------------------------------------------------------------ text
    def text(self, ps, env):
        """What a sequence of text parts writes: literal text and values."""
        out = []
        for p in ps:
            if p[0] == "each":
                for i, x in enumerate(self.items(self.val(p[1], env))):
                    e = {**env, el(p[1]): x, app("pos", p[1]): i}
                    n = 0
                    for g, pp in p[2]:
                        if self.holds(g, e):
                            n += 1
                            out += self.text(pp if isinstance(pp, tuple) else parts(pp), e)
                    if n != 1:
                        raise Unknown(f"{n} ways to write an item")
            else:
                out += self.write(p[1], env)
        return out

    def write(self, t, env):
        if t.op == "ite":
            return self.write(t.a[1] if self.truth(t.a[0], env) else t.a[2], env)
        if t.op == "lit":
            return [str(t.a[1])]
        if t.op == "seq":
            return self.text(parts(t), env)
        if t.op == "app" and t.a[0] == "disp":
            return self.write(t.a[1][0], env)
        v = self.val(t, env)
        if isinstance(v, (Obj, str)):
            return [v]
        raise Unknown(f"writes {v}")


def explore(f, limit=20000):
    """Call f with every assignment of choices it asks for; yields (choice, result)."""
    todo = [{}]
    n = 0
    while todo:
        c = todo.pop()
        n += 1
        if n > limit:
            raise Unknown("too many shapes")
        try:
            yield c, f(c)
        except Need as x:
            for o in reversed(x.options):
                todo.append({**c, x.path: o})
