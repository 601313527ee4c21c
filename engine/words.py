"""Decides predicates over texts: a decision table extracted from the program, whose conditions are
formulas over a text, is compared with a specified language word by word over an alphabet of
representatives of the character classes. No code runs: the formulas are the analysis' own terms."""
import itertools
import re
import unicodedata

from terms import *
from ev import Ev, EMPTY

# one or more representatives of every class a validator can tell apart
ASCII = "AZaz09-_/.':# +\t\"&"
OTHER = "é" "É" "字" "٣" "½" "Ⅷ" "\u0345" "ǅ" "€" "\u00a0"


class Unknown(Exception):
    pass


def other_alphabetic(c):
    return c in "\u0345"


def pred(n, c):
    asc = ord(c) < 128
    cat = unicodedata.category(c)
    alpha = cat[0] == "L" or cat == "Nl" or other_alphabetic(c)
    num = cat[0] == "N"
    r = {
        "is_ascii_uppercase": asc and c.isupper(),
        "is_ascii_lowercase": asc and c.islower(),
        "is_ascii_digit": asc and c.isdigit(),
        "is_ascii_alphabetic": asc and c.isalpha(),
        "is_ascii_alphanumeric": asc and c.isalnum(),
        "is_ascii": asc,
        "is_alphabetic": alpha,
        "is_alphanumeric": alpha or num,
        "is_numeric": num,
        "is_uppercase": cat == "Lu" or c == "Ⅷ",
        "is_lowercase": cat == "Ll" or c == "\u0345",
        "is_whitespace": c in " \t\n\r\x0b\x0c\x85\u00a0",
        "is_ascii_whitespace": c in " \t\n\r\x0c",
        "is_ascii_punctuation": asc and not c.isalnum() and 32 < ord(c) < 127,
        "is_control": cat == "Cc",
    }.get(n)
    if r is None:
        raise Unknown(f"char::{n}")
    return bool(r)


class Opt(tuple):
    """An enum value: (variant, fields dict as tuple)."""


NONE_ = ("adt", "None", ())


class Words:
    def __init__(self, prog, maps=None, discr=None):
        self.p = prog
        self.discr = discr or {}  # discriminants of the variants of an enum
        self.maps = maps or (lambda m, k: None)  # has(m, k) for maps outside the text
        self._clo = {}

    # ------------------------------------------------------------ tables
    def select(self, rows, env):
        """The rows whose conditions all hold."""
        return [r for r in rows if self.conj(r.guards, env)]

    def conj(self, gs, env):
        """A conjunction: false when some part is, even if another is undefined."""
        und = None
        for c, p in gs:
            try:
                if self.test(c, env) != p:
                    return False
            except Unknown as x:
                und = x
        if und is not None:
            raise und
        return True

    def test(self, c, env):
        v = self.val(c, env)
        if not isinstance(v, bool):
            raise Unknown(f"condition {str(c)[:200]}")
        return v

    # ------------------------------------------------------------ terms
    def val(self, t, env):
        if t in env:
            return env[t]
        f = getattr(self, "t_" + t.op, None)
        if f is None:
            raise Unknown(f"{t.op}: {str(t)[:200]}")
        return f(t, env)

    def t_lit(self, t, env):
        return t.a[1]

    def t_tup(self, t, env):
        return tuple(self.val(x, env) for x in t.a[0])

    def t_adt(self, t, env):
        return ("adt", t.a[1], tuple((f, self.val(v, env)) for f, v in t.a[2]))

    def t_fld(self, t, env):
        v = self.val(t.a[0], env)
        return self.field(v, t.a[1])

    def field(self, v, f):
        if isinstance(v, tuple) and len(v) == 3 and v[0] == "adt":
            for n, x in v[2]:
                if n == f:
                    return x
        elif isinstance(v, tuple) and f.isdigit():
            return v[int(f)]
        raise Unknown(f"field {f}")

    def t_pay(self, t, env):
        return self.field(self.val(t.a[0], env), t.a[2])

    def t_is(self, t, env):
        v = self.val(t.a[0], env)
        if isinstance(v, tuple) and len(v) == 3 and v[0] == "adt":
            return v[1] == t.a[1]
        raise Unknown(f"variant of {str(t.a[0])[:200]}")

    def t_ite(self, t, env):
        return self.val(t.a[1] if self.test(t.a[0], env) else t.a[2], env)

    def seqval(self, t, env):
        v = self.val(t, env)
        if not isinstance(v, (str, tuple, list)) or isinstance(v, tuple) and v[:1] == ("adt",):
            raise Unknown(f"sequence {str(t)[:200]}")
        return v

    def rowsel(self, rows, env):
        out = [x for g, x in rows if self.conj(g, env)]
        return out

    def t_exists(self, t, env):
        src = t.a[0]
        for x in self.seqval(src, env):
            e2 = {**env, el(src): x}
            if any(self.conj(g, e2) for g in t.a[1]):
                return True
        return False

    def t_first(self, t, env):
        src = t.a[0]
        for x in self.seqval(src, env):
            e2 = {**env, el(src): x}
            if any(self.conj(g, e2) for g in t.a[1]):
                return x
        raise Unknown("first of none")

    def t_seq(self, t, env):
        out = []
        for q in t.a[0]:
            if q[0] == "one":
                out.append(self.val(q[1], env))
            elif q[0] == "all":
                out += list(self.seqval(q[1], env))
            else:
                for x in self.seqval(q[1], env):
                    e2 = {**env, el(q[1]): x}
                    for ps in self.rowsel(q[2], e2)[:1]:
                        out += list(self.val(seq(ps), e2))
        return tuple(out)

    def t_fold(self, t, env):
        acc = self.val(t.a[0], env)
        for x in self.seqval(t.a[1], env):
            e2 = {**env, el(t.a[1]): x, mk("acc"): acc}
            r = self.rowsel(t.a[2], e2)
            acc = self.val(r[0], e2)
        return acc

    def t_ent(self, t, env):
        m = self.val(t.a[0], env)
        k = self.val(t.a[1], env)
        if not isinstance(m, dict) or k not in m:
            raise Unknown(f"entry {str(t)[:200]}")
        return m[k]

    def t_mempty(self, t, env):
        return {}

    def t_mset(self, t, env):
        return {**self.val(t.a[0], env), self.val(t.a[1], env): self.val(t.a[2], env)}

    def t_mrem(self, t, env):
        k = self.val(t.a[1], env)
        return {a: b for a, b in self.val(t.a[0], env).items() if a != k}

    def t_mext(self, t, env):
        m = dict(self.val(t.a[0], env))
        for x in self.seqval(t.a[1], env):
            m[x[0]] = x[1]
        return m

    def t_upd(self, t, env):
        v = list(self.seqval(t.a[0], env))
        i = self.val(t.a[1], env)
        if i >= len(v):
            raise Unknown("index")
        v[i] = self.val(t.a[2], env)
        return tuple(v)

    def t_clo(self, t, env):
        return self.fun(t, env)

    def t_fn(self, t, env):
        return self.fun(t, env)

    def fun(self, t, env):
        def call(*xs):
            k = (t, len(xs))
            rows = self._clo.get(k)
            syms = [sym(f"arg{i}%{id(t)}") for i in range(len(xs))]
            if rows is None:
                ev = Ev(self.p)
                rows = self._clo[k] = ev.apply_refs(t, syms, {})
            e2 = {**env, **dict(zip(syms, xs))}
            for g, v, _ in rows:
                if self.conj(g, e2):
                    return self.val(v, e2)
            raise Unknown("no path of a closure")

        return call

    def pat(self, v):
        """A string pattern as a predicate on a character, or a string."""
        if callable(v):
            return lambda c: v(c) is True
        if isinstance(v, str):
            return v
        if isinstance(v, (tuple, list)):
            return lambda c: c in v
        raise Unknown("pattern")

    def split(self, s, p):
        if isinstance(p, str):
            if p == "":
                raise Unknown("split by nothing")
            return tuple(s.split(p))
        out, cur = [], ""
        for c in s:
            if p(c):
                out.append(cur)
                cur = ""
            else:
                cur += c
        return tuple(out + [cur])

    def matches(self, s, p):
        if isinstance(p, str):
            if p == "":
                raise Unknown("matches of nothing")
            return (p,) * s.count(p)
        return tuple(c for c in s if p(c))

    def find(self, s, p):
        if isinstance(p, str):
            i = s.find(p)
        else:
            i = next((i for i, c in enumerate(s) if p(c)), -1)
        return NONE_ if i < 0 else ("adt", "Some", (("0", len(s[:i].encode())),))

    def t_app(self, t, env):
        n, args = t.a
        short_ = n.rsplit("::", 1)[-1]
        if n == "has":
            m = self.val(args[0], env) if args[0] in env or args[0].op in ("mset", "mrem", "mext", "mempty") else None
            if isinstance(m, dict):
                return self.val(args[1], env) in m
            r = self.maps(args[0], self.val(args[1], env))
            if r is None:
                raise Unknown(f"map {str(args[0])[:100]}")
            return r
        a = [self.val(x, env) if isinstance(x, T) else x for x in args]
        if n in ("char::" + short_, "u8::" + short_) and short_.startswith("is_") and isinstance(a[0], str):
            return pred(short_, a[0])
        f = {
            "head": lambda s: s[0],
            "tail": lambda s: s[1:],
            "last": lambda s: s[-1],
            "init": lambda s: s[:-1],
            "nonempty": lambda s: len(s) > 0,
            "len": lambda s: len(s.encode()) if isinstance(s, str) else len(s),
            "count": len,
            "not": lambda x: not x,
            "eq": lambda x, y: x == y,
            "lt": lambda x, y: x < y,
            "Add": lambda x, y: x + y,
            "Sub": lambda x, y: x - y,
            "BitAnd": lambda x, y: x and y,
            "BitOr": lambda x, y: x or y,
            "BitXor": lambda x, y: x != y,
            "inrange": in_range,
            "rev": lambda s: s[::-1],
            "Iterator::rev": lambda s: s[::-1],
            "str::split": lambda s, p: self.split(s, self.pat(p)),
            "str::after": lambda s, p: s.split(p, 1)[1] if p in s else None,
            "str::find": lambda s, p: self.find(s, self.pat(p)),
            "str::contains": lambda s, p: self.find(s, self.pat(p)) != NONE_,
            "str::starts_with": lambda s, p: s.startswith(p) if isinstance(p, str) else bool(s) and self.pat(p)(s[0]),
            "str::ends_with": lambda s, p: s.endswith(p) if isinstance(p, str) else bool(s) and self.pat(p)(s[-1]),
            "str::split_once": lambda s, p: NONE_ if p not in s else ("adt", "Some", (("0", tuple(s.split(p, 1))),)),
            "str::rsplit_once": lambda s, p: NONE_ if p not in s else ("adt", "Some", (("0", tuple(s.rsplit(p, 1))),)),
            "str::rsplit": lambda s, p: self.split(s, self.pat(p))[::-1],
            "str::matches": lambda s, p: self.matches(s, self.pat(p)),
            "str::lines": lambda s: tuple(x[:-1] if x.endswith("\r") and i < s.count("\n") else x for i, x in enumerate(s.split("\n")) if x or i < s.count("\n")),
            "str::rfind": lambda s, p: NONE_ if p not in s else ("adt", "Some", (("0", len(s[: s.rindex(p)].encode())),)),
            "str::strip_suffix": lambda s, p: ("adt", "Some", (("0", s[: len(s) - len(p)]),)) if s.endswith(p) else NONE_,
            "str::to_ascii_uppercase": lambda s: "".join(c.upper() if c.isascii() else c for c in s),
            "str::to_ascii_lowercase": lambda s: "".join(c.lower() if c.isascii() else c for c in s),
            "str::eq_ignore_ascii_case": lambda s, t: len(s) == len(t) and all(x == y or (x.isascii() and y.isascii() and x.lower() == y.lower()) for x, y in zip(s, t)),
            "Ord::max": max,
            "Ord::min": min,
            "slice::contains": lambda s, x: x in s,
            "Iterator::nth": lambda s, i: ("adt", "Some", (("0", s[i]),)) if i < len(s) else NONE_,
            "Iterator::skip": lambda s, i: s[i:],
            "skip": lambda s, i: s[i:],
            "take": lambda s, i: s[:i],
            "Iterator::take": lambda s, i: s[:i],
            "Iterator::position": lambda s, p: next((("adt", "Some", (("0", i),)) for i, c in enumerate(s) if p(c)), NONE_),
            "str::trim": lambda s: s.strip(),
            "str::char_indices": lambda s: tuple((len(s[:i].encode()), c) for i, c in enumerate(s)),
            "str::trim_matches": lambda s, p: self.trim(s, self.pat(p), True, True),
            "str::trim_start_matches": lambda s, p: self.trim(s, self.pat(p), True, False),
            "str::trim_end_matches": lambda s, p: self.trim(s, self.pat(p), False, True),
            "str::replace": lambda s, p, q: self.replace(s, self.pat(p), q),
            "str::strip_prefix": lambda s, p: ("adt", "Some", (("0", s[len(p):]),)) if s.startswith(p) else NONE_,
            "str::is_empty": lambda s: s == "",
            "str::bytes": lambda s: tuple(s.encode()),
            "cast:char": lambda x: x if isinstance(x, str) else chr(x),
            "cast:u32": lambda x: ord(x) if isinstance(x, str) else x,
            "cast:u8": lambda x: ord(x) & 255 if isinstance(x, str) else x,
            "cast:usize": lambda x: ord(x) if isinstance(x, str) else self.discr[x[1]] if isinstance(x, tuple) else x,
            "index": lambda s, i: s[i],
            "get": lambda s, i: ("adt", "Some", (("0", s[i]),)) if i < len(s) else NONE_,
            "sort_by_key": lambda s, k: tuple(sorted(s, key=k)),
            "sort": lambda s: tuple(sorted(s)),
            "Iterator::enumerate": lambda s: tuple(enumerate(s)),
            "enumerate": lambda s: tuple(enumerate(s)),
        }.get(n)
        if f is None:
            raise Unknown(f"{n}: {str(t)[:200]}")
        try:
            return f(*a)
        except (TypeError, IndexError, AttributeError, KeyError) as x:
            raise Unknown(f"{n}: {x}: {str(t)[:200]}")

    def replace(self, s, p, q):
        return s.replace(p, q) if isinstance(p, str) else "".join(q if p(c) else c for c in s)

    def trim(self, s, p, l, r):
        t = (lambda c: c == p) if isinstance(p, str) else p
        while l and s and t(s[0]):
            s = s[1:]
        while r and s and t(s[-1]):
            s = s[:-1]
        return s


def in_range(x, r):
    """Whether a value lies in a range pattern as written."""
    m = re.fullmatch(r"(.*?)\.\.(=?)(.*)", r, re.S)
    if not m:
        raise Unknown(f"range {r}")

    def bound(b):
        q = re.fullmatch(r"b?'(.*)'", b, re.S)
        if q:
            return ord(q[1]) if len(q[1]) == 1 else ord(q[1].encode().decode("unicode_escape"))
        return int(re.match(r"-?\d+", b)[0]) if b else None

    v = ord(x) if isinstance(x, str) else x
    lo, hi = bound(m[1]), bound(m[3])
    return (lo is None or lo <= v) and (hi is None or (v <= hi if m[2] else v < hi))


def words(alphabet, upto):
    for n in range(upto + 1):
        for w in itertools.product(alphabet, repeat=n):
            yield "".join(w)
