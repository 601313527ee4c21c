"""What a span of a source means: which text it cuts, in bytes, characters and lines. Shared by C02 and C13."""
from common import *
from ev import is_


def num(t):
    """A source id as a number: conversions between its types do not matter."""
    while True:
        if t.op == "app" and t.a[0].startswith("cast:") and len(t.a[1]) == 1:
            t = t.a[1][0]
        elif t.op == "adt" and short(t.a[0]) == "SourceId" and t.a[2]:
            t = t.a[2][0][1]
        elif t.op == "fld" and t.a[1] == "0":
            t = t.a[0]
        else:
            return t


def same_id(a, b):
    return num(a) is num(b)


def counted(t):
    """A loop which counts elements, as their count."""
    if t.op != "fold":
        return t
    base, src, rows = t.a[0], t.a[1], t.a[2]
    acc, more = mk("acc"), []
    for g, v in rows:
        if v is acc:
            continue
        if not same_list(total(v), [acc, lint(1)]):
            return t
        more.append((tuple(g), (("one", el(src)),)))
    return app("Add", base, app("count", seq((("each", src, tuple(more)),))))


def same_list(a, b):
    return sorted(map(str, a)) == sorted(map(str, b))


def total(t):
    """The summands of a sum."""
    t = counted(t)
    if t.op == "app" and t.a[0] == "Add":
        return [y for x in t.a[1] for y in total(x)]
    if t.op == "lit" and t.a[1] == 0:
        return []
    return [t]


def same_sum(a, b):
    a, b = total(a), list(total(b))
    for x in a:
        if x in b:
            b.remove(x)
        else:
            return False
    return not b


def rng(r):
    """(start, end) of a range term, None where open; None if it is none."""
    if r.op != "adt":
        return None
    n = short(r.a[0])
    if n == "Range":
        return fld(r, "start"), fld(r, "end")
    if n == "RangeTo":
        return lint(0), fld(r, "end")
    if n == "RangeFrom":
        return fld(r, "start"), None
    return None


def cut(t, text):
    """(start, end) where the term is a slice of the text."""
    if t is text:
        return lint(0), None
    if t.op == "app" and t.a[0] == "index" and t.a[1][0] is text:
        return rng(t.a[1][1])
    return None


def same_num(a, b):
    return a is b or same_sum(a, b)


class Text:
    """A text of a source with the table of the byte offsets of its characters."""

    def __init__(self, text, table):
        self.text, self.table = text, table

    def chars(self, t, b):
        """Is the term the number of characters of the text which start before byte b?"""
        if b.op == "lit" and b.a[1] == 0 and t.op == "lit" and t.a[1] == 0:
            return True
        if t.op == "pay" and t.a[0].op == "app" and t.a[0].a[0] == "slice::binary_search":
            x = t.a[0].a[1]
            return x[0] is self.table and same_num(x[1], b)
        if t.op != "app":
            return False
        if t.a[0] == "slice::partition_point":
            return t.a[1][0] is self.table and self.below(t.a[1][1], b)
        if t.a[0] in ("count", "len"):
            x = t.a[1][0]
            if x.op == "app" and x.a[0] == "Iterator::take_while":
                return x.a[1][0] is self.table and self.below(x.a[1][1], b)
            if x.op == "seq" and len(x.a[0]) == 1 and x.a[0][0][0] == "each":
                _, src, rows = x.a[0][0]
                rows = [(g, ps) for g, ps in rows if ps]
                return src is self.table and len(rows) == 1 and len(rows[0][1]) == 1 and len(rows[0][0]) == 1 and tuple(rows[0][0])[0][1] is True and self.below(tuple(rows[0][0])[0][0], b)
            if t.a[0] == "count":
                c = cut(x, self.text)
                return c is not None and c[0].op == "lit" and c[0].a[1] == 0 and c[1] is not None and same_num(c[1], b)
        return False

    def below(self, c, b):
        return c.op == "app" and c.a[0] == "lt" and c.a[1][0] is el(self.table) and same_num(c.a[1][1], b)

    def newlines(self, t, a, b):
        """Is the term the number of newlines between bytes a and b of the text?"""
        if t.op == "lit":
            return t.a[1] == 0 and same_num(a, b)
        if not (t.op == "app" and t.a[0] in ("count", "len")):
            return False
        x = t.a[1][0]
        if x.op == "app" and x.a[0] == "str::matches":
            return x.a[1][1].op == "lit" and x.a[1][1].a[1] == "\n" and self.between(x.a[1][0], a, b)
        if not (x.op == "seq" and len(x.a[0]) == 1 and x.a[0][0][0] == "each"):
            return False
        _, src, rows = x.a[0][0]
        rows = [(tuple(g), ps) for g, ps in rows if ps]
        if len(rows) != 1 or len(rows[0][1]) != 1 or rows[0][1][0][0] != "one" or len(rows[0][0]) != 1:
            return False
        c, pol = rows[0][0][0]
        if pol is not True or c.op != "app" or c.a[0] != "eq" or el(src) not in c.a[1]:
            return False
        o = c.a[1][0] if c.a[1][1] is el(src) else c.a[1][1]
        if src.op == "app" and src.a[0] == "str::bytes":
            return o.op == "lit" and o.a[1] in (10, b"\n", "\n") and self.between(src.a[1][0], a, b)
        return o.op == "lit" and o.a[1] == "\n" and self.between(src, a, b)

    def between(self, t, a, b):
        """Is the term the part of the text between bytes a and b?"""
        c = cut(t, self.text)
        if c is not None:
            return same_num(c[0], a) and c[1] is not None and same_num(c[1], b)
        if t.op == "app" and t.a[0] == "take":
            src, n = t.a[1]
            if src.op == "app" and src.a[0] == "skip" and src.a[1][1].op == "lit" and src.a[1][1].a[1] == 0:
                src = src.a[1][0]
            if src is self.text:
                return a.op == "lit" and a.a[1] == 0 and self.chars(n, b)
            if src.op == "app" and src.a[0] == "skip" and src.a[1][0] is self.text and self.chars(src.a[1][1], a):
                # as many as there are between
                if n.op == "app" and n.a[0] in ("Sub", "usize::saturating_sub"):
                    return self.chars(n.a[1][0], b) and self.chars(n.a[1][1], a)
                return n.op == "lit" and n.a[1] == 0 and same_num(a, b)
        return False


class Where:
    """Which source a span names in a row, as the conditions of the row tell."""

    def __init__(self, guards, sp, real, syn):
        self.d, self.sp, self.real, self.syn = dict(guards), sp, real, syn
        self.id = fld(sp, "source")
        self.strs = fld(real, "source_id_strings")
        self.root = fld(real, "root_source_id")
        self.inc = fld(real, "included_content")

    def truth(self, f):
        for a, pol in self.d.items():
            if f(a):
                return pol
        return None

    def lt(self, x, y):
        """Is x < y, as far as the conditions tell?"""
        r = self.truth(lambda a: a.op == "app" and a.a[0] == "lt" and num(a.a[1][0]) is num(x) and same_num(a.a[1][1], y))
        if r is None:
            r = self.truth(lambda a: a.op == "app" and a.a[0] == "le" and same_num(a.a[1][0], y) and num(a.a[1][1]) is num(x))
            r = None if r is None else not r
        return r

    def is_root(self):
        return self.truth(lambda a: a.op == "app" and a.a[0] == "eq" and {num(x) for x in a.a[1]} == {num(self.id), num(self.root)})

    def is_syn(self):
        """A synthetic source: from the number of real ones on."""
        if self.syn is None:
            return False
        base, n = fld(self.syn, "base_id"), app("len", fld(self.syn, "source_id_strings"))
        lo = self.lt(self.id, base)
        hi = self.lt(self.id, app("Add", base, n))
        if hi is None:
            hi = self.lt(app("Sub", self.id, base), n)
        if lo is True or hi is False:
            return False
        return True if lo is False and hi is True else None

    def matching(self, conds):
        """Do the conditions on an element of the included content say it is the file of the span?"""
        e = el(self.inc)
        have = {(c, p) for c, p in conds}
        okc = (is_(fld(e, "1"), "Content"), True) in have
        i = num(pay(fld(e, "1"), "Content", "0"))
        oki = [1 for c, p in have if p is True and c.op == "app" and c.a[0] == "eq" and {num(x) for x in c.a[1]} == {num(self.id), i}]
        return okc and len(oki) == 1 and len(have) == 2

    def included(self):
        """The entry of the included content with the id of the span, if the conditions say there is one."""
        for a, pol in self.d.items():
            if a.op == "exists" and a.a[0] is self.inc and len(a.a[1]) == 1 and self.matching(tuple(a.a[1])[0]):
                return pol, mk("first", *a.a)
        return None, None

    def text(self):
        """(what, text) the span is in: the text of the source, or None where it has none; 'unknown' when it does not tell."""
        s = self.is_syn()
        if s is None:
            return "unknown", None
        if s and self.is_root():
            return "nowhere", None  # cannot be: the root has id 0 and is counted among the real sources
        if s:
            name = index(fld(self.syn, "source_id_strings"), app("Sub", self.id, fld(self.syn, "base_id")))
            e = ent(fld(self.syn, "content"), name)
            return "synthetic", Text(fld(e, "1"), fld(e, "2"))
        if self.lt(self.id, app("len", self.strs)) is False:
            return "nowhere", None
        r = self.is_root()
        if r:
            return "root", Text(fld(self.real, "root_content"), fld(self.real, "root_content_char_indices"))
        if r is None:
            return "unknown", None
        pol, e = self.included()
        if pol:
            e = fld(e, "1")
            return "included", Text(pay(e, "Content", "1"), pay(e, "Content", "2"))
        if pol is False:
            return "nowhere", None
        return "unknown", None

    def valid(self, text):
        """Can the span be cut from the text? None if the conditions do not tell."""
        s, e = fld(self.sp, "start"), fld(self.sp, "end")
        r = self.truth(lambda a: a.op == "app" and a.a[0] == "inbounds" and a.a[1][0] is text and rng(a.a[1][1]) == (s, e))
        if r is not None:
            return r
        bs = self.truth(lambda a: a is app("str::is_char_boundary", text, s))
        be = self.truth(lambda a: a is app("str::is_char_boundary", text, e))
        rev = self.lt(e, s)
        if bs is False or be is False or rev is True or self.lt(app("len", text), e) is True:
            return False
        return True if bs and be and rev is False else None

    def end(self, text):
        """The end of the span without trailing whitespace; of a blank one its end."""
        s, e = fld(self.sp, "start"), fld(self.sp, "end")
        piece = index(text, adt("core::ops::range::Range", "Range", {"start": s, "end": e}))
        t = app("str::trim_end", piece)
        ne = self.truth(lambda a: a.op == "app" and a.a[0] == "nonempty" and same_trim(a.a[1][0], text, s, e))
        if ne is None:
            return None, None
        if ne is False:
            return e, None
        tt = next(a.a[1][0] for a, p in self.d.items() if a.op == "app" and a.a[0] == "nonempty" and same_trim(a.a[1][0], text, s, e))
        return app("Add", app("len", tt), s), tt

    def name(self, t):
        """Is the term the name of the source of the span?"""
        if not (t.op == "app" and t.a[0] == "index"):
            return False
        strs, i = t.a[1]
        kind, _ = self.text()
        if kind == "synthetic":
            return strs is fld(self.syn, "source_id_strings") and i is app("Sub", self.id, fld(self.syn, "base_id"))
        if strs is not self.strs:
            return False
        return same_id(i, self.id) or (kind == "root" and same_id(i, self.root)) or (kind == "included" and same_id(i, pay(fld(self.included()[1], "1"), "Content", "0")))


def same_trim(t, text, s, e):
    return t.op == "app" and t.a[0] == "str::trim_end" and len(t.a[1]) == 1 and cut(t.a[1][0], text) == (s, e)

