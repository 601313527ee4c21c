"""The vocabulary declared by a `#[derive(Logos)]` enum: its attributes are read from the source, its
patterns become one automaton over classes of characters, and each word's winning pattern is decided by
the generator's own rule (the longest match, then the highest priority)."""
import glob
import os
import re
import unicodedata


class Bad(Exception):
    pass


# ---------------------------------------------------------------- Rust tokens
TOKEN = re.compile(
    r"""(?P<ws>\s+)
  |(?P<lc>//[^\n]*)
  |(?P<bc>/\*)
  |(?P<raw>b?r(?P<h>\#*)")
  |(?P<str>b?"(?:[^"\\]|\\.)*")
  |(?P<chr>b?'(?:[^'\\\n]|\\(?:x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.))')
  |(?P<life>'[A-Za-z_]\w*)
  |(?P<id>r\#[A-Za-z_]\w*|[^\W\d]\w*)
  |(?P<num>\d[\w.]*)
  |(?P<p>.)""",
    re.X | re.S,
)


def tokens(src):
    i, out = 0, []
    while i < len(src):
        m = TOKEN.match(src, i)
        k = m.lastgroup
        if m.group("raw") is not None:
            end = '"' + m.group("h")
            j = src.index(end, m.end())
            out.append(("str", src[m.end():j], i))
            i = j + len(end)
            continue
        if m.group("bc"):
            d, j = 1, m.end()
            while d:
                n = re.compile(r"/\*|\*/").search(src, j)
                if not n:
                    raise Bad("unfinished comment")
                d += 1 if n.group() == "/*" else -1
                j = n.end()
            i = j
            continue
        if m.group("str") is not None:
            out.append(("str", unescape(m.group("str").lstrip("b")[1:-1]), i))
        elif m.group("ws") is None and m.group("lc") is None:
            for k in ("chr", "life", "id", "num", "p"):
                if m.group(k) is not None:
                    out.append((k, m.group(k), i))
        i = m.end()
    return out


def unescape(s):
    def f(m):
        x = m.group(1)
        if x[0] == "u":
            return chr(int(x[2:-1].replace("_", ""), 16))
        if x[0] == "x":
            return chr(int(x[1:], 16))
        return {"n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(x, x)

    s = re.sub(r"\\\n\s*", "", s)
    return re.sub(r"\\(u\{[^}]*\}|x..|.)", f, s, flags=re.S)


OPEN, CLOSE = "([{", ")]}"


def group(ts, i):
    """The index after the group opening at i."""
    d = 0
    while i < len(ts):
        if ts[i][0] == "p" and ts[i][1] in OPEN:
            d += 1
        elif ts[i][0] == "p" and ts[i][1] in CLOSE:
            d -= 1
            if d == 0:
                return i + 1
        i += 1
    raise Bad("unbalanced brackets")


def split(ts):
    """Top-level comma-separated parts."""
    out, cur, i = [], [], 0
    while i < len(ts):
        t = ts[i]
        if t[0] == "p" and t[1] in OPEN:
            j = group(ts, i)
            cur += ts[i:j]
            i = j
            continue
        if t[0] == "p" and t[1] == ",":
            out.append(cur)
            cur = []
        else:
            cur.append(t)
        i += 1
    if cur:
        out.append(cur)
    return out


def is_p(t, c):
    return t[0] == "p" and t[1] == c


class Leaf:
    def __init__(self, variant, what, pattern, lit, args, file, pos):
        self.variant, self.what, self.pattern, self.lit = variant, what, pattern, lit
        self.priority, self.icase = None, False
        self.file, self.pos = file, pos
        for a in args:
            ks = [x[1] for x in a]
            if ks[:2] == ["priority", "="]:
                self.priority = int("".join(ks[2:]).replace("_", ""))
            elif ks[:1] == ["ignore"]:
                self.icase = True

    def __repr__(self):
        return f"{self.variant or 'skip'} {self.what}"


class Enum:
    """A Logos enum as declared: subpatterns and leaves in the order of the generated code."""

    def __init__(self, name, file):
        self.name, self.file = name, file
        self.subs, self.leaves = {}, []


def attributes(ts, i):
    """Attributes starting at i: list of (name, inner tokens), next index."""
    out = []
    while i + 1 < len(ts) and is_p(ts[i], "#") and is_p(ts[i + 1], "["):
        j = group(ts, i + 1)
        inner = ts[i + 2:j - 1]
        if inner:
            out.append((inner[0][1], inner[1:], ts[i][2]))
        i = j
    return out, i


def parenthesised(ts):
    if not ts or not is_p(ts[0], "(") or group(ts, 0) != len(ts):
        raise Bad("attribute without parentheses")
    return ts[1:-1]


def enums(root):
    out = []
    for f in sorted(glob.glob(os.path.join(root, "src", "**", "*.rs"), recursive=True)):
        src = open(f, encoding="utf-8").read()
        if "Logos" not in src:
            continue
        ts = tokens(src)
        i = 0
        while i < len(ts):
            if not (is_p(ts[i], "#") and i + 1 < len(ts) and is_p(ts[i + 1], "[")):
                i += 1
                continue
            at, j = attributes(ts, i)
            k = j
            if k < len(ts) and ts[k][1] == "pub":
                k += 1
                if is_p(ts[k], "("):
                    k = group(ts, k)
            if k >= len(ts) or ts[k][1] != "enum" or not any(n == "derive" and any(x[1] == "Logos" for x in a) for n, a, _ in at):
                i = max(j, i + 1)
                continue
            e = Enum(ts[k + 1][1], f)
            skips = []
            for n, a, pos in at:
                if n != "logos":
                    continue
                for part in split(parenthesised(a)):
                    h = part[0][1]
                    if h == "skip":
                        b = part[1:]
                        if is_p(b[0], "("):
                            b = split(parenthesised(b))
                        else:
                            b = [b]
                        if b[0][0][0] != "str":
                            raise Bad("skip without a literal")
                        skips.append(Leaf(None, "skip", b[0][0][1], False, b[1:], f, pos))
                    elif h == "subpattern":
                        if len(part) < 4 or part[3][0] != "str":
                            raise Bad("subpattern without a literal")
                        e.subs[part[1][1]] = part[3][1]
            e.leaves += skips
            m = k
            while not is_p(ts[m], "{"):
                m += 1
            end = group(ts, m)
            for v in split(ts[m + 1:end - 1]):
                va, q = attributes(v, 0)
                for n, a, pos in va:
                    if n in ("token", "regex"):
                        args = split(parenthesised(a))
                        if args[0][0][0] != "str":
                            raise Bad("pattern without a literal")
                        e.leaves.append(Leaf(v[q][1], n, args[0][0][1], n == "token", args[1:], f, pos))
            out.append(e)
            i = end
    return out


# ---------------------------------------------------------------- characters
def reps():
    """Every ASCII character, and of the others one of each general category and special class."""
    seen, out = set(), []
    for c in range(128, 0x20000):
        if 0xD800 <= c < 0xE000:
            continue
        k = unicodedata.category(chr(c))
        if k not in seen and k not in ("Cn", "Cs"):
            seen.add(k)
            out.append(chr(c))
    return [chr(c) for c in range(128)] + out + ["\u0345", "\u24b6", "\u200d", "\u0378"]


def category(names):
    ns = {
        "Letter": "L", "Alphabetic": "Alpha", "Alpha": "Alpha", "Uppercase_Letter": "Lu", "Lowercase_Letter": "Ll", "Titlecase_Letter": "Lt",
        "Modifier_Letter": "Lm", "Other_Letter": "Lo", "Number": "N", "Decimal_Number": "Nd", "Letter_Number": "Nl",
        "Other_Number": "No", "Punctuation": "P", "Symbol": "S", "Mark": "M", "Separator": "Z", "Other": "C", "Digit": "Nd",
    }
    n = ns.get(names, names)
    if n == "Alpha":
        return lambda c: unicodedata.category(c)[0] == "L" or unicodedata.category(c) == "Nl" or c in "\u0345\u24b6"
    if n in ("Uppercase", "Lowercase"):
        return lambda c: c.isupper() if n == "Uppercase" else c.islower()
    if not re.fullmatch(r"[LNPSMZC][a-z]?", n):
        raise Bad(f"class {names}")
    return lambda c: unicodedata.category(c).startswith(n)


def perl(x):
    l = x.lower()
    f = {
        "d": lambda c: unicodedata.category(c) == "Nd",
        "s": lambda c: c.isspace() and c not in "\x1c\x1d\x1e\x1f",
        "w": lambda c: category("Alpha")(c) or unicodedata.category(c)[0] == "M" or unicodedata.category(c) in ("Nd", "Pc") or c in "\u200c\u200d",
    }[l]
    return (lambda c: not f(c)) if x.isupper() else f


ESC = {"n": "\n", "t": "\t", "r": "\r", "f": "\x0c", "v": "\x0b", "a": "\x07", "0": None}


class Regex:
    """Recursive-descent parser of the patterns in use: trees of ('set', predicate) / seq / alt / rep."""

    def __init__(self, src, subs, icase=False):
        self.s, self.i, self.subs, self.icase = src, 0, subs, icase
        self.tree = self.alt()
        if self.i < len(self.s):
            raise Bad(f"pattern {src!r} at {self.i}")

    def peek(self):
        return self.s[self.i] if self.i < len(self.s) else ""

    def next(self):
        c = self.peek()
        if not c:
            raise Bad(f"pattern {self.s!r} ends early")
        self.i += 1
        return c

    def alt(self):
        ks = [self.seq()]
        while self.peek() == "|":
            self.next()
            ks.append(self.seq())
        return ks[0] if len(ks) == 1 else ("alt", ks)

    def seq(self):
        ks = []
        while self.peek() and self.peek() not in "|)":
            ks.append(self.rep())
        return ("seq", ks)

    def rep(self):
        x = self.atom()
        while self.peek() and self.peek() in "*+?{":
            c = self.next()
            if c == "{":
                j = self.s.index("}", self.i)
                m = re.fullmatch(r"(\d+)(,(\d*))?", self.s[self.i:j])
                if not m:
                    raise Bad(f"repetition in {self.s!r}")
                self.i = j + 1
                lo = int(m.group(1))
                hi = lo if m.group(2) is None else int(m.group(3)) if m.group(3) else None
            else:
                lo, hi = {"*": (0, None), "+": (1, None), "?": (0, 1)}[c]
            if self.peek() == "?":
                raise Bad("lazy repetition")
            x = ("rep", x, lo, hi)
        return x

    def set(self, f):
        if self.icase:
            g = f
            f = lambda c: g(c) or g(c.lower()[:1]) or g(c.upper()[:1])
        return ("set", f)

    def atom(self):
        c = self.next()
        if c == "(":
            if self.s.startswith("?&", self.i):
                j = self.s.index(")", self.i)
                n = self.s[self.i + 2:j]
                self.i = j + 1
                if n not in self.subs:
                    raise Bad(f"subpattern {n}")
                return Regex(self.subs[n], self.subs, self.icase).tree
            old = self.icase
            if self.s.startswith("?", self.i):
                m = re.compile(r"\?([ui]*):").match(self.s, self.i)
                if not m:
                    raise Bad(f"group in {self.s!r}")
                self.icase = self.icase or "i" in m.group(1)
                self.i = m.end()
            x = self.alt()
            self.icase = old
            if self.next() != ")":
                raise Bad("unbalanced group")
            return x
        if c == "[":
            return self.set(self.cls())
        if c == ".":
            return self.set(lambda c: c != "\n")
        if c == "\\":
            return self.set(self.escape())
        if c in ")*+?{^$":
            raise Bad(f"{c} in {self.s!r}")
        return self.set(lambda x, c=c: x == c)

    def escape(self, single=False):
        c = self.next()
        if c in "dswDSW":
            return perl(c)
        if c in "pP":
            n = self.next()
            if n == "{":
                j = self.s.index("}", self.i)
                n, self.i = self.s[self.i:j], j + 1
            neg = c == "P"
            if n.startswith("^"):
                neg, n = not neg, n[1:]
            f = category(n)
            return (lambda x: not f(x)) if neg else f
        v = self.char_escape(c)
        return lambda x, v=v: x == v

    def char_escape(self, c):
        if c in "xuU" and self.i < len(self.s):
            if self.peek() == "{":
                j = self.s.index("}", self.i)
                h, self.i = self.s[self.i + 1:j], j + 1
            else:
                n = {"x": 2, "u": 4, "U": 8}[c]
                h = self.s[self.i:self.i + n]
                self.i += n
            return chr(int(h, 16))
        if c in ESC and ESC[c]:
            return ESC[c]
        if c.isalnum():
            raise Bad(f"escape \\{c}")
        return c

    def cls(self):
        neg = False
        if self.peek() == "^":
            neg = True
            self.next()
        fs, first = [], True
        while True:
            c = self.next()
            if c == "]" and not first:
                break
            first = False
            if c == "[":
                if self.peek() == ":":
                    j = self.s.index(":]", self.i)
                    n, self.i = self.s[self.i + 1:j], j + 2
                    f = {
                        "alpha": lambda c: c.isascii() and c.isalpha(), "digit": lambda c: c.isascii() and c.isdigit(),
                        "alnum": lambda c: c.isascii() and c.isalnum(), "upper": lambda c: c.isascii() and c.isupper(),
                        "lower": lambda c: c.isascii() and c.islower(), "space": lambda c: c in " \t\n\r\x0b\x0c",
                        "blank": lambda c: c in " \t",
                    }.get(n)
                    if f is None:
                        raise Bad(f"class {n}")
                    fs.append(f)
                else:
                    fs.append(self.cls())
                continue
            if c in "&-~" and self.peek() == c:
                raise Bad("class operation")
            if c == "\\":
                if self.peek() in "dswDSWpP":
                    fs.append(self.escape())
                    continue
                lo = self.char_escape(self.next())
            else:
                lo = c
            hi = lo
            if self.peek() == "-" and self.i + 1 < len(self.s) and self.s[self.i + 1] != "]":
                self.next()
                c = self.next()
                hi = self.char_escape(self.next()) if c == "\\" else c
            fs.append(lambda x, lo=lo, hi=hi: lo <= x <= hi)
        return (lambda x: not any(f(x) for f in fs)) if neg else (lambda x: any(f(x) for f in fs))


def literal(s, icase=False):
    return ("seq", [("set", (lambda x, c=c: x == c or icase and x.lower() == c.lower())) for c in s])


def complexity(t):
    k = t[0]
    if k == "set":
        return 2
    if k == "seq":
        return sum(map(complexity, t[1]))
    if k == "alt":
        return min(map(complexity, t[1]))
    return t[2] * complexity(t[1])


class Nfa:
    """All patterns at once: labels on accepting states."""

    def __init__(self):
        self.eps, self.on, self.label = [], [], {}
        self.starts = []

    def st(self):
        self.eps.append([])
        self.on.append([])
        return len(self.eps) - 1

    def add(self, tree, label):
        a = self.st()
        self.starts.append(a)
        self.label[self.build(tree, a)] = label

    def build(self, t, a):
        k = t[0]
        if k == "set":
            b = self.st()
            self.on[a].append((t[1], b))
            return b
        if k == "seq":
            for x in t[1]:
                a = self.build(x, a)
            return a
        if k == "alt":
            e = self.st()
            for x in t[1]:
                s = self.st()
                self.eps[a].append(s)
                self.eps[self.build(x, s)].append(e)
            return e
        _, x, lo, hi = t
        for _ in range(lo):
            a = self.build(x, a)
        if hi is None:
            s, e = self.st(), self.st()
            self.eps[a] += [s, e]
            b = self.build(x, s)
            self.eps[b] += [s, e]
            return e
        e = self.st()
        self.eps[a].append(e)
        for _ in range(hi - lo):
            s = self.st()
            self.eps[a].append(s)
            a = self.build(x, s)
            self.eps[a].append(e)
        return e

    def closure(self, ss):
        out, todo = set(ss), list(ss)
        while todo:
            for y in self.eps[todo.pop()]:
                if y not in out:
                    out.add(y)
                    todo.append(y)
        return frozenset(out)


class Dfa:
    def __init__(self, nfa, alphabet):
        self.nfa, self.al = nfa, alphabet
        self.start = nfa.closure(nfa.starts)
        self._step = {}
        self.sets = {}

    def step(self, s, c):
        k = (s, c)
        if k not in self._step:
            self._step[k] = self.nfa.closure([b for a in s for f, b in self.nfa.on[a] if f(c)])
        return self._step[k]

    def labels(self, s):
        return {self.nfa.label[x] for x in s if x in self.nfa.label}


def classes(nfas, chars):
    """One character of each set of characters no pattern tells apart."""
    fs = [f for n in nfas for on in n.on for f, _ in on]
    seen = {}
    for c in chars:
        seen.setdefault(tuple(bool(f(c)) for f in fs), c)
    return list(seen.values())


def lexer(e):
    """(nfa labelled by leaf index, priorities)"""
    n, prio = Nfa(), []
    for i, l in enumerate(e.leaves):
        if l.lit:
            t = literal(l.pattern, l.icase)
            d = 2 * len(l.pattern.encode())
        else:
            t = Regex(l.pattern, e.subs, l.icase).tree
            d = complexity(t)
        n.add(t, i)
        prio.append(d if l.priority is None else l.priority)
    return n, prio
