"""C15: the lexer's vocabulary is the Beancount vocabulary."""
from common import *
from words import *
import extract
import itertools
import streams
import logosspec as L

TECHNIQUE = "automaton equivalence of the declared token patterns with the documented ones; dataflow of each pattern's action over the type-checked program"
EXPLANATION = (
    "The patterns declared on the token enums are read from the source, compiled together into one automaton over classes of "
    "characters, and the winning token of every text (longest match, then the generator's priority rule) is compared with that of the "
    "documented vocabulary by exploring all reachable pairs of states: equality holds for texts of every length. What each pattern "
    "yields is taken from the generated dispatch over the type-checked program, helper functions inlined, as a table whose conditions "
    "and results are terms over the matched text; the tables are evaluated as formulas over texts of each literal class (every month, "
    "day, hour, minute and second; all flag letters; strings, numbers, identifiers). The recovery lexer is compared in the same way, "
    "and the conversion of its tokens and the reading of a keyword before a colon as a key are decided on the adaptor transducers. An "
    "obligation is one pair of automaton states, one text of a literal class, or one adaptor machine."
)
ASSUMPTIONS = [
    "the Logos code generator implements the patterns given to it by longest match, then highest priority",
    "Decimal's parsers, unescaper::unescape, Date::from_calendar_date and Time::from_hms are as documented",
]
FLOOR = 2000
LEVEL_NOTE = "automata exact over character classes; literal values over the texts listed"

KEYWORDS = streams.KEYWORDS
PUNCT = {
    "Pipe": "|", "AtAt": "@@", "At": "@", "LcurlCurl": "{{", "RcurlCurl": "}}", "Lcurl": "{", "Rcurl": "}", "Comma": ",", "Tilde": "~",
    "Plus": "+", "Minus": "-", "Slash": "/", "Lparen": "(", "Rparen": ")", "Hash": "#", "Asterisk": "*", "Colon": ":",
}
FLAGS = {"!": "Exclamation", "&": "Ampersand", "?": "Question", "%": "Percent"}
NUM, UNUM = r"[0-9]+(,[0-9]{3})*(\.[0-9]+)?", r"\d+(,\d{3})*(\.\d+)?"
DATE = r"[0-9]{4}[\-/][0-9]{2}[\-/][0-9]{2}"
LINE = r"([*!&#?%:].*\r?\n)"
CLASSES = [
    ("Currency", r"[A-Z][A-Z0-9'\._\-]*|/[0-9'\._\-]*[A-Z][A-Z0-9'\._\-]*"),
    ("DedicatedFlag", r"[!&?%]|'[A-Z]"),
    ("Date", DATE),
    ("Time", r"[0-9]{1,2}:[0-9]{2}(:[0-9]{2})?"),
    ("Account", r"[\p{Lu}\p{Lo}][\p{L}\p{N}\-]*(:[\p{Lu}\p{Lo}\p{N}][\p{L}\p{N}\-]*)+"),
    ("StringLiteral", r'"([^\\"]|\\.)*"'),
    ("Number", NUM),
    ("?Number", UNUM),  # digits of other scripts: a number is refused either way
    ("Tag", r"#[A-Za-z0-9\-_/.]+"),
    ("Link", r"\^[A-Za-z0-9\-_/.]+"),
    ("Key", r"[a-z][a-zA-Z0-9\-_]+"),
    ("EolThenIndent", r"(;.*)?\r?\n" + LINE + r"*[ \t]+"),
    ("Eol", r"(;.*)?\r?\n" + LINE + "*"),
    ("EolComment", r";[^\r\n]*"),
    (None, r"[ \t]+"),
]
MAIN = [(v, L.literal(s)) for v, s in [*KEYWORDS.items(), ("True", "TRUE"), ("False", "FALSE"), ("Null", "NULL"), *PUNCT.items()]]
MAIN += [(v, L.Regex(r, {}).tree) for v, r in CLASSES]
RECOVERY = [(v, L.literal(PUNCT[v])) for v in ("Minus", "Slash", "Colon")]
RECOVERY += [(v, L.Regex(r, {}).tree) for v, r in CLASSES if v in ("Date", "Number", "?Number")]


def run(ctx):
    for f, spec in lexers(ctx):
        vocabulary(ctx, f, spec)
    streams.report(ctx, {"key", "token"}, "adaptors")


def lexers(ctx):
    """The generated lexers with their declarations and the documented vocabulary of each."""
    es = {}
    try:
        for e in L.enums(extract.REPO):
            es.setdefault(e.name, []).append(e)
    except (L.Bad, ValueError, IndexError) as x:
        ctx.ob("vocabulary", False, f"token declarations not understood: {x}", "src")
        return []
    found = []
    for act in [b for b in ctx.p.bodies.values() if b.get("logos") and b["name"] == "_get_action"]:
        rows = ctx.run(act)
        ty = emitted_type(rows)
        name = (ty or "?").rsplit("::", 1)[-1]
        if len(es.get(name, [])) != 1:
            ctx.ob(f"{name}/declaration", False, "the token enum was not found in the source", ctx.at(act))
            continue
        found.append((name, ty, es[name][0], act, rows))
    tok = [f for f in found if set(ctx.p.variants.get(f[1], ())) >= set(KEYWORDS)]
    if not ctx.ob("main lexer", len(tok) == 1, f"{[f[0] for f in found]}", "src"):
        return []
    return [(f, MAIN if f is tok[0] else RECOVERY) for f in found]


def emitted_type(rows):
    for r in rows:
        for t in subterms(r.ret):
            if t.op == "adt" and t.a[1] not in (None,) and "lexer" in str(t.a[0]) and short(t.a[0]).endswith("Token"):
                return t.a[0]
        if r.ret.op == "adt" and r.ret.a[1] == "Emit":
            v = fld(r.ret, "0")
            if v.op == "adt":
                return v.a[0]
    return None


def vocabulary(ctx, f, spec):
    res = compare(ctx, f, spec)
    if res is None:
        return
    name, w = f[0], ctx.at(f[3])
    bad, n, al, acts, nfa, prio = res
    for (got, want), word in bad.items():
        ctx.ob(f"{name}/{want or 'skip'}/{got or 'skip'}", False, differs(word, got, want), w)
    ctx.ob(f"{name}/vocabulary", not bad, f"{n} state pairs over {len(al)} character classes", w)
    for _ in range(n if not bad else 0):
        ctx.obs.append((f"{name}/state pair", True, "", ""))
    values(ctx, name, f[2], acts, f[4], nfa, prio, w)


def differs(word, got, want):
    return f"the text {word!r} lexes as {got or 'skipped whitespace'}, not as {want or 'skipped whitespace'}"


def compare(ctx, f, spec):
    """Differences of vocabulary: {(got, documented): shortest text}"""
    name, ty, e, act, rows = f
    w = ctx.at(act)
    try:
        nfa, prio = L.lexer(e)
    except (L.Bad, ValueError) as x:
        ctx.ob(f"{name}/patterns", False, f"not understood: {x}", w)
        return
    acts = actions(ctx, name, ty, e, act, rows)
    if acts is None:
        return
    sn = L.Nfa()
    for i, (v, t) in enumerate(spec):
        sn.add(t, i)
    al = L.classes([nfa, sn], L.reps())
    a, b = L.Dfa(nfa, al), L.Dfa(sn, al)
    seen, todo = {(a.start, b.start): ""}, [(a.start, b.start)]
    bad = {}
    while todo:
        p = todo.pop(0)
        word = seen[p]
        la, lb = a.labels(p[0]), b.labels(p[1])
        if word:
            got = acts[max(la, key=lambda i: prio[i])][0] if la else "no token"
            want = spec[min(lb)][0] if lb else "no token"
            ok_ = got == want or want == "?Number" and got in ("Number", "no token")
            if not ok_:
                bad.setdefault((got, want), word)
        for c in al:
            q = (a.step(p[0], c), b.step(p[1], c))
            if not (q[0] or q[1]):
                continue
            if q not in seen:
                seen[q] = word + c
                todo.append(q)
    ctx.note(f"{name}: {len(e.leaves)} patterns, {len(seen)} state pairs over {len(al)} character classes")
    return bad, len(seen), al, acts, nfa, prio


def actions(ctx, name, ty, e, act, rows):
    """leaf index -> (variant or None for skipped, rows)"""
    w = ctx.at(act)
    out = {}
    none = 0
    for r in rows:
        leaf = None
        for c, pol in r.guards:
            if pol and c.op == "is" and str(c.a[1]).startswith("Leaf"):
                leaf = int(c.a[1][4:])
        if leaf is None:
            none += 1
            ok_ = r.ret.op == "adt" and r.ret.a[1] == "Error"
            ctx.ob(f"{name}/unmatched", ok_, f"text no pattern matches gives {str(r.ret)[:100]}", w)
            continue
        out.setdefault(leaf, []).append(r)
    ctx.ob(f"{name}/unmatched text", none == 1, f"{none} rows", w)
    if not ctx.ob(f"{name}/patterns", sorted(out) == list(range(len(e.leaves))), f"{len(out)} actions for {len(e.leaves)} patterns", w):
        return None
    res = {}
    for i, rs in out.items():
        vs = {variant(r.ret) for r in rs}
        l = e.leaves[i]
        v = vs.pop() if len(vs) == 1 else "?"
        want = l.variant
        ctx.ob(f"{name}/{want or 'skip'}/action", v == want, f"the pattern of {want or 'skipped text'} yields {v}", w)
        if v != want:
            return None
        res[i] = (v, rs)
    return res


def variant(t):
    if t.op == "adt":
        if t.a[1] == "Skip":
            return None
        if t.a[1] == "Emit":
            x = fld(t, "0")
            return x.a[1] if x.op == "adt" else "?"
    if t.op == "app" and t.a[0].endswith("::construct"):
        f = t.a[1][1]
        if f.op == "fn":
            return str(f.a[0] if isinstance(f.a[0], str) else f).rsplit("::", 1)[-1].rstrip(">")
    return "?"


# ------------------------------------------------------------------ values
class Lex(Words):
    def t_app(self, t, env):
        n, args = t.a
        if n == "Lexer::slice":
            return env["text"]
        a = None
        val = lambda i: self.val(args[i], env)
        res = lambda x: ("adt", "Ok", (("0", x),)) if x is not None else ("adt", "Err", (("0", "error"),))
        if n.startswith("parse:") and n[6:] in ("i32", "u8", "u16", "u32", "i64", "u64", "usize", "i16", "i8"):
            s = val(0)
            lim = 255 if n == "parse:u8" else 127 if n == "parse:i8" else 10 ** 9 if "8" not in n and "16" not in n else 32767
            good = isinstance(s, str) and s.isascii() and s.isdigit() and int(s) <= lim
            return res(int(s) if good else None)
        if n in ("parse:Decimal", "Decimal::from_str_exact", "Decimal::from_str"):
            s = val(0)
            s = s if isinstance(s, str) else "".join(s)
            import re

            return res(("decimal", s)) if re.fullmatch(r"\d+(\.\d+)?", s) and s.isascii() else res(None)
        if n == "try_from:Month":
            m = val(0)
            return res(("month", m)) if 1 <= m <= 12 else res(None)
        if n == "Date::from_calendar_date":
            y, m, d = val(0), val(1), val(2)
            if not (isinstance(m, tuple) and m[0] == "month"):
                raise Unknown("month")
            return res(("date", y, m[1], d) if valid_date(y, m[1], d) else None)
        if n == "Time::from_hms":
            h, m, s = val(0), val(1), val(2)
            return res(("time", h, m, s) if h < 24 and m < 60 and s < 60 else None)
        if n == "unescaper::unescape":
            s = val(0)
            return res(s if "\\" not in s else ("unescaped", s))
        if n in ("index", "str::get", "get") and args[1].op == "adt":
            s, r = val(0), self.val(args[1], env)
            b = s.encode()
            g = dict(r[2])
            lo, hi = g.get("start", 0), g.get("end", len(b))
            if r[1] == "RangeInclusive":
                hi += 1
            try:
                x = b[lo:hi].decode() if lo <= hi <= len(b) else None
            except UnicodeDecodeError:
                x = None
            if n == "index":
                if x is None:
                    raise Unknown("slice")
                return x
            return NONE_ if x is None else ("adt", "Some", (("0", x),))
        if n.startswith("try_from:") and n.endswith("FlagLetter"):
            raise Unknown(n)
        return super().t_app(t, env)


def valid_date(y, m, d):
    leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
    return 1 <= d <= [31, 29 if leap else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]


def date_texts():
    for y in ("0000", "0001", "1900", "1999", "2000", "2023", "2024", "9999"):
        for m in range(0, 14):
            for d in range(0, 33):
                for s, t in (("-", "-"), ("/", "/"), ("-", "/")):
                    yield f"{y}{s}{m:02}{t}{d:02}"
    yield "2024-99-99"


def time_texts():
    for h in [f"{x}" for x in range(10)] + [f"{x:02}" for x in range(0, 26)]:
        for m in list(range(0, 62, 7)) + [59, 60, 61, 99]:
            yield f"{h}:{m:02}"
            for s in (0, 1, 30, 59, 60, 99):
                yield f"{h}:{m:02}:{s:02}"


def string_texts():
    for n in range(6):
        for w in itertools.product(["a", "字", "\n", ",", "\\\\", '\\"', "\\n"] if n < 4 else ["a", "\\n"], repeat=n):
            yield '"' + "".join(w) + '"'
    # every escape alone, at the start, within and at the end
    for c in [chr(i) for i in range(32, 127)] + ["\n", "é", "x41", "u0041", "u{41}", "101"]:
        for a, b in (("", ""), ("", "b"), ("a", "b"), ("字", "")):
            yield '"' + a + "\\" + c + b + '"'
    for n in (30, 300, 3000):
        for e in ("", "\\t", "\\\\"):
            yield '"' + "a" * n + e + '"'
            yield '"' + e + "字" * n + '"'


def number_texts():
    for i in ("0", "7", "12", "100", "00120", "1,234", "12,345,678", "1,234,000", "99999999999"):
        for f in ("", ".0", ".5", ".050", ".123456789"):
            yield i + f


def ident_texts(v):
    names = {
        "Currency": ["A", "USD", "CAD-X.Y_Z'1", "/6J", "/-A", "X" * 30],
        "Account": ["Assets:Cash", "Assets:A-b:C:9", "É字:字é9", "Équity:2字", "A:" + ":".join("Ab" * 9 for _ in range(4))],
        "Key": ["ab", "aB-_9", "zoo", "option-x"],
        "Tag": ["#a", "#A/b.c-d_9", "#" + "x" * 40],
        "Link": ["^a", "^A/b.c-d_9", "^" + "x" * 40],
    }
    return names[v]


def spec_value(v, s):
    """The documented value of a text of a literal class (None: refused)."""
    if v in ("Currency", "Account", "Key"):
        return s
    if v in ("Tag", "Link"):
        return s[1:]
    if v == "Date":
        y, m, d = int(s[:4]), int(s[5:7]), int(s[8:])
        return ("date", y, m, d) if 1 <= m <= 12 and valid_date(y, m, d) else None
    if v == "Time":
        p = [int(x) for x in s.split(":")] + [0]
        return ("time", *p[:3]) if p[0] < 24 and p[1] < 60 and p[2] < 60 else None
    if v == "Number":
        return ("decimal", s.replace(",", ""))
    if v == "StringLiteral":
        x = s[1:-1]
        return ("unescaped", x) if "\\" in x else x
    if v == "DedicatedFlag":
        if s in FLAGS:
            return ("flag", FLAGS[s])
        return ("flag", "Letter", s[1])


def texts(v):
    if v == "Date":
        return date_texts()
    if v == "Time":
        return time_texts()
    if v == "Number":
        return number_texts()
    if v == "StringLiteral":
        return string_texts()
    if v == "DedicatedFlag":
        return [*FLAGS, *["'" + c for c in "ABCDEFGHIJKLMNOPQRSTUVWXYZ"]]
    if v in ("Currency", "Account", "Key", "Tag", "Link"):
        return ident_texts(v)
    return []


def plain(v):
    """The content of a payload value."""
    if isinstance(v, tuple) and v[:1] == ("adt",):
        f = dict(v[2])
        if v[1] in ("Owned", "Borrowed"):
            return plain(f["0"])
        if v[1] in FLAGS.values():
            return ("flag", v[1])
        if v[1] == "Letter":
            x = f["0"]
            return ("flag", "Letter", dict(x[2])["0"] if isinstance(x, tuple) else x)
    if isinstance(v, tuple) and all(isinstance(c, str) and len(c) == 1 for c in v):
        return "".join(v)
    return v


def values(ctx, name, e, acts, rows, nfa, prio, w):
    W = Lex(ctx.p)
    al = L.reps()
    d = L.Dfa(nfa, al)
    for i, (v, rs) in sorted(acts.items()):
        for r in rs:
            for q in r.params:
                if r.final(q) is not sym(q):
                    ctx.ob(f"{name}/{v or 'skip'}/extent", False, f"the action changes the lexer: {str(r.final(q))[:150]}", w)
    n = 0
    for v in sorted({v for v, _ in acts.values() if v}):
        bad = None
        for s in texts(v):
            st = d.start
            for c in s:
                st = d.step(st, c)
            ls = d.labels(st)
            if not ls:
                continue  # reported as a difference of vocabulary
            i = max(ls, key=lambda i: prio[i])
            if acts[i][0] != v:
                continue
            n += 1
            env = {"text": s}
            try:
                sel = [r for r in acts[i][1] if W.conj([g for g in r.guards if not of_context(g[0])], env)]
                if len(sel) != 1:
                    raise Unknown(f"{len(sel)} paths")
                got = payload(W, sel[0].ret, env)
            except Unknown as x:
                bad = f"cannot decide the value of {s!r}: {x}"
                break
            want = spec_value(v, s)
            if got != want:
                bad = f"{s!r} has the value {got!r} instead of {want!r}" if want is not None else f"{s!r} is accepted as {got!r}"
                break
            ctx.obs.append((f"{name}/{v}/text", True, "", ""))
        ctx.ob(f"{name}/{v}/value", not bad, bad or "", w)
    ctx.note(f"{name}: {n} texts of literal classes")


def of_context(t):
    while t.op in ("is", "pay", "fld"):
        t = t.a[0]
    return t.op == "sym" and str(t) == "context"


def payload(W, t, env):
    if t.op == "adt" and t.a[1] == "Emit":
        x = fld(t, "0")
        return plain(W.val(fld(x, "0"), env))
    x = W.val(t.a[1][0], env)
    if isinstance(x, tuple) and x[:1] == ("adt",) and x[1] in ("Ok", "Err", "Some", "None"):
        if x[1] in ("Err", "None"):
            return None
        x = dict(x[2])["0"]
    return plain(x)
