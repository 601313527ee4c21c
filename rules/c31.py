"""C31: strings longer than allowed are reported, each once and where they are."""
from common import *
from syntax import *
from values import *
from words import *

EXPLANATION = (
    "Every place where the grammar takes a string literal is found by walking the grammar as extracted, and the rule that takes it is "
    "summarised by dataflow as cases: conditions on the text and the limit in force, and the resulting change of the parser state. "
    "The cases are compared with the specification on a grid of texts (numbers and kinds of line ends) and limits (unset, 0 to above "
    "the default): one warning is added, at the string's own location and related to the option where set, exactly if the text has "
    "more lines than allowed; nothing else of the state changes. An obligation is one place, or one text and limit at one place."
)
ASSUMPTIONS = ["the limit option's own value and location are recorded as given (C11)", "the state's warnings are returned (C03)"]
FLOOR = 300
TECHNIQUE = "grammar walk and dataflow summaries of each string rule's effect on the parser state, compared with the specification"

STATE = sym("state")
LIMIT = fld(fld(STATE, "options"), "long_string_maxlines")
DEFAULT = 64


def strings(root):
    """The topmost rules which take exactly a string, and string tokens outside any such rule."""
    tops, bare, seen = [], [], set()

    def walk(n, inside):
        if (n.id, inside) in seen:
            return
        seen.add((n.id, inside))
        s = n.kind == "fn" and single_token(n) == "StringLiteral"
        if s and not inside:
            tops.append(n)
        if n.kind == "tok" and not inside and any(a[0] == "StringLiteral" for a in n.alts):
            bare.append(n)
        for k in n.kids:
            walk(k, inside or s)

    walk(root, False)
    return tops, bare


def added_warnings(v):
    """The warnings appended to the state's, or None if that is not what v is."""
    ps = parts(v)
    if not ps or ps[0] != ("all", fld(STATE, "warnings")):
        return None
    rest = ps[1:]
    return [x[1] for x in rest] if all(x[0] == "one" for x in rest) else None


def limits():
    span = ("adt", "Span", ())
    yield DEFAULT, NONE_
    for n in (0, 1, 2, 63, 64, 65, 100):
        val = ("adt", "Sourced", (("spanned", ("adt", "Spanned", (("item", n), ("span", span)))), ("source", ("adt", "Source", ()))))
        yield n, ("adt", "Some", (("0", val),))


TEXTS = ["STRICT", "", "a", "\n", "a\n", "\na", "a\nb", "\n\n", "\r", "a\r\nb", "\u2028", "a\x0bb\x0cc", "\n" * 62, "\n" * 63, "\n" * 64, "a\n" * 63, "a\n" * 63 + "b", "a\n" * 64 + "b", "\n" * 99, "\n" * 100]


def run(ctx):
    p = ctx.p
    d = decls(ctx)
    tops, bare = strings(d.s.root)
    for n in bare:
        ctx.ob("string outside the string rules", False, f"the grammar takes a string which is not checked against the limit (node {n.id})", "the grammar")
    ctx.ob("string rules", len(tops) >= 5, f"{len(tops)} places", "the grammar")
    # the limit is set by the option rules only
    ops = {x.id for node, _, _ in d.unit("option", merge=False) for x in [node, *below(node)]}
    for n, g, f, v in state_effects(d):
        keeps = f is not None and (f != "options" or fld(v, "long_string_maxlines") is LIMIT)
        ctx.ob("limit set by the option only", keeps or n.id in ops, f"when {showg(g)[:200]} the {f or 'state'} becomes {str(v)[:300]}", f"a rule of the grammar ({n.how})")
    W = Words(p)
    O = Outputs(d.s, merge=False)
    for n in tops:
        outs = O.of(n)
        w = f"string rule in the grammar ({n.how})"
        ctx.ob("understood", bool(outs), f"{outs}"[:200], w)
        for text in TEXTS:
            for lim, val in limits():
                try:
                    okv, msg = case(W, outs, text, lim, val, O.fails(n))
                except Unknown as x:
                    okv, msg = False, f"cannot decide: {x}"
                if not ctx.ob("warned iff too long", okv, msg, w):
                    break
            else:
                continue
            break


def case(W, outs, text, lim, val, fails):
    want = text.count("\n") + 1 > lim
    hit = 0
    for o in outs:
        tok = o.toks[0]
        if len(o.toks) != 1:
            return False, f"takes {o.shape()}"
        env = {pay(tok, "StringLiteral", "0"): text, LIMIT: val}
        if not W.conj(o.guards, env):
            continue
        hit += 1
        what = f"text of {text.count(chr(10)) + 1} lines ({text[:8]!r}), limit {lim}{' by default' if val is NONE_ else ''}"
        got = []
        for g, s in o.state:
            if not W.conj(g, env):
                continue
            cur = s
            while cur.op == "ite":
                cur = cur.a[1] if W.test(cur.a[0], env) else cur.a[2]
            if cur is STATE:
                continue
            if cur.op != "with" or cur.a[0] is not STATE:
                return False, f"the state becomes {str(cur)[:200]}"
            for f, v in cur.a[1]:
                if f[1] != "warnings":
                    if v is not fld(STATE, f[1]):
                        return False, f"reading a string changes {f[1]} to {str(v)[:200]}"
                    continue
                ws = added_warnings(v)
                if ws is None:
                    return False, f"the warnings become {str(v)[:300]}"
                got += ws
        if len(got) != (1 if want else 0):
            return False, f"{what}: {len(got)} warnings"
        for x in got:
            x = norm_spans(x)
            impl = fld(x, "0")
            if fld(impl, "span") is not span_of(tok):
                return False, f"{what}: the warning is located at {str(fld(impl, 'span'))[:200]}"
            rel = fld(impl, "related")
            spans = related_spans(W, rel, env)
            exp = [] if val is NONE_ else [fld(fld(pay(LIMIT, "Some", "0"), "source"), "value")]
            if spans != exp:
                return False, f"{what}: the warning is related to {str(rel)[:200]}"
        if o.emits is not EMPTY:
            return False, f"{what}: also emits {str(o.emits)[:200]}"
    return hit == 1 or (hit == 0 and fails), f"text {text[:8]!r}: {hit} ways to read it"


def related_spans(W, rel, env):
    for _ in range(8):
        if rel.op == "ite":
            rel = rel.a[1] if W.test(rel.a[0], env) else rel.a[2]
        else:
            break
    if rel is NONE or (rel.op == "adt" and rel.a[1] == "None"):
        return []
    if rel.op != "adt" or rel.a[1] != "Some":
        return None
    ps = parts(fld(rel, "0"))
    return [fld(x[1], "1") for x in ps] if all(x[0] == "one" for x in ps) else None
