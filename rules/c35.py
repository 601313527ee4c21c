"""C35: an error does not hide what follows it."""
from common import *
from syntax import *
import c03

EXPLANATION = (
    "The grammar of a file, read from the chumsky combinators with the crate's helpers inlined, is searched for its error recovery: on "
    "every way from the file to a token of a declaration lies, inside the repetition of declarations, a recovery which gives up one "
    "arbitrary token at a time, tries a declaration again after each, and only ends with the input. Dataflow over "
    "parse_declarations shows that an error in one source ends neither the loop over the sources nor the collection of errors."
)
ASSUMPTIONS = ["chumsky's skip_then_retry_until skips by its first parser and retries after each until its second matches"]
TECHNIQUE = "structural query over the combinator term of the grammar (every path from file to token passes a recovery); dataflow over the loop of sources"
FLOOR = 4


def run(ctx):
    s = Syntax(ctx)
    w = ctx.at(s.fb)
    found, bad = [], []
    seen = set()

    def down(n, inside, safe):
        k = (n.id, inside, safe)
        if k in seen:
            return
        seen.add(k)
        if n.kind == "recover":
            if inside and retries(s, n.strategy):
                found.append(n)
                safe = True
        elif n.kind in ("rep", "sep") and not safe:
            inside = True
        if n.kind == "tok" and not safe:
            bad.append(n)
        for x in n.kids:
            down(x, inside, safe)

    down(s.root, False, False)
    for n in found:
        ctx.ob("recovery", True, f"{str(n.strategy)[:200]}", w)
    ctx.ob("recovery of declarations", bool(found), f"{len(found)} recoveries" if found else "no recovery inside the repetition of declarations retries after each token until the end", w)
    ctx.ob("recovery of all declarations", not bad, f"{len(bad)} tokens are accepted outside a recovery" + (f", the first {[c for c, _ in bad[0].alts][:3]}" if bad else ""), w)
    reps = [n for n in s.nodes if n.kind == "rep" and any(x in found for x in s.g.walk(n))]
    ctx.ob("any number of errors", any(n.hi is None and n.lo == 0 for n in reps), f"{len(reps)} repetitions of declarations", w)
    c03.declarations(ctx)


def retries(s, t):
    if not (t.op == "app" and t.a[0] == "recovery::skip_then_retry_until" and len(t.a[1]) == 2):
        return False
    try:
        skip, until = s.g.node(t.a[1][0]), s.g.node(t.a[1][1])
    except Unsupported:
        # e.g. tokens which are not skipped
        return False
    toks = [n for n in s.g.walk(skip) if n.kind == "tok"]
    one = len(toks) == 1 and toks[0].any and all(n.kind in ("tok", "fn", "same") and (n.kind != "fn" or n.how in ("to", "map", "map_with")) for n in s.g.walk(skip))
    return one and [n.kind for n in s.g.walk(until) if n.kind not in ("fn", "same")] == ["end"]
