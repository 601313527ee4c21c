"""C36: a syntax error names the constructs it is in."""
from common import *
from syntax import *
import c23

EXPLANATION = (
    "The grammar of a file is read from the chumsky combinators with the crate's helpers inlined; for every token of it, on every way from "
    "the file to that token, the contexts passed (labelled parsers marked as context) are collected. Rules: the outermost is the "
    "declaration, 'transaction' for tokens of a transaction and 'directive' for all others; a price or balance directive has its own; "
    "an indented line is a posting or metadata, the tokens only postings have are in a posting and the keys of a directive in metadata; "
    "no context is passed which is not around the token. The conversion of the grammar's errors keeps every context."
)
ASSUMPTIONS = ["chumsky records the contexts a failing parser was in, with where each began"]
TECHNIQUE = "query over the combinator term of the grammar: the contexts on every path from file to token"
FLOOR = 100

KEYWORDS_ = ("Price", "Balance", "Open", "Close", "Commodity", "Pad", "Document", "Note", "Event", "Query", "Custom")
PRAGMA_KW = ("Pushtag", "Poptag", "Pushmeta", "Popmeta", "Include", "Option", "Plugin")


def run(ctx):
    s = Syntax(ctx)
    w = ctx.at(s.fb)
    seen = set()
    out = []

    def down(n, cs):
        if (n.id, cs) in seen:
            return
        seen.add((n.id, cs))
        if getattr(n, "context", None):
            cs = cs + (n.context,)
        if n.kind == "tok":
            out.extend((cs, t) for t, _ in n.alts)
        for x in n.kids:
            down(x, cs)

    down(s.root, ())

    def need(rule, ok, cs, t):
        ctx.ob(f"{rule}", ok, f"{t} is read in the contexts {list(cs)}", w)

    for cs, t in out:
        need("in a declaration", bool(cs) and cs[0] in ("transaction", "directive"), cs, t)
        if not cs:
            continue
        tx = cs[0] == "transaction"
        if t in KEYWORDS_ or t in PRAGMA_KW:
            need("keyword of a directive", cs[0] == "directive", cs, t)
            for k in ("Price", "Balance"):
                need(f"{k.lower()} by name", (k.lower() in cs) == (t == k), cs, t)
        if t == "Txn":
            need("keyword of a transaction", tx, cs, t)
        if t == "Indent":
            need("indented line", cs[-1] in ("posting", "metadata"), cs, t)
        if t in ("Lcurl", "Rcurl", "At", "AtAt"):
            need("part of a posting", "posting" in cs, cs, t)
        if t == "Account" and tx:
            need("account in a transaction", cs[-1] in ("posting", "metadata"), cs, t)
        if t == "Key" and tx:
            need("key in a transaction", cs[-1] == "metadata", cs, t)
        need("posting in a transaction", "posting" not in cs or tx, cs, t)
        need("known contexts, once each", set(cs) <= {"transaction", "directive", "price", "balance", "posting", "metadata"} and len(set(cs)) == len(cs), cs, t)
    ts = {t for _, t in out}
    for t in (*KEYWORDS_, *PRAGMA_KW, "Txn", "Indent", "Lcurl", "At", "AtAt", "Key"):
        ctx.ob("token considered", t in ts, t, w)
    k = len(ctx.obs)
    c23.converted(ctx)
    ctx.obs[k:] = [o for o in ctx.obs[k:] if "context" in o[0] or not o[1]]
