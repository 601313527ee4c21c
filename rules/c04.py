"""C04: no part of the input is silently skipped."""
from syntax import *
import streams
import c12
import c15

TECHNIQUE = (
    "transducer analysis of the token adaptors, automaton inclusion of what the lexer drops, grammar extraction with a who-accepts-what "
    "query, dataflow of each file's tokens to its parse"
)
EXPLANATION = (
    "From the text to the declarations nothing is dropped unreported. (1) Lexer: text no pattern matches is an error result, and the "
    "texts that are skipped or become an end of line, taken from the declared patterns as one automaton, are only whitespace, line ends, "
    "comments and ignored whole lines (all texts of any length). (2) Adaptors: each stage between the lexer and the grammar is explored "
    "as a transducer over all its reachable states; every token and every error it reads comes out, apart from blank lines. (3) Grammar: "
    "no rule outside an error recovery strategy accepts any token or an error token, and all token sequences accepted for a file are "
    "sequences of documented declarations. (4) Each file's own tokens, all of them, are what its parse reads, up to its own end of input. "
    "An obligation is one automaton comparison, adaptor machine, grammar position or dataflow fact."
)
ASSUMPTIONS = [
    "the Logos code generator implements the patterns given to it by longest match, then highest priority",
    "a chumsky parse without `lazy` reports input left over, and recovery reports the error it recovers from",
]
FLOOR = 60
HIDDEN = (None, "Eol", "EolThenIndent", "EolComment")


def run(ctx):
    streams.report(ctx, {"loss", "token"}, "tokens")
    for f, spec in c15.lexers(ctx):
        res = c15.compare(ctx, f, spec)
        if res is None:
            continue
        w = ctx.at(f[3])
        bad = {k: v for k, v in res[0].items() if k[0] in HIDDEN and k[1] not in HIDDEN}
        for (got, want), word in bad.items():
            ctx.ob(f"{f[0]}/hidden text", False, c15.differs(word, got, want), w)
        ctx.ob(f"{f[0]}/hidden text only", not bad, f"{res[1]} state pairs", w)
    s = Syntax(ctx)
    for n in s.nodes:
        if n.kind == "tok":
            wild = n.any or any(c == "Error" for c, _ in n.alts)
            ctx.ob("grammar/token", not wild, "a grammar rule outside error recovery accepts " + ("any token" if n.any else "an error token"), ctx.at(s.fb))
    word, acc, n = s.equal(s.root, FILE)
    if word is not None and acc:
        ctx.ob("grammar/file", False, f"the token sequence [{' '.join(word)}] is accepted although it is no sequence of declarations", ctx.at(s.fb))
    else:
        ctx.ob("grammar/file", True, f"{n} state pairs", ctx.at(s.fb))
    k = len(ctx.obs)
    c12.files(ctx)
    # of those, the ones about which tokens are parsed
    mine = ("lexing/", "tokens/", "parse/one parse", "parse/tokens of")
    ctx.obs[k:] = [o for o in ctx.obs[k:] if o[0].startswith(mine)]
