"""C34: blank lines and comments make no difference."""
from common import *
import streams
import c15
from syntax import *

TECHNIQUE = "transducer exploration of the adaptors behind the lexer over all reachable states; automaton comparison of the token patterns"
EXPLANATION = (
    "(1) The stages between the generated lexer and the grammar are read from the type-checked program as transducers and explored over "
    "all their reachable states, for every sequence of classes of token: each run of ends of line (with blank lines, comment lines and "
    "whitespace between them) comes out as a single end of line, none at the start of the file, followed by an indent exactly when the "
    "line after the run is indented and there is one, and nothing comes out which the input does not call for but at most one end of "
    "line at the end. (2) The declared token patterns, compiled into one automaton, give every text of blank lines, comments and indents "
    "the kind of end of line which the documented vocabulary gives it: texts of every length. (3) The token automaton of the grammar "
    "accepts the last line of a file without an end of line. An obligation is one adaptor machine or "
    "one automaton comparison."
)
ASSUMPTIONS = [
    "the Logos code generator implements the patterns given to it by longest match, then highest priority",
    "a comment runs from a semicolon to the end of its line; a lone carriage return is not an end of line",
]
FLOOR = 5
HIDDEN = (None, "Eol", "EolThenIndent", "EolComment")


def run(ctx):
    streams.report(ctx, {"extra", "token", "blank"}, "adaptors")
    k = len(ctx.obs)
    for f, spec in c15.lexers(ctx):
        res = c15.compare(ctx, f, spec)
        if res is None:
            continue
        w = ctx.at(f[3])
        bad = {k: v for k, v in res[0].items() if k[0] in HIDDEN or k[1] in HIDDEN}
        for (got, want), word in bad.items():
            ctx.ob(f"{f[0]}/blank text/{want or 'skip'}/{got or 'skip'}", False, c15.differs(word, got, want), w)
        ctx.ob(f"{f[0]}/blank text", not bad, f"{res[1]} state pairs", w)
    # what other patterns yield is not at issue here
    ctx.obs[k:] = [o for o in ctx.obs[k:] if not o[0].endswith("/action") or o[0].split("/")[1] in ("skip",) + HIDDEN[1:]]
    s = Syntax(ctx)
    word, acc, n = s.equal(s.root, FILE)
    ctx.ob("grammar/last line", word is None or acc or word[-1:] == ["Eol"], f"the token sequence {word} at the end of a file is refused" if word else f"{n} state pairs", ctx.at(s.fb))
