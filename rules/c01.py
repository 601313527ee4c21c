"""C01: loading, lexing and parsing never panic."""
from common import *
from panics import *

TECHNIQUE = "enumeration of every panic-capable operation reachable in the call graph, each discharged by dataflow over all paths that reach it"

EXPLANATION = (
    "From the conversions into sources, the creation of the parser, parsing and the lexers' token callbacks, the call graph gives all "
    "reachable functions and in them every operation which can panic: unwrapping, indexing, slicing, arithmetic (on Decimal as well), "
    "panicking macros and panicking library calls, including those inside closures given to other functions. For each, the conditions and "
    "operands on every path which reaches it are computed (in the function itself or, when the reason lies there, in every caller), and the "
    "panic must be excluded by them, by the language of the token whose text is converted (from its pattern: least length, first and last "
    "characters, or all its words), or by a fact about the program's own state: ids index their tables, an include which is processed was "
    "loaded, a pushed key keeps at least one value, every account type has a name, every source has tokens. Each of these is established "
    "where that state is built or changed, and those obligations are part of this check. An obligation is one operation or one "
    "construction or change of state."
)
ASSUMPTIONS = [
    "sizes and counts of what is in memory do not overflow when a few of them are added",
    "functions of other crates panic only where documented and listed in rules/panics.py; a lexer's items have spans within its text, on character boundaries and not empty",
    "between loading and processing, the same tokens come from the same text (C15) and processing follows the current file (C10)",
    "no more than 2^32 sources; expressions are not nested so deeply that the stack ends (C26)",
]
FLOOR = 60


def run(ctx):
    p = ctx.p
    roots = []
    for k in (("From", "from"), ("TryFrom", "try_from")):
        for b in p.trait_bodies.get(k, ()):
            if b.get("self") is not None and short(p.head(b["self"])) == "BeancountSources":
                roots.append(b)
    roots += [p.method("BeancountParser", "new"), p.method("BeancountParser", "parse")]
    roots += [b for b in p.bodies.values() if b.get("logos") and b["name"] == "_get_action"]
    ctx.ob("entries", len(roots) >= 7, f"{len(roots)} entry points: {[b['path'] for b in roots]}")
    Panics(ctx, roots).all()
