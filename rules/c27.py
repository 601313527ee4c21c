"""C27: the grammar accepts exactly the documented syntax of each declaration."""
from syntax import *

TECHNIQUE = "grammar extraction from the combinator values and exact automaton equivalence with the documented syntax"
EXPLANATION = (
    "The combinator value which parsers::file evaluates to (all helper functions inlined, from the type-checked program) is "
    "turned into a parsing expression grammar over token classes and then, exactly, into a deterministic automaton that "
    "reads the input backwards (one boolean per grammar position and continuation). Its language is compared with a regular "
    "expression of the documented syntax, for a whole file and for each declaration kind, by exploring all reachable pairs "
    "of states: equality holds for token sequences of every length, ordered choice, greediness and shadowing included. A "
    "difference is reported as a shortest token sequence on which they disagree."
)
ASSUMPTIONS = [
    "chumsky's combinators have their documented parsing-expression semantics",
    "an arithmetic expression is taken as one symbol (its structure is C16)",
    "conversions of token text which the lexer already guarantees succeed (C14, C15, C20 decide them)",
]
FLOOR = 20


def run(ctx):
    s = Syntax(ctx)
    w = ctx.at(s.fb)
    word, acc, n = s.equal(s.root, FILE)
    ctx.note(f"whole file: {n} state pairs explored over {len(s.alphabet)} symbols")
    ctx.ob("file", word is None, describe(word, acc) or f"{n} state pairs", w)
    lits = set()
    for x in s.nodes:
        if x.kind == "fn" and x.how in ("try_map", "try_map_with"):
            ls = s.literals(x)
            if ls is not None:
                lits.add(frozenset(ls))
    ctx.ob("booking methods", lits <= {frozenset(BOOKINGS)}, f"strings are restricted to {[sorted(x) for x in lits]}", w)
    # each kind of declaration by itself: inputs without the keywords of the others
    kinds = {k: r for k, r in DIRECTIVES.items()}
    kinds.update({k: rseq(r, EOL) for k, r in PRAGMA_SYNTAX.items()})
    keywords = [k for k in kinds if k != "Transaction"]
    for nm, r in kinds.items():
        without = {k for k in keywords if k != nm}
        if nm != "Transaction":
            # a transaction has no keyword of its own, only flags
            without |= {"Txn", "DedicatedFlag"}
            spec = rstar(ralt(r, DIRECTIVES["Transaction"]))
        else:
            spec = rstar(r)
        word, acc, n = s.equal(s.root, spec, without)
        ctx.ob(f"declaration/{nm}", word is None, describe(word, acc) or f"{n} state pairs", w)
    parts_ = [("metadata", METADATA), ("tags and links", TAGSLINKS), ("cost", COST), ("price annotation", PRICE)]
    for nm, r in parts_:
        hits = [x for x in s.nodes if x.kind == "fn" and s.language(x) == syms_of(r) and s.equal(x, r)[0] is None]
        ctx.note(f"{nm}: {len(hits)} grammar positions with exactly this language")


def describe(word, acc):
    if word is None:
        return ""
    return f"the token sequence [{' '.join(word)}] is {'accepted by the code but not part of' if acc else 'part of the documented syntax but rejected by the code:'} the documented syntax"
