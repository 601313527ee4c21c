"""C29: numeric literals have exactly the value they denote."""
from syntax import *
import itertools
import re
import streams
import c15
import c16
import logosspec as L

TECHNIQUE = "dataflow of the matched text to the decimal parser in both lexers, and of the number token to the value of an expression"
EXPLANATION = (
    "The action of the number pattern in each lexer, taken from the type-checked program with helpers inlined, must give the exact "
    "decimal parser (never the rounding one) the matched text without its separators, decided on every number text up to length 7 over "
    "representative digits and on long ones, including those beyond the representable precision, which must be refused. The recovery "
    "lexer's numbers pass unchanged through the adaptors (explored as transducers). Every grammar position reading a number token keeps "
    "its value itself, and evaluating an expression which is one number gives that number, rescaled to no other scale than its own. An "
    "obligation is one text, one grammar position, one adaptor machine or one evaluation."
)
ASSUMPTIONS = ["Decimal::from_str_exact gives the exact value and scale of a decimal text or an error, as documented"]
FLOOR = 500
EXACT = ("Decimal::from_str_exact",)


class Exact(c15.Lex):
    def t_app(self, t, env):
        n, args = t.a
        if n in ("parse:Decimal", "Decimal::from_str", "FromStr::from_str") or n.startswith("Decimal::") and n not in EXACT:
            raise Unknown(f"{n} may round")
        if n in EXACT:
            s = self.val(args[0], env)
            s = s if isinstance(s, str) else "".join(s)
            if not re.fullmatch(r"[0-9]+(\.[0-9]+)?", s):
                return ("adt", "Err", (("0", "error"),))
            return ("adt", "Ok", (("0", ("decimal", s)),))
        return super().t_app(t, env)


Unknown = c15.Unknown


def texts():
    num = re.compile(c15.NUM)
    for n in range(1, 8):
        for w in itertools.product("09,." if n > 5 else "019,.", repeat=n):
            s = "".join(w)
            if num.fullmatch(s):
                yield s
    yield from c15.number_texts()
    yield "123,456,789,012,345,678.000"
    yield "0." + "1234567890" * 4
    yield "9" * 40


def run(ctx):
    seen = 0
    for f, spec in c15.lexers(ctx):
        name, ty, e, act, rows = f
        w = ctx.at(act)
        acts = c15.actions(ctx, name, ty, e, act, rows)
        if acts is None:
            continue
        try:
            nfa, prio = L.lexer(e)
        except (L.Bad, ValueError) as x:
            ctx.ob(f"{name}/patterns", False, f"not understood: {x}", w)
            continue
        d = L.Dfa(nfa, [])
        W = Exact(ctx.p)
        bad, n = None, 0
        for s in texts():
            st = d.start
            for c in s:
                st = d.step(st, c)
            ls = d.labels(st)
            i = max(ls, key=lambda i: prio[i]) if ls else None
            if i is None or acts[i][0] != "Number":
                continue  # C15
            n += 1
            env = {"text": s}
            try:
                sel = [r for r in acts[i][1] if W.conj([g for g in r.guards if not c15.of_context(g[0])], env)]
                if len(sel) != 1:
                    raise Unknown(f"{len(sel)} paths")
                got = c15.payload(W, sel[0].ret, env)
            except Unknown as x:
                bad = f"the value of {s!r}: {x}"
                break
            if got != ("decimal", s.replace(",", "")):
                bad = f"{s!r} has the value of {got!r}"
                break
            ctx.obs.append((f"{name}/number text", True, "", ""))
        ctx.ob(f"{name}/number", not bad and n > 0, bad or f"{n} texts", w)
        seen += n > 0
    ctx.ob("lexers", seen >= 1, f"{seen} lexers with numbers", "")
    streams.report(ctx, {"token"}, "adaptors")
    s = Syntax(ctx)
    k = 0
    for n in s.nodes:
        if n.kind != "tok":
            continue
        for c, val in n.alts:
            if c == "Number":
                k += 1
                v = fld(val, "0") if val is not None and val.op == "adt" and val.a[1] == "Value" else val
                ctx.ob("grammar/number", v is not None and v.op == "pay" and v.a[0] is sym("token") and v.a[1:] == ("Number", "0"), f"a number token is read as {str(v)[:150]}", ctx.at(s.fb))
    ctx.ob("grammar/numbers", k > 0, f"{k} positions", ctx.at(s.fb))
    en = next(h for h in ctx.p.adts if h.endswith("types::Expr"))
    c16.EXPR = en
    ev = s.g.ev
    ev.unroll = True
    uses = [n for n in s.nodes for x in n.kids if c16.strip_same(x).kind == "rec" and n.kind == "fn"]
    ctx.ob("uses", bool(uses), f"{len(uses)}", ctx.at(s.fb))
    tr = ("Value", 0)
    t = c16.term(tr, en)
    for n in uses:
        c16.value_of(ctx, "evaluate", tr, [(g, v) for g, v, _, _ in apply_fn(ev, n, t, sym("span"))], t, "parsers::expr")
    b = ctx.p.method("ExprValue", "from", "From")
    e2 = Ev(ctx.p)
    e2.unroll = True
    c16.value_of(ctx, "from", tr, [(r.guards, r.ret) for r in e2.run(b, args=[t])], t, ctx.at(b))
