"""C28: plugins are delivered complete and in order of declaration."""
from values import *

EXPLANATION = (
    "Dataflow over the type-checked program: on every path of every step of the declaration processor the plugin list is "
    "unchanged, except that a plugin pragma appends its own plugin as the last element; it starts empty, the final result "
    "hands it over unchanged and the successful parse returns it unchanged; the plugin pragma of the grammar builds its "
    "module name and optional configuration from the first and second string, and the accessors return those fields. "
    "An obligation is one output of one case on one path."
)
ASSUMPTIONS = ["Vec behaves as documented", "chumsky's combinators behave as documented"]
FLOOR = 14


def run(ctx):
    b, st = processor(ctx)
    w = ctx.at(b)
    pl = S("plugins")
    spec = [("plugin", g_pragma("Plugin"), {"plugins": cat(pl, one(arg("Plugin")))})]
    for k in PRAGMAS:
        if k != "Plugin":
            spec.append((k.lower(), g_pragma(k), {"plugins": pl}))
    spec += [("directive", G_DIR, {"plugins": pl}), ("resume", G_POP, {"plugins": pl}), ("end", G_END, {"plugins": pl})]
    check_table(ctx, "step", st, spec, step_get, w)
    nb = ctx.p.method("PragmaProcessor", "new")
    for r in ctx.run(nb):
        ctx.ob("new/no plugins", fld(r.ret, "plugins") is EMPTY, str(fld(r.ret, "plugins"))[:200], ctx.at(nb))
    rb = ctx.p.method("PragmaProcessor", "result")
    for r in ctx.run(rb):
        ctx.ob("result/plugins unchanged", fld(r.ret, "1") is pl, str(fld(r.ret, "1"))[:200], ctx.at(rb))
    pb = ctx.p.method("BeancountParser", "parse")
    rows = ctx.run(
        pb,
        opaque=("BeancountParser::parse_declarations", "PragmaProcessor::new", "PragmaProcessor::result", "BeancountSources::error_paths"),
        streams=("PragmaProcessor",),
    )
    n = 0
    for r in rows:
        if r.ret.op == "adt" and r.ret.a[1] == "Ok":
            n += 1
            v = fld(pay(r.ret, "Ok", "0"), "plugins")
            okv = v.op == "fld" and v.a[1] == "1" and v.a[0].op == "app" and v.a[0].a[0] == "PragmaProcessor::result"
            ctx.ob("parse/plugins of the processor", okv, str(v)[:300], ctx.at(pb))
            if okv:
                # the processor has run to its end first
                ctx.ob("parse/after the last declaration", v.a[0].a[1][0].op == "app" and v.a[0].a[1][0].a[0] == "drained", str(v)[:300], ctx.at(pb))
    ctx.ob("parse/success", n > 0, f"{n} paths", ctx.at(pb))
    for f in ("module_name", "config"):
        ab = ctx.p.method("Plugin", f)
        for r in ctx.run(ab):
            ctx.ob(f"accessor/{f}", identity(r.ret, S(f), r.guards), str(r.ret)[:200], ctx.at(ab))
    d = decls(ctx)
    n = 0
    for kind, o, c in compare_all(ctx, d):
        if kind == "Plugin":
            n += 1
            for path, okv, msg in c.values:
                ctx.ob(f"grammar/{' '.join(o.shape())}/{path}", okv, msg, d.w)
    ctx.ob("grammar/plugin", n > 0, f"{n} shapes", d.w)
