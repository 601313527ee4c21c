"""C19: the library only reads."""
from common import *
from graph import *

TECHNIQUE = "effect analysis over the whole crate's call graph (resolved callees of every body), with a closed list of effects"
EXPLANATION = (
    "Every use of a function outside the crate, in every body of the crate (closures and macro expansions included, callees as resolved "
    "by the compiler), is classified: reading a file, examining a path, expanding a glob, or none; any other operation on files, "
    "processes, the environment, the network, threads, clocks or the standard streams is a violation, as is a dependency not known to be "
    "free of effects. Reading and globbing may be reached (over the call graph, traits and closures over-approximated) only from functions "
    "which make the sources; examining paths also from the parser. No static is mutable or has interior mutability, no thread-local is "
    "used, no unsafe block, function or implementation exists. An obligation is one use of an outside function, one static or one body."
)
ASSUMPTIONS = [
    "ariadne, chumsky, either, itertools, logos, rust_decimal, strum, time and unescaper have no effects except through what they are passed",
    "code generated by the Logos derive has none",
]
FLOOR = 1000

PURE_CRATES = {"core", "alloc", "ariadne", "chumsky", "either", "itertools", "logos", "rust_decimal", "strum", "time", "unescaper", "hashbrown", "smallvec", "lazy_format", "beancount_parser_lima"}
READ = {
    "std::fs::File::open", "std::fs::read", "std::fs::read_to_string",
    "std::fs::File::metadata",
}
EXAMINE = {
    "std::fs::canonicalize", "std::fs::metadata", "std::fs::symlink_metadata", "std::fs::exists", "std::fs::read_link",
    *("std::path::Path::" + m for m in "canonicalize exists try_exists metadata symlink_metadata is_file is_dir is_symlink read_link".split()),
}
EXPAND = {"glob::glob", "glob::glob_with", "std::fs::read_dir", "std::path::Path::read_dir"}
# modules of std whose functions act on the system
EFFECTS = ("std::fs::", "std::env::", "std::process::", "std::net::", "std::os::", "std::thread::", "std::time::", "std::sys::", "std::backtrace::", "std::alloc::", "std::panic::set_hook", "std::panic::take_hook")
STREAMS = ("std::io::stdin", "std::io::stdout", "std::io::stderr", "std::io::_print", "std::io::_eprint", "std::io::copy")
# traits and adaptors over a reader or writer already at hand
IO_OK = re.compile(r"std::io::(Read|Write|BufRead|Seek|BufReader|BufWriter|LineWriter|Cursor|Error|ErrorKind|IoSlice|Lines|Split|Bytes|Result|impls|read_to_string|empty|sink|IntoInnerError)\b")
FILE_META = re.compile(r"std::fs::(Metadata|FileType)::")
OTHER = re.compile(r"(^|::)(now|now_utc|now_local|current_local_offset|local_offset_at|print|eprint|set_var|remove_var)$")


def clean(path):
    return re.sub(r"::<[^:]*>|<'?[a-z_]*>", "", path)


def run(ctx):
    p = ctx.p
    g = graph(ctx)
    found = {"read": [], "examine": [], "expand": []}
    n = 0
    for bid, xs in g.ext.items():
        b = p.bodies[bid]
        for fn, node in xs:
            n += 1
            path = clean(fn["path"])
            r = fn.get("res") or {}
            kind = classify(path, clean(r.get("path") or path))
            at = f"{g.owner(bid)['path']} ({loc(node)})"
            if kind in found:
                found[kind].append((bid, node, path))
                kind = None
            key = f"effect/{path.lstrip('<')[:60]}"
            if kind:
                ctx.ob(key, False, f"{kind}: {path}", at)
            else:
                ctx.obs.append(("use of an outside function", True, at, path))
    ctx.analysed |= {b["path"] for b in p.bodies.values()}
    for kind, uses in found.items():
        for bid, node, path in uses:
            bad = [e for e in entries(g, bid) if not allowed(p, p.bodies[e], kind)]
            for e in bad[:3]:
                chain = " -> ".join(p.bodies[x]["path"] for x in g.path([e], bid))
                ctx.ob(f"{kind}/entry", False, f"{path} is reached from {p.bodies[e]['path']}: {chain[:600]}", loc(node))
            if not bad:
                ctx.ob(f"{kind}/entry", True, path, loc(node))
    ctx.ob("reads found", bool(found["read"]) and bool(found["expand"]), f"{ {k: len(v) for k, v in found.items()} }", "")
    # no global state, nothing unsafe
    for b in p.bodies.values():
        if b["kind"].startswith("Static"):
            why = "mutable" if "Mut" in b["kind"] and "mutability: Mut" in b["kind"] else interior(p, b["body"]["t"])
            ctx.ob("static", not why, f"static {b['path']} is {why}", ctx.at(b))
        if b.get("logos") and not b["path"].endswith("_get_action"):
            continue
        ok_ = not b.get("unsafe") and not any(x["k"] == "Block" and x.get("unsafe") for x in exprs(b["body"]))
        ctx.ob("unsafe", ok_, f"unsafe code in {b['path']}", ctx.at(b)) if not ok_ else ctx.obs.append(("unsafe", True, "", ""))
        for x in exprs(b["body"]):
            if x["k"] in ("Static", "ThreadLocal"):
                if x.get("id", "").split("::")[0] not in (p.crate if hasattr(p, "crate") else "beancount_parser_lima",):
                    ctx.ob("static/foreign", False, f"{x.get('id')} in {b['path']}", loc(x))
    for im in p.raw["impls"]:
        if im.get("unsafe") and "Logos" not in (im.get("expn") or ""):
            ctx.ob("unsafe/impl", False, f"unsafe implementation {im['id']}", im.get("s"))
    ctx.note(f"{n} uses of outside functions; " + "; ".join(f"{k}: {sorted({x[2] for x in v})}" for k, v in found.items()))


def classify(path, res):
    """The effect of an outside function, or None."""
    for q in (path, res):
        if q in READ:
            return "read"
        if q in EXAMINE:
            return "examine"
        if q in EXPAND:
            return "expand"
    if OTHER.search(path):
        return "depends on or changes the environment"
    crate = re.sub(r"^[<&]*(dyn )?", "", path).split("::")[0].split(" ")[0]
    if FILE_META.search(path) or FILE_META.search(res):
        return None
    for q in (path, res):
        m = re.search(r"std::(fs|env|process|net|os|thread|time|backtrace)::", q)
        if m and not q.startswith("<std::fs::File as std::io::Read>") and not (path.startswith("std::io::Read::") or path.startswith("std::fmt::") or path.startswith("std::convert::") or path.startswith("std::iter::")):
            if any(e in q for e in EFFECTS):
                return "acts on the system"
        if any(s in q for s in STREAMS):
            return "uses a standard stream"
    if crate == "std":
        if path.startswith("std::io::") and not IO_OK.match(path):
            return "unknown input or output"
        return None
    if crate == "glob":
        return None
    if crate not in PURE_CRATES and re.match(r"^[a-z_][a-z0-9_]*$", crate) and "::" in path:
        if crate in ("u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "char", "str", "bool", "f32", "f64", "impl"):
            return None
        return "a dependency which is not known to be free of effects"
    return None


def entries(g, bid):
    """Functions clients can call from which a body is reached."""
    seen, todo, out = {bid}, [bid], []
    while todo:
        x = todo.pop()
        if g.p.bodies[x].get("reach"):
            out.append(x)
        for y in list(g.callers(x)):
            if y not in seen:
                seen.add(y)
                todo.append(y)
    return out


def mentions(p, t, name, d=0):
    ty = p.types[t]
    return short(ty["h"] or "") == name or d < 6 and any(mentions(p, a, name, d + 1) for a in ty["a"] or ())


def allowed(p, b, kind):
    if b.get("ret") is not None and mentions(p, b["ret"], "BeancountSources"):
        return True
    if kind != "examine":
        return False
    if b.get("self") is not None:
        return short(p.head(b["self"])) == "BeancountParser"
    return True


MUTABLE = re.compile(r"^(Cell|RefCell|UnsafeCell|SyncUnsafeCell|OnceCell|OnceLock|Mutex|RwLock|Atomic\w*|Once|LocalKey|ReentrantLock|Sender|Receiver)$")


def interior(p, t, d=0):
    ty = p.types[t]
    if MUTABLE.match(short(ty["h"] or "")):
        return f"of type {ty['s'][:80]}, which can change"
    if d < 6:
        for a in ty["a"] or ():
            w = interior(p, a, d + 1)
            if w:
                return w
        adt_ = p.adts.get(ty["h"])
        for v in (adt_ or {}).get("variants", ()):
            for f in v["fs"]:
                w = interior(p, f["t"], d + 1)
                if w:
                    return w
    return ""
