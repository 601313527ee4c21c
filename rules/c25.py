"""C25: parsed results borrow from the sources and cannot outlive them."""
import glob
import json
import os
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
from common import *
from graph import *
import c15
import extract

TECHNIQUE = "compile-fail witnesses against the library's metadata, with controls, and a walk of the types and constructions of the result"
EXPLANATION = (
    "Client programs are type-checked (not run) against the library as built from the current tree. Each forbidden program uses a result, "
    "or a text taken from it, after the sources or the parser are dropped, or claims it lives longer than they do, and must be refused by "
    "the borrow checker and for that reason only; its control, which differs only in that respect, must compile. Since lifetimes are part "
    "of the types, this settles every client program which goes through the same types. Programs which require Send and Sync of the results "
    "must compile. That the texts are borrowed rather than copied follows from the types of everything reachable in a result: no owned text "
    "among them, other than the resolved paths of the documents option; the tokens they borrow from own text only on paths where the string "
    "has a backslash. So that the types can be trusted, the crate's own code has no unsafe blocks and no functions which forge or leak "
    "borrows. An obligation is one program, one type, one use of a function or one path of a token's conversion."
)
ASSUMPTIONS = ["the generated code of Logos and the dependencies are sound"]
FLOOR = 100

BORROWCK = {"E0505", "E0597", "E0515", "E0716", "E0521", "E0310", "E0309", "E0621", "E0712", "E0713", "E0502", "E0506", "E0499"}
OWNED = re.compile(r"\b(String|OsString|PathBuf|CString)\b|(Box|Rc|Arc)<(str|\[u8\]|std::path::Path|std::ffi::OsStr)\b|\bVec<(u8|char)>")
# functions which make a borrow out of nothing, or for ever
FORGE = re.compile(r"(^|::)(leak|transmute|transmute_copy|from_raw|from_raw_parts|from_raw_parts_mut|from_utf8_unchecked|forget|zeroed|into_raw|as_mut_ptr_range|unerase)$")


def run(ctx):
    witnesses(ctx)
    types(ctx)
    tokens(ctx)
    forging(ctx)


def witnesses(ctx):
    src = os.path.join(extract.VERIF, "witness", "lifetimes.rs")
    names = sorted(set(re.findall(r'"((?:ok|bad)_\w+)"', open(src).read())))
    base = os.path.join(extract.BUILD, "target", "debug")
    metas = glob.glob(os.path.join(base, "build/beancount-parser-lima/*/out/libbeancount_parser_lima-*.rmeta")) + glob.glob(os.path.join(base, "deps/libbeancount_parser_lima-*.rmeta"))
    if not ctx.ob("library", len(metas) == 1, f"metadata of the library: {metas}"):
        return
    libs = []
    for d in sorted(set(map(os.path.dirname, glob.glob(os.path.join(base, "build/*/*/out/*.rmeta")) + glob.glob(os.path.join(base, "build/*/*/out/*.so")) + glob.glob(os.path.join(base, "deps/*.rmeta"))))):
        libs += ["-L", "dependency=" + d]
    with tempfile.TemporaryDirectory(dir=extract.BUILD) as tmp:

        def one(w):
            q = subprocess.run(
                ["rustc", "+nightly", "--edition", "2021", "--crate-type", "lib", "--emit=metadata", "--error-format=json", "-o", os.path.join(tmp, w + ".rmeta"),
                 "--cfg", f'w="{w}"', src, "--extern", "beancount_parser_lima=" + metas[0]] + libs,
                env=extract.env(), capture_output=True, text=True, cwd=tmp,
            )
            errs = []
            for l in q.stderr.splitlines():
                try:
                    m = json.loads(l)
                except ValueError:
                    continue
                if m.get("level") == "error" and not m["message"].startswith("aborting due to"):
                    errs.append(((m.get("code") or {}).get("code"), m["message"]))
            return w, q.returncode, errs

        with ThreadPoolExecutor(8) as ex:
            res = {w: (rc, errs) for w, rc, errs in ex.map(one, names)}
    n = 0
    for w, (rc, errs) in res.items():
        if w.startswith("ok_"):
            ctx.ob(f"program {w}", rc == 0, f"does not compile: {errs[:2]}", f"witness/lifetimes.rs {w}")
            continue
        n += 1
        okv = rc != 0 and errs and all(c in BORROWCK or c is None and "lifetime may not live long enough" in m for c, m in errs)
        why = "compiles, so a result may outlive what it borrows from" if rc == 0 else f"is refused for another reason: {errs[:2]}"
        if res.get("ok_" + w[4:], (1,))[0] == 0 or rc == 0:
            ctx.ob(f"program {w}", okv, why, f"witness/lifetimes.rs {w}")
    ctx.ob("programs", n >= 20, f"{n} forbidden programs")


def types(ctx):
    """What a result is made of."""
    p = ctx.p
    root = next((k for k in p.adts if short(k) == "ParseSuccess"), None)
    if not ctx.ob("result type", root is not None, "no ParseSuccess"):
        return
    seen = set()
    todo = []
    for v in p.adts[root]["variants"]:
        for f in v["fs"]:
            if f["n"] != "warnings":
                todo.append((f["t"], f["n"], None))
    while todo:
        t, path, field = todo.pop()
        x = p.types[t]
        if (x["s"], field) in seen:
            continue
        seen.add((x["s"], field))
        m = OWNED.search(re.sub(r"[\w:]+::(?=\w+)", "", x["s"]) if not x["a"] else "") or (OWNED.search(x["s"]) if not x["a"] else None)
        boxed = short(x["h"]) in ("Box", "Rc", "Arc", "Vec", "Cow") and x["a"] and p.types[x["a"][0]]["s"] in ("str", "u8", "char", "[u8]")
        fine = not (m or boxed) or field == ("Options", "documents") or field == ("BeancountOptionVariant", "Documents") or short(x["h"]) == "Cow"
        ctx.ob(f"type of {path}", fine, f"{x['s']} is a copy of text", "")
        a = p.adts.get(x["h"])
        if a and not m:
            for v in a["variants"]:
                for f in v["fs"]:
                    todo.append((f["t"], f"{short(x['h'])}.{f['n']}", field or ((short(x["h"]), f["n"]) if short(x["h"]) == "Options" else None)))
        for y in x["a"] or ():
            todo.append((y, path, field))
    ctx.ob("types", len(seen) > 60, f"{len(seen)} types")


def tokens(ctx):
    """Owned text in tokens."""
    p = ctx.p
    n = 0
    for (name, ty, e, act, rows), _ in c15.lexers(ctx):
        for r in rows:
            own = [s for s in subterms(r.ret) if s.op == "adt" and short(s.a[0]) == "Cow" and s.a[1] == "Owned"]
            if r.ret.op == "adt" or own:
                n += 1
            if own:
                esc = any(pol and c.op == "app" and c.a[0] in ("str::contains", "exists", "str::find") and "\\" in str(c) for c, pol in r.guards) or any(
                    pol and c.op in ("exists", "is") and "\\" in str(c) for c, pol in r.guards
                )
                ctx.ob(f"{name}/owned", esc, f"text is copied when {showg(r.guards)[-300:]}", ctx.at(act))
    ctx.ob("tokens", n > 20, f"{n} conversions")
    for k, a in p.adts.items():
        if short(k) in ("Token", "RecoveryToken"):
            for v in a["variants"]:
                for f in v["fs"]:
                    x = p.types[f["t"]]
                    ctx.ob(f"token {v['n'] if 'n' in v else f['n']}", not OWNED.search(x["s"]) or short(k) == "Token" and "Error" in x["s"], f"{x['s']} owns text", "")


def forging(ctx):
    p = ctx.p
    n = 0
    for b in p.bodies.values():
        if b.get("logos") or derived(b):
            continue
        n += 1
        ctx.ob(f"{b['path']}/unsafe", not b.get("unsafe"), "unsafe code", ctx.at(b))
        for x in exprs(b["body"]):
            fn = x.get("fn")
            if fn and not fn.get("local"):
                nm = p.fname(fn)
                if FORGE.search(nm):
                    ctx.ob(f"{b['path']}/{nm}", False, f"{nm} makes a borrow which nothing limits", loc(x))
    ctx.ob("bodies", n > 300, f"{n} functions")
