"""Models of the standard library (and of a few other crates) used by the evaluation.

A model returns [(state, value)], or None to fall back to inlining or an opaque call."""
import re

from terms import *
from ev import Ctl, mext, is_, St

MODELS = {}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f

    return deco


def ident(ev, st, fn, args, e, fr):
    return [(st, ev.rv(st, args[0]))]


for n in """Clone::clone ToOwned::to_owned AsRef::as_ref Borrow::borrow Deref::deref
 Option::as_ref Option::as_deref Option::copied Option::cloned Result::as_ref Result::as_deref Result::copied Result::cloned
 String::as_str str::as_str PathBuf::as_path Path::to_path_buf Path::as_path Box::new Rc::new Arc::new hint::must_use
 Vec::as_slice Vec::into_boxed_slice slice::to_vec slice::into_vec String::into_boxed_str str::to_string String::from_str
 slice::iter Vec::iter VecDeque::iter HashMap::iter HashSet::iter BTreeMap::iter BTreeSet::iter Option::into_iter
 HashSet::into_iter IntoIterator::into_iter Iterator::copied Iterator::cloned Iterator::fuse Iterator::peekable
 HashMap::into_iter BTreeMap::into_iter HashSet::drain0 intrinsics::likely slice::into_iter Cow::into_owned
 String::into_string Box::into_inner str::chars convert::identity boxed::box_assume_init_into_vec_unsafe
 Path::as_os_str OsStr::to_os_string Path::new Borrow::borrow cmp::Reverse0 Pin::new Cow::as_ref str::as_ref array::iter
 str::to_owned str::into Box::as_ref String::as_ref PathBuf::into_os_string OsString::from String::into_boxed_str
 rc::unwrap Box::leak0 array::into_iter Sum0 VecDeque::into_iter""".split():
    MODELS[n] = ident


@model("IntoIterator::into_iter")
def into_iter(ev, st, fn, args, e, fr):
    a = args[0]
    cur = ev.rv(st, a)
    if is_stream(ev, cur):
        if a.op == "ref":
            ev.setref(st, a, app("drained", cur))
        return [(st, app("items", cur))]
    if a.op == "ref":
        # iterating through a mutable reference to an iterator keeps the reference
        t = ev.p.types[fn["targs"][0]] if fn.get("targs") else None
        return [(st, a)]
    if a.op == "adt" and a.a[0] == OPT:
        return [(st, one(a.a[2][0][1]) if a.a[1] == "Some" else EMPTY)]
    return [(st, a)]


@model("Option::iter", "Option::into_iter")
def option_iter(ev, st, fn, args, e, fr):
    v = ev.rv(st, args[0])
    return [
        (s, one(pay(v, "Some", "0")) if b == "Some" else EMPTY) for s, b in ev.case(st, v, OPT)
    ]


@model("Iterator::by_ref", "DerefMut::deref_mut", "AsMut::as_mut", "BorrowMut::borrow_mut", "Vec::as_mut_slice")
def byref(ev, st, fn, args, e, fr):
    return [(st, args[0])]


@model("SimpleState::deref_mut")
def _(ev, st, fn, args, e, fr):
    return [(st, args[0])]


# ---- constructors


@model(
    "Vec::new", "VecDeque::new", "String::new", "Vec::with_capacity", "VecDeque::with_capacity",
    "String::with_capacity", "iter::empty",
)
def empty_seq(ev, st, fn, args, e, fr):
    return [(st, EMPTY)]


@model(
    "HashMap::new", "HashSet::new", "BTreeMap::new", "BTreeSet::new", "HashMap::with_capacity",
    "HashSet::with_capacity",
)
def empty_map(ev, st, fn, args, e, fr):
    return [(st, MEMPTY)]


def default_of(ev, st, ti, fr, e):
    t = ev.p.types[ti]
    h = t["h"]
    if h in ("&", "&mut"):
        return default_of(ev, st, t["a"][0], fr, e)
    if h.endswith(("::Vec", "::VecDeque", "::String")) or t["s"] in ("str",):
        return [(st, EMPTY if not (h.endswith("String") or t["s"] == "str") else lstr(""))]
    if h.endswith(("::HashMap", "::HashSet", "::BTreeMap", "::BTreeSet")):
        return [(st, MEMPTY)]
    if h == OPT:
        return [(st, NONE)]
    if t["s"] == "bool":
        return [(st, FALSE)]
    if re.match(r"^[iu](\d+|size)$", t["s"]):
        return [(st, lint(0))]
    if t["s"] == "()":
        return [(st, UNIT)]
    b = ev.p.trait_impl("Default", "default", ti)
    if b is not None:
        return ev.inline_call(st, b["id"], [], e or {"s": ""}, fr, "Default::default")
    return [(st, app("default:" + t["s"]))]


@model("Default::default")
def default(ev, st, fn, args, e, fr):
    res = fn.get("res")
    if res and res.get("local"):
        return None
    if fn.get("targs"):
        return default_of(ev, st, fn["targs"][0], fr, e)
    return None


@model("mem::take")
def mem_take(ev, st, fn, args, e, fr):
    old = ev.rv(st, args[0])
    out = []
    for s, d in default_of(ev, st, fn["targs"][0], fr, e):
        ev.setref(s, args[0], d)
        out.append((s, old))
    return out


@model("mem::replace")
def mem_replace(ev, st, fn, args, e, fr):
    old = ev.rv(st, args[0])
    ev.setref(st, args[0], args[1])
    return [(st, old)]


@model("mem::swap")
def mem_swap(ev, st, fn, args, e, fr):
    a, b = ev.rv(st, args[0]), ev.rv(st, args[1])
    ev.setref(st, args[0], b)
    ev.setref(st, args[1], a)
    return [(st, UNIT)]


@model("slice::swap")
def slice_swap(ev, st, fn, args, e, fr):
    if args[0].op != "ref":
        return None
    at = [mk("ref", args[0].a[0], args[0].a[1] + (("i", ev.rv(st, i)),)) for i in args[1:]]
    a, b = ev.rv(st, at[0]), ev.rv(st, at[1])
    ev.setref(st, at[0], b)
    ev.setref(st, at[1], a)
    return [(st, UNIT)]


@model("mem::drop", "mem::forget")
def drop(ev, st, fn, args, e, fr):
    return [(st, UNIT)]


# ---- conversions

STRINGY = ("alloc::string::String", "str", "std::path::PathBuf", "std::path::Path", "alloc::borrow::Cow",
           "std::ffi::os_str::OsString", "std::ffi::os_str::OsStr")


def convert(ev, st, src, dst, v, e, fr, trait="From", method="from"):
    p = ev.p
    v0 = v
    if p.types[src]["s"] == p.types[dst]["s"]:
        return [(st, v)]
    for tr, me in ((trait, method),):
        cands = []
        for b in p.trait_bodies.get((tr, me), ()):
            ta = b.get("trait_args") or []
            if len(ta) == 2 and p.unify(ta[0], dst) and p.unify(ta[1], src):
                cands.append(b)
        if len(cands) > 1:
            ex = [b for b in cands if p.types[b["trait_args"][1]]["h"] == p.types[src]["h"]]
            cands = ex or cands
        if len(cands) == 1:
            return ev.inline_call(st, cands[0]["id"], [v], e, fr, tr + "::" + me)
    if trait == "From":
        # the other direction: a local Into
        for b in p.trait_bodies.get(("Into", "into"), ()):
            ta = b.get("trait_args") or []
            if len(ta) == 2 and p.unify(ta[1], dst) and p.unify(ta[0], src):
                return ev.inline_call(st, b["id"], [v], e, fr, "Into::into")
        v = ev.rv(st, v)
        dh, sh = p.head(dst), p.head(src)
        if dh == OPT and sh != OPT:
            return [(st, some(v))]
        # conversions between owners of the same contents
        return [(st, v)]
    v = ev.rv(st, v)
    dn = p.types[dst]["s"]
    return [(st, app(f"{method}:{simp(dn)}", v))]


def simp(s):
    s = re.sub(r"<.*>", "", s)
    return s.rsplit("::", 1)[-1]


@model("Into::into")
def into(ev, st, fn, args, e, fr):
    res = fn.get("res")
    if res and res.get("local"):
        return None
    ta = fn.get("targs") or []
    if len(ta) == 2:
        if re.match(r"^[A-Z][A-Za-z0-9]?$", ev.p.types[ta[0]]["s"]) and ev.p.head(ta[1]) in ev.p.adts:
            # a conversion chosen by the caller
            return [(st, app("into:" + short(ev.p.head(ta[1])), ev.rv(st, args[0])))]
        return convert(ev, st, ta[0], ta[1], args[0], e, fr)
    return None


@model("From::from")
def from_(ev, st, fn, args, e, fr):
    res = fn.get("res")
    if res and res.get("local"):
        return None
    ta = fn.get("targs") or []
    if len(ta) == 2:
        v = ev.rv(st, args[0])
        h = ev.p.head(ta[0])
        if h.endswith(("HashMap", "HashSet", "BTreeMap", "BTreeSet")):
            return [(st, to_map(ev, v, h))]
        return convert(ev, st, ta[1], ta[0], args[0], e, fr)
    return None


@model("TryInto::try_into")
def try_into(ev, st, fn, args, e, fr):
    ta = fn.get("targs") or []
    if len(ta) == 2:
        return convert(ev, st, ta[0], ta[1], args[0], e, fr, "TryFrom", "try_from")
    return None


@model("TryFrom::try_from")
def try_from(ev, st, fn, args, e, fr):
    res = fn.get("res")
    if res and res.get("local"):
        return None
    ta = fn.get("targs") or []
    if len(ta) == 2:
        return convert(ev, st, ta[1], ta[0], args[0], e, fr, "TryFrom", "try_from")
    return None


@model("str::parse")
def str_parse(ev, st, fn, args, e, fr):
    ti = fn["targs"][0]
    b = ev.p.trait_impl("FromStr", "from_str", ti)
    if b is not None:
        return ev.inline_call(st, b["id"], args, e, fr, "FromStr::from_str")
    return [(st, app("parse:" + simp(ev.p.types[ti]["s"]), ev.rv(st, args[0])))]


@model("FromStr::from_str")
def from_str(ev, st, fn, args, e, fr):
    res = fn.get("res")
    if res and res.get("local"):
        return None
    return [(st, app("parse:" + simp(ev.p.types[fn["targs"][0]]["s"]), ev.rv(st, args[0])))]


# ---- strings and formatting


def is_strty(ev, ti):
    t = ev.p.types[ev.p.strip_ref(ti)]
    return t["s"] in ("str", "std::string::String") or t["h"] in ("alloc::string::String", "str") or (
        t["h"] == "alloc::borrow::Cow" and "str" in t["s"]
    )


def display(ev, st, v, ti, fr, e):
    """[(state, text)] of Display of v."""
    v = ev.rv(st, v)
    if v.op == "lit":
        if v.a[0] == "str":
            return [(st, v)]
        return [(st, lstr(str(v.a[1])))]
    if ti is not None and is_strty(ev, ti):
        return [(st, v)]
    if v.op == "adt":
        b = ev.impl_for_adt("Display", "fmt", v.a[0])
        if b is not None and b["id"] not in fr.stack:
            w = ev.newroot(st, lstr(""), "f")
            out = []
            for s, r in ev.inline_call(st, b["id"], [v, mk("ref", w, ())], e or {"s": ""}, fr, "Display::fmt"):
                out.append((s, s.store[w]))
            return out
    if v.op == "seq":
        return [(st, v)]
    if v.op == "app" and v.a[0] in ("disp", "dbg"):
        return [(st, v)]
    return [(st, app("disp", v))]


@model("ToString::to_string")
def to_string(ev, st, fn, args, e, fr):
    return display(ev, st, args[0], fn["targs"][0] if fn.get("targs") else None, fr, e)


@model("Argument::new_display")
def new_display(ev, st, fn, args, e, fr):
    ti = fn["targs"][-1] if fn.get("targs") else None
    return [(s, app("fmtarg", t)) for s, t in display(ev, st, args[0], ti, fr, e)]


@model("Argument::new_debug")
def new_debug(ev, st, fn, args, e, fr):
    return [(st, app("fmtarg", app("dbg", ev.rv(st, args[0]))))]


def template(lits, argv):
    """Decode the byte template of format_args."""
    b = lits.encode("latin-1") if isinstance(lits, str) else lits
    i = 0
    n = 0
    out = []
    while i < len(b):
        c = b[i]
        i += 1
        if c == 0:
            break
        if c < 0x80:
            out.append(("all", lstr(b[i : i + c].decode("utf-8", "replace"))))
            i += c
        elif c == 0x80:
            ln = b[i] | b[i + 1] << 8
            i += 2
            out.append(("all", lstr(b[i : i + ln].decode("utf-8", "replace"))))
            i += ln
        else:
            opts = []
            if c & 1:
                opts.append(b[i : i + 4])
                i += 4
            if c & 2:
                opts.append(b[i : i + 2])
                i += 2
            if c & 4:
                opts.append(b[i : i + 2])
                i += 2
            if c & 8:
                n = b[i] | b[i + 1] << 8
                i += 2
            a = argv[n] if n < len(argv) else app("fmtarg", app("?"))
            n += 1
            t = a.a[1][0] if a.op == "app" and a.a[0] == "fmtarg" else a
            if opts:
                t = app("fmtopt", t, lstr(repr(b"".join(opts))))
            out.append(("all", t))
    return seq(out)


@model("Arguments::new", "Arguments::from_str", "Arguments::new_const", "Arguments::from_str_nonconst")
def arguments(ev, st, fn, args, e, fr):
    a0 = ev.rv(st, args[0])
    if len(args) == 1:
        return [(st, a0)]
    av = ev.rv(st, args[1])
    argv = [p[1] for p in parts(av)] if av.op == "seq" else []
    if a0.op == "lit":
        return [(st, template(a0.a[1], argv))]
    return [(st, app("format", a0, av))]


@model("fmt::format", "alloc::format")
def fmt_format(ev, st, fn, args, e, fr):
    return [(st, ev.rv(st, args[0]))]


@model("Formatter::write_str", "Formatter::write_fmt", "Formatter::write_char")
def fmt_write(ev, st, fn, args, e, fr):
    t = ev.rv(st, args[1])
    if t.op == "lit" and t.a[0] == "char":
        t = lstr(t.a[1])
    if args[0].op == "ref":
        ev.append(st, args[0], t if t.op in ("lit", "seq") else seq((("all", t),)))
    return [(st, ok(UNIT))]


@model("Write::write_str", "Write::write_fmt", "Write::write_char", "Write::write_all")
def trait_write(ev, st, fn, args, e, fr):
    if "fmt" in (fn.get("trait") or ""):
        return fmt_write(ev, st, fn, args, e, fr)
    # std::io::Write may fail
    t = ev.rv(st, args[1])
    if args[0].op == "ref":
        w0 = ev.rv(st, args[0])
        r = app("io_write", w0, t)
        st.eff += (("write", "io::Write::" + fn["path"].rsplit("::", 1)[-1], (w0, t), e.get("s", "")),)
        ev.append(st, args[0], t)
        return [(st, r)]
    return None


@model("Formatter::pad")
def fmt_pad(ev, st, fn, args, e, fr):
    return fmt_write(ev, st, fn, args, e, fr)


@model("Display::fmt")
def display_fmt(ev, st, fn, args, e, fr):
    a0 = ev.rv(st, args[0])
    res = fn.get("res")
    ti = fn["targs"][0] if fn.get("targs") else None
    out = []
    for s, t in display(ev, st, a0, ti, fr, e):
        if args[1].op == "ref":
            ev.append(s, args[1], t if t.op in ("lit", "seq") else seq((("all", t),)))
        out.append((s, ok(UNIT)))
    return out


@model("Debug::fmt")
def debug_fmt(ev, st, fn, args, e, fr):
    if args[1].op == "ref":
        ev.append(st, args[1], seq((("all", app("dbg", ev.rv(st, args[0]))),)))
    return [(st, ok(UNIT))]


@model("String::push_str", "PathBuf::push0", "String::push")
def push_str(ev, st, fn, args, e, fr):
    t = ev.rv(st, args[1])
    if t.op == "lit" and t.a[0] == "char":
        t = lstr(t.a[1])
    elif fn["path"].endswith("::push"):
        t = one(t)
    ev.append(st, args[0], t if t.op in ("lit", "seq") else seq((("all", t),)))
    return [(st, UNIT)]


# ---- sequences


@model("Vec::push", "VecDeque::push_back", "BinaryHeap::push0", "LinkedList::push_back")
def push(ev, st, fn, args, e, fr):
    ev.append(st, args[0], one(args[1]))
    return [(st, UNIT)]


@model("VecDeque::push_front")
def push_front(ev, st, fn, args, e, fr):
    ev.setref(st, args[0], cat(one(args[1]), ev.rv(st, args[0])))
    return [(st, UNIT)]


@model("Vec::insert", "VecDeque::insert")
def vec_insert(ev, st, fn, args, e, fr):
    if args[1] is lint(0):
        ev.setref(st, args[0], cat(one(args[2]), ev.rv(st, args[0])))
        return [(st, UNIT)]
    v = ev.rv(st, args[0])
    if args[1] is app("len", v):
        ev.append(st, args[0], one(args[2]))
        return [(st, UNIT)]
    return None


@model("Vec::append", "VecDeque::append")
def vec_append(ev, st, fn, args, e, fr):
    more = ev.rv(st, args[1])
    ev.append(st, args[0], more)
    if args[1].op == "ref":
        ev.setref(st, args[1], EMPTY)
    return [(st, UNIT)]


@model("Vec::extend_from_slice")
def extend_slice(ev, st, fn, args, e, fr):
    ev.append(st, args[0], ev.rv(st, args[1]))
    return [(st, UNIT)]


@model("Extend::extend")
def extend(ev, st, fn, args, e, fr):
    ti = fn["targs"][0]
    h = ev.p.head(ti)
    out = []
    for s, more in materialise(ev, st, args[1], fr, e):
        if h.endswith(("HashMap", "BTreeMap", "HashSet", "BTreeSet")):
            m = ev.rv(s, args[0])
            ev.setref(s, args[0], mext(m, pairs(ev, more, h)))
        else:
            ev.append(s, args[0], more)
        out.append((s, UNIT))
    return out


@model("Vec::pop", "VecDeque::pop_back")
def pop(ev, st, fn, args, e, fr):
    return ev.pop_back(st, args[0])


@model("VecDeque::pop_front")
def popf(ev, st, fn, args, e, fr):
    return ev.pop_front(st, args[0])


@model("Vec::clear", "VecDeque::clear", "String::clear")
def clear(ev, st, fn, args, e, fr):
    ev.setref(st, args[0], EMPTY)
    return [(st, UNIT)]


@model("HashMap::clear", "HashSet::clear", "BTreeMap::clear")
def mclear(ev, st, fn, args, e, fr):
    ev.setref(st, args[0], MEMPTY)
    return [(st, UNIT)]


@model("Vec::drain", "VecDeque::drain", "HashMap::drain", "HashSet::drain")
def drain(ev, st, fn, args, e, fr):
    v = ev.rv(st, args[0])
    if len(args) == 2:
        r = ev.rv(st, args[1])
        if not (r.op == "adt" and r.a[0].endswith("RangeFull")):
            return None
    ev.setref(st, args[0], MEMPTY if "Hash" in fn["path"] else EMPTY)
    return [(st, v)]


@model(
    "Vec::is_empty", "VecDeque::is_empty", "str::is_empty", "String::is_empty", "slice::is_empty",
    "HashMap::is_empty", "HashSet::is_empty", "BTreeMap::is_empty", "ExactSizeIterator::is_empty", "OsStr::is_empty",
)
def is_empty(ev, st, fn, args, e, fr):
    v = ev.rv(st, args[0])
    if v is MEMPTY:
        return [(st, TRUE)]
    if v.op in ("mset",):
        return [(st, FALSE)]
    return [(s, lbool(not b)) for s, b in ev.nonempty(st, v)]


@model("Vec::len", "VecDeque::len", "str::len", "String::len", "slice::len", "HashMap::len", "HashSet::len", "ExactSizeIterator::len", "BTreeMap::len")
def length(ev, st, fn, args, e, fr):
    v = ev.rv(st, args[0])
    if v.op == "seq" and all(p[0] == "one" for p in v.a[0]):
        return [(st, lint(len(v.a[0])))]
    if v.op == "lit" and v.a[0] == "str":
        return [(st, lint(len(v.a[1].encode())))]
    if v is MEMPTY:
        return [(st, lint(0))]
    return [(st, app("len", v))]


@model("slice::first", "VecDeque::front")
def first(ev, st, fn, args, e, fr):
    v = ev.rv(st, args[0])
    t = ev.newroot(st, v)
    return ev.pop_front(st, mk("ref", t, ()))


@model("slice::last", "VecDeque::back")
def last(ev, st, fn, args, e, fr):
    v = ev.rv(st, args[0])
    t = ev.newroot(st, v)
    return ev.pop_back(st, mk("ref", t, ()))


@model("slice::split_first")
def split_first(ev, st, fn, args, e, fr):
    v = ev.rv(st, args[0])
    if v.op == "lit" and v.a[0] in ("bytes",):
        if not v.a[1]:
            return [(st, NONE)]
        return [(st, some(tup(lint(ord(v.a[1][0])), lit("bytes", v.a[1][1:]))))]
    t = ev.newroot(st, v)
    out = []
    for s, x in ev.pop_front(st, mk("ref", t, ())):
        if x is NONE:
            out.append((s, NONE))
        else:
            out.append((s, some(tup(x.a[2][0][1], s.store[t]))))
    return out


@model("str::as_bytes", "String::as_bytes")
def as_bytes(ev, st, fn, args, e, fr):
    v = ev.rv(st, args[0])
    if v.op == "lit" and v.a[0] == "str":
        return [(st, lit("bytes", v.a[1].encode().decode("latin-1")))]
    return [(st, app("bytes", v))]


@model("slice::contains", "VecDeque::contains")
def slice_contains(ev, st, fn, args, e, fr):
    v, x = ev.rv(st, args[0]), ev.rv(st, args[1])
    ps = parts(v)
    if v.op == "seq" and all(p[0] == "one" for p in ps):
        out = []
        pend = [st]
        for p in ps:
            nxt = []
            for s in pend:
                for s2, b in ev.split(s, ev.mkeq(s, p[1], x)):
                    (out.append((s2, TRUE)) if b else nxt.append(s2))
            pend = nxt
        return out + [(s, FALSE) for s in pend]
    return None


@model("Index::index", "IndexMut::index_mut")
def index_(ev, st, fn, args, e, fr):
    i = ev.rv(st, args[1])
    h = ev.p.head(fn["targs"][0]) if fn.get("targs") else ""
    ev.hazard("index", st, e, fr, ev.rv(st, args[0]), i, h)
    if "IndexMut" in fn["path"] and args[0].op == "ref":
        key = ("k", i) if "Map" in h else ("i", i)
        return [(st, mk("ref", *ev.follow(st, args[0].a[0], args[0].a[1] + (key,))))]
    v = ev.rv(st, args[0])
    if "Map" in h:
        return [(st, ent(v, i))]
    return [(st, index(v, i))]


@model("slice::get", "Vec::get", "str::get")
def slice_get(ev, st, fn, args, e, fr):
    v, i = ev.rv(st, args[0]), ev.rv(st, args[1])
    return [
        (s, some(index(v, i)) if b else NONE) for s, b in ev.split(st, app("inbounds", v, i))
    ]


@model("vec::from_elem")
def from_elem(ev, st, fn, args, e, fr):
    return [(st, app("repeat", ev.rv(st, args[0]), ev.rv(st, args[1])))]


@model("Box::new_uninit", "intrinsics::write_box_via_move")
def boxes(ev, st, fn, args, e, fr):
    if "write" in fn["path"]:
        return [(st, ev.rv(st, args[1]))]
    return [(st, app("uninit"))]


# ---- maps and sets


@model("HashMap::insert", "BTreeMap::insert")
def map_insert(ev, st, fn, args, e, fr):
    m = ev.rv(st, args[0])
    k = ev.rv(st, args[1])
    old = ent(m, k)
    ev.setref(st, args[0], mset(m, k, args[2]))
    r = mk("ite", app("has", m, k), some(old), NONE)
    return [(st, mk("insert_result", m, k))]


@model("HashSet::insert", "BTreeSet::insert")
def set_insert(ev, st, fn, args, e, fr):
    m = ev.rv(st, args[0])
    k = ev.rv(st, args[1])
    out = []
    for s, b in ev.has(st, m, k):
        if not b:
            ev.setref(s, args[0], mset(m, k, UNIT))
        out.append((s, lbool(not b)))
    return out


@model("HashSet::replace")
def set_replace(ev, st, fn, args, e, fr):
    m = ev.rv(st, args[0])
    k = ev.rv(st, args[1])
    out = []
    for s, b in ev.has(st, m, k):
        ev.setref(s, args[0], mset(m, k, app("replaced")))
        out.append((s, some(app("stored", m, k)) if b else NONE))
    return out


@model("HashMap::contains_key", "HashSet::contains", "BTreeMap::contains_key", "BTreeSet::contains")
def contains(ev, st, fn, args, e, fr):
    return [(s, lbool(b)) for s, b in ev.has(st, args[0], ev.rv(st, args[1]))]


@model("HashMap::get", "BTreeMap::get")
def map_get(ev, st, fn, args, e, fr):
    m, k = ev.rv(st, args[0]), ev.rv(st, args[1])
    return [(s, some(ent(m, k)) if b else NONE) for s, b in ev.has(st, m, k)]


@model("HashSet::get")
def set_get(ev, st, fn, args, e, fr):
    m, k = ev.rv(st, args[0]), ev.rv(st, args[1])
    return [(s, some(app("stored", m, k)) if b else NONE) for s, b in ev.has(st, m, k)]


@model("HashMap::get_key_value")
def map_gkv(ev, st, fn, args, e, fr):
    m, k = ev.rv(st, args[0]), ev.rv(st, args[1])
    return [(s, some(tup(app("stored", m, k), ent(m, k))) if b else NONE) for s, b in ev.has(st, m, k)]


@model("HashMap::get_mut", "BTreeMap::get_mut")
def map_get_mut(ev, st, fn, args, e, fr):
    m, k = ev.rv(st, args[0]), ev.rv(st, args[1])
    out = []
    for s, b in ev.has(st, m, k):
        if b:
            out.append((s, some(mk("ref", *ev.follow(s, args[0].a[0], args[0].a[1] + (("k", k),))))))
        else:
            out.append((s, NONE))
    return out


@model("HashMap::remove", "BTreeMap::remove", "HashMap::remove_entry", "HashSet::remove", "HashSet::take")
def map_remove(ev, st, fn, args, e, fr):
    m, k = ev.rv(st, args[0]), ev.rv(st, args[1])
    nm = fn["path"].rsplit("::", 1)[-1]
    isset = "HashSet" in fn["path"]
    out = []
    for s, b in ev.has(st, m, k):
        if b:
            ev.setref(s, args[0], mrem(m, k))
            if isset:
                r = TRUE if nm == "remove" else some(app("stored", m, k))
            else:
                r = some(ent(m, k)) if nm == "remove" else some(tup(k, ent(m, k)))
        else:
            r = FALSE if isset and nm == "remove" else NONE
        out.append((s, r))
    return out


@model("BTreeMap::pop_first")
def pop_first(ev, st, fn, args, e, fr):
    m = ev.rv(st, args[0])
    out = []
    for s, b in ev.split(st, app("nonempty", m)):
        if b:
            k = app("minkey", m)
            ev.setref(s, args[0], mrem(m, k))
            out.append((s, some(tup(k, ent(m, k)))))
        else:
            out.append((s, NONE))
    return out


@model("BTreeMap::pop_last")
def pop_last(ev, st, fn, args, e, fr):
    m = ev.rv(st, args[0])
    out = []
    for s, b in ev.split(st, app("nonempty", m)):
        if b:
            k = app("maxkey", m)
            ev.setref(s, args[0], mrem(m, k))
            out.append((s, some(tup(k, ent(m, k)))))
        else:
            out.append((s, NONE))
    return out


@model("HashMap::keys", "HashMap::into_keys", "BTreeMap::keys", "BTreeMap::into_keys")
def keys(ev, st, fn, args, e, fr):
    m = ev.rv(st, args[0])
    return [(st, seq((("each", m, (((), (("one", fld(el(m), "0")),)),)),)))]


@model("HashMap::values", "HashMap::into_values", "BTreeMap::values", "BTreeMap::into_values")
def values(ev, st, fn, args, e, fr):
    m = ev.rv(st, args[0])
    return [(st, seq((("each", m, (((), (("one", fld(el(m), "1")),)),)),)))]


@model("HashMap::entry", "BTreeMap::entry")
def entry(ev, st, fn, args, e, fr):
    return [(st, mk("entry", mk("ref", *ev.follow(st, args[0].a[0], args[0].a[1])), ev.rv(st, args[1])))]


def entry_ref(ev, st, en):
    ref, k = en.a
    return mk("ref", *ev.follow(st, ref.a[0], ref.a[1] + (("k", k),)))


@model("Entry::or_insert", "Entry::or_default", "Entry::or_insert_with", "Entry::or_insert_with_key")
def or_insert(ev, st, fn, args, e, fr):
    en = args[0]
    if en.op != "entry":
        return None
    ref, k = en.a
    nm = fn["path"].rsplit("::", 1)[-1]
    out = []
    for s, b in ev.has(st, ev.rv(st, ref), k):
        if b:
            out.append((s, entry_ref(ev, s, en)))
            continue
        if nm == "or_insert":
            ds = [(s, args[1])]
        elif nm == "or_default":
            # the value type is the second type argument
            ds = default_of(ev, s, fn["targs"][1], fr, e)
        else:
            ds = ev.apply(s, args[1], [k] if nm.endswith("key") else [], e, fr)
        for s2, d in ds:
            if isinstance(d, Ctl):
                out.append((s2, d))
                continue
            ev.setref(s2, ref, mset(ev.rv(s2, ref), k, d))
            out.append((s2, entry_ref(ev, s2, en)))
    return out


@model("Entry::and_modify")
def and_modify(ev, st, fn, args, e, fr):
    en = args[0]
    if en.op != "entry":
        return None
    ref, k = en.a
    out = []
    for s, b in ev.has(st, ev.rv(st, ref), k):
        if b:
            for s2, d in ev.apply(s, args[1], [entry_ref(ev, s, en)], e, fr):
                out.append((s2, d if isinstance(d, Ctl) else en))
        else:
            out.append((s, en))
    return out


@model("OccupiedEntry::get", "OccupiedEntry::into_mut", "OccupiedEntry::get_mut", "OccupiedEntry::insert",
       "OccupiedEntry::remove", "OccupiedEntry::key", "VacantEntry::insert", "VacantEntry::key", "Entry::key",
       "VacantEntry::into_key", "OccupiedEntry::remove_entry", "VacantEntry::insert_entry")
def entry_method(ev, st, fn, args, e, fr):
    en = ev.rv(st, args[0])
    if en.op != "entry":
        return None
    ref, k = en.a
    m = ev.rv(st, ref)
    t, nm = ev.p.fname(fn).split("::")
    if nm == "key":
        return [(st, app("stored", m, k) if t == "OccupiedEntry" else k)]
    if nm == "into_key":
        return [(st, k)]
    if nm == "get":
        return [(st, ent(m, k))]
    if nm in ("into_mut", "get_mut"):
        return [(st, entry_ref(ev, st, en))]
    if nm == "insert":
        ev.setref(st, ref, mset(m, k, args[1]))
        if t == "OccupiedEntry":
            return [(st, ent(m, k))]
        return [(st, entry_ref(ev, st, en))]
    if nm == "remove":
        ev.setref(st, ref, mrem(m, k))
        return [(st, ent(m, k))]
    return None


# ---- Option and Result


def opt_fork(ev, st, v, f_some, f_none):
    v = ev.rv(st, v)
    out = []
    for s, b in ev.case(st, v, OPT):
        out += f_some(s, pay(v, "Some", "0")) if b == "Some" else f_none(s)
    return out


def res_fork(ev, st, v, f_ok, f_err):
    v = ev.rv(st, v)
    if v.op == "insert_result":
        pass
    out = []
    for s, b in ev.case(st, v, RES):
        out += f_ok(s, pay(v, "Ok", "0")) if b == "Ok" else f_err(s, pay(v, "Err", "0"))
    return out


def thru(outs, f):
    return [(s, v if isinstance(v, Ctl) else f(v)) for s, v in outs]


def opt(name):
    def deco(f):
        MODELS["Option::" + name] = lambda ev, st, fn, args, e, fr: f(
            ev, st, args, lambda s, g, *a: ev.apply(s, g, a, e, fr), fn, e, fr
        )
        return f

    return deco


def res(name):
    def deco(f):
        MODELS["Result::" + name] = lambda ev, st, fn, args, e, fr: f(
            ev, st, args, lambda s, g, *a: ev.apply(s, g, a, e, fr), fn, e, fr
        )
        return f

    return deco


@opt("map")
def _(ev, st, a, ap, *r):
    return opt_fork(ev, st, a[0], lambda s, x: thru(ap(s, a[1], x), some), lambda s: [(s, NONE)])


@opt("and_then")
def _(ev, st, a, ap, *r):
    return opt_fork(ev, st, a[0], lambda s, x: ap(s, a[1], x), lambda s: [(s, NONE)])


@opt("filter")
def _(ev, st, a, ap, *r):
    def f(s, x):
        out = []
        for s2, c in ap(s, a[1], x):
            if isinstance(c, Ctl):
                out.append((s2, c))
                continue
            out += [(s3, some(x) if b else NONE) for s3, b in ev.split(s2, c)]
        return out

    return opt_fork(ev, st, a[0], f, lambda s: [(s, NONE)])


@opt("and")
def _(ev, st, a, ap, *r):
    return opt_fork(ev, st, a[0], lambda s, x: [(s, a[1])], lambda s: [(s, NONE)])


@opt("or")
def _(ev, st, a, ap, *r):
    return opt_fork(ev, st, a[0], lambda s, x: [(s, some(x))], lambda s: [(s, ev.rv(s, a[1]))])


@opt("or_else")
def _(ev, st, a, ap, *r):
    return opt_fork(ev, st, a[0], lambda s, x: [(s, some(x))], lambda s: ap(s, a[1]))


@opt("xor")
def _(ev, st, a, ap, *r):
    return opt_fork(
        ev, st, a[0],
        lambda s, x: opt_fork(ev, s, a[1], lambda s2, y: [(s2, NONE)], lambda s2: [(s2, some(x))]),
        lambda s: [(s, ev.rv(s, a[1]))],
    )


@opt("zip")
def _(ev, st, a, ap, *r):
    return opt_fork(
        ev, st, a[0],
        lambda s, x: opt_fork(ev, s, a[1], lambda s2, y: [(s2, some(tup(x, y)))], lambda s2: [(s2, NONE)]),
        lambda s: [(s, NONE)],
    )


@opt("unwrap_or")
def _(ev, st, a, ap, *r):
    return opt_fork(ev, st, a[0], lambda s, x: [(s, x)], lambda s: [(s, a[1])])


@opt("unwrap_or_else")
def _(ev, st, a, ap, *r):
    return opt_fork(ev, st, a[0], lambda s, x: [(s, x)], lambda s: ap(s, a[1]))


@opt("unwrap_or_default")
def _(ev, st, a, ap, fn, e, fr):
    return opt_fork(
        ev, st, a[0], lambda s, x: [(s, x)], lambda s: default_of(ev, s, fn["targs"][0], fr, e)
    )


@opt("map_or")
def _(ev, st, a, ap, *r):
    return opt_fork(ev, st, a[0], lambda s, x: ap(s, a[2], x), lambda s: [(s, a[1])])


@opt("map_or_else")
def _(ev, st, a, ap, *r):
    return opt_fork(ev, st, a[0], lambda s, x: ap(s, a[2], x), lambda s: ap(s, a[1]))


@opt("is_some")
def _(ev, st, a, ap, *r):
    return opt_fork(ev, st, a[0], lambda s, x: [(s, TRUE)], lambda s: [(s, FALSE)])


@opt("is_none")
def _(ev, st, a, ap, *r):
    return opt_fork(ev, st, a[0], lambda s, x: [(s, FALSE)], lambda s: [(s, TRUE)])


@opt("is_some_and")
def _(ev, st, a, ap, *r):
    return opt_fork(ev, st, a[0], lambda s, x: ap(s, a[1], x), lambda s: [(s, FALSE)])


@opt("is_none_or")
def _(ev, st, a, ap, *r):
    return opt_fork(ev, st, a[0], lambda s, x: ap(s, a[1], x), lambda s: [(s, TRUE)])


@opt("ok_or")
def _(ev, st, a, ap, *r):
    return opt_fork(ev, st, a[0], lambda s, x: [(s, ok(x))], lambda s: [(s, err(a[1]))])


@opt("ok_or_else")
def _(ev, st, a, ap, *r):
    return opt_fork(ev, st, a[0], lambda s, x: [(s, ok(x))], lambda s: thru(ap(s, a[1]), err))


@opt("unwrap")
def _(ev, st, a, ap, fn, e, fr):
    def none(s):
        s.eff += (("panic", "Option::unwrap", (), e.get("s", "")),)
        ev.hazard("unwrap", s, e, fr, ev.rv(s, a[0]))
        return []

    return opt_fork(ev, st, a[0], lambda s, x: [(s, x)], none)


MODELS["Option::expect"] = MODELS["Option::unwrap"]


@opt("inspect")
def _(ev, st, a, ap, *r):
    return opt_fork(ev, st, a[0], lambda s, x: thru(ap(s, a[1], x), lambda _: some(x)), lambda s: [(s, NONE)])


@opt("flatten")
def _(ev, st, a, ap, *r):
    return opt_fork(ev, st, a[0], lambda s, x: [(s, x)], lambda s: [(s, NONE)])


@opt("transpose")
def _(ev, st, a, ap, *r):
    return opt_fork(
        ev, st, a[0],
        lambda s, x: res_fork(ev, s, x, lambda s2, y: [(s2, ok(some(y)))], lambda s2, y: [(s2, err(y))]),
        lambda s: [(s, ok(NONE))],
    )


@opt("take")
def _(ev, st, a, ap, *r):
    v = ev.rv(st, a[0])
    ev.setref(st, a[0], NONE)
    return [(st, v)]


@opt("replace")
def _(ev, st, a, ap, *r):
    v = ev.rv(st, a[0])
    ev.setref(st, a[0], some(a[1]))
    return [(st, v)]


@opt("insert")
def _(ev, st, a, ap, *r):
    ev.setref(st, a[0], some(a[1]))
    return [(st, mk("ref", *ev.follow(st, a[0].a[0], a[0].a[1] + (("v", "Some", "0"),))))]


def goi(ev, st, a, mkdef):
    v = ev.rv(st, a[0])
    ref = lambda s: mk("ref", *ev.follow(s, a[0].a[0], a[0].a[1] + (("v", "Some", "0"),)))

    def none(s):
        out = []
        for s2, d in mkdef(s):
            if isinstance(d, Ctl):
                out.append((s2, d))
                continue
            ev.setref(s2, a[0], some(d))
            out.append((s2, ref(s2)))
        return out

    return opt_fork(ev, st, v, lambda s, x: [(s, ref(s))], none)


@opt("get_or_insert")
def _(ev, st, a, ap, *r):
    return goi(ev, st, a, lambda s: [(s, a[1])])


@opt("get_or_insert_with")
def _(ev, st, a, ap, *r):
    return goi(ev, st, a, lambda s: ap(s, a[1]))


@opt("get_or_insert_default")
def _(ev, st, a, ap, fn, e, fr):
    return goi(ev, st, a, lambda s: default_of(ev, s, fn["targs"][0], fr, e))


@opt("as_mut")
def _(ev, st, a, ap, *r):
    if a[0].op != "ref":
        return [(st, a[0])]
    v = ev.rv(st, a[0])
    return opt_fork(
        ev, st, v,
        lambda s, x: [(s, some(mk("ref", *ev.follow(s, a[0].a[0], a[0].a[1] + (("v", "Some", "0"),)))))],
        lambda s: [(s, NONE)],
    )


MODELS["Option::as_deref_mut"] = MODELS["Option::as_mut"]


@res("map")
def _(ev, st, a, ap, *r):
    return res_fork(ev, st, a[0], lambda s, x: thru(ap(s, a[1], x), ok), lambda s, x: [(s, err(x))])


@res("map_err")
def _(ev, st, a, ap, *r):
    return res_fork(ev, st, a[0], lambda s, x: [(s, ok(x))], lambda s, x: thru(ap(s, a[1], x), err))


@res("and_then")
def _(ev, st, a, ap, *r):
    return res_fork(ev, st, a[0], lambda s, x: ap(s, a[1], x), lambda s, x: [(s, err(x))])


@res("and")
def _(ev, st, a, ap, *r):
    return res_fork(ev, st, a[0], lambda s, x: [(s, a[1])], lambda s, x: [(s, err(x))])


@res("or")
def _(ev, st, a, ap, *r):
    return res_fork(ev, st, a[0], lambda s, x: [(s, ok(x))], lambda s, x: [(s, a[1])])


@res("or_else")
def _(ev, st, a, ap, *r):
    return res_fork(ev, st, a[0], lambda s, x: [(s, ok(x))], lambda s, x: ap(s, a[1], x))


@res("ok")
def _(ev, st, a, ap, *r):
    return res_fork(ev, st, a[0], lambda s, x: [(s, some(x))], lambda s, x: [(s, NONE)])


@res("err")
def _(ev, st, a, ap, *r):
    return res_fork(ev, st, a[0], lambda s, x: [(s, NONE)], lambda s, x: [(s, some(x))])


@res("is_ok")
def _(ev, st, a, ap, *r):
    return res_fork(ev, st, a[0], lambda s, x: [(s, TRUE)], lambda s, x: [(s, FALSE)])


@res("is_err")
def _(ev, st, a, ap, *r):
    return res_fork(ev, st, a[0], lambda s, x: [(s, FALSE)], lambda s, x: [(s, TRUE)])


@res("is_err_and")
def _(ev, st, a, ap, *r):
    return res_fork(ev, st, a[0], lambda s, x: [(s, FALSE)], lambda s, x: ap(s, a[1], x))


@res("inspect")
def _(ev, st, a, ap, *r):
    return res_fork(ev, st, a[0], lambda s, x: thru(ap(s, a[1], x), lambda _: ok(x)), lambda s, x: [(s, err(x))])


@res("inspect_err")
def _(ev, st, a, ap, *r):
    return res_fork(ev, st, a[0], lambda s, x: [(s, ok(x))], lambda s, x: thru(ap(s, a[1], x), lambda _: err(x)))


@res("is_ok_and")
def _(ev, st, a, ap, *r):
    return res_fork(ev, st, a[0], lambda s, x: ap(s, a[1], x), lambda s, x: [(s, FALSE)])


@res("unwrap_or")
def _(ev, st, a, ap, *r):
    return res_fork(ev, st, a[0], lambda s, x: [(s, x)], lambda s, x: [(s, a[1])])


@res("unwrap_or_else")
def _(ev, st, a, ap, *r):
    return res_fork(ev, st, a[0], lambda s, x: [(s, x)], lambda s, x: ap(s, a[1], x))


@res("unwrap_or_default")
def _(ev, st, a, ap, fn, e, fr):
    return res_fork(
        ev, st, a[0], lambda s, x: [(s, x)], lambda s, x: default_of(ev, s, fn["targs"][0], fr, e)
    )


@res("map_or")
def _(ev, st, a, ap, *r):
    return res_fork(ev, st, a[0], lambda s, x: ap(s, a[2], x), lambda s, x: [(s, a[1])])


@res("map_or_else")
def _(ev, st, a, ap, *r):
    return res_fork(ev, st, a[0], lambda s, x: ap(s, a[2], x), lambda s, x: ap(s, a[1], x))


@res("unwrap")
def _(ev, st, a, ap, fn, e, fr):
    def bad(s, x):
        s.eff += (("panic", "Result::unwrap", (), e.get("s", "")),)
        ev.hazard("unwrap", s, e, fr, ev.rv(s, a[0]))
        return []

    return res_fork(ev, st, a[0], lambda s, x: [(s, x)], bad)


MODELS["Result::expect"] = MODELS["Result::unwrap"]


@res("transpose")
def _(ev, st, a, ap, *r):
    return res_fork(
        ev, st, a[0],
        lambda s, x: opt_fork(ev, s, x, lambda s2, y: [(s2, some(ok(y)))], lambda s2: [(s2, NONE)]),
        lambda s, x: [(s, some(err(x)))],
    )


# the ? operator

CF = "core::ops::control_flow::ControlFlow"


@model("Try::branch")
def branch(ev, st, fn, args, e, fr):
    v = ev.rv(st, args[0])
    h = ev.p.head(fn["targs"][0])
    if h == OPT:
        return opt_fork(
            ev, st, v,
            lambda s, x: [(s, adt(CF, "Continue", {"0": x}))],
            lambda s: [(s, adt(CF, "Break", {"0": NONE}))],
        )
    if h == RES:
        return res_fork(
            ev, st, v,
            lambda s, x: [(s, adt(CF, "Continue", {"0": x}))],
            lambda s, x: [(s, adt(CF, "Break", {"0": err(x)}))],
        )
    if h == CF:
        out = []
        for s, b in ev.case(st, v, CF):
            p = pay(v, b, "0")
            if b == "Continue":
                out.append((s, adt(CF, "Continue", {"0": p})))
            else:
                out.append((s, adt(CF, "Break", {"0": adt(CF, "Break", {"0": p})})))
        return out
    return None


@model("FromResidual::from_residual")
def from_residual(ev, st, fn, args, e, fr):
    v = ev.rv(st, args[0])
    ta = fn.get("targs") or []
    if v.op == "adt" and v.a[0] == RES and len(ta) == 2:
        # Result<T, F> from Result<!, E>
        dst, src = ev.p.types[ta[0]], ev.p.types[ta[1]]
        if len(dst["a"]) == 2 and len(src["a"]) == 2:
            return thru(convert(ev, st, src["a"][1], dst["a"][1], v.a[2][0][1], e, fr), err)
    return [(st, v)]


@model("Try::from_output")
def from_output(ev, st, fn, args, e, fr):
    return [(st, some(args[0]) if ev.p.head(fn["targs"][0]) == OPT else ok(args[0]))]


@model("bool::then_some")
def then_some(ev, st, fn, args, e, fr):
    return [(s, some(args[1]) if b else NONE) for s, b in ev.split(st, ev.rv(st, args[0]))]


@model("bool::then")
def bthen(ev, st, fn, args, e, fr):
    out = []
    for s, b in ev.split(st, ev.rv(st, args[0])):
        out += thru(ev.apply(s, args[1], [], e, fr), some) if b else [(s, NONE)]
    return out


@model("Not::not")
def not_(ev, st, fn, args, e, fr):
    return [(st, ev.negate(ev.rv(st, args[0])))]


@model("PartialEq::eq")
def peq(ev, st, fn, args, e, fr):
    return [(st, ev.mkeq(st, ev.rv(st, args[0]), ev.rv(st, args[1])))]


@model("PartialEq::ne")
def pne(ev, st, fn, args, e, fr):
    return [(st, ev.negate(ev.mkeq(st, ev.rv(st, args[0]), ev.rv(st, args[1]))))]


@model("PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge")
def pcmp(ev, st, fn, args, e, fr):
    op = {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[fn["path"].rsplit("::", 1)[-1]]
    return [(st, ev.cmp(op, ev.rv(st, args[0]), ev.rv(st, args[1])))]


@model("Add::add", "Sub::sub", "Mul::mul", "Div::div", "Neg::neg", "Rem::rem")
def arith(ev, st, fn, args, e, fr):
    op = fn["path"].rsplit("::", 1)[-1].capitalize()
    vs = [ev.rv(st, a) for a in args]
    if op == "Neg":
        return [(st, app("Neg", vs[0]))]
    if op == "Add" and fn.get("targs") and is_strty(ev, fn["targs"][0]):
        return [(st, cat(vs[0], vs[1]))]
    return ev.binop(st, op, *vs)


@model("AddAssign::add_assign", "SubAssign::sub_assign", "MulAssign::mul_assign")
def arith_assign(ev, st, fn, args, e, fr):
    op = fn["path"].rsplit("::", 1)[-1].split("_")[0].capitalize()
    if op == "Add" and fn.get("targs") and is_strty(ev, fn["targs"][0]):
        ev.append(st, args[0], ev.rv(st, args[1]))
        return [(st, UNIT)]
    out = []
    for s, v in ev.binop(st, op, ev.rv(st, args[0]), ev.rv(st, args[1])):
        ev.setref(s, args[0], v)
        out.append((s, UNIT))
    return out


@model("Fn::call", "FnMut::call_mut", "FnOnce::call_once")
def fncall(ev, st, fn, args, e, fr):
    a = ev.rv(st, args[1])
    if a.op == "tup":
        return ev.apply(st, args[0], list(a.a[0]), e, fr)
    return None


@model("panicking::panic_fmt", "panicking::panic", "intrinsics::unreachable", "panicking::panic_display",
       "panicking::unreachable_display", "panicking::panic_explicit", "process::abort", "process::exit",
       "panicking::assert_failed", "panicking::panic_str_2015")
def panic(ev, st, fn, args, e, fr):
    st.eff += (("panic", ev.p.fname(fn), (), e.get("s", "")),)
    ev.hazard("panic", st, e, fr)
    return []


# ---- iterators


def is_stream(ev, v):
    """A value of a local iterator type which the rule treats as a stream of items."""
    if not ev.streams:
        return False
    if v.op == "adt":
        return v.a[0].rsplit("::", 1)[-1] in ev.streams
    return v.op == "app" and v.a[0].split("::")[0] in ev.streams


def materialise(ev, st, v, fr, e):
    """The elements an iterator value will yield, as a sequence term: [(state, seq)]."""
    if v.op == "ref":
        cur = ev.rv(st, v)
        s = it_seq(ev, st, cur)
        ev.setref(st, v, EMPTY if s is cur or cur.op in ("seq",) else app("drained", cur))
        return [(st, s)]
    return [(st, it_seq(ev, st, v))]


def it_seq(ev, st, v):
    if v.op == "adt" and v.a[0] == OPT:
        return one(v.a[2][0][1]) if v.a[1] == "Some" else EMPTY
    if is_stream(ev, v) or v.op == "adt" and v.a[0].startswith("beancount_parser_lima"):
        return app("items", v)
    return v


def elems(ev, st, src, f, e, fr, want="map"):
    """Apply f to every element of the iterator: [(state, seq)]."""
    out = []
    for s, q in materialise(ev, st, src, fr, e):
        out += ev.foreach(s, q, f, fr, e.get("s", "") + "@" + want, want)
    return out


@model("Iterator::map")
def imap(ev, st, fn, args, e, fr):
    return elems(ev, st, args[0], lambda s, x: ev.apply(s, args[1], [x], e, fr), e, fr)


@model("Iterator::inspect")
def iinspect(ev, st, fn, args, e, fr):
    return elems(ev, st, args[0], lambda s, x: thru(ev.apply(s, args[1], [x], e, fr), lambda _: x), e, fr)


@model("Iterator::filter")
def ifilter(ev, st, fn, args, e, fr):
    def f(s, x):
        out = []
        for s2, c in ev.apply(s, args[1], [x], e, fr):
            if isinstance(c, Ctl):
                out.append((s2, c))
                continue
            out += [(s3, one(x) if b else EMPTY) for s3, b in ev.split(s2, c)]
        return out

    return elems(ev, st, args[0], f, e, fr, "parts")


@model("Vec::retain", "String::retain", "VecDeque::retain", "HashMap::retain", "HashSet::retain")
def retain(ev, st, fn, args, e, fr):
    v = ev.rv(st, args[0])
    r = args[0]

    def f(s, x):
        out = []
        a = [fld(x, "0"), fld(x, "1")] if "HashMap" in fn["path"] else [x]
        for s2, c in ev.apply(s, args[1], a, e, fr):
            out += [(s3, one(x) if b else EMPTY) for s3, b in ev.split(s2, c)]
        return out

    out = []
    for s, q in elems(ev, st, v, f, e, fr, "parts"):
        if "Hash" in fn["path"]:
            q = mext(MEMPTY, q)
        ev.setref(s, r, q)
        out.append((s, UNIT))
    return out


@model("Iterator::filter_map")
def ifilter_map(ev, st, fn, args, e, fr):
    def f(s, x):
        out = []
        for s2, o in ev.apply(s, args[1], [x], e, fr):
            if isinstance(o, Ctl):
                out.append((s2, o))
                continue
            out += opt_fork(ev, s2, o, lambda s3, y: [(s3, one(y))], lambda s3: [(s3, EMPTY)])
        return out

    return elems(ev, st, args[0], f, e, fr, "parts")


@model("Iterator::flat_map")
def iflat_map(ev, st, fn, args, e, fr):
    def f(s, x):
        out = []
        for s2, o in ev.apply(s, args[1], [x], e, fr):
            out += [(s2, o)] if isinstance(o, Ctl) else flat(ev, s2, o, None)
        return out

    return elems(ev, st, args[0], f, e, fr, "parts")


def flat(ev, s, o, ti):
    o = ev.rv(s, o)
    h = o.a[0] if o.op == "adt" else (ev.p.head(ti) if ti is not None else None)
    if h == OPT:
        return opt_fork(ev, s, o, lambda s3, y: [(s3, one(y))], lambda s3: [(s3, EMPTY)])
    if h == RES:
        return res_fork(ev, s, o, lambda s3, y: [(s3, one(y))], lambda s3, y: [(s3, EMPTY)])
    return [(s, o)]


def item_type(ev, ti):
    """Best-effort item type of an iterator type."""
    t = ev.p.types[ti]
    return None


@model("Iterator::flatten")
def iflatten(ev, st, fn, args, e, fr):
    m = re.search(r"Item = (Option|Result|std::option::Option|std::result::Result)<", "")
    return elems(ev, st, args[0], lambda s, x: flat(ev, s, x, flatten_item(ev, fn)), e, fr, "parts")


def flatten_item(ev, fn):
    """Item type index of the iterator flattened, where it is an array or map of options."""
    t = ev.p.types[fn["targs"][0]]
    if t["h"].endswith("IntoIter") and t["a"]:
        return t["a"][0]
    return None


@model("Iterator::chain")
def ichain(ev, st, fn, args, e, fr):
    out = []
    for s, a in materialise(ev, st, args[0], fr, e):
        for s2, b in materialise(ev, s, args[1], fr, e):
            if b.op == "adt" or (b.op not in ("seq",) and ev.p.head(fn["targs"][1]) == OPT):
                for s3, q in opt_fork(ev, s2, b, lambda s3, y: [(s3, one(y))], lambda s3: [(s3, EMPTY)]):
                    out.append((s3, cat(a, q)))
            else:
                out.append((s2, cat(a, b)))
    return out


@model("iter::once")
def ionce(ev, st, fn, args, e, fr):
    return [(st, one(args[0]))]


@model("Iterator::enumerate")
def ienumerate(ev, st, fn, args, e, fr):
    out = []
    for s, q in materialise(ev, st, args[0], fr, e):
        if q.op == "seq" and all(p[0] == "one" for p in q.a[0]):
            out.append((s, one(*[tup(lint(i), p[1]) for i, p in enumerate(q.a[0])])))
        else:
            src = q
            out.append((s, seq((("each", src, (((), (("one", tup(app("pos", src), el(src))),)),)),))))
    return out


@model("Iterator::zip")
def izip(ev, st, fn, args, e, fr):
    a, b = ev.rv(st, args[0]), ev.rv(st, args[1])
    return [(st, app("zip", a, b))]


@model("Iterator::next")
def inext(ev, st, fn, args, e, fr):
    res = fn.get("res")
    if args[0].op != "ref":
        return None
    if res and res.get("local"):
        return None
    v = ev.rv(st, args[0])
    if v.op == "adt" and v.a[0].startswith("beancount_parser_lima"):
        return None
    return ev.pop_front(st, args[0])


@model("DoubleEndedIterator::next_back")
def inext_back(ev, st, fn, args, e, fr):
    if args[0].op != "ref":
        return None
    return ev.pop_back(st, args[0])


def to_map(ev, v, h):
    return mext(MEMPTY, pairs(ev, v, h))


def pairs(ev, v, h):
    """For a set, the elements as (element, ()) pairs."""
    if h.endswith("Set"):
        out = []
        for p in parts(v):
            if p[0] == "one":
                out.append(("one", tup(p[1], UNIT)))
            else:
                src = p[1]
                rows = p[2] if p[0] == "each" else (((), (("one", el(src)),)),)
                out.append(
                    (
                        "each",
                        src,
                        tuple(
                            (g, tuple(("one", tup(x[1], UNIT)) if x[0] == "one" else x for x in ps))
                            for g, ps in rows
                        ),
                    )
                )
        return seq(out)
    return v


@model("Iterator::collect", "FromIterator::from_iter")
def icollect(ev, st, fn, args, e, fr):
    ti = e.get("t")
    if ti is None:
        ti = (fn.get("targs") or [None, None])[-1]
    out = []
    for s, q in materialise(ev, st, args[0], fr, e):
        h = ev.p.head(ti) if ti is not None else ""
        if h.endswith(("HashMap", "HashSet", "BTreeMap", "BTreeSet")):
            r = to_map(ev, q, h)
            if h.endswith(("BTreeMap", "BTreeSet")):
                r = app("sorted", r)
            out.append((s, r))
        elif h in (OPT, RES):
            bad = "None" if h == OPT else "Err"
            good = "Some" if h == OPT else "Ok"
            inner = ev.p.types[ti]["a"][0]

            def f(s2, x):
                o2 = []
                for s3, b in ev.case(s2, x, h):
                    if b == good:
                        o2.append((s3, pay(x, good, "0")))
                    else:
                        o2.append((s3, Ctl("brk", "collect", NONE if h == OPT else err(pay(x, "Err", "0")))))
                return o2

            for s2, v in ev.foreach(s, q, f, fr, e.get("s", "") + "@collect"):
                if isinstance(v, Ctl):
                    out.append((s2, v.val if v.lbl == "collect" else v))
                else:
                    ih = ev.p.head(inner)
                    if ih.endswith(("HashMap", "HashSet")):
                        v = to_map(ev, v, ih)
                    out.append((s2, some(v) if h == OPT else ok(v)))
        else:
            out.append((s, q))
    return out


def quant(ev, st, args, e, fr, stop_when, found, notfound, keep=None):
    """any/all/find/position: stop at the first element where the predicate is stop_when."""
    def f(s, x):
        out = []
        for s2, c in ev.apply(s, args[1], [x], e, fr):
            if isinstance(c, Ctl):
                out.append((s2, c))
                continue
            for s3, b in ev.split(s2, c):
                out.append((s3, Ctl("brk", "quant", found(x)) if b == stop_when else UNIT))
        return out

    return search(ev, st, args[0], f, notfound, e, fr)


def search(ev, st, it, f, notfound, e, fr):
    """f for every item until it breaks off with a result."""
    if ev.plain and it.op == "ref":

        def body(s):
            cur = ev.rv(s, it)
            out = []
            for s2, b in ev.split(s, app("nonempty", cur)):
                if b:
                    ev.setref(s2, it, app("tail", cur))
                    out += f(s2, app("head", cur))
                else:
                    out.append((s2, Ctl("brk", "quant", notfound)))
            return out

        site = e.get("s", "") + "@quant"
        return ev.looped(st, body, repr((fr.fid, site)), "quant", fr, site)
    out = []
    for s, q in materialise(ev, st, it, fr, e):
        for s2, v in ev.iterate(s, q, f, fr, e.get("s", "") + "@quant"):
            if isinstance(v, Ctl):
                if it.op == "ref":
                    ev.setref(s2, it, app("remaining", q))
                out.append((s2, v.val if v.lbl == "quant" else v))
            else:
                out.append((s2, notfound))
    return out


@model("Iterator::any")
def iany(ev, st, fn, args, e, fr):
    return quant(ev, st, args, e, fr, True, lambda x: TRUE, FALSE)


@model("Iterator::all")
def iall(ev, st, fn, args, e, fr):
    return quant(ev, st, args, e, fr, False, lambda x: FALSE, TRUE)


@model("Iterator::find")
def ifind(ev, st, fn, args, e, fr):
    return quant(ev, st, args, e, fr, True, lambda x: some(x), NONE)


@model("Iterator::find_map")
def ifind_map(ev, st, fn, args, e, fr):
    def f(s, x):
        out = []
        for s2, c in ev.apply(s, args[1], [x], e, fr):
            if isinstance(c, Ctl):
                out.append((s2, c))
                continue
            out += opt_fork(
                ev, s2, c, lambda s3, y: [(s3, Ctl("brk", "quant", some(y)))], lambda s3: [(s3, UNIT)]
            )
        return out

    return search(ev, st, args[0], f, NONE, e, fr)


@model("Iterator::for_each")
def ifor_each(ev, st, fn, args, e, fr):
    out = []
    for s, q in materialise(ev, st, args[0], fr, e):
        out += ev.iterate(s, q, lambda s2, x: ev.apply(s2, args[1], [x], e, fr), fr, e.get("s", "") + "@fe")
    return out


@model("Iterator::try_for_each")
def itry_for_each(ev, st, fn, args, e, fr):
    def f(s, x):
        out = []
        for s2, r in ev.apply(s, args[1], [x], e, fr):
            if isinstance(r, Ctl):
                out.append((s2, r))
                continue
            r = ev.rv(s2, r)
            out += res_fork(
                ev, s2, r, lambda s3, y: [(s3, UNIT)], lambda s3, y: [(s3, Ctl("brk", "tfe", err(y)))]
            )
        return out

    out = []
    for s, q in materialise(ev, st, args[0], fr, e):
        for s2, v in ev.iterate(s, q, f, fr, e.get("s", "") + "@tfe"):
            if isinstance(v, Ctl):
                out.append((s2, v.val if v.lbl == "tfe" else v))
            else:
                out.append((s2, ok(UNIT)))
    return out


@model("Iterator::fold")
def ifold(ev, st, fn, args, e, fr):
    out = []
    for s, q in materialise(ev, st, args[0], fr, e):
        acc = ev.newroot(s, args[1], "fold")

        def f(s2, x):
            o = []
            for s3, v in ev.apply(s2, args[2], [s2.store[acc], x], e, fr):
                if isinstance(v, Ctl):
                    o.append((s3, v))
                    continue
                s3.store[acc] = v
                o.append((s3, UNIT))
            return o

        for s2, v in ev.iterate(s, q, f, fr, e.get("s", "") + "@fold"):
            out.append((s2, v if isinstance(v, Ctl) else s2.store[acc]))
    return out


@model("Iterator::try_fold")
def itry_fold(ev, st, fn, args, e, fr):
    out = []
    for s, q in materialise(ev, st, args[0], fr, e):
        acc = ev.newroot(s, args[1], "tfold")
        kind = []

        def keep(s3, y):
            s3.store[acc] = y
            return [(s3, UNIT)]

        def f(s2, x):
            o = []
            for s3, v in ev.apply(s2, args[2], [s2.store[acc], x], e, fr):
                if isinstance(v, Ctl):
                    o.append((s3, v))
                    continue
                v = ev.rv(s3, v)
                opt_ = v.op == "adt" and v.a[0] == OPT
                kind.append("Option" if opt_ else "Result")
                if opt_:
                    o += opt_fork(ev, s3, v, keep, lambda s4: [(s4, Ctl("brk", "tfold", NONE))])
                else:
                    o += res_fork(ev, s3, v, keep, lambda s4, y: [(s4, Ctl("brk", "tfold", err(y)))])
            return o

        for s2, v in ev.iterate(s, q, f, fr, e.get("s", "") + "@tfold"):
            if isinstance(v, Ctl):
                out.append((s2, v.val if v.lbl == "tfold" else v))
            else:
                out.append((s2, some(s2.store[acc]) if kind and kind[0] == "Option" else ok(s2.store[acc])))
    return out


@model("Iterator::unzip")
def iunzip(ev, st, fn, args, e, fr):
    out = []
    for s, q in materialise(ev, st, args[0], fr, e):
        for s2, a in ev.foreach(s, q, lambda s3, x: [(s3, fld(x, "0"))], fr, e.get("s", "") + "@unzip0"):
            if isinstance(a, Ctl):
                out.append((s2, a))
                continue
            for s3, b in ev.foreach(s2, q, lambda s4, x: [(s4, fld(x, "1"))], fr, e.get("s", "") + "@unzip1"):
                out.append((s3, b if isinstance(b, Ctl) else tup(a, b)))
    return out


@model("HashSet::difference", "HashSet::intersection", "BTreeSet::difference", "BTreeSet::intersection")
def set_op(ev, st, fn, args, e, fr):
    want = fn["path"].endswith("intersection")
    other = ev.rv(st, args[1])

    def f(s, x):
        return [(s2, one(x) if b == want else EMPTY) for s2, b in ev.has(s, other, x)]

    return elems(ev, st, args[0], f, e, fr, "parts")


@model("ControlFlow::is_break", "ControlFlow::is_continue")
def cf_is(ev, st, fn, args, e, fr):
    v = ev.rv(st, args[0])
    want = "Break" if fn["path"].endswith("is_break") else "Continue"
    if v.op == "adt":
        return [(st, lbool(v.a[1] == want))]
    return [(st, is_(v, want))]


@model("Vec::reserve", "Vec::shrink_to_fit", "String::reserve", "VecDeque::reserve", "HashMap::reserve", "HashSet::reserve", "String::shrink_to_fit")
def no_effect(ev, st, fn, args, e, fr):
    return [(st, UNIT)]


@model("slice::last_mut", "VecDeque::back_mut", "slice::first_mut", "VecDeque::front_mut")
def end_mut(ev, st, fn, args, e, fr):
    nm = fn["path"].rsplit("::", 1)[-1]
    v = ev.rv(st, args[0])
    ps = parts(v) if v.op == "seq" else None
    if ps is not None and all(p[0] == "one" for p in ps):
        if not ps:
            return [(st, NONE)]
        i = 0 if nm in ("first_mut", "front_mut") else len(ps) - 1
        return [(st, some(mk("ref", *ev.follow(st, args[0].a[0], args[0].a[1] + (("i", lint(i)),)))))]
    return None


@model("Iterator::count")
def icount(ev, st, fn, args, e, fr):
    return [(s, app("count", q)) for s, q in materialise(ev, st, args[0], fr, e)]


@model("Iterator::last")
def ilast(ev, st, fn, args, e, fr):
    out = []
    for s, q in materialise(ev, st, args[0], fr, e):
        out += ev.pop_back(s, mk("ref", ev.newroot(s, q), ()))
    return out


@model("Iterator::rev")
def irev(ev, st, fn, args, e, fr):
    v = ev.rv(st, args[0])
    if v.op == "seq" and all(p[0] == "one" for p in v.a[0]):
        return [(st, mk("seq", tuple(reversed(v.a[0]))))]
    return [(st, app("rev", v))]


@model("Iterator::take", "Iterator::skip", "Iterator::step_by")
def itake(ev, st, fn, args, e, fr):
    out = []
    n = fn["path"].rsplit("::", 1)[-1]
    if n == "take" and args[0].op == "ref":
        # the rest stays in the iterator borrowed
        cur = ev.rv(st, args[0])
        q, k = it_seq(ev, st, cur), ev.rv(st, args[1])
        if q is cur:
            ev.setref(st, args[0], app("skip", q, k))
            return [(st, app(n, q, k))]
    for s, q in materialise(ev, st, args[0], fr, e):
        out.append((s, app(n, q, ev.rv(s, args[1]))))
    return out


@model("slice::partition_point", "Iterator::take_while", "Iterator::skip_while")
def by_predicate(ev, st, fn, args, e, fr):
    """Where the predicate is a plain condition on the element, the term carries the condition."""
    if fn.get("res") and fn["res"].get("local"):
        return None
    src = ev.rv(st, args[0])
    if src.op != "seq" and args[0].op != "ref" or fn["path"].endswith("partition_point"):
        r = ev.apply(st.fork(), args[1], [el(src)], e, fr)
        if len(r) == 1 and not isinstance(r[0][1], Ctl):
            return [(st, app(ev.p.fname(fn), src, ev.rv(r[0][0], r[0][1])))]
    return pure(ev, st, fn, args, e, fr)


@model("itertools::intersperse", "Itertools::intersperse")
def intersperse(ev, st, fn, args, e, fr):
    return [(st, app("join", it_seq(ev, st, ev.rv(st, args[0])), ev.rv(st, args[1])))]


@model("slice::join", "Itertools::join", "slice::concat")
def join(ev, st, fn, args, e, fr):
    return [(st, app("join", ev.rv(st, args[0]), ev.rv(st, args[1]) if len(args) > 1 else lstr("")))]


@model("slice::sort", "slice::sort_by_key", "slice::sort_by", "slice::sort_unstable", "slice::sort_unstable_by_key",
       "slice::sort_unstable_by", "slice::sort_by_cached_key", "slice::reverse", "Vec::dedup", "Vec::truncate", "Vec::dedup_by_key")
def sorts(ev, st, fn, args, e, fr):
    n = fn["path"].rsplit("::", 1)[-1]
    v = ev.rv(st, args[0])
    ev.setref(st, args[0], app(n, v, *[ev.rv(st, a) for a in args[1:]]))
    return [(st, UNIT)]


@model("str::eq_ignore_ascii_case")
def nocase_eq(ev, st, fn, args, e, fr):
    a, b = ev.rv(st, args[0]), ev.rv(st, args[1])
    if a.op == "lit" and b.op != "lit":
        a, b = b, a
    return [(st, app("str::eq_ignore_ascii_case", a, b))]


@model("str::split")
def str_split(ev, st, fn, args, e, fr):
    s, p = ev.rv(st, args[0]), ev.rv(st, args[1])
    # what follows the first separator splits into the other pieces
    if s.op == "app" and s.a[0] == "str::after" and s.a[1][1] is p:
        return [(st, app("tail", app("str::split", s.a[1][0], p)))]
    return [(st, app("str::split", s, p))]


@model("str::split_once")
def split_once(ev, st, fn, args, e, fr):
    s, p = ev.rv(st, args[0]), ev.rv(st, args[1])
    ps = app("str::split", s, p)
    out = []
    for s2, b in ev.nonempty(st, app("tail", ps)):
        out.append((s2, some(tup(app("head", ps), app("str::after", s, p))) if b else NONE))
    return out


@model("str::char_indices", "str::bytes", "str::lines", "str::rsplit", "str::trim", "str::trim_end",
       "str::trim_start", "str::split_whitespace", "str::to_lowercase", "str::to_uppercase", "str::splitn",
       "str::matches", "str::trim_end_matches", "str::trim_start_matches", "str::trim_matches", "str::rsplitn", "str::split_terminator",
       "str::strip_prefix", "str::strip_suffix", "str::starts_with", "str::ends_with", "str::contains", "str::find",
       "str::rfind", "str::replace", "str::is_char_boundary", "str::rsplit_once",
       "str::split_at", "Path::parent", "Path::join", "Path::to_string_lossy", "Path::file_name", "Path::display", "Path::to_str",
       "Path::is_absolute", "Path::extension", "Path::starts_with",
       "char::is_alphabetic", "char::is_alphanumeric", "char::is_ascii", "char::is_ascii_digit", "char::is_ascii_lowercase",
       "char::is_ascii_uppercase", "char::is_ascii_alphanumeric", "char::is_ascii_alphabetic", "char::is_uppercase",
       "char::is_lowercase", "char::is_numeric", "char::is_whitespace", "char::len_utf8", "char::is_control",
       "char::is_ascii_punctuation", "char::is_ascii_whitespace", "char::to_digit",
       "cmp::max", "cmp::min", "Ord::max", "Ord::min", "Ord::cmp", "PartialOrd::partial_cmp",
       "Decimal::scale", "Decimal::checked_add", "Decimal::checked_sub", "Decimal::checked_mul", "Decimal::checked_div",
       "Span::new", "MapExtra::span", "Rich::custom", "Date::from_calendar_date", "Time::from_hms", "unescaper::unescape",
       "intrinsics::discriminant_value", "Decimal::is_zero", "Iterator::position", "Iterator::min", "Iterator::max", "Iterator::sum",
       "ParseResult::into_output", "ParseResult::into_output_errors", "Input::map", "Input::with_context", "slice::binary_search",
       "slice::binary_search_by_key", "slice::concat0", "Iterator::map_while",
       "Iterator::nth", "Iterator::min_by_key", "Iterator::max_by_key", "Iterator::partition", "str::char_count", "usize::saturating_sub",
       "usize::checked_sub", "usize::checked_add", "usize::min", "usize::max", "u32::from", "Range::is_empty", "Range::contains",
       "slice::first_chunk", "str::floor_char_boundary", "GlobError::path", "glob::Pattern0", "ptr::eq", "TypeId::of",
       "chumsky::primitive::just0")
def pure(ev, st, fn, args, e, fr):
    if fn.get("res") and fn["res"].get("local"):
        return None
    r = app(ev.p.fname(fn), *[ev.rv(st, a) for a in args])
    if ev.p.fname(fn) in ("Iterator::nth", "Iterator::position") and args[0].op == "ref":
        ev.setref(st, args[0], app("remaining", r))
    return [(st, r)]


# chumsky combinators and other builders are pure: they build a value
for n in """Parser::delimited_by Parser::foldl Parser::foldr Parser::ignore_then Parser::ignored Parser::labelled Parser::map
 Parser::map_with Parser::or Parser::or_not Parser::recover_with Parser::repeated Parser::then Parser::then_ignore Parser::to
 Parser::try_map Parser::try_map_with Parser::validate Parser::boxed Parser::padded_by Parser::separated_by Parser::not Parser::rewind
 Parser::and_is Parser::filter Parser::unwrapped Parser::map_err Parser::to_slice Parser::to_span Parser::foldl_with Parser::map_group
 Parser::then_with_ctx Parser::lazy Parser::and_then Parser::spanned Parser::flatten Parser::from_str Parser::memoized
 IterParser::collect IterParser::collect_exactly IterParser::count IterParser::foldr IterParser::enumerate IterParser::foldl IterParser::map
 Repeated::at_least Repeated::at_most Repeated::exactly SeparatedBy::at_least SeparatedBy::allow_trailing SeparatedBy::allow_leading SeparatedBy::at_most
 primitive::just primitive::any_ref primitive::any primitive::choice primitive::end primitive::group primitive::select_ref
 primitive::select primitive::one_of primitive::none_of primitive::empty primitive::todo primitive::set primitive::map_ctx
 recovery::skip_then_retry_until recovery::via_parser recovery::skip_until recovery::nested_delimiters
 Labelled::as_context Labelled::labelled""".split():
    MODELS.setdefault(n, pure)


def char_pred(n, c):
    import unicodedata

    o = ord(c)
    asc = o < 128
    return {
        "is_ascii_uppercase": asc and c.isupper(),
        "is_ascii_lowercase": asc and c.islower(),
        "is_ascii_digit": asc and c.isdigit(),
        "is_ascii_alphabetic": asc and c.isalpha(),
        "is_ascii_alphanumeric": asc and c.isalnum(),
        "is_ascii": asc,
        "is_alphabetic": c.isalpha() if asc else None,
        "is_alphanumeric": c.isalnum() if asc else None,
        "is_numeric": c.isdigit() if asc else None,
        "is_uppercase": c.isupper() if asc else None,
        "is_lowercase": c.islower() if asc else None,
        "is_whitespace": c in " \t\n\r\x0b\x0c" if asc else None,
        "is_ascii_whitespace": c in " \t\n\r\x0c",
        "is_ascii_punctuation": asc and not c.isalnum() and 32 < o < 127,
    }.get(n)


def _char(ev, st, fn, args, e, fr):
    v = ev.rv(st, args[0])
    n = fn["path"].rsplit("::", 1)[-1]
    if v.op == "lit" and v.a[0] in ("char", "int"):
        c = v.a[1] if v.a[0] == "char" else chr(v.a[1])
        r = char_pred(n, c)
        if r is not None:
            return [(st, lbool(r))]
    return [(st, app("char::" + n, v))]


for _n in """is_ascii_uppercase is_ascii_lowercase is_ascii_digit is_ascii_alphabetic is_ascii_alphanumeric is_ascii
 is_alphabetic is_alphanumeric is_numeric is_uppercase is_lowercase is_whitespace is_ascii_whitespace is_ascii_punctuation""".split():
    MODELS["char::" + _n] = _char
    MODELS["u8::" + _n] = _char


@model("recursive::recursive")
def recursive(ev, st, fn, args, e, fr):
    return [(st, app("recursive::recursive", args[0]))]


@model("MapExtra::state")
def mstate(ev, st, fn, args, e, fr):
    """The parser state is a mutable place shared by the whole parse."""
    if args[0].op == "ref":
        root, path = ev.follow(st, *args[0].a)
        return [(st, mk("ref", root, path + (("f", "state"),)))]
    return [(st, app("state", args[0]))]


@model("Emitter::emit", "Emit::emit")
def emit(ev, st, fn, args, e, fr):
    v = ev.rv(st, args[1])
    if args[0].op == "ref":
        ev.append(st, args[0], one(v))
    st.eff += (("emit", "Emitter::emit", (v,), e.get("s", "")),)
    return [(st, UNIT)]
