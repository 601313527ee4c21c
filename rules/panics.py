"""Where the crate's code can panic, and why it does not. Shared by C01 and C02."""
from common import *
from ev import is_, Ev, TooComplex
from graph import *
from spans import num, rng, same_num, same_sum, total, cut

# calls which panic unless something holds; all else used from outside the crate is taken not to
CALLS = re.compile(
    r"^(Option|Result)::(unwrap|expect|unwrap_err|expect_err|unwrap_unchecked|into_ok)$"
    r"|^(Index::index|IndexMut::index_mut)$"
    r"|^panicking::|^rt::begin_panic|^intrinsics::(unreachable|abort)|^process::(abort|exit)|^hint::unreachable_unchecked"
    r"|^(str|slice|String|Vec|VecDeque)::(split_at|split_at_mut|split_off|copy_from_slice|clone_from_slice|copy_within|swap|rotate_left|rotate_right|chunks|chunks_exact|rchunks|windows|select_nth_unstable|range|range_mut|as_chunks|repeat)$"
    r"|^(Vec|VecDeque|String)::(remove|swap_remove|insert|insert_str|drain|splice|replace_range|extend_from_within|swap|resize_with0)$|^String::truncate$"
    r"|^Iterator::(step_by|array_chunks|sum|product)$|^RefCell::(borrow|borrow_mut|replace|swap)$"
    r"|^char::(from_digit|to_digit|is_digit)$|^(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize)::(pow|abs|neg|ilog|ilog2|ilog10|isqrt|div_euclid|rem_euclid|div_ceil|next_multiple_of|from_str_radix|strict_.*|next_power_of_two|div_floor|abs_diff0)$"
    r"|^(Add::add|Sub::sub|Mul::mul|Div::div|Rem::rem|Shl::shl|Shr::shr|AddAssign::add_assign|SubAssign::sub_assign|MulAssign::mul_assign|DivAssign::div_assign|RemAssign::rem_assign)$"
    r"|^Decimal::(new|from_i128_with_scale|powi|powu|powd|powf|exp|ln|log10|sqrt0|from_parts0|div|mul|add|sub|rem)$"
    r"|^(Date|Time|OffsetDateTime|PrimitiveDateTime|Duration)::(replace_.*0|saturating0|next_occurrence|prev_occurrence|hours|minutes|days|weeks|seconds_f64|from_secs_f64|from_secs_f32)$"
    r"|^(Mutex|RwLock|thread|JoinHandle|Once|OnceCell)::"
    r"|^(Parser::(unwrapped|repeated0|parse_iter)|ParseResult::unwrap|recursive::Recursive::(define|declare)|OnceCell::.*)$"
    r"|^(Rc|Arc)::(try_unwrap0|get_mut_unchecked)$|^mem::(zeroed|uninitialized)$|^LocalKey::with$|^Layout::"
)
# those which the evaluation itself reports where they may panic
REPORTED = re.compile(r"^(Option|Result)::(unwrap|expect)$|^(Index::index|IndexMut::index_mut)$|^panicking::(panic_fmt|panic|panic_display|unreachable_display|panic_explicit|assert_failed|panic_str_2015)$|^process::(abort|exit)$|^intrinsics::unreachable$")
# operators on types whose operators do not panic
FINE = ("String", "Cow", "HashSet", "BTreeSet", "f64", "f32", "OsString", "PathBuf", "Wrapping", "Saturating")
ARITH = ("Add", "Sub", "Mul", "Div", "Rem", "Shl", "Shr")


class Site:
    def __init__(self, b, n, kind, what):
        self.body, self.n, self.kind, self.what, self.loc = b, n, kind, what, n.get("s", "")


def risky(p, fn, nm):
    if not CALLS.match(nm):
        return False
    if re.match(r"(Add|Sub|Mul|Div|Rem|Shl|Shr)(Assign)?::", nm) and fn.get("targs"):
        t = fn["targs"][0]
        h = short(p.head(t))
        while h in ("&", "&mut"):
            t = p.types[t]["a"][0]
            h = short(p.head(t))
        return h not in FINE
    return True


def sites(ctx, b):
    """The panic-capable operations written in a body."""
    p = ctx.p
    for n in exprs(b["body"]):
        k = n["k"]
        if k == "Call" and n.get("fn"):
            fn = n["fn"]
            r = fn.get("res")
            if (r and r.get("local")) or (not r and fn.get("local")):
                continue
            nm = p.fname(fn)
            if risky(p, fn, nm):
                yield Site(b, n, "call", nm)
        elif k == "Fn" and n.get("fn"):
            nm = p.fname(n["fn"])
            if risky(p, n["fn"], nm) and not n["fn"].get("local"):
                yield Site(b, n, "fn", nm)
        elif k in ("Binary", "AssignOp") and n["op"].replace("Assign", "") in ARITH:
            yield Site(b, n, "arith", n["op"].replace("Assign", ""))
        elif k == "Unary" and n.get("op") == "Neg" and n["e"]["k"] != "Lit":
            yield Site(b, n, "arith", "Neg")
        elif k == "Index":
            yield Site(b, n, "index", "Index")


class Haz(Ev):
    def __init__(self, p, **kw):
        super().__init__(p, **kw)
        self.haz = {}  # loc -> [(kind, guards, detail, node)]
        self.seen = set()
        self.lv = {}  # loop variable -> (initial value, [(guards, value after a turn)])

    def hazard(self, kind, st, e, fr, *detail):
        self.seen.add(e.get("s", ""))
        self.haz.setdefault(e.get("s", ""), []).append((kind, tuple(st.guards), detail, e))

    def loop_seen(self, lv, init, updates):
        self.lv[lv] = (init, updates)

    def call(self, st, fn, args, e, fr):
        self.seen.add(e.get("s", ""))
        nm = self.p.fname(fn)
        if not REPORTED.match(nm) and not fn.get("local") and risky(self.p, fn, nm):
            self.hazard("other", st, e, fr, nm, *[self.rv(st, a) for a in args])
        return super().call(st, fn, args, e, fr)

    def binop_at(self, st, op, a, b, e, fr):
        self.seen.add(e.get("s", ""))
        return super().binop_at(st, op, a, b, e, fr)


class Panics:
    """Every panic-capable operation reachable from the roots, each settled where it is written or, when what excludes
    the panic is known only there, in every function which calls that one."""

    def __init__(self, ctx, roots):
        self.ctx, self.p, self.g = ctx, ctx.p, graph(ctx)
        self.roots = {b["id"] for b in roots}
        self.reach = self.g.reach(self.roots)
        self._runs = {}
        self._ax = {}
        self.n = 0
        self._lexers = None

    # ---- analysis of one body

    def heavy(self):
        """Functions which run a lexer or a grammar."""
        if not hasattr(self, "_heavy"):
            out = set()
            for i in self.reach:
                b = self.p.bodies[i]
                if b["kind"] not in ("Fn", "AssocFn"):
                    continue
                for j in self.g.reach([i]):
                    if any(self.p.fname(fn).startswith(("Parser::parse", "Logos::lexer")) for fn, _ in self.g.ext.get(j, ())):
                        out.add(i)
                        break
            self._heavy = out
        return self._heavy

    def run(self, b):
        i = b["id"]
        if i not in self._runs:
            err = None
            for opaque in ((), tuple(self.heavy() - {i})):
                ev = Haz(self.p, opaque=opaque, limit=600000)
                try:
                    rows = ev.run(b)
                    err = None
                    break
                except (TooComplex, RecursionError) as x:
                    err, rows = x, []
                except Exception as x:
                    err, rows = x, []
                    break
            self._runs[i] = (ev, rows, err)
            self.ctx.analysed.add(b["path"])
        return self._runs[i]

    # ---- sites

    def all(self):
        ctx = self.ctx
        for i in sorted(self.reach):
            b = self.p.bodies[i]
            if derived(b) and not b.get("logos"):
                continue
            for s in sites(ctx, b):
                if b.get("logos") and self.generated(b, s):
                    continue
                self.site(s)
        return self.n

    def generated(self, b, s):
        """Written by the derive of the lexer itself, not in a callback."""
        return s.loc in {self.g.owner(b["id"])["s"], b["s"]} or s.loc.split(":")[:3] == b["s"].split(":")[:3]

    def site(self, s):
        ctx = self.ctx
        o = self.g.owner(s.body["id"])
        self.n += 1
        key = f"{o['path']}/{s.kind} {s.what}"
        if s.kind == "fn":
            ctx.ob(key, False, f"{s.what} may panic", s.loc)
            return
        bad = self.settle(s, o, set())
        if bad and bad[0] == "unseen" and s.body is not o:
            bad = self.settle(s, s.body, set())
        ctx.ob(key, not bad, "" if not bad else bad[1], s.loc)

    def settle(self, s, b, seen):
        """None, or (how, why not)."""
        if b["id"] in seen:
            return None
        seen = seen | {b["id"]}
        ev, rows, err = self.run(b)
        if err is not None:
            return "unseen", f"the analysis of {b['path']} fails: {type(err).__name__} {str(err)[:150]}"
        hs = ev.haz.get(s.loc, [])
        if s.loc not in ev.seen:
            return "unseen", f"{s.what} is not reached by the analysis of {b['path']}"
        left = []
        for h in hs:
            if not self.prove(ev, b, h):
                left.append(h)
        if not left:
            return None
        k, g, d, _ = left[0]
        why = f"{s.what} can panic in {b['path']} when {showg(g)[-300:]}: {' '.join(str(x) for x in d)[:300]}"
        if b["id"] in self.roots:
            return "bad", why
        cs = {c for c in self.g.callers(b["id"]) if c in self.reach}
        if not cs:
            return "bad", why
        for c in sorted(cs):
            cb = self.p.bodies[c]
            r = self.settle(s, self.g.owner(c), seen)
            if r and r[0] == "unseen" and cb is not self.g.owner(c):
                r = self.settle(s, cb, seen)
            if r:
                return "bad", why if r[0] == "unseen" else r[1]
        return None

    # ---- lemmas

    def ax(self, name):
        """A fact about the program's own state, established once; its obligations are part of the check."""
        if name not in self._ax:
            self._ax[name] = bool(getattr(self, "ax_" + name)())
        return self._ax[name]

    def prove(self, ev, b, h):
        kind, g, d, n = h
        if self.impossible(ev, b, g):
            return True
        if kind == "index" and self.in_bounds(ev, b, g, d, n):
            return True
        if kind == "arith" and self.fits(ev, b, g, d):
            return True
        if kind == "other" and self.harmless(ev, g, d, n):
            return True
        leaf = self.leaf(b, g)
        if leaf is not None:
            return self.words(leaf, h)
        return self.constants(ev, h)

    def harmless(self, ev, g, d, n):
        """Library calls which cannot panic with these arguments."""
        nm, args = d[0], d[1:]
        f = nm.split("::")[-1]
        lit_ = lambda i, lo: len(args) > i and args[i].op == "lit" and isinstance(args[i].a[1], int) and args[i].a[1] >= lo
        ty = self.p.types[n["t"]]["s"] if n.get("t") is not None else ""
        if f in ("chunks", "chunks_exact", "rchunks", "windows", "step_by"):
            return lit_(1, 1)
        if f in ("insert", "insert_str") and len(args) > 1:
            return args[1] is lint(0) or same_num(args[1], app("len", args[0]))
        if f in ("drain", "range", "range_mut") and len(args) > 1:
            return "RangeFull" in str(args[1])
        if f in ("remove", "swap_remove") and len(args) > 1:
            return args[1] is lint(0) and any(p and c is app("nonempty", args[0]) for c, p in g)
        if nm == "slice::swap" and len(args) == 3:
            size = self.array(n["a"][0])
            return size is not None and all(a.op == "lit" and isinstance(a.a[1], int) and 0 <= a.a[1] < size for a in args[1:])
        if f in ("sum", "product"):
            return f == "sum" and ty == "usize"
        if f in ("from_digit", "to_digit", "is_digit", "from_str_radix"):
            return lit_(1, 2) and args[1].a[1] <= 36
        return False

    def array(self, n):
        """The length of the array an expression borrows."""
        while isinstance(n, dict):
            if n.get("t") is not None:
                m = re.search(r"; (\d+)\]$", self.p.types[n["t"]]["s"])
                if m:
                    return int(m[1])
            n = n.get("e")
        return None

    # conditions which never hold
    def impossible(self, ev, b, g):
        gd = dict(g)
        for c, pol in g:
            c = self.resolve(ev, c)
            if c.op != "app":
                continue
            n, a = c.a
            if n == "nonempty" and not pol:
                if any(q[0] != "one" and gd.get(ev.part_nonempty(q)) is True for q in parts(a[0])):
                    return True
                if a[0].op == "app" and a[0].a[0] in ("str::split", "str::rsplit"):
                    return True
                if self.stack(ev, a[0]) and self.ax("stacks"):
                    return True
            if n == "has" and not pol:
                m, k = a
                if m.op == "fld" and m.a[1] == "included_globs" and self.resolved(m, k, g) and self.ax("globs"):
                    return True
                if m.op == "fld" and m.a[1] == "content" and k.op == "app" and k.a[0] == "index" and k.a[1][0] is fld(m.a[0], "source_id_strings"):
                    if self.ax("synthetic"):
                        return True
                if self.member(ev, m, k, g):
                    return True
        return False

    def resolved(self, m, k, g):
        """An include of the current file, resolved as the loader resolves the includes of that file."""
        gd = dict(g)
        path = fld(m.a[0], "current_path")
        par = app("Path::parent", pay(path, "Some", "0"))
        inc = lambda t: t.op == "pay" and t.a[1] == "Include" or t.op == "fld" and t.a[1] == "item" and inc(t.a[0])
        if inc(k):
            return gd.get(is_(path, "None")) is True or gd.get(is_(path, "Some")) is False or gd.get(is_(par, "None")) is True or gd.get(is_(par, "Some")) is False or gd.get(app("nonempty", pay(par, "Some", "0"))) is False
        return k.op == "app" and k.a[0] == "Path::join" and k.a[1][0] is pay(par, "Some", "0") and inc(k.a[1][1])

    def stack(self, ev, t):
        """The stack of pushed values of a key which is present."""
        t = self.resolve(ev, t)
        src = None
        if t.op == "fld" and t.a[1] == "1" and t.a[0].op in ("el", "each"):
            src = t.a[0].a[0]
        elif t.op == "fld" and t.a[1] == "1" and t.a[0].op == "app" and t.a[0].a[0] == "head":
            src = t.a[0].a[1][0]
        elif t.op == "ent":
            src = t.a[0]
        return src is not None and src.op == "fld" and src.a[1] in ("meta_key_values", "tags")

    def resolve(self, ev, t):
        """The head of a sequence a loop is draining is one of its elements."""
        m = {}
        for s in subterms(t):
            if s.op == "app" and s.a[0] == "head" and s.a[1][0].op == "lv" and s.a[1][0] in ev.lv:
                lv = s.a[1][0]
                init, ups = ev.lv[lv]
                if all(self.suffix(u, lv) for _, u in ups):
                    m[s] = self.element(init)
            elif s.op == "app" and s.a[0] == "len" and s.a[1][0].op == "lv" and s.a[1][0] in ev.lv:
                lv = s.a[1][0]
                init, ups = ev.lv[lv]
                if all(self.same_len(u, lv) for _, u in ups):
                    m[s] = self.length(init)
        return subst(t, m) if m else t

    def suffix(self, u, lv):
        while u.op == "app" and u.a[0] == "tail":
            u = u.a[1][0]
        return u is lv

    def same_len(self, u, lv):
        while u.op == "upd" or u.op == "app" and u.a[0] in ("rev", "sort_by_key", "sort"):
            u = u.a[0] if u.op == "upd" else u.a[1][0]
        return u is lv

    def element(self, s):
        ps = parts(s)
        if len(ps) == 1 and ps[0][0] == "all":
            return el(ps[0][1])
        return el(s)

    def length(self, t):
        if t.op == "app" and t.a[0] == "repeat":
            return t.a[1][1]
        return app("len", t)

    def member(self, ev, m, k, g):
        """A map made of a sequence of pairs has the key of one of them."""
        if m.op != "mext":
            return False
        for part in parts(m.a[1]):
            if part[0] == "one" and fld(part[1], "0") is k:
                return True
            if part[0] != "each":
                continue
            for x in self.certain(part[1]):
                mm = {el(part[1]): x}
                ok_ = [
                    any(q[0] == "one" and fld(subst(q[1], mm), "0") is k for q in pp)
                    for gg, pp in part[2]
                    if all((subst(c, mm), not p) not in g and self.known(subst(c, mm), g) is not (not p) for c, p in gg)
                ]
                if ok_ and all(ok_):
                    return True
        return False

    def known(self, c, g):
        d = dict(g)
        if c in d:
            return d[c]
        if c.op == "is":
            for v in ("None", "Some"):
                if v != c.a[1] and c.a[1] in ("None", "Some") and is_(c.a[0], v) in d:
                    return not d[is_(c.a[0], v)]
            if c.a[0].op == "adt":
                return c.a[0].a[1] == c.a[1]
        return None

    def certain(self, src):
        """Elements certainly in a sequence."""
        while src.op == "app" and src.a[0] in ("sort_by_key", "rev", "sort", "sort_by", "sorted"):
            src = src.a[1][0]
        if src.op == "fold" and src.a[0] is MEMPTY:
            # one entry for every element: only its key is known
            acc = mk("acc")
            keys = {r[1].a[1] if r[1].op == "mset" and r[1].a[0] is acc else None for r in src.a[2]}
            if len(keys) == 1 and None not in keys:
                k = keys.pop()
                return [tup(subst(k, {el(src.a[1]): x}), mk("lv", "any")) for x in self.certain(src.a[1])]
            return []
        return [q[1] for q in parts(src) if q[0] == "one"]

    def possible(self, src):
        """All elements of a sequence: [(guards, element)], or None."""
        while src.op == "app" and src.a[0] in ("sort_by_key", "rev", "sort", "sort_by", "sorted"):
            src = src.a[1][0]
        out = []
        for q in parts(src):
            if q[0] == "one":
                out.append(((), q[1]))
            elif q[0] == "each":
                for gg, pp in q[2]:
                    for y in pp:
                        if y[0] != "one":
                            return None
                        out.append((gg, y[1]))
            else:
                return None
        return out

    # ---- bounds

    def in_bounds(self, ev, b, g, d, n):
        base, i, what = d
        base, i = self.resolve(ev, base), self.resolve(ev, i)
        g = tuple((self.resolve(ev, c), p) for c, p in g)
        gd = dict(g)
        if n["k"] == "Index":
            t = self.p.types[n["e"]["t"]]["s"]
            m = re.search(r"; (\d+)\]$", t)
            if m and i.op == "lit" and isinstance(i.a[1], int) and i.a[1] < int(m[1]):
                return True
        r = rng(i) if i.op == "adt" else None
        if r is not None:
            s, e = r
            if s.op == "lit" and s.a[1] == 0 and e is not None and e.op == "lit" and e.a[1] == 0:
                return True
            if gd.get(app("inbounds", base, i)) is True:
                return True
            for s2, e2 in self.tested(g, base):
                if same_num(s, s2) and e is not None and (e2 is not None and same_num(e, e2) or self.prefix(e, base, s2, e2)):
                    return True
            if base.op == "fld" and self.own_span(base.a[0], s, e) and self.lexed(base.a[1]):
                return True
            return False
        ix = num(i)
        if base.op == "lv" and base in ev.lv and all(self.same_len(u, base) for _, u in ev.lv[base][1]):
            base = ev.lv[base][0]
        L = self.length(base)
        return self.below(ev, ix, L, base, g)

    def tested(self, g, base=None):
        """The ranges which the conditions say can be cut from the text (or from any)."""
        gd = dict(g)
        ends = {}
        for c, p in g:
            if not p or c.op != "app":
                continue
            if c.a[0] == "inbounds" and (base is None or c.a[1][0] is base) and rng(c.a[1][1]):
                yield rng(c.a[1][1])
            if c.a[0] == "str::is_char_boundary" and (base is None or c.a[1][0] is base):
                ends.setdefault(c.a[1][0], []).append(c.a[1][1])
        for xs in ends.values():
            for s in xs:
                for e in xs:
                    if s is e or gd.get(app("lt", e, s)) is False or gd.get(app("lt", s, e)) is True or gd.get(app("le", s, e)) is True:
                        yield s, e

    def prefix(self, e, base, s2, e2):
        """The end of the slice without something at its end."""
        ts = [num(x) for x in total(e)]
        for x in total(s2):
            if num(x) not in ts:
                return False
            ts.remove(num(x))
        if len(ts) != 1 or not (ts[0].op == "app" and ts[0].a[0] == "len"):
            return False
        t = ts[0].a[1][0]
        while t.op == "app" and t.a[0] in ("str::trim_end", "str::trim_end_matches", "str::trim_right"):
            t = t.a[1][0]
        c = cut(t, base)
        return c is not None and same_num(c[0], s2) and (c[1] is e2 or c[1] is not None and e2 is not None and same_num(c[1], e2))

    def own_span(self, st, s, e):
        """The span of the item the lexer delivers."""
        if not (s.op == "fld" and e is not None and e.op == "fld" and s.a[1] == "start" and e.a[1] == "end" and s.a[0] is e.a[0] and s.a[0].op == "fld" and s.a[0].a[1] == "1"):
            return False
        it = s.a[0].a[0]
        src = it.a[1][0] if it.op == "app" and it.a[0] == "head" else it.a[0] if it.op == "el" else None
        return src is not None and src.op == "fld" and src.a[0] is st

    def below(self, ev, ix, L, base, g):
        for c, p in g:
            if c.op == "app" and c.a[0] == "lt":
                x, y = c.a[1]
                if p and num(x) is ix and same_num(y, L):
                    return True
                if p and ix.op == "app" and ix.a[0] == "Sub" and num(ix.a[1][0]) is num(x) and same_sum(y, app("Add", L, ix.a[1][1])):
                    return True
        if L.op == "lit" and ix.op == "lit" and ix.a[1] < L.a[1]:
            return True
        # one entry per account type
        if base.op == "fld" and base.a[1] == "name_by_type" and self.ax("names"):
            return True
        # source ids
        S0 = None
        if L.op == "app" and L.a[0] == "len" and L.a[1][0].op == "fld" and L.a[1][0].a[1] == "source_id_strings":
            S0 = L.a[1][0].a[0]
        elif base.op == "fld" and base.a[1] == "tokenized_sources" and self.ax("tokenized"):
            S0 = fld(base.a[0], "sources")
        if S0 is None:
            return False
        return self.ids(ix, S0, g) and self.ax("ids")

    def ids(self, ix, S0, g):
        """A source id of these sources."""
        if ix is num(fld(S0, "root_source_id")) or ix.op == "lit" and ix.a[1] == 0:
            return True
        if ix.op == "pay" and ix.a[1] == "Content":
            x = ix.a[0]
            return any(s.op == "fld" and s is fld(S0, "included_content") for s in subterms(x))
        if ix.op in ("fld", "el", "each", "app"):
            x, path = ix, []
            while x.op == "fld":
                path.append(x.a[1])
                x = x.a[0]
            if x.op in ("el", "each") or x.op == "app" and x.a[0] in ("head", "last"):
                ps = self.possible(x.a[0] if x.op != "app" else x.a[1][0])
                if ps:
                    def at(v):
                        for f in reversed(path):
                            v = fld(v, f)
                        v = num(v)
                        while v.op == "tup":
                            v = num(fld(v, "0"))
                        return v
                    return all(self.ids(at(v), S0, g) for _, v in ps)
        for c, p in g:
            if p and c.op == "app" and c.a[0] == "lt" and num(c.a[1][0]) is ix and c.a[1][1] is app("len", fld(S0, "source_id_strings")):
                return True
        # through the comparison with an id which is one
        for c, p in g:
            if p and c.op == "app" and c.a[0] == "eq" and ix in (num(c.a[1][0]), num(c.a[1][1])):
                o = num(c.a[1][1]) if ix is num(c.a[1][0]) else num(c.a[1][0])
                if o is num(fld(S0, "root_source_id")):
                    return True
        return False

    # ---- arithmetic

    def fits(self, ev, b, g, d):
        op, x, y = (tuple(d) + (None, None))[:3]
        g = tuple((self.resolve(ev, c), p) for c, p in g)
        if x is not None:
            x = self.resolve(ev, x)
        if y is not None:
            y = self.resolve(ev, y)
        if op == "Add":
            return all(self.counts(t, g) for t in (x, y))
        if op == "Sub":
            gd = dict(g)
            if gd.get(app("lt", x, y)) is False or gd.get(app("lt", y, x)) is True:
                return True
            if y is lint(1) and self.positive(ev, x, g, 0):
                return True
            if self.ordered(y, x, g):
                return True
            return False
        return False

    def counts(self, t, g):
        """A number bounded by the size of what is in memory: sums of a few such do not overflow."""
        for s in subterms(t):
            if s.op == "app" and (s.a[0].startswith("parse:") or s.a[0].startswith("Decimal") or s.a[0] in ("Mul", "Shl") or ":MAX" in s.a[0]):
                return False
        for a in total(num(t)):
            a = num(a)
            if a.op == "lit":
                if not isinstance(a.a[1], int) or a.a[1] > 1 << 32:
                    return False
            elif a.op == "app" and a.a[0] in ("len", "count", "slice::partition_point", "Sub", "LexerInternal::offset", "str::find", "usize::min"):
                pass
            elif self.client_span(a):
                if not any(q is not None and same_num(q, a) for r in self.tested(g) for q in r):
                    return False
        return True

    def client_span(self, a):
        """A position in a span given from outside."""
        return a.op == "fld" and a.a[1] in ("start", "end") and a.a[0].op in ("sym", "fld") and not any(s.op == "app" for s in subterms(a)) and str(a.a[0]).split(".")[-1] == "span"

    def ordered(self, lo, hi, g):
        """lo <= hi"""
        if same_num(lo, hi) or lo is lint(0):
            return True
        t = list(total(hi))
        if lo in t:
            return True
        for r in self.tested(g):
            if r[1] is not None and same_num(r[0], lo) and same_num(r[1], hi):
                return True
        gd = dict(g)
        if gd.get(app("lt", hi, lo)) is False or gd.get(app("lt", lo, hi)) is True or gd.get(app("le", lo, hi)) is True:
            return True
        P = "slice::partition_point"
        if lo.op == hi.op == "app" and lo.a[0] == hi.a[0] == P and lo.a[1][0] is hi.a[1][0]:
            a, b = lo.a[1][1], hi.a[1][1]
            if a.op == b.op == "app" and a.a[0] == b.a[0] == "lt" and a.a[1][0] is b.a[1][0]:
                return self.ordered(a.a[1][1], b.a[1][1], g)
        return False

    def positive(self, ev, t, g, depth):
        """The end of a token, which is not empty."""
        if depth > 6:
            return False
        if t.op == "app" and t.a[0] == "len":
            return any(p and c is app("nonempty", t.a[1][0]) for c, p in g)
        if not (t.op == "fld" and t.a[1] == "end" and t.a[0].op == "fld" and t.a[0].a[1] == "1"):
            return False
        return self.token(ev, t.a[0].a[0], g, depth + 1)

    def token(self, ev, t, g, depth):
        """An item as a lexer delivers it (or one made of such whose end is the end of one)."""
        if depth > 8:
            return False
        if t.op == "app" and t.a[0] == "head" or t.op in ("el", "first"):
            return True
        if t.op == "pay" and t.a[1] == "Some":
            z = t.a[0]
            if z.op == "lv" and z in ev.lv:
                key = ("token", z)
                if key in self._ax:
                    return self._ax[key]
                self._ax[key] = True
                init, ups = ev.lv[z]
                r = all(self.maybe(ev, v, gg, depth + 1) for gg, v in [((), init)] + list(ups))
                self._ax[key] = r
                return r
            return z.op == "app" and z.a[0] == "Iterator::next"
        return False

    def maybe(self, ev, v, g, depth):
        if v is NONE or v.op == "lv" and v in ev.lv:
            return True if v is NONE else self.token(ev, pay(v, "Some", "0"), g, depth)
        if v.op == "adt" and v.a[1] == "Some":
            x = fld(v, "0")
            if x.op != "tup":
                return self.token(ev, x, g, depth)
            kind, sp = fld(x, "0"), fld(x, "1")
            e = fld(sp, "end")
            if e.op == "fld" and e.a[1] == "end" and e.a[0].op == "fld" and e.a[0].a[1] == "1":
                return self.token(ev, e.a[0].a[0], g, depth)
            # an empty extent, of a token the caller does not cut
            return any(
                p and (c.op == "is" and c.a[0] is kind and c.a[1] == "EolComment" or c.op == "app" and c.a[0] == "eq" and kind in c.a[1] and any(q.op == "adt" and q.a[1] == "EolComment" for q in c.a[1]))
                for c, p in g
            ) or kind.op == "adt" and kind.a[1] in ("Eol", "EolComment")
        return False

    # ---- texts of tokens

    def lexers(self):
        if self._lexers is None:
            import c15
            import logosspec as L

            self._lexers = {}
            for (name, ty, e, act, rows), _ in c15.lexers(self.ctx):
                try:
                    nfa, prio = L.lexer(e)
                except (L.Bad, ValueError):
                    continue
                self._lexers[act["id"]] = (name, e, nfa, prio, L.Dfa(nfa, L.classes([nfa], L.reps())))
        return self._lexers

    def leaf(self, b, g):
        if not b.get("logos"):
            return None
        for c, p in g:
            if p and c.op == "is" and str(c.a[1]).startswith("Leaf"):
                return b["id"], int(c.a[1][4:])

    def language(self, leaf):
        """(all words if finitely many else None, least length, first characters, last characters)"""
        k = ("language", leaf)
        if k in self._ax:
            return self._ax[k]
        name, e, nfa, prio, d = self.lexers()[leaf[0]]
        i = leaf[1]
        # states from which the pattern can still match
        start = frozenset(d.start)
        edges, todo, seen = {}, [start], {start}
        while todo:
            s = todo.pop()
            for c in d.al:
                q = d.step(s, c)
                if q:
                    edges.setdefault(s, []).append((c, q))
                    if q not in seen:
                        seen.add(q)
                        todo.append(q)
        final = {s for s in seen if i in d.labels(s)}
        live = set(final)
        while True:
            more = {s for s in seen - live if any(q in live for _, q in edges.get(s, ()))}
            if not more:
                break
            live |= more
        lasts = {c for s in live for c, q in edges.get(s, ()) if q in final}
        firsts = {c for c, q in edges.get(start, ()) if q in live}
        n, layer = 0, {start}
        while layer and not layer & final and n < 100:
            layer = {q for s in layer for _, q in edges.get(s, ()) if q in live}
            n += 1
        # finite?
        words_, front, steps_ = [], [("", start)], 0
        while front and steps_ < 14 and len(words_) < 20000 and len(front) < 20000:
            nxt = []
            for w, s in front:
                for c, q in edges.get(s, ()):
                    if q in live:
                        nxt.append((w + c, q))
                        if q in final:
                            words_.append(w + c)
            front = nxt
            steps_ += 1
        self._ax[k] = (words_ if not front else None, n, firsts, lasts)
        return self._ax[k]

    def words(self, leaf, h):
        import c15
        from words import Unknown

        kind, g, d, n = h
        ws, least, firsts, lasts = self.language(leaf)
        one_byte = lambda cs: all(ord(c) < 128 for c in cs)
        text = [s for c, _ in g for s in subterms(c)] + [s for x in d if isinstance(x, T) for s in subterms(x)]
        text = next((s for s in text if s.op == "app" and s.a[0] == "Lexer::slice"), None)
        if text is not None:
            if kind == "arith" and d[0] == "Sub" and d[1] is app("len", text) and d[2].op == "lit" and d[2].a[1] <= least:
                return True
            if kind == "index" and d[0] is text and rng(d[1]):
                s, e = rng(d[1])
                last1 = app("Sub", app("len", text), lint(1))
                okS = s is lint(0) or s is lint(1) and least >= 1 and one_byte(firsts)
                okE = e is None or e is app("len", text) or e is last1 and one_byte(lasts) and least >= 1 + (s is lint(1))
                if okS and okE:
                    return True
            if kind == "unwrap" and d[0].op == "app" and d[0].a[0] == "Iterator::nth" and d[0].a[1][0] is text and d[0].a[1][1].op == "lit" and d[0].a[1][1].a[1] < least:
                return True
            if kind == "unwrap" and any(c is app("nonempty", text) and not p for c, p in g) and least >= 1:
                return True
        if ws is None:
            return False
        W = c15.Lex(self.p)
        for w in ws:
            # the pattern's classes do not tell digits apart
            for w2 in {w, re.sub(r"[0-9]", "9", w), re.sub(r"[0-9]", "0", w)}:
                env = {"text": w2}
                try:
                    if W.conj([x for x in g if not c15.of_context(x[0])], env) and not (kind == "index" and self.within(W, d, env)):
                        return False
                except Unknown:
                    return False
        return True

    def within(self, W, d, env):
        """Is the index within bounds for this text?"""
        from words import Unknown

        try:
            if rng(d[1]) is not None if d[1].op == "adt" else False:
                W.val(app("index", d[0], d[1]), env)
                return True
            i, xs = W.val(d[1], env), W.val(d[0], env)
        except (Unknown, KeyError, AttributeError, TypeError):
            return False
        return isinstance(i, int) and not isinstance(xs, str) and hasattr(xs, "__len__") and 0 <= i < len(xs)

    def constants(self, ev, h):
        """Conditions on constants only: decided for each of them."""
        import c15
        from words import Unknown

        kind, g, d, n = h
        if any(s.op in ("sym", "lv") for c, _ in g for s in subterms(c)) or not g:
            return False
        W = c15.Lex(self.p)
        try:
            whole = lambda s: s.op in ("el", "each") or s.op == "app" and s.a[0] in ("head", "last") and s.a[1][0].op in ("app", "seq")
            of = lambda s: s.a[0] if s.op != "app" else s.a[1][0]
            tops = {s for c, _ in g for s in subterms(c) if whole(s)}
            tops = {s for s in tops if not any(whole(x) or x.op == "each" for x in subterms(of(s)))}
            if len(tops) > 1:
                return False
            if not tops:
                return not W.conj(g, {})
            (top,) = tops
            xs = self.possible(of(top))
            if xs is None or any(gg for gg, _ in xs):
                return False
            for _, x in xs:
                if W.conj([(rebuild(subst(c, {top: x})), pl) for c, pl in g], {}):
                    return False
            return True
        except (Unknown,):
            return False

    # ---- facts about the program's state

    def part(self, keep, f):
        """Take over the obligations of another rule which matter here."""
        good = [True]
        outer = self.ctx

        class Only:
            def __getattr__(s, n):
                return getattr(outer, n)

            def ob(s, k, okv, msg="", where=""):
                if keep(k):
                    good[0] &= bool(okv)
                    outer.ob("state: " + k, okv, msg, where)
                return okv

        f(Only())
        return good[0]

    def ax_ids(self):
        import c13

        return self.part(lambda k: k.startswith("tables/") or k.endswith(("/included/id", "/root/loop", "/root/id", "/root/name", "/included", "/changed")), c13.tables)

    def ax_synthetic(self):
        import c13

        return self.part(lambda k: k.endswith(("/case", "/cases", "/new/name", "/more/id", "synthetic/new", "/changed")), c13.synthetic)

    GLOBS = "loop|ends early|work list|turns|all|each|as written|relative|turn needs an include|expanded|bad glob recorded|bad glob taken|expansion recorded".split("|")

    def ax_globs(self):
        import c09

        return self.part(lambda k: k.startswith(("search/", "finder")) or k.split("/")[-1] in self.GLOBS or "pending" in k, c09.run)

    def ax_stacks(self):
        """The stack of a pushed key or tag is dropped with its last value."""
        ctx = self.ctx
        import c08

        b, st = processor(ctx)
        ok_ = True
        for r in st:
            gd = dict(c08.by_length(x) for x in r.guards)
            for f in ("meta_key_values",):
                v = step_get(r, f)
                base = S(f)
                t = v
                while t is not base and t.op in ("mset", "mrem"):
                    if t.op == "mset":
                        x = t.a[2]
                        nonempty = any(q[0] == "one" for q in parts(x)) or gd.get(app("nonempty", x)) is True
                        ok_ &= ctx.ob("state: pushed values", nonempty, f"a key is left with {str(x)[:200]} when {showg(r.guards)[-200:]}", ctx.at(b))
                    t = t.a[0]
                ok_ &= ctx.ob("state: pushed keys", t is base, f"the pushed keys become {str(v)[:200]}", ctx.at(b))
        nb = self.p.method("PragmaProcessor", "new")
        for r in ctx.run(nb):
            ok_ &= ctx.ob("state: nothing pushed", fld(r.ret, "meta_key_values") is MEMPTY, str(fld(r.ret, "meta_key_values"))[:200], ctx.at(nb))
        return ok_

    def ax_names(self):
        """A name for every account type, however it is changed."""
        ctx, p = self.ctx, self.p
        d = p.method("AccountTypeNames", "default", "Default")
        n = len(next(v for k, v in p.variants.items() if short(k) == "AccountType"))
        ok_ = True
        for r in ctx.run(d):
            t = fld(r.ret, "name_by_type")
            c = self.size(t)
            ok_ &= ctx.ob("state: names", c == n, f"{c} names for {n} account types: {str(t)[:200]}", ctx.at(d))
        for b in p.bodies.values():
            for x in exprs(b["body"]):
                if x["k"] == "Adt" and short(x["adt"]) == "AccountTypeNames" and self.g.owner(b["id"]) is not d and not derived(b):
                    ok_ &= ctx.ob("state: names made", False, f"made in {b['path']}", loc(x))
            if b["kind"] in ("Fn", "AssocFn") and not derived(b) and any(
                q.get("t") is not None and p.types[q["t"]]["h"] == "&mut" and short(p.head(p.types[q["t"]]["a"][0])) == "AccountTypeNames" for q in b["params"]
            ):
                for r in ctx.run(b):
                    v = fld(r.final("self"), "name_by_type")
                    while v.op == "upd":
                        v = v.a[0]
                    ok_ &= ctx.ob("state: names changed", v is S("name_by_type"), f"the names become {str(v)[:200]}", ctx.at(b))
        return ok_

    def size(self, t):
        """The number of elements of a sequence made from constants, or None."""
        import c15
        from words import Unknown

        W = c15.Lex(self.p)
        while t.op == "app" and t.a[0] in ("sort_by_key", "sort", "rev", "sort_by"):
            t = t.a[1][0]
        n = 0
        for q in parts(t):
            if q[0] == "one":
                n += 1
                continue
            xs = self.possible(q[1]) if q[0] == "each" else None
            if xs is None or any(gg for gg, _ in xs):
                return None
            for _, x in xs:
                for gg, pp in q[2]:
                    try:
                        on = W.conj([(rebuild(subst(c, {el(q[1]): x})), pl) for c, pl in gg], {})
                    except Unknown:
                        return None
                    if on and any(y[0] != "one" for y in pp):
                        return None
                    n += len(pp) if on else 0
        return n

    def ax_tokenized(self):
        """Tokens for every source id."""
        ctx, p = self.ctx, self.p
        b = p.method("BeancountParser", "new")
        ev, rows, err = self.run(b)
        ok_ = ctx.ob("state: tokens", err is None and bool(rows), f"{err}", ctx.at(b))
        for r in rows:
            t = fld(r.ret, "tokenized_sources")
            while t.op in ("fold", "upd") or t.op == "app" and t.a[0] in ("rev",):
                if t.op == "fold":
                    acc = mk("acc")
                    if not all(self.same_len(v, acc) for _, v in t.a[2]):
                        break
                t = t.a[0] if t.op != "app" else t.a[1][0]
            src = fld(r.ret, "sources")
            L = self.length(t)
            ok_ &= ctx.ob("state: tokens of every source", L is app("len", fld(src, "source_id_strings")), f"tokens are kept for {str(L)[:200]} sources", ctx.at(b))
        for x in p.bodies.values():
            if derived(x):
                continue
            for n in exprs(x["body"]):
                if n["k"] == "Adt" and short(n["adt"]) == "BeancountParser" and self.g.owner(x["id"]) is not b:
                    ok_ &= ctx.ob("state: parser made", False, f"made in {x['path']}", loc(n))
        return ok_

    def lexed(self, field):
        """The spans a stage cuts from a text are those of the lexer of that text."""
        if ("lexed", field) in self._ax:
            return self._ax["lexed", field]
        import streams

        ctx, p = self.ctx, self.p
        its = streams.adaptors(ctx)
        news = {
            b["id"]: b for b in p.bodies.values()
            if b["name"] == "new" and not b.get("trait") and b.get("self") is not None and short(p.types[b["self"]]["h"]) in its
        }
        made = []
        for b in p.bodies.values():
            if b["kind"] not in ("Fn", "AssocFn") or b.get("logos") or b["id"] not in self.reach:
                continue
            if not any(p.fname(fn) == "Logos::lexer" for fn, _ in self.g.ext.get(b["id"], ())):
                continue
            for r in ctx.run(b, opaque=tuple(news)):
                for t in subterms(r.ret):
                    d = None
                    if t.op == "app" and t.a[0].endswith("::new") and t.a[0][:-5] in its and any(streams.is_base(x) for x in t.a[1]):
                        nb = p.method(t.a[0][:-5], "new")
                        for r2 in ctx.run(nb):
                            m = {sym(q): a for q, a in zip(r2.params, t.a[1])}
                            d = subst(r2.ret, m)
                    elif t.op == "adt" and short(t.a[0]) in its:
                        d = t
                    if d is None or d.op != "adt" or field not in dict(d.a[2]):
                        continue
                    ls = [x for _, v in d.a[2] for x in subterms(v) if x.op == "app" and x.a[0] == "Logos::lexer"]
                    if ls:
                        made.append(ctx.ob("state: lexed source", all(x.a[1][0] is dict(d.a[2])[field] for x in ls), f"{str(d)[:300]}", ctx.at(b)))
        self._ax["lexed", field] = bool(made) and all(made)
        return self._ax["lexed", field]
