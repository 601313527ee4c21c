"""C18: nothing depends on the order of a hash table."""
from common import *
from graph import *

TECHNIQUE = "order-taint analysis over the type-checked program: every iteration over a hash table (by the compiler's types) followed to its consumer, with a commutativity analysis of loop bodies"
EXPLANATION = (
    "Every expression which iterates over a HashMap or HashSet (decided by its type, wherever it is written) in code reachable from making "
    "the sources or parsing is followed through adaptors, variables, arguments and results to what consumes it. It may be consumed by a "
    "collection without order under keys which stay distinct, by a test or count which does not depend on order, by a vector which is "
    "sorted by a distinct key before any other use, or by a loop whose turns commute: each turn only inserts or looks up under its own "
    "key, stores at its own index, or adds an error or warning to a list nobody reads meanwhile, and never leaves the loop early. "
    "Position-dependent adaptors (next, enumerate, take, zip, find, last ...) and directory listings are violations. An obligation is one "
    "expression of iterator type or one reachable function."
)
ASSUMPTIONS = [
    "glob returns paths in alphabetical order, as documented",
    "the order of errors and warnings in their lists is not part of the outcome, nor is message text or the output of Display and Debug",
    "equality of keys agrees with their hashes",
]
FLOOR = 250

HASHED = ("std::collections::hash::map::HashMap", "std::collections::hash::set::HashSet")
NOT_ITER = {"HashMap", "HashSet", "Entry", "OccupiedEntry", "VacantEntry", "RandomState", "OccupiedError", "RawEntryMut"}
LAZY = {"map", "filter", "filter_map", "flat_map", "flatten", "cloned", "copied", "chain", "by_ref", "inspect", "into_iter", "iter", "fuse", "rev", "peekable", "map_into", "borrow", "intersperse", "intersperse_with"}
WITH_CLOSURE = {"map", "filter", "filter_map", "flat_map", "inspect", "any", "all", "count", "sum", "min", "max"}
SAFE_END = {"join", "format", "count", "any", "all", "sum", "product", "max", "min", "size_hint", "len", "is_empty", "all_unique", "is_disjoint", "is_subset", "is_superset", "drop"}
SORTED = {"sort", "sort_unstable", "sort_by_key", "sort_by", "sort_unstable_by_key", "sort_unstable_by", "sort_by_cached_key"}
ITER_SORTED = {"sorted", "sorted_by_key", "sorted_by", "sorted_unstable", "sorted_unstable_by_key", "sorted_by_cached_key", "sorted_unstable_by"}
KEEP = {"clone", "to_owned", "as_path", "to_path_buf", "as_ref", "into", "from", "item", "deref", "borrow", "map", "as_str", "to_string", "cloned", "copied", "as_deref", "spanned", "as_os_str", "unwrap_or", "last", "unwrap", "span", "first"}
BAG = ("ErrorOrWarning", "AnnotatedErrorOrWarning", "Rich")
TABLE_OPS = {"insert", "entry", "remove", "get_mut", "remove_entry", "replace", "take", "get_or_insert_with", "or_insert", "or_insert_with", "or_default"}


class Flow:
    def __init__(self, ctx):
        self.ctx, self.p = ctx, ctx.p
        self.g = graph(ctx)
        self.parents = {}
        self.bad = []
        self.n = 0
        self.done = set()
        self.returning = set()  # functions whose result iterates over a hash table

    # ---------------------------------------------------------------- types

    def hash_iter(self, t, depth=6):
        """Does the type iterate over a hash table?"""
        if t is None:
            return False
        x = self.p.types[t]
        h = x["h"]
        if h.startswith(("std::collections::hash::", "hashbrown::")) and short(h) not in NOT_ITER:
            return True
        if h in ("std::fs::ReadDir",):
            return True
        if h.startswith("{") or h in HASHED or short(h) in ("Vec", "VecDeque", "BTreeMap", "BTreeSet", "String", "Option", "Result"):
            return False
        return depth > 0 and any(self.hash_iter(a, depth - 1) for a in x["a"] or ())

    def hashed(self, t):
        return t is not None and self.p.head(t) in HASHED

    # ---------------------------------------------------------------- parents

    def parent(self, b):
        m = self.parents.get(b["id"])
        if m is None:
            m = {}
            st = [(b["body"], None)]
            while st:
                x, par = st.pop()
                if isinstance(x, dict):
                    if "k" in x:
                        m[id(x)] = par
                        par = x
                    for v in x.values():
                        if isinstance(v, (dict, list)):
                            st.append((v, par))
                elif isinstance(x, list):
                    for v in x:
                        if isinstance(v, (dict, list)):
                            st.append((v, par))
            self.parents[b["id"]] = m
        return m

    def fail(self, b, n, why):
        o = self.g.owner(b["id"])
        self.bad.append((o["path"].split("::", 1)[-1], f"{o['path']} ({loc(n)})", why))

    # ---------------------------------------------------------------- sites

    def body(self, b):
        for n in list(exprs(b["body"])):
            if n["k"] != "Call":
                continue
            fn = n.get("fn")
            name = short(fn["path"]) if fn else ""
            made = self.hash_iter(n.get("t"))
            args = n["a"]
            src = any(self.hash_iter(a.get("t")) for a in args)
            if fn and not made and fn["local"] is False and not src:
                for i, a in enumerate(args):
                    # a table handed over whole to something which iterates over it
                    if self.hashed(a.get("t")) and (i > 0 and name in ("extend", "append", "chain", "zip", "flat_map", "interleave") or name in ("from_iter", "retain", "for_each")):
                        self.n += 1
                        if name == "retain":
                            for c in args[1:]:
                                self.closure(b, c, n)
                        elif name == "from_iter" or name == "extend":
                            self.collected(b, n, n.get("t") if name == "from_iter" else args[0].get("t"), None, args[0] if name == "extend" else None)
                        else:
                            self.fail(b, n, f"{name} over a hash table")
            if made and not src:
                self.n += 1
                self.use(b, n, n)
            elif fn and self.target(fn) in self.returning:
                self.n += 1
                self.use(b, n, n)

    def target(self, fn):
        r = fn.get("res")
        if r and r.get("local"):
            return r["id"]
        return fn["id"] if not r and fn["local"] else None

    # ---------------------------------------------------------------- what becomes of an iterator

    def use(self, b, n, site, depth=0):
        """n is an expression whose value iterates over a hash table."""
        if depth > 40:
            return self.fail(b, site, "not followed to its consumer")
        par = self.parent(b)
        u = par.get(id(n))
        if u is None or (u["k"] == "Block" and u.get("e") is n and par.get(id(u)) is None):
            # the result of the function
            if b["kind"] == "Closure":
                return self.fail(b, site, "a closure returns an iterator over a hash table")
            if b["id"] not in self.returning:
                self.returning.add(b["id"])
                self.again = True
            return
        k = u["k"]
        if k in ("Borrow", "Deref", "Coerce", "Cast", "Never"):
            return self.use(b, u, site, depth + 1)
        if k == "Block":
            if u.get("e") is n:
                return self.use(b, u, site, depth + 1)
            return
        if k == "Return":
            if b["id"] not in self.returning:
                self.returning.add(b["id"])
                self.again = True
            return
        if k == "E":
            return  # dropped
        if k == "L":
            return self.bind(b, u["p"], site, depth)
        if k == "Match" and u.get("e") is n:
            ok = False
            for a in u["arms"]:
                if a["p"]["k"] == "Bind":
                    self.bind(b, a["p"], site, depth)
                    ok = True
            return None if ok else self.fail(b, site, "matched")
        if k in ("If", "Match"):
            return self.use(b, u, site, depth + 1)
        if k == "Call":
            return self.called(b, n, u, site, depth)
        self.fail(b, site, f"flows into {k}")

    def bind(self, b, pat, site, depth):
        if pat["k"] != "Bind":
            return self.fail(b, site, "destructured")
        v = pat["v"]
        for x in exprs(self.g.owner(b["id"])["body"]):
            if x["k"] == "Var" and x.get("v") == v:
                self.use(b, x, site, depth + 1)
        for c in self.p.bodies.values():
            if c["kind"] == "Closure" and self.g.owner(c["id"])["id"] == self.g.owner(b["id"])["id"]:
                for x in exprs(c["body"]):
                    if x["k"] == "Upvar" and x.get("v") == v:
                        self.fail(b, site, "captured by a closure")

    def called(self, b, n, u, site, depth):
        fn = u.get("fn")
        if fn is None:
            return self.fail(b, site, "passed to an unknown function")
        name = short(fn["path"])
        i = next((j for j, a in enumerate(u["a"]) if a is n), 0)
        t = self.target(fn)
        if t in self.p.bodies and not fn.get("trait"):
            cb = self.p.bodies[t]
            prm = cb["params"][i]
            if (t, i) not in self.done:
                self.done.add((t, i))
                if prm.get("p") is not None:
                    self.bind(cb, prm["p"], site, depth)
            return
        if name == "next":
            return self.loop(b, u, site)
        if name == "deref" and len(u["a"]) == 1:
            return self.use(b, u, site, depth + 1)
        if name in ITER_SORTED:
            if name in ("sorted", "sorted_unstable") or self.distinct_key(b, u["a"][1:]):
                return
            return self.fail(b, site, f"{name} by a key which may have ties")
        if name in ("collect", "from_iter", "collect_vec", "extend", "partition"):
            ty = u["a"][0].get("t") if name == "extend" else u.get("t")
            if name == "extend" and i == 0:
                return self.fail(b, site, "extended")
            return self.collected(b, u, ty, n, u["a"][0] if name == "extend" else None)
        if name == "for_each":
            return self.closure(b, u["a"][1], u)
        if name in SAFE_END or name in LAZY:
            if name == "chain" and i > 0:
                return self.use(b, u, site, depth + 1)
            for c in u["a"][1:]:
                if c["k"] == "Closure":
                    self.closure(b, c, u, pure=True)
            if name in LAZY:
                return self.use(b, u, site, depth + 1)
            return
        self.fail(b, site, f"consumed by {name}, which depends on the order")

    # ---------------------------------------------------------------- consumers

    def element_type(self, t):
        a = self.p.types[self.p.strip_ref(t)]["a"] or ()
        return a[0] if a else None

    def bag(self, t):
        """A list of errors or warnings."""
        e = self.element_type(t)
        return e is not None and short(self.p.head(e)) in BAG

    def collected(self, b, u, t, chain, target):
        h = self.p.head(t)
        s = short(h)
        if s in ("HashSet", "BTreeSet", "String"):
            return
        if s in ("HashMap", "BTreeMap"):
            if chain is not None and not self.keys_kept(chain):
                self.fail(b, u, "collected under keys which may coincide")
            return
        if self.bag(t):
            return
        if s in ("Vec", "VecDeque"):
            v = self.variable(b, u) if target is None else self.root(target)
            if v is not None and self.sorted_first(b, v, u):
                return
            if target is None:
                # what is done with the list counts
                return self.use(b, u, u)
            return self.fail(b, u, f"collected into a {s} in the order of the hash table")
        self.fail(b, u, f"collected into {s}")

    def variable(self, b, u):
        """The variable an expression initialises."""
        par = self.parent(b)
        x = u
        while True:
            y = par.get(id(x))
            if y is None:
                return None
            if y["k"] == "L" and y["p"]["k"] == "Bind":
                return y["p"]["v"]
            if y["k"] in ("Borrow", "Deref", "Coerce") or (y["k"] == "Block" and y.get("e") is x):
                x = y
                continue
            return None

    def root(self, x):
        while isinstance(x, dict) and x["k"] in ("Borrow", "Deref", "Coerce", "Field", "Index", "Cast"):
            x = x["e"]
        return x.get("v") if isinstance(x, dict) and x["k"] in ("Var", "Upvar") else None

    def sorted_first(self, b, v, made):
        """Is the variable sorted, by a distinct key, before any other use?"""
        uses = []

        def walk(x, cond):
            if isinstance(x, dict):
                if x.get("k") == "Var" and x.get("v") == v:
                    uses.append((x, cond))
                for key, y in x.items():
                    if isinstance(y, (dict, list)):
                        walk(y, cond or x.get("k") in ("If", "Loop", "Match") and key in ("th", "el", "arms", "body"))
            elif isinstance(x, list):
                for y in x:
                    walk(y, cond)

        order = []

        def inorder(x):
            # evaluation order: statements in order, then the tail
            if isinstance(x, dict):
                ks = ["st", "e"] if x.get("k") == "Block" else sorted(x, key=lambda y: {"a": 0, "e": 0, "l": 0, "c": 0}.get(y, 1))
                for y in ks:
                    if isinstance(x.get(y), (dict, list)):
                        inorder(x[y])
                if x.get("k") == "Var" and x.get("v") == v:
                    order.append(x)
            elif isinstance(x, list):
                for y in x:
                    inorder(y)

        inorder(b["body"])
        par = self.parent(b)
        after = [x for x in order if not self.inside(par, x, made)]
        # turns which only fill it come first
        for x in after:
            y = x
            while par.get(id(y)) is not None and par[id(y)]["k"] in ("Borrow", "Deref", "Coerce", "Field"):
                y = par[id(y)]
            u = par.get(id(y))
            # slices are sorted through deref_mut
            while u is not None and u["k"] == "Call" and short((u.get("fn") or {}).get("path", "")) in ("deref_mut", "as_mut_slice", "as_mut"):
                y = u
                while par.get(id(y)) is not None and par[id(y)]["k"] in ("Borrow", "Deref", "Coerce"):
                    y = par[id(y)]
                u = par.get(id(y))
            name = short((u.get("fn") or {}).get("path", "")) if u is not None and u["k"] == "Call" else ""
            if name in SORTED:
                st = par.get(id(u))
                if st is None or st["k"] not in ("E", "Block"):
                    return False
                return name in ("sort", "sort_unstable") or self.distinct_key(b, u["a"][1:])
            if name in ("push", "push_back", "extend", "reserve"):
                continue
            return False
        return False

    def inside(self, par, x, y):
        while x is not None:
            if x is y:
                return True
            x = par.get(id(x))
        return False

    def distinct_key(self, b, args):
        """Does the key function use a component which identifies the element?"""
        for c in args:
            if c["k"] == "Closure" and c["id"] in self.p.bodies:
                for x in exprs(self.p.bodies[c["id"]]["body"]):
                    if x["k"] in ("Var", "Field") and x.get("t") is not None and short(self.p.head(x["t"])) in ("SourceId", "PathBuf", "Path", "Span"):
                        return True
            elif c["k"] == "Fn":
                return False
        return False

    def keys_kept(self, chain):
        """Do the adaptors between the table and the collection keep keys distinct?"""
        x = chain
        while isinstance(x, dict):
            if x["k"] in ("Borrow", "Deref", "Coerce"):
                x = x["e"]
                continue
            if x["k"] != "Call":
                return x["k"] in ("Var", "Upvar", "Field")
            name = short(x["fn"]["path"]) if x.get("fn") else ""
            if name in ("values", "into_values"):
                return False
            if name in ("map", "filter_map", "flat_map"):
                for c in x["a"][1:]:
                    if c["k"] == "Closure" and c["id"] in self.p.bodies:
                        if name == "flat_map" or not self.key_kept(self.p.bodies[c["id"]]):
                            return False
                    elif c["k"] != "Closure":
                        return False
            if not x["a"]:
                return False
            x = x["a"][0]
        return True

    def key_kept(self, c):
        """Every pair the closure makes has a first component got from the element without loss."""
        found = False
        for x in exprs(c["body"]):
            if x["k"] == "Tuple" and len(x["a"]) == 2:
                found = True
                if not self.lossless(x["a"][0], None):
                    return False
        return found

    def lossless(self, x, elems):
        for y in exprs(x):
            if y["k"] == "Call":
                fn = y.get("fn")
                if fn is None:
                    return False
                if fn["kind"].startswith("Ctor"):
                    continue
                if short(fn["path"]) not in KEEP:
                    return False
            elif y["k"] == "Fn":
                if not y["fn"]["kind"].startswith("Ctor") and short(y["fn"]["path"]) not in KEEP:
                    return False
            elif y["k"] in ("If", "Match", "Binary", "Lit", "Loop"):
                return False
            elif y["k"] == "Closure" and y["id"] in self.p.bodies:
                if not self.lossless(self.p.bodies[y["id"]]["body"], elems):
                    return False
        return elems is None or any(y["k"] in ("Var", "Upvar") and y["v"] in elems for y in exprs(x))

    # ---------------------------------------------------------------- loops

    def loop(self, b, call, site):
        """The iterator's next is called: it must be the head of a loop whose turns commute."""
        par = self.parent(b)
        m = par.get(id(call))
        while m is not None and m["k"] in ("Borrow", "Deref", "Coerce"):
            m = par.get(id(m))
        lp = m
        while lp is not None and lp["k"] != "Loop":
            if lp["k"] == "Call":
                lp = None
                break
            lp = par.get(id(lp))
        if m is None or lp is None or m["k"] not in ("Match", "Let"):
            return self.fail(b, site, "its first element is taken")
        if m["k"] == "Match":
            elems = {x["v"] for a in m["arms"] for x in exprs(a["p"]) if x["k"] == "Bind"}
        else:
            elems = {x["v"] for x in exprs(m["p"]) if x["k"] == "Bind"}
        self.region(b, lp["body"], elems, lp.get("lbl"), site, head=m)

    def closure(self, b, c, u, pure=False):
        if c["k"] == "Fn":
            if c["fn"]["kind"].startswith("Ctor"):
                return
            t = self.target(c["fn"])
            if t is None:
                return  # a function of another crate by name
            cb = self.p.bodies.get(t)
        elif c["k"] == "Closure":
            cb = self.p.bodies.get(c["id"])
        else:
            cb = None
        if cb is None:
            return self.fail(b, u, "applies an unknown function in the order of the hash table")
        elems = {x["v"] for prm in cb["params"] if prm.get("p") is not None for x in exprs(prm["p"]) if x["k"] == "Bind"}
        self.region(cb, cb["body"], elems, None, u, pure=pure, fn=True)

    def region(self, b, body, elems, lbl, site, head=None, pure=False, fn=False):
        """Do the turns over distinct elements commute?"""
        ops = []
        # the iterator itself
        own = {x["v"] for x in exprs(head["e"]) if x["k"] == "Var"} if head is not None else set()
        self.effects(b, body, set(elems), own, lbl, ops, head, fn, 0)
        writes = [o for o in ops if o[0] not in ("read", "look")]
        if pure and writes:
            return self.fail(b, site, f"a lazily applied function has an effect: {writes[0][2]}")
        tables = {o[1] for o in writes if o[0] == "table" and o[1] is not None}
        bags = {o[1] for o in writes if o[0] == "bag"}
        for o in ops:
            if o[0] == "bad":
                self.fail(b, o[3] if isinstance(o[3], dict) else site, o[2])
            if o[0] == "leave" and (not o[1] or any(w[0] not in ("leave",) for w in writes)):
                self.fail(b, o[3], "a loop over a hash table ends early, so what was done depends on the order")
            if o[0] == "read" and any(o[1][0] == t[0] and (o[1][1] == t[1][:len(o[1][1])] or t[1] == o[1][1][:len(t[1])]) for t in tables):
                self.fail(b, o[3], "a table is examined as a whole while being filled in the order of a hash table")
            if o[0] in ("read", "look") and o[1] in bags:
                self.fail(b, o[3], f"{o[1][0].split('#')[0]} is read while being filled in the order of a hash table")

    def place(self, x, mp):
        path = []
        while isinstance(x, dict) and x["k"] in ("Borrow", "Deref", "Coerce", "Field", "Cast"):
            if x["k"] == "Field":
                path.append(x["f"])
            x = x["e"]
        if isinstance(x, dict) and x["k"] in ("Var", "Upvar"):
            v, pre = mp.get(x["v"], (x["v"], ()))
            return v, tuple(pre) + tuple(reversed(path))
        return None

    def effects(self, b, body, elems, inner, lbl, ops, head, fn, depth, mp=None):
        """Effects of one turn on what lives outside it. mp: parameters standing for outer places."""
        mp = mp or {}
        p = self.p
        inner = set(inner) | elems
        # variables of the turn, and which of them come from the element
        for x in exprs(body):
            if x["k"] == "Bind":
                inner.add(x["v"])
        ch = True
        while ch:
            ch = False
            for x in exprs(body):
                pat, e = None, None
                if x["k"] == "L":
                    pat, e = x["p"], x.get("e")
                elif x["k"] == "Let":
                    pat, e = x["p"], x["e"]
                if pat is not None and e is not None and any(y["k"] in ("Var", "Upvar") and y["v"] in elems for y in exprs(e)):
                    for y in exprs(pat):
                        if y["k"] == "Bind" and y["v"] not in elems:
                            elems.add(y["v"])
                            ch = True
                if x["k"] == "Match" and any(y["k"] in ("Var", "Upvar") and y["v"] in elems for y in exprs(x["e"])):
                    for a in x["arms"]:
                        for y in exprs(a["p"]):
                            if y["k"] == "Bind" and y["v"] not in elems:
                                elems.add(y["v"])
                                ch = True
        par = self.parent(b)

        def outer(x):
            pl = self.place(x, mp)
            return pl if pl is not None and (pl[0] not in inner) else None

        written = set()
        for x in exprs(body):
            k = x["k"]
            if k in ("Assign", "AssignOp"):
                l = x["l"]
                pl = outer(l)
                idx = next((y for y in exprs(l) if y["k"] == "Index"), None)
                im = next((y for y in exprs(l) if y["k"] == "Call" and short((y.get("fn") or {}).get("path", "")) in ("index_mut", "deref_mut", "get_mut")), None)
                if idx is not None or (im is not None and len(im["a"]) == 2):
                    key = idx["i"] if idx is not None else im["a"][1]
                    base = self.place(idx["e"] if idx is not None else im["a"][0], mp)
                    if base is not None and base[0] in inner:
                        continue
                    if im is not None:
                        written.add(id(im))
                    if not self.lossless(key, elems):
                        ops.append(("bad", base, "a turn over a hash table stores at an index not its own", x))
                    else:
                        ops.append(("table", base, "stores", x))
                    continue
                if pl is None:
                    continue
                if k == "Assign" and x["r"]["k"] == "Lit":
                    ops.append(("flag", pl, "sets a constant", x))
                elif k == "AssignOp" and str(x.get("op", "")).startswith(("Add", "BitOr", "Mul", "BitAnd")):
                    ops.append(("bag", pl, "accumulates", x))
                    written |= {id(y) for y in exprs(l)}
                else:
                    ops.append(("bad", pl, f"the last turn over a hash table decides {pl[0].split('#')[0]}", x))
            elif k == "Return" or (k == "Break" and x.get("lbl") == lbl and lbl is not None):
                if k == "Break" and head is not None and self.exit_of(par, x, head):
                    continue
                if fn and k == "Return":
                    continue  # ends the turn only
                e = x.get("e")
                const = e is None or e["k"] == "Lit" or (e["k"] == "Block" and not e["st"] and (e.get("e") or {}).get("k") in ("Lit", None))
                ops.append(("leave", const and k == "Return", "leaves", x))
            elif k == "Call":
                f = x.get("fn")
                name = short(f["path"]) if f else ""
                for i, a in enumerate(x["a"]):
                    mut = a["k"] == "Borrow" and a.get("m") or (a["k"] in ("Var", "Upvar") and a.get("t") is not None and p.types[a["t"]]["h"] == "&mut")
                    if a["k"] in ("Var", "Upvar", "Field") and not mut and a.get("t") is not None and p.types[a["t"]]["h"] == "&mut":
                        mut = True
                    if not mut:
                        continue
                    pl = outer(a)
                    if pl is None or id(x) in written:
                        continue
                    written |= {id(y) for y in exprs(a)}
                    self.write(b, x, f, name, i, a, pl, elems, inner, ops, depth, mp)
                if f is None:
                    pass
            elif k == "Closure" and x["id"] in p.bodies:
                cb = p.bodies[x["id"]]
                # what a closure made in the turn does to outer places
                self.effects(cb, cb["body"], set(elems), inner, None, ops, None, True, depth + 1, mp)
        for x in exprs(body):
            if x["k"] in ("Var", "Upvar") and id(x) not in written:
                y = x
                while par.get(id(y)) is not None and par[id(y)]["k"] in ("Borrow", "Deref", "Coerce", "Field"):
                    y = par[id(y)]
                pl = self.place(y, mp)
                if pl is not None and pl[0] not in inner:
                    u = par.get(id(y))
                    keyed = u is not None and u["k"] == "Call" and u["a"] and u["a"][0] is y and len(u["a"]) > 1 and self.lossless(u["a"][1], elems)
                    ops.append(("read" if not keyed else "look", pl, "reads", x))

    def exit_of(self, par, x, head):
        """Is the break the one taken when the iterator is exhausted?"""
        y = x
        while y is not None and y is not head:
            z = par.get(id(y))
            if z is head and head["k"] == "Match":
                return any(a["p"]["k"] in ("Variant", "Wild") and (a["p"].get("variant") == "None" or a["p"]["k"] == "Wild") and self.contains(a["b"], x) for a in head["arms"])
            if z is not None and z["k"] == "If" and self.contains(z["c"], head) and not self.contains(z["th"], x):
                return True
            y = z
        # `let Some(x) = it.next() else { break }`
        return head["k"] == "Let" and y is None and False

    def contains(self, x, y):
        return any(z is y for z in exprs(x))

    def write(self, b, call, f, name, i, a, pl, elems, inner, ops, depth, mp):
        p = self.p
        t = a.get("t")
        h = short(p.head(t)) if t is not None else ""
        if f is None:
            return ops.append(("bad", pl, "an unknown function changes it in the order of a hash table", call))
        tgt = self.target(f)
        if tgt in p.bodies and depth < 5:
            cb = p.bodies[tgt]
            m2 = {}
            e2 = set()
            for prm, arg in zip(cb["params"], call["a"]):
                if prm.get("p") is None or prm["p"]["k"] != "Bind":
                    continue
                q = self.place(arg, mp)
                if q is not None and q[0] not in inner:
                    m2[prm["p"]["v"]] = q
                if any(y["k"] in ("Var", "Upvar") and y["v"] in elems for y in exprs(arg)):
                    e2.add(prm["p"]["v"])
            return self.effects(cb, cb["body"], e2, {prm["p"]["v"] for prm in cb["params"] if prm.get("p") is not None and prm["p"]["k"] == "Bind" and prm["p"]["v"] not in m2}, None, ops, None, True, depth + 1, m2)
        if h in ("HashMap", "HashSet", "BTreeMap", "BTreeSet") and i == 0:
            if name in TABLE_OPS:
                if len(call["a"]) > 1 and self.lossless(call["a"][1], elems):
                    return ops.append(("table", pl, "table", call))
                return ops.append(("bad", pl, f"{name} under a key which is not the element's own", call))
            if name == "extend":
                return ops.append(("bad", pl, "extended in the order of a hash table", call))
        if h in ("Vec", "VecDeque") and name in ("push", "push_back", "extend", "append", "push_front") and i == 0:
            if self.bag(t):
                return ops.append(("bag", pl, "adds an error", call))
            if self.sorted_first(b, pl[0], call) and not pl[1]:
                return ops.append(("bag", pl, "adds to a list sorted afterwards", call))
            return ops.append(("bad", pl, f"{name}: the list has the order of a hash table", call))
        if name == "emit" and i == 0:
            return ops.append(("bag", pl, "emits", call))
        if name in ("index_mut",) and len(call["a"]) == 2 and self.lossless(call["a"][1], elems):
            return ops.append(("table", pl, "its own index", call))
        ops.append(("bad", pl, f"{name} changes {pl[0].split('#')[0]} in the order of a hash table", call))


def roots(ctx):
    p = ctx.p
    out = []
    for b in p.bodies.values():
        if b["kind"] == "Closure":
            continue
        ret = p.types[b["ret"]]["s"] if b.get("ret") is not None else ""
        self_h = short(p.head(b["self"])) if b.get("self") is not None else ""
        if self_h == "BeancountSources" and b["name"] in ("from", "try_from"):
            out.append(b["id"])
        if self_h == "BeancountParser" and b.get("reach"):
            out.append(b["id"])
    return out


def run(ctx):
    p = ctx.p
    f = Flow(ctx)
    rs = roots(ctx)
    ctx.ob("roots", len(rs) >= 4, f"functions making sources or parsing: {[p.bodies[x]['path'] for x in rs]}")
    # Display and Debug make text only
    text = {b["id"] for b in p.bodies.values() if b["name"] == "fmt" and short(b.get("trait") or "") in ("Display", "Debug")}
    seen, todo = set(rs), list(rs)
    while todo:
        for t in f.g.edges.get(todo.pop(), ()):
            if t not in seen and t not in text:
                seen.add(t)
                todo.append(t)
    f.again = True
    while f.again:
        f.again = False
        f.bad, f.n, f.done = [], 0, set()
        for i in sorted(seen):
            f.body(p.bodies[i])
    bad = {}
    for o, at, why in f.bad:
        bad.setdefault(o, []).append((at, why))
    for i in sorted(seen):
        b = p.bodies[i]
        ctx.analysed.add(b["path"])
        o = f.g.owner(i)["path"].split("::", 1)[-1]
        if o not in bad:
            ctx.ob("order/none", True, "", ctx.at(b))
        for at, why in bad.pop(o, []):
            ctx.ob(f"order/{o}", False, why, at)
    for o, xs in bad.items():
        for at, why in xs:
            ctx.ob(f"order/{o}", False, why, at)
    ctx.ob("iterations", f.n >= 5, f"{f.n} iterations over hash tables found")
    for i in sorted(seen):
        for fn, n in f.g.ext.get(i, ()):
            if re.match(r"std::(thread|sync::mpsc)::", fn["path"]):
                ctx.ob(f"schedule/{fn['path']}", False, "the outcome may depend on a schedule", f"{f.g.owner(i)['path']} ({loc(n)})")
