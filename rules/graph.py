"""Program-wide facts over the type-checked program: expressions, references to functions, call graph."""
from common import *


def exprs(x):
    """Every node below x."""
    stack = [x]
    while stack:
        n = stack.pop()
        if isinstance(n, dict):
            if "k" in n:
                yield n
            stack.extend(v for v in n.values() if isinstance(v, (dict, list)))
        elif isinstance(n, list):
            stack.extend(v for v in n if isinstance(v, (dict, list)))


def derived(b):
    """Is the body generated by a derive?"""
    return "Macro(Derive" in (b.get("expn") or "")


class Graph:
    """Calls and uses of functions between the crate's bodies."""

    def __init__(self, p):
        self.p = p
        self.edges = {}  # id -> {target id: node}
        self.ext = {}  # id -> [(fn dict, node)] uses of functions outside the crate
        self.rev = {}
        for b in p.bodies.values():
            self.scan(b)
        for a, ts in self.edges.items():
            for t in ts:
                self.rev.setdefault(t, set()).add(a)

    def scan(self, b):
        e = self.edges.setdefault(b["id"], {})
        x = self.ext.setdefault(b["id"], [])
        for n in exprs(b["body"]):
            if n["k"] == "Closure":
                if n["id"] in self.p.bodies:
                    e.setdefault(n["id"], n)
            fn = n.get("fn")
            if n["k"] in ("Call", "Fn", "Const") and fn:
                ts = self.targets(fn)
                for t in ts:
                    e.setdefault(t, n)
                if not ts:
                    x.append((fn, n))
                    for t in self.indirect(fn):
                        e.setdefault(t, n)

    def targets(self, fn):
        r = fn.get("res")
        if r and r.get("local"):
            return [r["id"]] if r["id"] in self.p.bodies else []
        if r:
            return []
        if fn["local"] and fn["id"] in self.p.bodies:
            return [fn["id"]]
        if fn.get("trait"):
            # a method of a type parameter: any implementation in the crate
            k = (short(fn["trait"]), short(fn["path"]))
            bs = self.p.trait_bodies.get(k, ())
            st = self.p.types[fn["targs"][0]]["s"] if fn.get("targs") else ""
            if fn["local"] or re.match(r"^[A-Z][A-Za-z0-9]?$", st) or st.startswith("impl "):
                return [b["id"] for b in bs]
        return []

    CALLBACK = {
        "to_string": ("Display", "fmt"),
        "new_display": ("Display", "fmt"),
        "new_debug": ("Debug", "fmt"),
        "into": ("From", "from"),
        "try_into": ("TryFrom", "try_from"),
        "parse": ("FromStr", "from_str"),
        "collect": ("Iterator", "next"),
        "clone": ("Clone", "clone"),
        "unwrap_or_default": ("Default", "default"),
        "eq": ("PartialEq", "eq"),
        "fmt": ("Display", "fmt"),
    }

    def indirect(self, fn):
        """Implementations in the crate which a function outside it calls for its type arguments."""
        k = self.CALLBACK.get(short(fn["path"]))
        if not k:
            return []
        ta = fn.get("targs") or ()
        if k[0] in ("From", "TryFrom") and len(ta) >= 2 and fn.get("trait"):
            # the implementation for these two types
            p = self.p
            bs = [b for b in p.trait_bodies.get(k, ()) if len(b.get("trait_args") or ()) == 2]
            bs = [b for b in bs if p.unify(b["trait_args"][0], ta[1]) and p.unify(b["trait_args"][1], ta[0])]
            same = [b for b in bs if p.types[b["trait_args"][1]]["h"] == p.types[ta[0]]["h"]]
            return [b["id"] for b in same or bs]
        heads = set()
        for t in list(fn.get("targs") or ()) + list((fn.get("res") or {}).get("targs") or ()):
            self.heads(t, heads)
        return [b["id"] for b in self.p.trait_bodies.get(k, ()) if b.get("self") is not None and self.p.head(b["self"]) in heads]

    def heads(self, t, out, depth=0):
        h = self.p.types[t]
        out.add(h["h"])
        if depth < 6:
            for a in h["a"] or ():
                self.heads(a, out, depth + 1)

    def callers(self, i):
        return self.rev.get(i, set())

    def reach(self, roots):
        seen = set(roots)
        todo = list(roots)
        while todo:
            for t in self.edges.get(todo.pop(), ()):
                if t not in seen:
                    seen.add(t)
                    todo.append(t)
        return seen

    def owner(self, i):
        """The function a closure is written in."""
        b = self.p.bodies[i]
        while b["kind"] == "Closure" and b.get("parent") in self.p.bodies:
            b = self.p.bodies[b["parent"]]
        return b

    def path(self, roots, target):
        """A chain of calls from one of the roots."""
        prev = {r: None for r in roots}
        todo = list(roots)
        while todo:
            x = todo.pop(0)
            if x == target:
                out = []
                while x is not None:
                    out.append(x)
                    x = prev[x]
                return out[::-1]
            for t in self.edges.get(x, ()):
                if t not in prev:
                    prev[t] = x
                    todo.append(t)
        return []

    def sccs(self, nodes=None):
        """Strongly connected components with a cycle."""
        import sys

        idx, low, on, st, out = {}, {}, set(), [], []
        n = [0]
        nodes = set(nodes if nodes is not None else self.edges)
        for root in nodes:
            if root in idx:
                continue
            work = [(root, iter(sorted(t for t in self.edges.get(root, ()) if t in nodes)))]
            idx[root] = low[root] = n[0]
            n[0] += 1
            st.append(root)
            on.add(root)
            while work:
                v, it = work[-1]
                adv = False
                for t in it:
                    if t not in idx:
                        idx[t] = low[t] = n[0]
                        n[0] += 1
                        st.append(t)
                        on.add(t)
                        work.append((t, iter(sorted(u for u in self.edges.get(t, ()) if u in nodes))))
                        adv = True
                        break
                    elif t in on:
                        low[v] = min(low[v], idx[t])
                if adv:
                    continue
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    c = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.append(w)
                        if w == v:
                            break
                    if len(c) > 1 or v in self.edges.get(v, ()):
                        out.append(sorted(c))
        return out


def graph(ctx):
    if not hasattr(ctx.p, "_graph"):
        ctx.p._graph = Graph(ctx.p)
    return ctx.p._graph


def loc(n):
    return n.get("s", "") if isinstance(n, dict) else ""
