"""The type-checked program (THIR) of the crate, as dumped by driver/facts.rs."""
import json
import re


def strip_generics(p):
    out = []
    d = 0
    i = 0
    while i < len(p):
        c = p[i]
        if c == "<":
            d += 1
        elif c == ">" and p[i - 1] != "-":
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return re.sub(r"(::)+", "::", "".join(out)).strip(":")


def short(p):
    return p.rsplit("::", 1)[-1]


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.raw = d
        self.types = d["types"]
        self.bodies = {}
        for b in d["bodies"]:
            self.bodies[b["id"]] = b
        self.adts = {a["id"]: a for a in d["adts"]}
        self.impls = d["impls"]
        self.variants = {
            "core::option::Option": ["None", "Some"],
            "core::result::Result": ["Ok", "Err"],
            "core::ops::control_flow::ControlFlow": ["Continue", "Break"],
            "core::cmp::Ordering": ["Less", "Equal", "Greater"],
            "alloc::borrow::Cow": ["Borrowed", "Owned"],
        }
        for a in d["adts"]:
            if a["enum"]:
                self.variants[a["id"]] = [v["n"] for v in a["variants"]]
        self.trait_bodies = {}
        for b in d["bodies"]:
            if b.get("trait") and b["kind"] == "AssocFn":
                self.trait_bodies.setdefault((short(b["trait"]), b["name"]), []).append(b)
        self._names = {}

    # -- types
    def ty(self, i):
        return self.types[i]

    def ts(self, i):
        return self.types[i]["s"]

    def head(self, i):
        """Head of a type, through references and boxes."""
        t = self.types[i]
        while t["h"] in ("&", "&mut", "alloc::boxed::Box") and t["a"]:
            t = self.types[t["a"][0]]
        return t["h"]

    def strip_ref(self, i):
        t = self.types[i]
        while t["h"] in ("&", "&mut", "alloc::boxed::Box") and t["a"]:
            i = t["a"][0]
            t = self.types[i]
        return i

    # -- functions
    def fname(self, fn):
        """Canonical short name of a callee: Type::method, Trait::method or module::function."""
        key = (fn["path"], fn.get("trait"))
        n = self._names.get(key)
        if n is None:
            if fn.get("trait"):
                n = short(fn["trait"]) + "::" + short(fn["path"])
            else:
                p = fn["path"]
                m = re.match(r"^(.*)::<impl (.*)>::([A-Za-z0-9_]+)$", p)
                if m:
                    t = m.group(2)
                    t = re.sub(r"^for<.*?> ", "", t)
                    if t.startswith("["):
                        t = "slice"
                    else:
                        t = short(strip_generics(t.lstrip("&")))
                    n = t + "::" + m.group(3)
                else:
                    segs = strip_generics(p).split("::")
                    n = "::".join(segs[-2:])
            self._names[key] = n
        return n

    def find(self, suffix, kind=None):
        """Bodies whose generic-stripped path ends with the suffix."""
        out = []
        for b in self.bodies.values():
            if kind and b["kind"] != kind:
                continue
            p = strip_generics(b["path"]) if "<" in b["path"] else b["path"]
            if p == suffix or p.endswith("::" + suffix):
                out.append(b)
        return out

    def one(self, suffix):
        r = [b for b in self.find(suffix) if b["kind"] != "Closure"]
        if len(r) != 1:
            raise MissingAnchor(suffix, [b["path"] for b in r])
        return r[0]

    def method(self, type_name, name, trait=None):
        """The body of Type::name (inherent, or of the trait)."""
        r = []
        for b in self.bodies.values():
            if b["name"] != name or b["kind"] != "AssocFn":
                continue
            if b.get("self") is None:
                continue
            if short(self.types[b["self"]]["h"]) != type_name and self.types[b["self"]]["h"] != type_name:
                continue
            bt = b.get("trait")
            if trait is None:
                if bt is None:
                    r.append(b)
            elif bt and short(bt) == trait:
                r.append(b)
        if not r and trait is None:
            return self.method_any(type_name, name)
        if len(r) != 1:
            raise MissingAnchor(f"{type_name}::{name}", [b["path"] for b in r])
        return r[0]

    def method_any(self, type_name, name):
        r = [
            b
            for b in self.bodies.values()
            if b["name"] == name
            and b["kind"] == "AssocFn"
            and b.get("self") is not None
            and short(self.types[b["self"]]["h"]) == type_name
        ]
        if len(r) != 1:
            raise MissingAnchor(f"{type_name}::{name}", [b["path"] for b in r])
        return r[0]

    def trait_impl(self, trait, method, self_ty, arg_tys=None):
        """The local body implementing trait::method for the given type index, if any."""
        sh = self.head(self_ty)
        cands = []
        for b in self.trait_bodies.get((trait, method), ()):
            if b.get("self") is None or self.head(b["self"]) != sh:
                continue
            if arg_tys is not None:
                ta = b.get("trait_args") or []
                if ta and len(ta) == len(arg_tys) and not all(
                    self.unify(x, y) for x, y in zip(ta, arg_tys)
                ):
                    continue
            if not self.unify(b["self"], self_ty):
                continue
            cands.append(b)
        return cands[0] if len(cands) == 1 else None

    def unify(self, a, b):
        """Do two types match structurally (type parameters match anything)?"""
        ta, tb = self.types[a], self.types[b]
        if re.match(r"^[A-Z][A-Za-z0-9]?$", ta["s"]) or re.match(r"^[A-Z][A-Za-z0-9]?$", tb["s"]):
            return True
        if ta["h"] != tb["h"]:
            return False
        if not ta["a"] and not tb["a"]:
            n = lambda s: re.sub(r"'[a-z_]+ ?", "", s)
            return n(ta["s"]) == n(tb["s"]) or ta["h"] not in ("", None, "tuple")
        if len(ta["a"]) != len(tb["a"]):
            return False
        return all(self.unify(x, y) for x, y in zip(ta["a"], tb["a"]))


class MissingAnchor(Exception):
    def __init__(self, what, found=()):
        self.what = what
        self.found = list(found)
        super().__init__(f"{what}: {len(self.found)} candidates {self.found[:4]}")
