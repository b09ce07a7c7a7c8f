"""Load the MIR facts written by driver/driver.rs and link the crates."""
import glob
import json
import os
import sys
from collections import defaultdict

sys.setrecursionlimit(100000)


class Ty:
    __slots__ = ("s", "d", "unit")

    def __init__(self, d, unit):
        self.s = d["s"]
        self.d = d
        self.unit = unit

    @property
    def k(self):
        return self.d["k"]

    def __getitem__(self, n):
        return self.d[n]

    @property
    def to(self):
        return self.unit.types[self.d["to"]]

    @property
    def adt(self):
        return self.d.get("adt")

    def args(self):
        return [self.unit.types[i] for i in self.d.get("args", [])]

    def peel(self):
        t = self
        while t.k in ("ref", "ptr"):
            t = t.to
        return t

    def subtypes(self):
        k = self.k
        u = self.unit.types
        if k in ("ref", "ptr"):
            return [u[self.d["to"]]]
        if k in ("slice", "array"):
            return [u[self.d["of"]]]
        if k == "tuple":
            return [u[i] for i in self.d["of"]]
        if k in ("adt", "fndef"):
            return self.args()
        if k == "closure":
            return [u[i] for i in self.d["upvars"]]
        return []

    def __repr__(self):
        return self.s


class Unit:
    """one compiled crate (lib or bin)"""

    def __init__(self, d):
        self.crate = d["crate"]
        self.bin = "Executable" in d["crate_types"]
        self.files = d["files"]
        self.types = [Ty(t, self) for t in d["types"]]
        self.d = d


class Callee:
    """a resolved (or not) static callee"""
    __slots__ = ("key", "path", "name", "crate", "trait", "res", "d", "unit")

    def __init__(self, d, unit):
        self.d = d
        self.unit = unit
        self.key = d["key"]
        self.path = d["path"]
        self.name = d["name"]
        self.crate = d["crate"]
        self.trait = d.get("trait")
        self.res = d.get("res")

    @property
    def rkey(self):
        return self.res["key"] if self.res else self.key

    @property
    def rpath(self):
        return self.res["path"] if self.res else self.path

    @property
    def kind(self):
        return self.res["kind"] if self.res else None

    def args(self):
        return [self.unit.types[i] for i in self.d["args"]]

    def impl_self(self):
        i = self.d.get("impl_self")
        return None if i is None else self.unit.types[i]


class Fn:
    def __init__(self, d, unit, ext=False):
        self.d = d
        self.unit = unit
        self.ext = ext
        self.key = d["key"]
        self.path = d["path"]
        self.name = d["name"]
        self.crate = d["crate"]
        self.kind = d["kind"]
        self.file = d["file"]
        self.line = d["line"]
        self.argc = d["argc"]
        self.blocks = d["blocks"]
        self.impl_trait = d.get("impl_trait")
        self.derived = d.get("derived", False)
        self.root = d.get("root")
        self.parent = d.get("parent")
        self._succ = None

    def local_ty(self, l):
        return self.unit.types[self.d["locals"][l][0]]

    def local_name(self, l):
        x = self.d["locals"][l]
        return x[1] if len(x) > 1 else None

    def ty(self, i):
        return self.unit.types[i]

    def nlocals(self):
        return len(self.d["locals"])

    def impl_self(self):
        i = self.d.get("impl_self")
        return None if i is None else self.unit.types[i]

    def place_ty(self, place):
        """type of a place, or None when unknown (index of a generic...)"""
        l, proj = place
        t = self.local_ty(l)
        for e in proj:
            if e == "*":
                if t is None:
                    return None
                if t.k in ("ref", "ptr"):
                    t = t.to
                elif t.k == "adt":  # Box
                    a = t.args()
                    t = a[0] if a else None
                else:
                    return None
            elif e[0] == "f":
                t = self.unit.types[e[2]]
            elif e[0] in ("i", "ci"):
                if t is not None and t.k in ("array", "slice"):
                    t = t.unit.types[t["of"]]
                else:
                    t = None
            elif e[0] == "v":
                pass
            # subslice keeps type (roughly)
        return t

    def op_ty(self, op):
        if op[0] == "k":
            return self.unit.types[op[1][0]]
        return self.place_ty(op[1])

    def callee(self, term):
        f = term["f"]
        if f[0] == "k" and f[1][1][0] == "fn":
            return Callee(f[1][1][1], self.unit)
        return None

    def calls(self, cleanup=False):
        """yield (block index, terminator, Callee|None)"""
        for i, b in enumerate(self.blocks):
            if b["c"] and not cleanup:
                continue
            t = b["t"]
            if t["k"] in ("call", "tailcall"):
                yield i, t, self.callee(t)

    def succs(self, i, unwind=False):
        t = self.blocks[i]["t"]
        k = t["k"]
        r = []
        if k == "goto":
            r = [t["t"]]
        elif k == "switch":
            r = [b for _, b in t["vals"]] + [t["else"]]
        elif k in ("drop", "assert", "call"):
            if t.get("t") is not None:
                r = [t["t"]]
        if unwind and t.get("u") is not None:
            r = r + [t["u"]]
        return r

    def loc(self, line=None):
        return "%s:%s" % (self.file, line if line else self.line)

    def __repr__(self):
        return "<Fn %s>" % self.path


class Facts:
    def __init__(self, dirname):
        self.units = []
        self.fns = {}
        self.ext = {}
        self.adts = {}
        self.adt_unit = {}
        self.consts = {}
        self.const_unit = {}
        self.statics = []
        self.impls = []
        files = sorted(glob.glob(os.path.join(dirname, "*.json")))
        raw = []
        for f in files:
            with open(f) as fh:
                raw.append(json.load(fh))
        # a deterministic order, whatever the pids were
        raw.sort(key=lambda d: (d["crate"], str(d["crate_types"])))
        for d in raw:
            u = Unit(d)
            self.units.append(u)
            for k, a in d["adts"].items():
                if k not in self.adts:
                    self.adts[k] = a
                    self.adt_unit[k] = u
            for c in d["consts"]:
                self.consts[c["path"]] = c
                self.const_unit[c["path"]] = u
            for s in d["statics"]:
                s["unit"] = u
                self.statics.append(s)
            for im in d["impls"]:
                self.impls.append((u, im))
            for f in d["fns"]:
                fn = Fn(f, u)
                self.fns[fn.key] = fn
        for d, u in zip(raw, self.units):
            for f in d["ext"]:
                if f["key"] not in self.fns and f["key"] not in self.ext:
                    self.ext[f["key"]] = Fn(f, u, ext=True)
        self.by_path = defaultdict(list)
        for f in self.fns.values():
            self.by_path[f.path].append(f)
        # trait method key -> [(impl fn key, self type)]
        self.trait_impls = defaultdict(list)
        for u, im in self.impls:
            for name, key, tkey in im["methods"]:
                if tkey:
                    self.trait_impls[tkey].append((key, u.types[im["self"]], im["trait"]))
        self._succ = None

    # ---- lookups
    def body(self, key):
        return self.fns.get(key) or self.ext.get(key)

    def fn(self, path):
        l = self.by_path.get(path)
        return l[0] if l else None

    def adt_by_path(self, path):
        for k, a in self.adts.items():
            if a["path"] == path:
                return k, a
        return None, None

    def crate_fns(self, crate):
        return [f for f in self.fns.values() if f.crate == crate]

    def adt_path(self, ty):
        if ty is None or ty.k != "adt":
            return None
        return self.adts[ty.adt]["path"]

    def closures_of(self, key):
        return [f for f in self.fns.values() if f.root == key]

    def contains_type(self, ty, pred, _seen=None, depth=0):
        """does a value of type `ty` (transitively, through fields) contain a
        type satisfying `pred`?  References are NOT followed."""
        if ty is None:
            return False
        if pred(ty):
            return True
        if _seen is None:
            _seen = set()
        if ty.s in _seen or depth > 20:
            return False
        _seen.add(ty.s)
        if ty.k in ("ref", "ptr", "fndef", "fnptr", "dyn", "param"):
            return False
        for s in ty.subtypes():
            if self.contains_type(s, pred, _seen, depth + 1):
                return True
        if ty.k == "adt":
            a = self.adts[ty.adt]
            u = self.adt_unit[ty.adt]
            if a["crate"] in ("core", "alloc", "std"):
                return False
            for v in a["variants"]:
                for f in v["fields"]:
                    if self.contains_type(u.types[f["ty"]], pred, _seen, depth + 1):
                        return True
        return False
