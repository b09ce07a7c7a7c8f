"""Call graph over the MIR facts: direct calls, trait dispatch, closures and
function pointers (a function that mentions another function or closure as a
value may call it)."""
from collections import defaultdict


def const_fns(c):
    """function keys mentioned in a constant value"""
    out = []

    def go(v):
        if not isinstance(v, list):
            return
        if v and v[0] == "fn":
            d = v[1]
            out.append((d["res"]["key"] if d.get("res") else d["key"], d))
            return
        if v and v[0] == "closure":
            out.append((v[1], None))
            return
        for x in v[1:]:
            if isinstance(x, list):
                if x and isinstance(x[0], list):
                    for y in x:
                        go(y)
                else:
                    go(x)
    go(c[1])
    return out


def operands(fn, cleanup=False):
    """yield (block, operand) of every statement and terminator"""
    for i, b in enumerate(fn.blocks):
        if b["c"] and not cleanup:
            continue
        for s in b["s"]:
            if s[0] == "=":
                r = s[2]
                k = r[0]
                if k in ("use", "rep"):
                    yield i, r[1]
                elif k in ("cast", "un"):
                    yield i, r[2]
                elif k == "bin":
                    yield i, r[2]
                    yield i, r[3]
                elif k == "agg":
                    for o in r[2]:
                        yield i, o
        t = b["t"]
        if t["k"] in ("call", "tailcall"):
            for a in t["args"]:
                yield i, a
        elif t["k"] == "switch":
            yield i, t["op"]


class CallGraph:
    def __init__(self, F):
        self.F = F
        self.edges = defaultdict(set)      # fn key -> fn keys with bodies
        self.ext = defaultdict(dict)       # fn key -> {external path: line}
        self.site = {}
        for f in list(F.fns.values()) + list(F.ext.values()):
            self._scan(f)

    def _add(self, f, key, line):
        if self.F.body(key) is not None:
            self.edges[f.key].add(key)
            self.site.setdefault((f.key, key), line)

    def _scan(self, f):
        F = self.F
        for i, t, c in f.calls(cleanup=True):
            if c is None:
                continue
            line = t["line"]
            if c.kind == "virtual" or c.res is None:
                for k, st, tr in F.trait_impls.get(c.key, ()):
                    self._add(f, k, line)
                self._add(f, c.key, line)
            else:
                self._add(f, c.rkey, line)
            self.ext[f.key].setdefault(c.rpath, line)
            if c.path != c.rpath:
                self.ext[f.key].setdefault(c.path, line)
        for i, o in operands(f, cleanup=True):
            if o[0] == "k":
                for k, d in const_fns(o[1]):
                    self._add(f, k, f.blocks[i]["t"]["line"])
                    if d is not None and self.F.body(k) is None:
                        self.ext[f.key].setdefault(d["res"]["path"] if d.get("res") else d["path"],
                                                   f.blocks[i]["t"]["line"])
        for b in f.blocks:
            for s in b["s"]:
                if s[0] == "=" and s[2][0] == "agg" and isinstance(s[2][1], list) and s[2][1][0] == "closure":
                    self._add(f, s[2][1][1], s[3])
            t = b["t"]
            if t["k"] == "drop":
                for k in self.drop_impls(f.ty(t["ty"])):
                    self._add(f, k, t["line"])

    def drop_impls(self, ty):
        if not hasattr(self, "_drops"):
            self._drops = {}
            for fn in self.F.fns.values():
                if fn.name == "drop" and fn.impl_trait == "core::ops::drop::Drop":
                    st = fn.impl_self()
                    if st is not None and st.adt:
                        self._drops[st.adt] = fn.key
        res = []
        if self._drops:
            self.F.contains_type(ty, lambda t: res.append(self._drops[t.adt])
                                 if t.k == "adt" and t.adt in self._drops and False else
                                 (t.k == "adt" and t.adt in self._drops and res.append(self._drops[t.adt]) and False))
        return res

    def reach(self, roots, stop=lambda f: False):
        """-> {key: (caller key, line)} of everything reachable"""
        seen = {}
        work = []
        for r in roots:
            if r not in seen:
                seen[r] = None
                work.append(r)
        while work:
            k = work.pop()
            f = self.F.body(k)
            if f is None or stop(f):
                continue
            for n in sorted(self.edges.get(k, ())):
                if n not in seen:
                    seen[n] = (k, self.site.get((k, n)))
                    work.append(n)
        return seen

    def path_to(self, seen, key):
        p = []
        while key is not None:
            f = self.F.body(key)
            e = seen[key]
            if e is None:
                p.append("%s (%s)" % (f.path, f.loc()))
                key = None
            else:
                p.append("%s (called from %s:%s)" % (f.path, self.F.body(e[0]).file, e[1]))
                key = e[0]
        return list(reversed(p))
