"""Termination of the loops that the grammar interpretation does not cover: each
must be driven by a finite std iterator, or move a position/counter forward on
every iteration."""
from ..interp import BodyInfo
from ..parser_model import finite_loop, sccs

ADD = ("Add", "AddWithOverflow", "AddUnchecked", "Sub", "SubWithOverflow", "SubUnchecked", "Shr")
ADD_CALLS = ("add_assign", "sub_assign")
SHRINK = ("pop", "pop_front", "pop_back", "next", "next_back", "split_off", "remove", "strip_prefix", "split_at",
          "advance", "parent", "recv", "drain")


class Advance:
    """which functions move some position forward on every path"""

    def __init__(self, F):
        self.F = F
        self.memo = {}

    def carried(self, fn, dst, live):
        """does the value assigned to place `dst` outlive the iteration?"""
        if live is None:
            return True
        work, seen = [dst], set()
        while work:
            p = work.pop()
            if "*" in p[1] or p[0] in live:
                return True
            if p[0] in seen:
                continue
            seen.add(p[0])
            for b in fn.blocks:
                if b["c"]:
                    continue
                for s in b["s"]:
                    if s[0] == "=" and s[2][0] in ("use", "cast", "agg"):
                        ops = s[2][2] if s[2][0] == "agg" else [s[2][1 if s[2][0] == "use" else 2]]
                        if any(o[0] != "k" and o[1][0] == p[0] for o in ops):
                            work.append(s[1])
                t = b["t"]
                if t["k"] == "call" and any(o[0] != "k" and o[1][0] == p[0] for o in t["args"]):
                    work.append(t["dst"])
        return False

    def blocks(self, fn, live=None):
        """blocks that certainly advance something that outlives the block"""
        res = set()
        for i, b in enumerate(fn.blocks):
            if b["c"]:
                continue
            for s in b["s"]:
                if s[0] == "=" and s[2][0] == "bin" and s[2][1] in ADD:
                    # adding a constant zero is no progress
                    o = s[2][3]
                    if not (o[0] == "k" and o[1][1][:2] == ["int", 0]) and self.carried(fn, s[1], live):
                        res.add(i)
            t = b["t"]
            if t["k"] == "call":
                c = fn.callee(t)
                if c is None:
                    continue
                if c.name in ADD_CALLS or (c.name in SHRINK and c.rpath.split("::")[0].strip("<") in
                                           ("core", "alloc", "std", "rowan", "<core", "<alloc", "<std")):
                    res.add(i)
                elif self.advances(c.rkey):
                    res.add(i)
        return res

    def advances(self, key):
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = False
        f = self.F.fns.get(key)
        if f is None:
            return False
        adv = self.blocks(f)
        # a path from entry to a return avoiding every advancing block?
        ok = 0 in adv
        if not ok:
            ok = True
            seen, w = {0}, [0]
            while w:
                i = w.pop()
                if f.blocks[i]["t"]["k"] == "ret":
                    ok = False
                    break
                for s in f.succs(i):
                    if s not in seen and s not in adv and not f.blocks[s]["c"]:
                        seen.add(s)
                        w.append(s)
        self.memo[key] = ok
        return ok


def cycle_avoiding(fn, h, body, adv):
    """a path h -> h inside the loop that avoids the advancing blocks"""
    if h in adv:
        return False
    seen, w = set(), [h]
    while w:
        i = w.pop()
        for s in fn.succs(i):
            if s == h:
                return True
            if s in body and s not in adv and s not in seen:
                seen.add(s)
                w.append(s)
    return False


def has_exit(fn, body):
    for i in body:
        if fn.blocks[i]["t"]["k"] == "ret":
            return True
        for s in fn.succs(i):
            if s not in body and not fn.blocks[s]["c"]:
                return True
    return False


def check(F, R, keys, G):
    A = Advance(F)
    n = it = 0
    fns = [F.fns[k] for k in keys if k in F.fns and not F.fns[k].derived]
    for f in sorted(fns, key=lambda f: f.path):
        info = BodyInfo(f)
        for o, h in enumerate(sorted(info.heads)):
            body = info.loop_body(h)
            n += 1
            if finite_loop(None, f, body, h, info):
                it += 1
                continue
            adv = A.blocks(f, info.live[h])
            line = f.blocks[h]["t"]["line"]
            if cycle_avoiding(f, h, body, adv):
                R.violation("loop|%s|%d" % (f.path, o), f.loc(line),
                            "an iteration of this loop in %s may leave every position where it was" % f.path)
            elif not has_exit(f, body):
                R.violation("loop-exit|%s|%d" % (f.path, o), f.loc(line), "this loop in %s has no exit" % f.path)
    # recursion
    ks = {f.key for f in fns}
    graph = {}
    for f in fns:
        adv = A.blocks(f)
        # blocks reachable from the entry without advancing
        seen, w = {0}, [0]
        while w:
            i = w.pop()
            if i in adv:
                continue
            for s in f.succs(i):
                if s not in seen:
                    seen.add(s)
                    w.append(s)
        out = set()
        for i, t, c in f.calls():
            if i in seen and c is not None and c.rkey in ks:
                if i not in adv or A.advances(c.rkey):
                    out.add(c.rkey)
        graph[f.key] = out
    for comp in sccs(graph):
        if len(comp) > 1 or comp[0] in graph.get(comp[0], ()):
            names = sorted(F.fns[k].path for k in comp)
            R.violation("recursion|" + ",".join(names), F.fns[comp[0]].loc(),
                        "recursion that moves no position forward: " + " -> ".join(names))
    R.count("other functions reachable from SourceFile::parse", len(fns))
    R.count("other loops", n)
    R.count("of them driven by a finite std iterator", it)
