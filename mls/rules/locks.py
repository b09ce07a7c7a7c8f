"""Locks and snapshots: what a thread does while it holds something others wait for."""
from collections import defaultdict

from ..parser_model import Anchor
from .effects import TOOLS
from .parsing import guarded

LOCKS = ("lock_api", "parking_lot", "std")
ACQUIRE = ("read", "write", "lock", "upgradable_read", "read_recursive", "lock_arc", "read_arc", "write_arc")
SNAPSHOT = "salsa::Snapshot"
DEFER = (("threadpool", "execute"), ("std", "spawn"), ("std", "spawn_unchecked"), ("rayon", "spawn"), ("rayon_core", "spawn"))
DB_WRITES = ("set", "set_with_durability", "synthetic_write", "invalidate", "remove", "set_unchecked")
DB = "a change of the database"
WAIT = "waiting for other threads"


def deep(t, seen=None):
    """the types a type is made of, through its arguments and captured variables"""
    seen = set() if seen is None else seen
    if t is None or t.s in seen:
        return
    seen.add(t.s)
    yield t
    for s in t.subtypes():
        yield from deep(s, seen)


class Locks:
    def __init__(self, F):
        self.F = F
        self.fns = {f.key: f for f in list(F.fns.values()) if f.crate not in TOOLS}
        self._guard = {}
        self.effects = defaultdict(dict)      # fn key -> {effect: (line, via key or None)}
        self.defers = set()
        self.summarize()

    # ------------------------------------------------- types
    def guards(self, t):
        """what a value of the type keeps others waiting for"""
        if t is None:
            return frozenset()
        if t.s in self._guard:
            return self._guard[t.s]
        self._guard[t.s] = frozenset()
        out = set()

        def look(x):
            if x.k == "adt":
                p = self.F.adts[x.adt]["path"]
                if p.split("::")[0] in LOCKS and p.endswith("Guard"):
                    a = [y for y in x.args() if y.k != "region"]
                    out.add("the lock of %s" % (a[-1].s if a else "?"))
                if p == SNAPSHOT:
                    out.add("a snapshot")
            return False
        self.F.contains_type(t, look)
        self._guard[t.s] = frozenset(out)
        return self._guard[t.s]

    # ------------------------------------------------- effects
    def prim(self, f, t, c):
        """the effect of a call to an external crate"""
        if c.name in ACQUIRE and t["args"]:
            for x in deep(f.op_ty(t["args"][0]).peel() if f.op_ty(t["args"][0]) is not None else None):
                if x.k == "adt":
                    p = self.F.adts[x.adt]["path"]
                    if p.split("::")[0] in LOCKS and p.endswith(("RwLock", "Mutex", "ReentrantMutex")):
                        a = [y for y in x.args() if y.k != "region"]
                        return "the lock of %s" % a[-1].s
        if c.crate == "salsa" and c.name in DB_WRITES:
            return DB
        if c.name == "join" and ("threadpool" in c.rpath or "JoinHandle" in c.rpath or "ScopedJoinHandle" in c.rpath):
            return WAIT
        if c.crate == "crossbeam_channel" and c.name in ("recv", "recv_timeout", "select", "select_timeout"):
            return WAIT
        if "Condvar" in c.rpath and c.name.startswith("wait") or c.rpath.startswith("std::sync::mpsc") and c.name == "recv":
            return WAIT
        return None

    def targets(self, f, t, c):
        """the functions a call may run, in this thread"""
        F = self.F
        if (c.crate, c.name) in DEFER:
            return []
        res = []
        if c.kind == "virtual" or c.res is None:
            if not f.ext:
                res += [k for k, st, tr in F.trait_impls.get(c.key, ())]
            res.append(c.key)
        else:
            res.append(c.rkey)
        callee = F.body(res[-1])
        if callee is None or callee.key not in self.defers:
            tys = [f.op_ty(a) for a in t["args"]] + list(c.args())
            for ty in tys:
                for x in deep(ty):
                    if x.k == "closure":
                        res.append(x.d["def"])
                    elif x.k == "fndef" and "def" in x.d:
                        res.append(x.d["def"])
                    y = x
                    while y.k in ("ref", "ptr"):
                        y = y.to
                        if y.k == "closure":
                            res.append(y.d["def"])
        return [k for k in dict.fromkeys(res) if F.body(k) is not None]

    def drops(self, t):
        out = []
        if not hasattr(self, "_drops"):
            self._drops = {f.impl_self().adt: f.key for f in self.F.fns.values()
                           if f.name == "drop" and f.impl_trait == "core::ops::drop::Drop" and f.impl_self() is not None and f.impl_self().adt}

        def look(x):
            if x.k == "adt" and x.adt in self._drops:
                out.append(self._drops[x.adt])
            return False
        self.F.contains_type(t, look)
        return out

    def summarize(self):
        F = self.F
        bodies = list(F.fns.values()) + list(F.ext.values())
        for f in bodies:
            for _, t, c in f.calls():
                if c is not None and (c.crate, c.name) in DEFER:
                    self.defers.add(f.key)
        # a function that hands its argument to such a function
        callers = defaultdict(set)
        for f in bodies:
            for i, b in enumerate(f.blocks):
                if b["c"]:
                    continue
                t = b["t"]
                if t["k"] in ("call", "tailcall"):
                    c = f.callee(t)
                    if c is None:
                        continue
                    if f.key in self.fns:
                        e = self.prim(f, t, c)
                        if e:
                            self.effects[f.key].setdefault(e, (t["line"], None))
                    for k in self.targets(f, t, c):
                        callers[k].add((f.key, t["line"]))
                elif t["k"] == "drop":
                    for k in self.drops(f.ty(t["ty"])):
                        callers[k].add((f.key, t["line"]))
        work = sorted(k for k in self.effects)
        while work:
            k = work.pop()
            for ck, line in sorted(callers[k]):
                for e in list(self.effects[k]):
                    if e not in self.effects[ck]:
                        self.effects[ck][e] = (line, k)
                        work.append(ck)

    def why(self, key, e):
        p = []
        while key is not None and len(p) < 12:
            f = self.F.body(key)
            line, via = self.effects[key][e]
            p.append("%s (%s)" % (f.path, f.loc(line)))
            key = via
        return p

    # ------------------------------------------------- what is held
    def conflicts(self, f, i, t, live):
        """(held, effect, callee key) of a call made while `live` locals hold something"""
        c = f.callee(t) if t["k"] != "drop" else None
        effs = {}
        if t["k"] == "drop":
            for k in self.drops(f.ty(t["ty"])):
                for e in self.effects[k]:
                    effs.setdefault(e, k)
        elif c is not None:
            e = self.prim(f, t, c)
            if e:
                effs[e] = None
            for k in self.targets(f, t, c):
                for e in self.effects.get(k, ()):
                    effs.setdefault(e, k)
        moved = {a[1][0] for a in t.get("args", ()) if a[0] == "m"}
        if t["k"] == "drop":
            moved.add(t["place"][0] if "place" in t else t["p"][0])
        for l in sorted(live):
            if l in moved:
                continue
            for h in sorted(self.guards(f.local_ty(l))):
                for e, k in sorted(effs.items()):
                    if h == "a snapshot":
                        if e == DB:
                            yield h, e, k, l
                    elif e == h or e in (DB, WAIT):
                        yield h, e, k, l
                    else:
                        yield h, e, k, l

    def live(self, f):
        """block -> locals that may hold a guard when its terminator runs"""
        G = {l for l in range(f.nlocals()) if self.guards(f.local_ty(l))}
        if not G:
            return {}
        start = {l for l in G if 1 <= l <= f.argc}
        inb = {0: frozenset(start)}
        at = {}
        work = [0]
        while work:
            i = work.pop()
            s = set(inb[i])

            def moved(o):
                if o[0] == "m" and o[1][0] in s:
                    ty = f.place_ty(o[1])
                    if ty is None or self.guards(ty):
                        s.discard(o[1][0])
            for st in f.blocks[i]["s"]:
                if st[0] == "=":
                    r = st[2]
                    for o in r[1:]:
                        if isinstance(o, list) and o and o[0] == "m":
                            moved(o)
                        elif isinstance(o, list):
                            for x in o:
                                if isinstance(x, list) and x and x[0] == "m":
                                    moved(x)
                    l = st[1][0]
                    if l in G and r[0] in ("use", "agg", "cast", "rep"):
                        ty = f.place_ty(st[1])
                        if ty is None or self.guards(ty):
                            if not (r[0] == "agg" and not any(self.guards(f.op_ty(o)) for o in r[2] if o[0] != "k")):
                                s.add(l)
                elif st[0] == "dead":
                    s.discard(st[1])
            at[i] = frozenset(s)
            t = f.blocks[i]["t"]
            if t["k"] in ("call", "tailcall"):
                for a in t["args"]:
                    moved(a)
                if t.get("dst") is not None and t["dst"][0] in G:
                    ty = f.place_ty(t["dst"])
                    if ty is None or self.guards(ty):
                        s.add(t["dst"][0])
            elif t["k"] == "drop":
                p = t["place"] if "place" in t else t["p"]
                if not p[1]:
                    s.discard(p[0])
                else:
                    s.discard(p[0])
            for n in f.succs(i):
                m = inb.get(n, None)
                new = frozenset(s) | (m or frozenset())
                if m is None or new != m:
                    inb[n] = new
                    work.append(n)
        return at


@guarded
def discipline(F, R):
    R.rule("Dataflow over the MIR of every function: which locals may hold a lock guard or a database snapshot at each call and "
           "drop; effect summaries over the call graph: what a call may acquire, whether it changes the database (which waits "
           "until every snapshot is gone) or waits for other threads. Violation: acquiring any lock, changing the database or "
           "waiting while a lock is held, and changing the database while a snapshot is held by the same thread.")
    L = Locks(F)
    if not any(e.startswith("the lock of (vfs::Vfs") for m in L.effects.values() for e in m):
        raise Anchor("the lock of the virtual file system")
    if not any(DB in m for m in L.effects.values()):
        raise Anchor("the changes of the database")
    if not any(WAIT in m for m in L.effects.values()):
        raise Anchor("the places where threads wait")
    for f in sorted(L.fns.values(), key=lambda f: f.path):
        R.count("functions")
        at = L.live(f)
        if at:
            R.count("functions that hold a guard or a snapshot")
        for i in sorted(at):
            if f.blocks[i]["c"]:
                continue
            t = f.blocks[i]["t"]
            if t["k"] not in ("call", "tailcall", "drop"):
                continue
            if at[i]:
                R.count("calls and drops made while holding one")
            for h, e, k, l in L.conflicts(f, i, t, at[i]):
                R.violation("held|%s|%s|%s" % (f.path, h, e), f.loc(t["line"]), "%s: %s while %s is held" % (
                    f.path, e if e in (DB, WAIT) else "acquiring " + e, h), L.why(k, e) if k else [])
