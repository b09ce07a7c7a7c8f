"""Terms and collections for EventModel.

A value that the rule does not care about structurally is a term: a string
starting with "#".  Pure calls of unknown functions build larger terms, so two
equal terms are the same value.

A collection is abstracted to one tracked element and any number of others:
    ("tup", ("#seq", T, O))         T: the tracked element or ABS, O: any other
    ("tup", ("#map", T, O, K))      T: the value under the tracked key K
    ("tup", ("#it", phase, lossy, T, O, stages))
An iterator yields others any number of times, the tracked element once, and
others again; `lossy` adaptors (take, skip, ...) may leave the tracked one out."""
from .events import EventModel

ABS = "-absent"
DUP = "#twice"
EMPTY = ("tup", ("#seq", ABS, ABS))

TRANSPARENT = frozenset("""clone into from as_ref as_mut as_deref as_deref_mut deref deref_mut borrow borrow_mut to_owned to_vec
into_bytes as_str as_bytes as_slice as_path to_path_buf unwrap expect cloned copied into_boxed_str into_boxed_slice as_mut_slice
unwrap_unchecked into_owned into_string into_inner from_utf8 from_utf8_unchecked from_utf8_lossy try_into try_from ok ok_or
ok_or_else map_err new_unchecked branch from_output to_string make_mut as_mut_vec as_mut_str
as_mut_string leak read write lock get_ref get_mut as_path_buf""".split())

COLL = ("alloc::vec::Vec", "std::collections::hash::set::HashSet", "alloc::collections::btree::set::BTreeSet",
        "alloc::collections::vec_deque::VecDeque", "indexmap::set::IndexSet", "smallvec::SmallVec")
MAPS = ("std::collections::hash::map::HashMap", "alloc::collections::btree::map::BTreeMap", "indexmap::map::IndexMap")
BOXES = ("sync::Arc", "arc::Arc", "rc::Rc", "boxed::Box", "RwLock", "Mutex", "RefCell")
ITER = "core::iter::traits::iterator::Iterator"
SAME = ("into_iter", "iter", "iter_mut", "drain", "cloned", "copied", "fuse", "peekable", "rev", "by_ref", "into_values", "as_slice",
        "as_mut_slice", "deref", "deref_mut", "as_ref", "as_mut", "borrow", "clone", "to_vec", "to_owned", "into_boxed_slice", "into_vec",
        "into", "from", "sorted", "as_deref", "from_iter", "flatten_ok", "into_par_iter")
LOSSY = ("take", "skip", "step_by", "take_while", "skip_while", "map_while", "dedup", "unique", "zip")


def F_str(v):
    return isinstance(v, tuple) and len(v) == 2 and v[0] == "s" and isinstance(v[1], str)


def seq(T=ABS, O=ABS):
    return ("tup", ("#seq", T, O))


def mapv(T=ABS, O=ABS, K="#key"):
    return ("tup", ("#map", T, O, K))


def isa(v, tag):
    return isinstance(v, tuple) and v[0] == "tup" and v[1] and v[1][0] == tag


def joinv(a, b):
    """a value that stands for both"""
    if a == b:
        return a
    if a == ABS:
        return b
    if b == ABS:
        return a
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0]:
        if a[0] == "adt" and a[1:3] == b[1:3] and len(a[3]) == len(b[3]):
            return a[:3] + (tuple(joinv(x, y) for x, y in zip(a[3], b[3])),)
        if a[0] in ("tup", "arr") and len(a[1]) == len(b[1]) and not (a[1] and isinstance(a[1][0], str) and a[1][0].startswith("#")
                                                                        and a[1][0] in ("#seq", "#map", "#it", "#entry")):
            return (a[0], tuple(joinv(x, y) for x, y in zip(a[1], b[1])))
    return None


class SymModel(EventModel):
    symbolic = True
    transparent = TRANSPARENT
    tokens = ()            # what makes an element the tracked one
    closures_known = True
    enough = None          # `take` of this many elements leaves nothing out

    # ------------------------------------------------- values
    def mentions(self, en, v, env, depth=0):
        if isinstance(v, str):
            return v == DUP or any(t in v for t in self.tokens)
        if not isinstance(v, tuple) or depth > 8:
            return False
        if v[0] == "ptr":
            return self.mentions(en, en.proj(env.get(v[1]), v[2]), env, depth + 1)
        if v[0] == "sref":
            return self.mentions(en, v[1], env, depth + 1)
        if v[0] in ("adt", "cl"):
            return any(self.mentions(en, x, env, depth + 1) for x in v[-1])
        if v[0] in ("tup", "arr"):
            return any(self.mentions(en, x, env, depth + 1) for x in v[1])
        return False

    def plain(self, en, v, env, depth=0):
        """follow pointers everywhere: the value, not where it is stored"""
        if not isinstance(v, tuple) or depth > 8:
            return v
        if v[0] == "ptr":
            return self.plain(en, en.proj(env.get(v[1]), v[2]), env, depth + 1)
        if v[0] == "sref":
            return self.plain(en, v[1], env, depth + 1)
        if v[0] in ("adt", "cl"):
            return v[:-1] + (tuple(self.plain(en, x, env, depth + 1) for x in v[-1]),)
        if v[0] in ("tup", "arr"):
            return (v[0], tuple(self.plain(en, x, env, depth + 1) for x in v[1]))
        return v

    def unknown(self, en, ctx, g, fn, callee, key, args, term):
        self.fns.add(fn.key)
        r = self.effect(en, ctx, g, fn, callee, args, term)
        if r is not None:
            return r
        return [(en.pure_term(fn, callee, args, en.env, term), g)]

    def effect(self, en, ctx, g, fn, callee, args, term):
        """a rule's view of the calls that nothing else explains"""
        return None

    # ------------------------------------------------- calls
    def call(self, en, ctx, g, fn, callee, key, args, term):
        r = super().call(en, ctx, g, fn, callee, key, args, term)
        if r is None and callee is not None:
            r = self.library(en, ctx, g, fn, callee, args, term)
        return r

    def target(self, en, args, i=0):
        """-> (pointer, value) of a collection passed by reference or by value"""
        v = args[i] if i < len(args) else None
        p = None
        n = 0
        while isinstance(v, tuple) and v[0] in ("ptr", "sref") and n < 6:
            if v[0] == "ptr":
                p = v
                v = en.proj(en.env.get(v[1]), v[2])
            else:
                p, v = None, v[1]
            n += 1
        return p, v

    def put(self, en, p, v):
        if p is None:
            return en.env
        e = dict(en.env)
        en.store(e, p[1], p[2], v)
        return e

    def add(self, en, T, O, v, env):
        if self.mentions(en, v, env):
            v = self.plain(en, v, env)
            return (v if T == ABS else (T if T == v else DUP)), O
        v = self.plain(en, v, env)
        return T, joinv(O, v)

    def library(self, en, ctx, g, fn, callee, args, term):
        n = callee.name
        if not args:
            if n in ("new", "default", "with_capacity", "with_hasher"):
                return self.empty(callee, fn, term, g)
            return None
        if n in ("default", "with_capacity", "with_hasher", "with_capacity_and_hasher") and callee.impl_self() is not None:
            return self.empty(callee, fn, term, g)
        if n in ("new", "from", "pin") and any(x in callee.rpath for x in BOXES) and len(args) == 1:
            return [(args[0], g)]
        p, v = self.target(en, args)
        if len(args) == 1 and n in ("to_string", "to_owned", "into", "from", "clone", "as_str", "into_owned") \
                and F_str(v):
            return [(v, g)]
        if n in ("into_iter", "iter", "iter_mut") and isinstance(v, tuple) and v[0] == "adt" and v[1] == self.opt:
            if not v[3]:
                return [(self.it(ABS, ABS), g)]
            x = v[3][0]
            return [(self.it(x, ABS) if self.mentions(en, x, en.env) else self.it(ABS, x), g)]
        if n == "unwrap_or_default" and isinstance(v, tuple) and v[0] == "adt":
            if v[3]:
                return [(v[3][0], g)]
            return [(self.default_of(fn.place_ty(term["dst"])), g)]
        if isinstance(v, tuple) and any(x in callee.rpath for x in BOXES + ("Mutex", "RwLock")) and len(args) == 1:
            if n in ("deref", "deref_mut", "as_ref", "as_mut", "borrow", "borrow_mut", "make_mut", "get_mut"):
                return [(args[0], g)]
            if n in ("clone", "into_inner", "unwrap_or_clone"):
                return [(self.plain(en, v, en.env), g)]
        if isinstance(v, str) and n in ("clone", "to_owned", "cloned", "copied"):
            return [(v, g)]
        if isa(v, "#seq"):
            return self.seq_call(en, ctx, g, fn, callee, args, term, p, v)
        if isa(v, "#map"):
            return self.map_call(en, ctx, g, fn, callee, args, term, p, v)
        if isa(v, "#it"):
            return self.it_call(en, ctx, g, fn, callee, args, term, p, v)
        if isinstance(v, tuple) and v[0] == "adt" and len(v[3]) == 1 and isa(v[3][0], "#entry"):
            v = v[3][0]
        if isa(v, "#entry"):
            return self.entry_call(en, ctx, g, fn, callee, args, term, v)
        return None

    def default_of(self, t, depth=0):
        """the Default value of a type, where it is a collection or a string"""
        p = self.F.adt_path(t) if t is not None else None
        if t is not None and t.k == "ref" and t.peel().k == "slice" or p in COLL:
            return EMPTY
        if p in MAPS:
            return mapv()
        if p is not None and p.endswith("string::String"):
            return ("s", "")
        if p is not None and any(p.endswith(x) for x in BOXES) and depth < 3:
            a = [x for x in t.args() if x.k != "region"]
            return self.default_of(a[0], depth + 1) if a else None
        if p is not None and p.endswith("option::Option"):
            return self.none()
        return {"bool": 0, "usize": 0, "u32": 0, "i32": 0, "u64": 0, "i64": 0, "&str": ("s", "")}.get(t.s) if t is not None else None

    def empty(self, callee, fn, term, g):
        v = self.default_of(fn.place_ty(term["dst"]))
        return None if v is None else [(v, g)]

    # sequences
    def seq_call(self, en, ctx, g, fn, callee, args, term, p, v):
        n = callee.name
        _, T, O = v[1]
        if n in ("take", "replace") and callee.crate == "core" and p is not None and "Option" not in callee.path:
            return [(v, g, self.put(en, p, EMPTY if n == "take" else args[1]))]
        if n in ("push", "push_back", "insert", "push_front") and p is not None:
            T2, O2 = self.add(en, T, O, args[-1], en.env)
            if T == T2 and T != ABS and "set::" in callee.rpath:
                pass
            elif T != ABS and "set::" in callee.rpath and T2 == DUP:
                T2 = T
            r = None if "set::" in callee.rpath else ("tup", ())
            return [(r, g, self.put(en, p, seq(T2, O2)))]
        if n in ("extend", "append", "extend_from_slice") and p is not None and len(args) > 1:
            q, w = self.target(en, args, 1)
            res = []
            for (T3, O3, g2, e2) in self.drained(en, ctx, g, fn, term, w):
                T2 = T if T3 == ABS else (T3 if T == ABS else (T if "set::" in callee.rpath else DUP))
                O2 = joinv(O, O3)
                en.env = e2
                e = self.put(en, p, seq(T2, O2))
                if n == "append" and q is not None:
                    en.env = e
                    e = self.put(en, q, EMPTY)
                res.append((("tup", ()), g2, e))
            return res or None
        if n == "clear" and p is not None:
            return [(("tup", ()), g, self.put(en, p, EMPTY))]
        if n == "drain" and p is not None:
            full = len(args) < 2 or any("RangeFull" in x.s for x in callee.args())
            return [(self.it(T, O, 0 if full else 1), g, self.put(en, p, EMPTY if full else None))]
        if n in ("iter", "into_iter", "iter_mut", "into_par_iter", "values", "keys"):
            return [(self.it(T, O), g)]
        if n in ("is_empty",):
            if T != ABS:
                return [(0, g)]
            if O == ABS:
                return [(1, g)]
            return [(1, g), (0, g)]
        if n == "contains" and len(args) > 1:
            if self.mentions(en, args[1], en.env):
                return [(int(T != ABS), g)]
            return [(1, g), (0, g)]
        if n in ("remove", "take") and "set::" in callee.rpath and p is not None and self.mentions(en, args[1], en.env):
            return [(int(T != ABS) if n == "remove" else None, g, self.put(en, p, seq(ABS, O)))]
        if n in ("first", "last", "pop", "first_mut", "last_mut") and False:
            return None
        if n in SAME:
            return [(args[0] if n in ("deref", "deref_mut", "as_ref", "as_mut", "borrow", "as_slice", "as_mut_slice") else v, g)]
        if callee.trait == ITER or n in ("sort", "sort_by", "sort_by_key", "sort_unstable", "reserve", "shrink_to_fit"):
            if n.startswith("sort") or n in ("reserve", "shrink_to_fit"):
                return [(("tup", ()), g)]
        return None

    def peeled(self, en, v):
        return self.plain(en, v, en.env) if v != ABS else v

    def it(self, T, O, lossy=0):
        return ("tup", ("#it", 0, lossy, T, O, ("tup", ())))

    # maps
    def map_call(self, en, ctx, g, fn, callee, args, term, p, v):
        n = callee.name
        _, T, O, K = v[1]
        if n in ("take", "replace") and callee.crate == "core" and p is not None and "Option" not in callee.path:
            return [(v, g, self.put(en, p, mapv(K=K) if n == "take" else args[1]))]
        if n == "is_empty":
            return [(0, g)] if T != ABS else [(1, g), (0, g)]
        if n == "clear" and p is not None:
            return [(("tup", ()), g, self.put(en, p, mapv(K=K)))]
        if n in ("iter", "into_iter", "iter_mut", "drain"):
            kT = ("tup", (K, T if p is None or T == ABS else ("ptr", p[1], p[2] + (1,), p[3]))) if T != ABS else ABS
            e = self.put(en, p, mapv(K=K)) if n == "drain" else en.env
            if n == "drain":
                kT = ("tup", (K, T)) if T != ABS else ABS
            return [(self.it(kT, None if O == ABS else ("tup", (None, O))), g, e)]
        if n in ("keys", "into_keys"):
            return [(self.it(K if T != ABS else ABS, None), g)]
        if n in ("values", "values_mut", "into_values"):
            return [(self.it(T, O), g)]
        if len(args) < 2:
            if n in SAME:
                return [(args[0] if n in ("deref", "deref_mut", "as_ref", "as_mut", "borrow") else v, g)]
            return None
        mine = self.mentions(en, args[1], en.env)
        if n == "insert" and p is not None:
            val = self.plain(en, args[2], en.env)
            if mine:
                k = en.term(args[1], en.env) or K
                return [(self.some(T) if T != ABS else self.none(), g, self.put(en, p, mapv(val, O, k)))]
            return [(x, g, self.put(en, p, mapv(T, joinv(O, val), K))) for x in (self.some(), self.none())]
        if n in ("get", "get_mut", "index", "index_mut"):
            if not mine:
                if n in ("index", "index_mut"):
                    return [(None, g)]
                return [(self.some(O if O != ABS else None), g), (self.none(), g)]
            if T == ABS:
                return [(self.none(), g)] if n.startswith("get") else []
            q = ("ptr", p[1], p[2] + (1,), n.endswith("mut")) if p is not None else ("sref", T)
            return [(self.some(q) if n.startswith("get") else q, g)]
        if n in ("contains_key",):
            return [(int(T != ABS), g)] if mine else [(1, g), (0, g)]
        if n in ("remove", "remove_entry", "swap_remove", "shift_remove") and p is not None:
            if mine:
                r = self.some(T if n == "remove" else ("tup", (K, T))) if T != ABS else self.none()
                return [(r, g, self.put(en, p, mapv(ABS, O, K)))]
            return [(self.some(), g), (self.none(), g)]
        if n == "entry" and p is not None:
            e = ("tup", ("#entry", p, en.term(args[1], en.env) or "?", int(mine)))
            t = fn.place_ty(term["dst"])
            a = self.F.adts.get(t.adt) if t.k == "adt" else None
            if a is None or sorted(x["name"] for x in a["variants"]) != ["Occupied", "Vacant"]:
                return [(e, g)]
            names = [x["name"] for x in a["variants"]]
            which = (["Occupied"] if T != ABS else ["Vacant"]) if mine else names
            return [(("adt", t.adt, names.index(w), (e,)), g) for w in which]
        return None

    def entry_call(self, en, ctx, g, fn, callee, args, term, v):
        n = callee.name
        _, p, k, mine = v[1]
        m = en.proj(en.env.get(p[1]), p[2])
        if not isa(m, "#map"):
            return None
        _, T, O, K = m[1]
        if n in ("key", "into_key"):
            return [(k, g)]
        if not mine:
            if n in ("or_default", "or_insert", "or_insert_with", "or_insert_with_key", "get", "get_mut", "into_mut", "insert", "remove"):
                if n in ("insert", "or_insert"):
                    val = self.plain(en, args[1], en.env)
                    return [(None, g, self.put(en, p, mapv(T, joinv(O, val), K)))]
                return [(None, g)]
            return None
        here = ("ptr", p[1], p[2] + (1,), True)
        vacant = "VacantEntry" in callee.rpath
        if n == "or_default":
            d = self.default_of(fn.place_ty(term["dst"]).peel())
            return [(here, g, en.env if T != ABS else self.put(en, p, mapv(d, O, k)))]
        if n == "or_insert":
            return [(here, g, en.env if T != ABS else self.put(en, p, mapv(self.plain(en, args[1], en.env), O, k)))]
        if n in ("or_insert_with", "or_insert_with_key"):
            if T != ABS:
                return [(here, g)]
            res = []
            for r, g2, e2 in self.once(en, g, args[1], [] if n == "or_insert_with" else [k], ctx, fn, term) or [(None, g, en.env)]:
                en.env = e2
                res.append((here, g2, self.put(en, p, mapv(r, O, k))))
            return res
        if n == "and_modify":
            if T == ABS:
                return [(args[0], g)]
            return [(args[0], g2, e2) for _, g2, e2 in
                    self.once(en, g, args[1], [here], ctx, fn, term) or [(None, g, self.put(en, p, mapv(None, O, K)))]]
        if n in ("insert", "insert_entry"):
            r = here if vacant else (T if "OccupiedEntry" in callee.rpath else None)
            return [(r, g, self.put(en, p, mapv(self.plain(en, args[1], en.env), O, k)))]
        if n in ("get", "get_mut", "into_mut") and T != ABS:
            return [(here, g)]
        if n in ("remove", "remove_entry") and T != ABS:
            return [(T if n == "remove" else ("tup", (K, T)), g, self.put(en, p, mapv(ABS, O, K)))]
        return None

    # iterators
    def staged(self, en, ctx, g, fn, term, e, stages, env):
        """-> [(value or DROP, g, env)] of a raw element"""
        states = [(e, g, env)]
        for st in stages:
            kind, f = st[1]
            nxt = []
            for v, g1, e1 in states:
                if kind == "enumerate":
                    nxt.append((("tup", ("#index" if self.mentions(en, v, e1) else "#other-index", v)), g1, e1))
                    continue
                en.env = e1
                arg = v
                if kind in ("filter", "inspect"):
                    arg = v if isinstance(v, tuple) and v[0] in ("ptr", "sref") and False else ("sref", self.plain(en, v, e1) if not self.has_ptr(v) else v)
                outs = self.once(en, g1, f, [arg], ctx, fn, term)
                if outs is None:
                    outs = [(None, g1, e1)]
                for r, g2, e2 in outs:
                    if kind == "map":
                        nxt.append((r, g2, e2))
                    elif kind == "inspect":
                        nxt.append((v, g2, e2))
                    elif kind == "filter":
                        nxt += [(v if x else "-drop", g3, e2) for x, g3 in self.decide(en, g2, r)]
                    elif kind in ("filter_map", "flat_map"):
                        nxt += self.payload(r, g2, e2)
            done = [x for x in nxt if x[0] == "-drop"]
            states = [x for x in nxt if x[0] != "-drop"]
            if done:
                states_after = self.staged_rest(en, ctx, fn, term, states, stages, stages.index(st) + 1)
                return done + states_after
        return states

    def staged_rest(self, en, ctx, fn, term, states, stages, i):
        res = []
        for v, g, e in states:
            res += self.staged(en, ctx, g, fn, term, v, stages[i:], e)
        return res

    def payload(self, r, g, e):
        if isinstance(r, tuple) and r[0] == "adt" and r[1] == self.opt:
            if not r[3]:
                return [("-drop", g, e)]
            return [(r[3][0], g, e)]
        return [(r, g, e), ("-drop", g, e)]

    def has_ptr(self, v):
        if not isinstance(v, tuple):
            return False
        if v[0] == "ptr":
            return True
        if v[0] in ("adt", "cl"):
            return any(self.has_ptr(x) for x in v[-1])
        if v[0] in ("tup", "arr"):
            return any(self.has_ptr(x) for x in v[1])
        return v[0] == "sref" and self.has_ptr(v[1])

    def it_call(self, en, ctx, g, fn, callee, args, term, p, v):
        n = callee.name
        _, phase, lossy, T, O, stages = v[1]
        st = stages[1]

        def mk(phase=phase, lossy=lossy, T=T, O=O, st=st):
            return ("tup", ("#it", phase, lossy, T, O, ("tup", st)))
        if n in ("next", "next_back") and p is not None:
            res = []
            here = en.env
            def yielded(raw, ph):
                for r, g2, e2 in self.staged(en, ctx, g, fn, term, raw, st, here):
                    en.env = e2
                    if r == "-drop":
                        if raw is T and not phase & 1 and ph & 1:
                            # the tracked one was filtered out: what may follow it
                            res.append((self.none(), g2, self.put(en, p, mk(phase=ph))))
                            if O != ABS:
                                yielded(O, 3)
                        continue
                    res.append((self.some(r), g2, self.put(en, p, mk(phase=ph))))
            if O != ABS:
                yielded(O, phase | 2)
            if not phase & 1 and T != ABS:
                yielded(T, phase | 1)
            if phase & 1 or T == ABS or lossy:
                g1 = g
                if not phase & 2 and O != ABS and isinstance(O, str):
                    g1 = self.alone(g, O)
                res.append((self.none(), g1, here))
            return res
        if n in ("enumerate",):
            return [(mk(st=st + (("tup", ("enumerate", None)),)), g)]
        if n in ("map", "filter", "filter_map", "inspect"):
            if en.callable(args[1], en.env) is None:
                return [(mk(st=st + (("tup", (n if n != "map" else "map", None)),)), g)]
            return [(mk(st=st + (("tup", (n, args[1])),)), g)]
        if n in ("flatten",):
            if isa(T, "#seq") or T == ABS:
                if isa(O, "#seq") or O == ABS:
                    a = T[1] if T != ABS else (0, ABS, ABS)
                    b = O[1] if O != ABS else (0, ABS, ABS)
                    if not st and b[1] == ABS:
                        return [(self.it(a[1], joinv(a[2], b[2]), lossy), g)]
            p2 = self.peeled(en, O) if T == ABS and O != ABS else None
            if isa(p2, "#seq") and p2[1][1] == ABS and not st:
                return [(self.it(ABS, p2[1][2], lossy), g)]
            p2 = self.peeled(en, T)
            if isa(p2, "#seq") and O == ABS and not st:
                return [(self.it(p2[1][1], p2[1][2], lossy), g)]
            return None
        if n in LOSSY:
            if n == "take" and len(args) > 1 and isinstance(args[1], int) and self.enough is not None and args[1] >= self.enough:
                return [(v, g)]
            if n == "zip":
                _, w = self.target(en, args, 1)
                if isa(w, "#seq"):
                    w = self.it(w[1][1], w[1][2])
                if isa(w, "#it") and not st and not w[1][5][1]:
                    # the tracked ones stand at the same position
                    T2 = ABS if ABS in (T, w[1][3]) else ("tup", (T, w[1][3]))
                    O2 = ABS if ABS in (O, w[1][4]) else ("tup", (O, w[1][4]))
                    return [(self.it(T2, O2, max(lossy, w[1][2], int(T2 == ABS and T != w[1][3]))), g)]
            return [(mk(lossy=1), g)]
        if n == "chain":
            _, w = self.target(en, args, 1)
            if isa(w, "#seq"):
                w = self.it(w[1][1], w[1][2])
            if isa(w, "#it") and not st and not w[1][5][1]:
                T2, O2 = w[1][3], w[1][4]
                return [(self.it(T2 if T == ABS else (T if T2 == ABS else DUP), joinv(O, O2),
                                 max(lossy, w[1][2])), g)]
            return None
        if n in ("collect", "from_iter", "collect_vec", "sorted", "collect_tuple"):
            return self.collected(en, ctx, g, fn, term, v)
        if n == "for_each":
            gs = self.many(en, ctx, [(g, en.env)], fn, term, O, args[1], st) if O != ABS else [(g, en.env)]
            if not phase & 1 and T != ABS:
                nxt = []
                for g1, e1 in gs:
                    for r, g2, e2 in self.staged(en, ctx, g1, fn, term, T, st, e1):
                        if r == "-drop":
                            nxt.append((g2, e2))
                            continue
                        en.env = e2
                        nxt += [(g3, e3) for _, g3, e3 in self.once(en, g2, args[1], [r], ctx, fn, term) or [(None, g2, e2)]]
                    if lossy:
                        nxt.append((g1, e1))
                gs = nxt
                if O != ABS:
                    gs = self.many(en, ctx, gs, fn, term, O, args[1], st)
            return [(("tup", ()), g1, e1) for g1, e1 in gs]
        if n in ("all", "any") and not phase & 1:
            res = []
            hit = 1 if n == "any" else 0       # the value that ends the search
            here = en.env

            def asked(x):
                """what the condition says of x: (truth value, g, env)"""
                out = []
                for r, g2, e2 in self.staged(en, ctx, g, fn, term, x, st, here):
                    if r == "-drop":
                        out.append((1 - hit, g2, e2))
                        continue
                    en.env = e2
                    for b, g3, e3 in self.once(en, g2, args[1], [r], ctx, fn, term) or [(None, g2, e2)]:
                        out += [(y, g4, e3) for y, g4 in self.decide(en, g3, b)]
                return out
            if T == ABS:
                if O != ABS and not isinstance(O, str):
                    return None
                others = asked(O) if O != ABS else []
                res = [(1 - hit, g, here)] + [o for o in others if o[0] == hit]
                return res
            res = asked(T)
            # another element may end the search
            if not isinstance(O, str) or O != ABS and any(o[0] == hit for o in asked(O)):
                res.append((hit, g, here))
            if lossy:
                res.append((1 - hit, g, here))
            return res
        if n in SAME:
            return [(args[0] if n == "by_ref" else v, g)]
        return None

    def alone(self, g, O):
        """a walk over all elements met none of the O ones"""
        return g

    def decide(self, en, g, b):
        """the truth values a condition may have, with what they imply"""
        if b in (0, 1):
            return [(b, g)]
        if not isinstance(b, str):
            return [(0, g), (1, g)]
        neg = b.startswith("!")
        res = []
        for x in (0, 1):
            g2 = self.assume(en, g, b[1:] if neg else b, 1 - x if neg else x)
            if g2 is not False:
                res.append((x, g2))
        return res

    def many(self, en, ctx, states, fn, term, O, f, st):
        """f on other elements, any number of times"""
        seen = set()
        res = []
        work = list(states)
        while work and len(seen) < 60:
            g, e = work.pop()
            k = (g, frozenset(e.items()))
            if k in seen:
                continue
            seen.add(k)
            res.append((g, e))
            for r, g2, e2 in self.staged(en, ctx, g, fn, term, O, st, e):
                if r == "-drop":
                    continue
                en.env = e2
                for _, g3, e3 in self.once(en, g2, f, [r], ctx, fn, term) or ():
                    work.append((g3, e3))
        return res

    def drained(self, en, ctx, g, fn, term, v):
        """-> [(T, O, g, env)] after running an iterator to its end"""
        if isa(v, "#seq"):
            return [(v[1][1], v[1][2], g, en.env)]
        if isa(v, "#map"):
            T, O = v[1][1], v[1][2]
            return [(("tup", (v[1][3], T)) if T != ABS else ABS, None if O == ABS else ("tup", (None, O)), g, en.env)]
        if not isa(v, "#it"):
            if isinstance(v, tuple) and v[0] == "adt" and v[1] == self.opt:
                if not v[3]:
                    return [(ABS, ABS, g, en.env)]
                T, O = self.add(en, ABS, ABS, v[3][0], en.env)
                return [(T, O, g, en.env)]
            if isinstance(v, tuple) and v[0] == "arr":
                T, O = ABS, ABS
                for x in v[1]:
                    T, O = self.add(en, T, O, x, en.env)
                return [(T, O, g, en.env)]
            return [(ABS, None, g, en.env)]
        _, phase, lossy, T, O, stages = v[1]
        st = stages[1]
        env = en.env
        outs = [(ABS, g, env)]
        if not phase & 1 and T != ABS:
            outs = []
            for r, g2, e2 in self.staged(en, ctx, g, fn, term, T, st, env):
                outs.append((ABS if r == "-drop" else self.plain(en, r, e2), g2, e2))
            if lossy:
                outs.append((ABS, g, env))
        res = []
        for t, g2, e2 in outs:
            o = ABS
            gs = {g2}
            if O != ABS:
                o = "-none"
                for r, g3, e3 in self.staged(en, ctx, g2, fn, term, O, st, e2):
                    gs.add(g3)
                    if r == "-drop":
                        continue
                    r = self.plain(en, r, e3)
                    o = r if o == "-none" else joinv(o, r)
                if o == "-none":
                    o = ABS
            for x in sorted(gs, key=repr):
                res.append((t, o, x, e2))
        return res

    def collected(self, en, ctx, g, fn, term, v):
        t = fn.place_ty(term["dst"])
        p = self.F.adt_path(t) if t is not None else None
        res = []
        for T, O, g2, e2 in self.drained(en, ctx, g, fn, term, v):
            if p in MAPS:
                if isinstance(T, tuple) and T[0] == "tup" and len(T[1]) == 2:
                    r = mapv(T[1][1], O[1][1] if isinstance(O, tuple) and O[0] == "tup" else (ABS if O == ABS else None), T[1][0])
                else:
                    r = mapv(ABS, None if O != ABS else ABS)
                res.append((r, g2, e2))
            else:
                res.append((seq(T, O), g2, e2))
        return res
