"""From a text to its syntax tree, for texts known by the kinds of their tokens.

Lengths and offsets are sums of token lengths, each of which stands for any
positive number ("#z" terms); slices of the text are known by the tokens they
cover.  The grammar is replaced by calls of the parser's own interface, so what
is followed is how tokens and nodes travel from the lexer to the tree."""
import re

from .interp import freeze_env
from .lex_model import IT, OPEN, LexModel, find_lexer
from .parser_model import KIND, Anchor
from .seqs import isa

TXT = "#txt"
PARSER = "parser::parser::Parser"
EVENT = "parser::event::Event"


def size(vec, const=0):
    if not any(vec):
        return const
    return "#z" + ".".join(str(c) for c in vec) + "+%d" % const


class TreeModel(LexModel):
    max_part = 4000

    def __init__(self, F, kinds, script):
        super().__init__(F, 1)
        self.key, a = F.adt_by_path(KIND)
        self.names = [v["name"] for v in a["variants"]]
        self.kinds = kinds          # of the raw tokens, EOF not included
        self.n = len(kinds)
        self.script = script
        self.lexers = {f.key for f in find_lexer(F)}
        if not self.lexers:
            raise Anchor("the function that finds a token")
        self.faults = {}
        self.forks = False
        self.used = set()
        self.sinks = {}
        for f in F.fns.values():
            if f.impl_trait == "parser::TreeSink":
                self.sinks.setdefault((F.adt_path(f.impl_self()), f.name), []).append(f)

    # ------------------------------------------------- ghost state: what the tree has been given
    def gjoin(self, a, b):
        if a == b:
            return a
        raise Anchor("one history per state")

    def gkey(self, g):
        return g

    def wrong(self, fn, line, what, ctx, key=None):
        self.faults.setdefault((fn.path, key or what), (fn, line, what, ctx))

    def kind(self, i):
        return ("adt", self.key, self.names.index(self.kinds[i] if i < self.n else "EOF"), ())

    # ------------------------------------------------- sizes
    def vec(self, v):
        """-> (coefficients, constant)"""
        if isinstance(v, bool) or isinstance(v, int):
            return (0,) * self.n, v
        m = re.match(r"#z([-\d.]+)\+(-?\d+)$", v) if isinstance(v, str) else None
        if m is None:
            return None
        return tuple(int(x) for x in m.group(1).split(".")), int(m.group(2))

    def prefix(self, v):
        """the number of whole tokens in front of an offset"""
        x = self.vec(v)
        if x is None or x[1] != 0:
            return None
        k = sum(x[0])
        return k if x[0] == (1,) * k + (0,) * (self.n - k) else None

    def offset(self, k):
        return size((1,) * k + (0,) * (self.n - k))

    def length(self, i):
        return size(tuple(int(j == i) for j in range(self.n)))

    def add(self, a, b, sign=1):
        x, y = self.vec(a), self.vec(b)
        if x is None or y is None:
            return None
        return size(tuple(p + sign * q for p, q in zip(x[0], y[0])), x[1] + sign * y[1])

    def total(self, a, b):
        return self.add(a, b)

    def narrowed(self, en, v, ty, fn):
        if v.startswith("#z") and ty is not None and ty.k == "int" and ty["bits"] < 32:
            self.wrong(fn, None, "a token's length is cut to %d bits" % ty["bits"], None)
        return v

    def less(self, a, b, strict):
        """-> 1, 0 or None"""
        d = self.vec(self.add(b, a, -1))
        if d is None:
            return None
        lo = d[1] + sum(d[0]) if all(c >= 0 for c in d[0]) else None        # every length is at least 1
        hi = d[1] + sum(d[0]) if all(c <= 0 for c in d[0]) else None
        if lo is not None and lo >= int(strict):
            return 1
        if hi is not None and hi < int(strict):
            return 0
        self.forks = True           # depends on how long a token is
        return None

    def binop(self, en, op, a, b):
        z = lambda v: isinstance(v, str) and v.startswith("#z")
        if not (z(a) or z(b)):
            return None
        over = op.endswith("WithOverflow")
        op = op.replace("WithOverflow", "").replace("Unchecked", "")
        if op in ("Add", "Sub"):
            r = self.add(a, b, 1 if op == "Add" else -1)
            if r is None:
                return None
            return ("tup", (r, 0)) if over else r
        if self.vec(a) is None or self.vec(b) is None:
            return None
        if op in ("Lt", "Le"):
            return self.less(a, b, op == "Lt")
        if op in ("Gt", "Ge"):
            return self.less(b, a, op == "Gt")
        if op in ("Eq", "Ne"):
            if a == b:
                return int(op == "Eq")
            if self.less(a, b, True) or self.less(b, a, True):
                return int(op == "Ne")
        return None

    # ------------------------------------------------- calls
    def at_ptr(self, p, v, i, mut=True):
        if p is not None:
            return ("ptr", p[1], p[2] + (("i", i),), mut)
        return ("sref", v[1][i])

    def flat(self, it):
        """the items left of an iterator over a list that can be taken from its end -> (val or ref, items, stages) or None"""
        w = it[1]
        by, x = w[2][1]
        items, stages = x[1][w[3]:w[4]], w[6][1]
        kinds = [s[1][0] for s in stages]
        if kinds[:1] == ["enumerate"]:
            items = tuple(("tup", (w[5] + i, y if by == "val" else ("sref", y))) for i, y in enumerate(items))
            by, stages, kinds = "val", stages[1:], kinds[1:]
        if any(k in ("enumerate", "take_while", "map_while") for k in kinds):
            return None
        return by, items, ("tup", tuple(stages))

    def text_call(self, en, ctx, g, fn, callee, args, term):
        n, rp = callee.name, callee.rpath
        if callee.rkey in self.lexers:
            x = self.value(en, args[0])
            k = x[1][1] if isa(x, TXT) and x[1][2] == OPEN else None
            if k is None:
                raise Anchor("the text of which a token is taken")
            self.used.add("lexer")
            return [(("tup", (self.kind(k), self.length(k) if k < self.n else 0)), g)]
        if "GreenNodeBuilder" in rp:
            return self.build(en, ctx, g, fn, n, args, term)
        if rp.endswith("grammar::root") or n == "root" and callee.crate == "parser" and len(args) == 1:
            self.used.add("grammar")
            return self.grammar(en, ctx, g, fn, args[0], term)
        if callee.trait == "parser::TreeSink" and callee.kind == "virtual":
            p, v = self.target(en, args)
            a = self.F.adts[v[1]]["path"] if isinstance(v, tuple) and v[0] == "adt" and v[1] in self.F.adts else None
            b = self.sinks.get((a, n))
            if not b:
                b = [f for (path, name), fs in self.sinks.items() if name == n for f in fs]     # the value's type is not known
                if len(b) != 1:
                    raise Anchor("the implementation of TreeSink::%s" % n)
            self.used.add("sink")
            return [(r, g2, e2) for r, g2, e2 in en.invoke(en.env, g, b[0], args, ctx, fn, en.bi, term)]
        if n == "new_uninit" and "Box" in rp:
            env = dict(en.env)
            c = ("b", fn.key, en.bi)
            env[c] = ("tup", (None, ("tup", (None,))))
            return [(("tup", (("ptr", c, (), True),)), g, env)]
        if n == "box_assume_init_into_vec_unsafe":
            x = args[0]
            if isinstance(x, tuple) and x[0] == "tup" and isinstance(x[1][0], tuple) and x[1][0][0] == "ptr":
                x = en.proj(en.env.get(x[1][0][1]), x[1][0][2])
                y = x[1][1][1][0] if isinstance(x, tuple) and x[0] == "tup" and isinstance(x[1][1], tuple) else None
                if isinstance(y, tuple) and y[0] == "arr":
                    return [(y, g)]
            return [(None, g)]
        t = fn.place_ty(term["dst"]) if term.get("dst") is not None else None
        if n in ("new", "with_capacity", "default") and t is not None and self.F.adt_path(t) == "alloc::vec::Vec" and \
                (not args or n == "with_capacity"):
            return [(("arr", ()), g)]
        if callee.crate == "text_size" or "text_size::" in rp or t is not None and "TextSize" in t.s and n in ("from", "into", "try_from", "sum", "default"):
            r = self.size_call(en, ctx, g, fn, callee, n, args, term)
            if r is not None:
                return r
        if not args:
            return None
        x = self.value(en, args[0])
        if t is not None and self.F.adt_path(t) == "alloc::vec::Vec" and n in ("from", "into", "to_vec", "into_vec", "from_iter", "collect") \
                and isinstance(x, tuple) and x[0] == "arr":
            return [(x, g)]
        if isa(x, TXT):
            return self.slice_call(en, ctx, g, fn, callee, n, args, term, x[1][1], x[1][2])
        p, v = self.target(en, args)
        if isinstance(v, tuple) and v[0] == "arr":
            r = self.vec_call(en, ctx, g, fn, callee, n, args, term, p, v)
            if r is not None:
                return r
        if isa(v, IT) and v[1][1] == "arr" and n in ("take", "skip") and len(args) == 2 and not v[1][6][1] and isinstance(args[1], int):
            w = v[1]
            a, b = (w[3], min(w[4], w[3] + args[1])) if n == "take" else (min(w[4], w[3] + args[1]), w[4])
            return [(("tup", w[:3] + (a, b) + w[5:]), g)]
        if isa(v, IT) and v[1][1] == "arr" and n in ("rev", "next_back", "rposition", "rfind"):
            flat = self.flat(v)
            if flat is not None:
                by, items, stages = flat
                mk = lambda b, xs: ("tup", (IT, "arr", ("tup", (b, ("arr", xs))), 0, len(xs), 0, stages, 0))
                if n == "rev":
                    return [(mk(by, items[::-1]), g)]
                if n == "next_back" and p is not None and not stages[1]:
                    one = None if not items else items[-1] if by == "val" else ("sref", items[-1])
                    return [(self.none() if one is None else self.some(one), g, self.put(en, p, mk(by, items[:-1])) if items else en.env)]
                if n in ("rposition", "rfind") and p is not None and len(args) == 2:
                    r = self.iter_call(en, ctx, g, fn, callee, n[1:], args, term, p, mk(by, items[::-1]))
                    if r is not None and n == "rfind":
                        return r
                    if r is not None and all(isinstance(x[0], tuple) and x[0][0] == "adt" for x in r):
                        return [(x[0] if not x[0][3] else self.some(len(items) - 1 - x[0][3][0]),) + tuple(x[1:]) for x in r]
        if isinstance(v, tuple) and v[0] == "adt" and "ops::range::Range" in self.F.adts.get(v[1], {"path": ""})["path"] and n == "rev" \
                and len(v[3]) == 2 and all(isinstance(i, int) for i in v[3]):
            items = tuple(range(v[3][0], v[3][1]))[::-1]
            return [(("tup", (IT, "arr", ("tup", ("val", ("arr", items))), 0, len(items), 0, ("tup", ()), 0)), g)]
        if n in ("eq", "ne") and len(args) == 2:
            x1, y1 = self.plain(en, args[0], en.env), self.plain(en, args[1], en.env)
            if self.definite(x1) and self.definite(y1):
                return [(int((x1 == y1) == (n == "eq")), g)]
        if isinstance(x, tuple) and x[0] == "adt" and x[1] == self.key and n in ("from", "into") and t is not None and t.s == "u16":
            return [(x, g)]
        if n in ("clone", "cloned", "copied") and isinstance(x, tuple) and x[0] == "adt" and not isa(v, IT):
            return [(self.copied(en, x), g)] if n == "clone" else None
        return super().text_call(en, ctx, g, fn, callee, args, term)

    def definite(self, v):
        """a value that is equal to another only if it is the same"""
        if isinstance(v, tuple) and v[0] == "adt":
            return v[2] is not None and all(self.definite(x) for x in v[3])
        return isinstance(v, int)

    def copied(self, en, x):
        return x

    def size_call(self, en, ctx, g, fn, callee, n, args, term):
        vals = [self.value(en, a) for a in args]
        ok = lambda v: self.vec(v) is not None
        if n == "default" and not args:
            return [(0, g)]
        if n == "of" and len(args) == 1 and isa(vals[0], TXT):
            x = vals[0][1]
            return [(self.add(self.offset(x[2] if x[2] != OPEN else self.n), self.offset(x[1]), -1), g)]
        if n in ("from", "into", "new", "try_from", "unwrap") and len(args) == 1 and ok(vals[0]):
            return [(vals[0] if n != "try_from" else self.ok(vals[0]), g)]
        if n in ("add", "sub", "checked_add", "checked_sub") and len(args) == 2 and ok(vals[0]) and ok(vals[1]):
            r = self.add(vals[0], vals[1], 1 if n.endswith("add") else -1)
            return [(self.some(r) if n.startswith("checked") else r, g)]
        if n in ("add_assign", "sub_assign") and len(args) == 2:
            p, v = self.target(en, args)
            if p is not None and ok(v) and ok(vals[1]):
                return [(("tup", ()), g, self.put(en, p, self.add(v, vals[1], 1 if n == "add_assign" else -1)))]
        if n in ("lt", "le", "gt", "ge", "eq", "ne") and len(args) == 2 and ok(vals[0]) and ok(vals[1]):
            op = n.capitalize()
            r = self.binop(en, op, vals[0], vals[1]) if isinstance(vals[0], str) or isinstance(vals[1], str) else \
                int({"lt": vals[0] < vals[1], "le": vals[0] <= vals[1], "gt": vals[0] > vals[1], "ge": vals[0] >= vals[1],
                     "eq": vals[0] == vals[1], "ne": vals[0] != vals[1]}[n])
            return [(r, g)] if r is not None else [(0, g), (1, g)]
        if n in ("at", "new", "up_to", "empty") and "TextRange" in callee.rpath and all(ok(v) for v in vals):
            a, b = {"at": lambda: (vals[0], self.add(vals[0], vals[1])), "new": lambda: (vals[0], vals[1]),
                    "up_to": lambda: (0, vals[0]), "empty": lambda: (vals[0], vals[0])}[n]()
            return [(("tup", ("#tr", a, b)), g)]
        if isa(vals[0], "#tr") if vals else False:
            if n in ("start", "end"):
                return [(vals[0][1][1 if n == "start" else 2], g)]
            if n == "len":
                return [(self.add(vals[0][1][2], vals[0][1][1], -1), g)]
        if n == "index" and len(args) == 2 and isa(vals[0], TXT) and isa(vals[1], "#tr"):
            return self.cut(en, ctx, g, fn, term, vals[0][1][1], vals[0][1][2], vals[1][1][1], vals[1][1][2])
        if n == "sum" and args:
            return None
        return None

    def cut(self, en, ctx, g, fn, term, a, b, lo, hi):
        """a slice of the slice (a, b)"""
        base = self.offset(a)
        i = self.prefix(self.add(base, lo)) if self.vec(lo) is not None else None
        j = OPEN if hi == OPEN else self.prefix(self.add(base, hi)) if self.vec(hi) is not None else None
        end = self.n if b == OPEN else b
        if self.vec(lo) is None or j is None and self.vec(hi) is None:
            raise Anchor("the offsets of a token")
        if i is None or j is None or i > end or j != OPEN and (j > end or j < i):
            self.wrong(fn, term["line"], "takes a piece of the text that is not made of whole tokens in order", ctx)
            return []
        return [(("sref", ("tup", (TXT, i, b if j == OPEN else j))), g)]

    def slice_call(self, en, ctx, g, fn, callee, n, args, term, a, b):
        if n in ("index", "get") and len(args) > 1:
            r = self.value(en, args[1])
            if isa(r, "#tr"):
                lo, hi = r[1][1:]
            else:
                if not isinstance(r, tuple) or r[0] != "adt":
                    return None
                path = self.F.adts[r[1]]["path"] if r[1] in self.F.adts else ""
                f = r[3]
                lo, hi = (f[0], OPEN) if path.endswith("RangeFrom") else (0, f[0]) if path.endswith("RangeTo") else \
                    (0, OPEN) if path.endswith("RangeFull") else (f[0], f[1]) if path.endswith("Range") else (None, None)
                if lo is None:
                    return None
            res = self.cut(en, ctx, g, fn, term, a, b, lo, hi)
            return [(v if n == "index" else self.some(v), g2) for v, g2 in res]
        end = self.n if b == OPEN else b
        if n == "len":
            return [(self.add(self.offset(end), self.offset(a), -1), g)]
        if n == "is_empty":
            return [(int(a == end), g)]
        if n in ("as_ref", "deref", "borrow", "clone", "as_str"):
            return [(args[0], g)]
        if n == "split_at" and len(args) == 2:
            lo = self.cut(en, ctx, g, fn, term, a, b, 0, self.value(en, args[1]))
            hi = self.cut(en, ctx, g, fn, term, a, b, self.value(en, args[1]), OPEN)
            return [(("tup", (lo[0][0], hi[0][0])), g)] if lo and hi else []
        return None

    def vec_call(self, en, ctx, g, fn, callee, n, args, term, p, v):
        items = v[1]
        put = lambda xs: self.put(en, p, ("arr", tuple(xs)))
        arg = lambda i: en.deref_all(args[i], en.env) if not isinstance(args[i], int) else args[i]
        if n == "len":
            return [(len(items), g)]
        if n == "is_empty":
            return [(int(not items), g)]
        if n in ("deref", "deref_mut", "as_slice", "as_mut_slice", "as_ref", "as_mut", "borrow"):
            return [(args[0], g)]
        if n in ("clone", "to_vec", "to_owned", "into_boxed_slice", "into_vec"):
            return [(self.plain(en, v, en.env), g)]
        if n == "push" and p is not None:
            return [(("tup", ()), g, put(items + (args[1],)))]
        if n in ("pop",) and p is not None:
            return [(self.some(items[-1]), g, put(items[:-1]))] if items else [(self.none(), g)]
        if n in ("last", "first", "last_mut", "first_mut"):
            if not items:
                return [(self.none(), g)]
            return [(self.some(self.at_ptr(p, v, len(items) - 1 if n.startswith("last") else 0)), g)]
        if n in ("index", "index_mut", "get", "get_mut") and len(args) == 2:
            i = arg(1)
            if isinstance(i, int):
                ok = 0 <= i < len(items)
                if n.startswith("get"):
                    return [(self.some(self.at_ptr(p, v, i)) if ok else self.none(), g)]
                if not ok:
                    self.wrong(fn, term["line"], "reads beyond the end of a list", ctx)
                    return []
                return [(self.at_ptr(p, v, i), g)]
            if isinstance(i, tuple) and i[0] == "adt" and n in ("index", "get"):
                path = self.F.adts[i[1]]["path"] if i[1] in self.F.adts else ""
                f = [en.as_int(y) for y in i[3]]
                lo, hi = (f[0], len(items)) if path.endswith("RangeFrom") else (0, f[0]) if path.endswith("RangeTo") else \
                    (0, len(items)) if path.endswith("RangeFull") else (f[0], f[1]) if path.endswith("::Range") else \
                    (f[0], None if f[1] is None else f[1] + 1) if path.endswith("RangeInclusive") else (None, None)
                if lo is None or hi is None:
                    return None
                if lo > hi or hi > len(items):
                    if n == "get":
                        return [(self.none(), g)]
                    self.wrong(fn, term["line"], "reads beyond the end of a list", ctx)
                    return []
                s = ("sref", ("arr", items[lo:hi]))
                return [(s if n == "index" else self.some(s), g)]
        if n in ("iter", "into_iter", "drain") and (n != "drain" or p is not None):
            by = "ref" if n == "iter" or n == "into_iter" and isinstance(args[0], tuple) and args[0][0] in ("ptr", "sref") else "val"
            it = ("tup", (IT, "arr", ("tup", (by, v)), 0, len(items), 0, ("tup", ()), 0))
            return [(it, g, put(())) if n == "drain" else (it, g)]
        if n in ("clear", "truncate") and p is not None:
            k = arg(1) if n == "truncate" else 0
            return [(("tup", ()), g, put(items[:k]))] if isinstance(k, int) else None
        if n in ("reserve", "shrink_to_fit"):
            return [(("tup", ()), g)]
        if n == "swap_remove" and p is not None and isinstance(arg(1), int) and arg(1) < len(items):
            i = arg(1)
            rest = items[:i] + (items[-1],) + items[i + 1:-1] if i < len(items) - 1 else items[:-1]
            return [(items[i], g, put(rest))]
        if n == "remove" and p is not None and isinstance(arg(1), int) and arg(1) < len(items):
            return [(items[arg(1)], g, put(items[:arg(1)] + items[arg(1) + 1:]))]
        if n == "extend" and p is not None:
            w = self.value(en, args[1])
            if isinstance(w, tuple) and w[0] == "arr":
                return [(("tup", ()), g, put(items + w[1]))]
        if n == "reverse" and p is not None:
            return [(("tup", ()), g, put(items[::-1]))]
        return None

    # ------------------------------------------------- the tree builder
    def build(self, en, ctx, g, fn, n, args, term):
        vals = [self.value(en, a) for a in args[1:]]

        def kind(v):
            while isinstance(v, tuple) and v[0] == "adt" and v[1] != self.key and len(v[3]) == 1:
                v = v[3][0]
            if isinstance(v, tuple) and v[0] == "adt" and v[1] == self.key:
                return self.names[v[2]]
            if isinstance(v, int) and v < len(self.names):
                return self.names[v]
            raise Anchor("the kind of a node or token")
        if n in ("new", "default", "with_cache"):
            return [(None, g)]
        if n == "token":
            t = vals[1] if len(vals) > 1 else None
            if not isa(t, TXT):
                raise Anchor("the text of a token")
            self.used.add("token")
            return [(None, g + (("tok", kind(vals[0]), t[1][1], t[1][2] if t[1][2] != OPEN else self.n),))]
        if n == "start_node":
            return [(None, g + (("start", kind(vals[0])),))]
        if n == "finish_node":
            return [(None, g + (("finish",),))]
        if n == "finish":
            return [("#green", g + (("end",),))]
        if n in ("checkpoint", "start_node_at"):
            raise Anchor("the tree's checkpoints")
        return None

    # ------------------------------------------------- a grammar
    def method(self, path, name):
        fs = [f for f in self.F.crate_fns("parser") if f.name == name and self.F.adt_path(f.impl_self()) == path]
        if len(fs) != 1:
            raise Anchor("%s::%s" % (path, name))
        return fs[0]

    def grammar(self, en, ctx, g, fn, p, term):
        call = lambda g, env, path, name, args: en.invoke(env, g, self.method(path, name), args, ctx, fn, en.bi, term)
        MARK, DONE = "parser::marker::Marker", "parser::marker::CompletedMarker"
        K = lambda k: ("adt", self.key, self.names.index(k), ())
        states = [(g, en.env, ())]
        for op in self.script:
            nxt = []
            for g1, env, names in states:
                d = dict(names)
                if op[0] == "start":
                    outs = [(g2, e2, dict(d, **{op[1]: r})) for r, g2, e2 in call(g1, env, PARSER, "start", [p])]
                elif op[0] == "complete":
                    outs = [(g2, e2, dict(d, **{op[1]: r})) for r, g2, e2 in call(g1, env, MARK, "complete", [d[op[1]], p, K(op[2])])]
                elif op[0] == "abandon":
                    outs = [(g2, e2, d) for r, g2, e2 in call(g1, env, MARK, "abandon", [d[op[1]], p])]
                elif op[0] == "precede":
                    outs = [(g2, e2, dict(d, **{op[1]: r})) for r, g2, e2 in call(g1, env, DONE, "precede", [d[op[2]], p])]
                elif op[0] == "undo":
                    outs = [(g2, e2, dict(d, **{op[1]: r})) for r, g2, e2 in call(g1, env, DONE, "undo_completion", [d[op[2]], p])]
                elif op[0] == "bump":
                    outs = [(g2, e2, d) for r, g2, e2 in call(g1, env, PARSER, "bump_any", [p])]
                elif op[0] == "remap":
                    outs = [(g2, e2, d) for r, g2, e2 in call(g1, env, PARSER, "bump_remap", [p, K(op[1])])]
                elif op[0] == "error":
                    outs = [(g2, e2, d) for r, g2, e2 in call(g1, env, PARSER, "error", [p, "#msg"])]
                elif op[0] == "nth":
                    outs = []
                    for r, g2, e2 in call(g1, env, PARSER, "nth", [p, op[1]]):
                        if not (isinstance(r, tuple) and r[0] == "adt" and r[1] == self.key and r[2] is not None):
                            raise Anchor("the kind that comes next")
                        if r != K(op[2]):
                            self.wrong(self.method(PARSER, "nth"), 0, "looking ahead by %d finds %s where %s comes next" % (
                                op[1], self.names[r[2]], op[2]), ctx,
                                "looking ahead")
                        outs.append((g2, e2, d))
                elif op[0] == "text":
                    outs = []
                    for r, g2, e2 in call(g1, env, PARSER, "current_text", [p]):
                        x = self.plain(en, r, e2)
                        if not isa(x, TXT):
                            raise Anchor("the text of the current token")
                        if x[1][1:] != (op[1], op[1] + 1):
                            self.wrong(self.method(PARSER, "current_text"), 0, "is not the text of the current token", ctx)
                        outs.append((g2, e2, d))
                nxt += [(a, b, tuple(sorted(c.items()))) for a, b, c in outs]
            seen, states = set(), []
            for s in nxt:
                k = (s[0], freeze_env(s[1]), s[2])
                if k not in seen:
                    seen.add(k)
                    states.append(s)
        return [(("tup", ()), g1, env) for g1, env, _ in states]
