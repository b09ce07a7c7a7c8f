"""Positions: the conversions between offsets and lines and columns."""
import itertools
import re

from ..events import WORKSPACE
from ..interp import Budget, Engine
from ..lex_model import ASCII, G0, LexModel, OPEN, WIDE, show
from ..parser_model import Anchor
from ..seqs import isa
from ..tree_model import TreeModel
from .parsing import guarded

MAP = "#dict"


class PosModel(TreeModel):
    """texts as in LexModel; lists and maps with known elements; TextSize is a number"""
    max_steps = 400000
    max_out = 20000

    def __init__(self, F, window):
        LexModel.__init__(self, F, window)
        self.kinds, self.n, self.script = (), 0, ()
        self.lexers, self.sinks, self.faults, self.used, self.forks = set(), {}, {}, set(), False
        self.key, self.names = None, []

    gjoin = LexModel.gjoin

    def gkey(self, g):
        return g

    def copied(self, en, x):
        return x

    def panic(self, en, ctx, g, fn, bi, term, what):
        if what.startswith("assert"):
            v = en.as_int(en.operand(en.env, term["cond"], fn)) if "cond" in term else None
            if v is None:
                return
        self.fault(fn, term.get("line", 0), "may panic (%s)" % what.split("::")[-1], g, ctx)

    def binop(self, en, op, a, b):
        if isinstance(a, str) and re.match(r"#(ch|by|len)", a) or isinstance(b, str) and re.match(r"#(ch|by|len)", b):
            return LexModel.binop(self, en, op, a, b)
        return super().binop(en, op, a, b)

    def list(self, v):
        return v[1] if isinstance(v, tuple) and v[0] == "arr" else None

    def text_call(self, en, ctx, g, fn, callee, args, term):
        n, rp = callee.name, callee.rpath
        t = fn.place_ty(term["dst"]) if term.get("dst") is not None else None
        tp = self.F.adt_path(t) if t is not None else None
        if n in ("default", "new", "with_capacity", "with_hasher", "with_capacity_and_hasher") and tp and tp.endswith("::HashMap"):
            return [(("tup", (MAP,)), g)]
        if n in ("default", "new", "with_capacity") and tp and tp.endswith("::BTreeMap"):
            return [(("tup", (MAP,)), g)]
        if n == "new" and tp == "lsp_types::Position" and len(args) == 2:
            return [(("adt", t["adt"], 0, tuple(self.value(en, a) for a in args)), g)]
        if args:
            p, v = self.target(en, args)
            x = self.value(en, args[0])
            if isinstance(x, str) and re.match(r"#ch\d+$", x):
                off = int(x[3:])
                if n in ("of", "len_utf8", "text_len"):
                    return [(w, g2) for g2, w in self.widths(g, off)]
                if n == "len_utf16":
                    return [(2 if w == 4 else 1, g2) for g2, w in self.widths(g, off)]
            if n in ("deref", "as_ref", "borrow", "clone") and re.search(r"::(Arc|Rc|Box)<", rp):
                return [(("sref", x), g)]
            if n in ("new", "from") and tp and re.search(r"::(Arc|Rc|Box)$", tp):
                return [(("sref", x), g)]
            if isinstance(x, int) and len(args) == 2 and n in ("lt", "le", "gt", "ge", "eq", "ne"):
                y = self.value(en, args[1])
                if isinstance(y, int):
                    return [(int({"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y, "eq": x == y, "ne": x != y}[n]), g)]
            if isinstance(x, int) and n in ("into", "from", "try_into", "try_from") and t is not None and (t.k == "int" or "TextSize" in t.s):
                return [(x if not n.startswith("try") else self.ok(x), g)]
            if isa(v, MAP):
                r = self.map_ops(en, ctx, g, fn, n, args, term, p, v)
                if r is not None:
                    return r
            items = self.list(v)
            if items is None and isinstance(x, tuple) and x[0] == "arr":
                items = x[1]
            if items is not None and n in ("partition_point", "binary_search", "binary_search_by", "binary_search_by_key"):
                return self.search(en, ctx, g, fn, n, args, term, p, v, items)
            if items is not None and n in ("take", "replace") and rp.startswith("core::mem::") and p is not None:
                new = ("arr", ()) if n == "take" else self.value(en, args[1])
                return [(v, g, self.put(en, p, new))]
            if n in ("unwrap_or_default",) and isinstance(x, tuple) and x[0] == "adt" and x[1] == self.opt and not x[3] and t is not None and t.k == "int":
                return [(0, g)]
        return super().text_call(en, ctx, g, fn, callee, args, term)

    def map_ops(self, en, ctx, g, fn, n, args, term, p, v):
        rows = v[1][1:]
        key = lambda i: en.deref_all(args[i], en.env)
        if n == "insert" and p is not None and len(args) == 3:
            k, val = key(1), self.plain(en, args[2], en.env)
            old = [r[1][1] for r in rows if r[1][0] == k]
            new = tuple(r for r in rows if r[1][0] != k) + (("tup", (k, val)),)
            return [(self.some(old[0]) if old else self.none(), g, self.put(en, p, ("tup", (MAP,) + new)))]
        if n in ("get", "contains_key", "index"):
            k = key(1)
            if not isinstance(k, int):
                return None
            hit = [i for i, r in enumerate(rows) if r[1][0] == k]
            if n == "contains_key":
                return [(int(bool(hit)), g)]
            if not hit:
                if n == "get":
                    return [(self.none(), g)]
                self.fault(fn, term["line"], "looks up a line that is not in the map", g, ctx)
                return []
            r = ("sref", rows[hit[0]][1][1])
            return [(self.some(r) if n == "get" else r, g)]
        if n in ("is_empty", "len"):
            return [(len(rows) if n == "len" else int(not rows), g)]
        if n in ("shrink_to_fit", "reserve"):
            return [(("tup", ()), g)]
        if n == "entry" and p is not None and len(args) == 2 and isinstance(key(1), int):
            return [(("tup", ("#entry", p, key(1))), g)]
        return None

    def search(self, en, ctx, g, fn, n, args, term, p, v, items):
        """the list is sorted, as the standard library requires"""
        k, found = 0, None
        if n == "binary_search":
            y = self.value(en, args[1])
            if not isinstance(y, int) or not all(isinstance(i, int) for i in items):
                return None
            k = sum(1 for i in items if i < y)
            found = y in items
        else:
            if n == "binary_search_by_key":
                return None
            env = en.env
            for i, it in enumerate(items):
                en.env = env
                r = self.once(en, g, args[1], [("sref", it)], ctx, fn, term)
                if r is None or len(r) != 1:
                    return None
                b = r[0][0]
                if n == "partition_point":
                    if b not in (0, 1):
                        return None
                    if b == 0:
                        break
                else:
                    o = {0: 0, 1: 1, 2: 2}.get(en.discr(b)) if isinstance(b, tuple) else b
                    if o is None:
                        return None
                    if isinstance(b, tuple) and b[2] == 1 or b == 0:
                        found = True
                        break
                    if isinstance(b, tuple) and b[2] == 2 or b == 1:
                        break
                k += 1
            en.env = env
            if n == "partition_point":
                return [(k, g)]
        res = next(kk for kk, a in self.F.adts.items() if a["path"] == "core::result::Result")
        return [(("adt", res, 0 if found else 1, (k,)), g)]


def places(ws):
    """(offset, line, byte column, UTF-16 column) of each boundary"""
    o = line = c8 = c16 = 0
    r = [(0, 0, 0, 0)]
    for w in ws:
        if w == 0:
            o, line, c8, c16 = o + 1, line + 1, 0, 0
        else:
            o, c8, c16 = o + w, c8 + w, c16 + (2 if w == 4 else 1)
        r.append((o, line, c8, c16))
    return r


def one_fn(F, crate, pred, what):
    fs = [f for f in F.crate_fns(crate) if f.kind != "Closure" and pred(f)]
    if len(fs) != 1:
        raise Anchor(what)
    return fs[0]


@guarded
def line_columns(F, R):
    most = 4 if R.tier == "quick" else 5
    R.rule("Abstract interpretation of the line index and of the conversions between offsets and LSP positions over texts known by the class of each "
           "character (line feed, width in UTF-8): for every boundary the position is (line feeds before it, bytes or UTF-16 units since the last), "
           "and converting the position back gives the offset.")
    new = one_fn(F, "ide_db", lambda f: f.name == "new" and f.argc == 1 and (F.adt_path(f.impl_self()) or "").endswith("line_index::LineIndex"), "LineIndex::new")
    S = "move_language_server"
    pos = one_fn(F, S, lambda f: f.path.endswith("to_proto::position"), "to_proto::position")
    off = one_fn(F, S, lambda f: f.path.endswith("from_proto::offset"), "from_proto::offset")
    lk, la = F.adt_by_path(S + "::line_index::LineIndex")
    names = [f["name"] for f in la["variants"][0]["fields"]]
    ek, ea = F.adt_by_path(S + "::line_index::OffsetEncoding")
    pk = next((k for k, a in F.adts.items() if a["path"] == "lsp_types::Position"), None)
    ask = Asker(F, R)
    known, n = {}, 0
    for ws in (w for k in range(most + 1) for w in itertools.product((1, 0, 2, 3, 4), repeat=k)):
        n += 1
        g = text_of(ws)
        v, where = ask(new, [ask.M.text(0, OPEN)], g)
        if v == "panic":
            R.violation("C16|new", where or new.loc(), "%s: panics for the text %s" % (new.path, show(g)))
            continue
        if not (isinstance(v, tuple) and v[0] == "adt"):
            R.count("texts not followed")
            continue
        for enc in (x["name"] for x in ea["variants"]):
            ei = [x["name"] for x in ea["variants"]].index(enc)
            li = ("adt", lk, 0, tuple({"index": ("sref", v), "encoding": ("adt", ek, ei, ())}.get(x) for x in names))
            for o, line, c8, c16 in places(ws):
                col = c8 if enc == "Utf8" else c16
                jobs = [("position", pos, o, o, (line, col))]
                if pk is not None:
                    jobs.append(("offset", off, ("adt", pk, 0, (line, col)), (line, col), o))
                for what, f, arg, asked, want in jobs:
                    key = (what, v, enc, asked)
                    if key not in known:
                        known[key] = ask(f, [("sref", li), arg], G0)
                    r, at = known[key]
                    if what == "position" and isinstance(r, tuple) and r[0] == "adt" and len(r[3]) == 2:
                        r = r[3] if all(isinstance(x, int) for x in r[3]) else None
                    if r is None:
                        R.count(what + "s not followed")
                        continue
                    R.count(what + "s")
                    if r != want:
                        R.violation("C16|%s|%s" % (what, enc), at or f.loc(), "%s: is %s for %s %s of the text %s in %s, and should be %s" % (
                            f.path, r, "offset" if what == "position" else "position", asked, show(g), enc, want))
    R.count("texts", n)
    for what in ("positions", "offsets"):
        if not R.counts.get(what):
            raise Anchor("the %s in a text" % what)


def text_of(ws):
    """the texts whose characters have these widths (0: a line feed, 1: another character of one byte)"""
    P, o = [], 0
    for w in ws:
        P.append((o, {0: 1 << 10, 1: ASCII & ~(1 << 10)}.get(w) or WIDE[w]))
        o += w or 1
    return G0._replace(P=tuple(P), end=o)


class Asker:
    """the value of a function, for one list of arguments after another"""

    def __init__(self, F, R):
        self.F, self.R = F, R
        self.fresh()

    def fresh(self):
        self.M = PosModel(self.F, 99)
        self.en = Engine(self.F, self.M, WORKSPACE)

    def __call__(self, f, args, g):
        if self.en.steps > self.M.max_steps // 2:
            self.fresh()
        M, en = self.M, self.en
        M.bad, M.faults, before = {}, {}, en.steps
        try:
            c = en.get_ctx(f, tuple(args), (), g)
            en.solve([c])
        except Budget:
            self.fresh()
            return None, None
        self.R.count("abstract states", en.steps - before)
        vals = {r for (r, _c, _k) in c.out}
        if len(vals) == 1:
            return vals.pop(), None
        if not vals and (M.bad or M.faults):
            where = None
            for (_p, _w), e in sorted((M.bad or M.faults).items(), key=lambda x: x[0]):
                where = "%s:%s" % (e[0].loc().split(":")[0], e[1])
            return "panic", where
        return None, None
