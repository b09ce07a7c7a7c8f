"""Abstract interpretation of the parser: the token stream is abstracted by the
sets of kinds the current / next / next-next token may have."""
from collections import defaultdict

from .interp import Engine, Model

PARSER = "parser::parser::Parser"
LEXER = "parser::lexer::Lexer"
KIND = "parser::syntax_kind::generated::SyntaxKind"
TOKEN = "parser::lexer::Token"
EVENT = "parser::event::Event"
MARKER = "parser::marker::Marker"
COMPLETED = "parser::marker::CompletedMarker"
MOV = 1

# g = (c0, c1, c2, moved, pend, lastkind)   masks over variant indexes


class Anchor(Exception):
    pass


def names_of(F, mask):
    k, a = F.adt_by_path(KIND)
    return [v["name"] for i, v in enumerate(a["variants"]) if mask >> i & 1]


class ParserModel(Model):
    objects = {PARSER: "P", LEXER: "L"}

    def __init__(self, F, universe, trivia, allowed_remap=()):
        self.F = F
        self.kind_key, self.kind_adt = F.adt_by_path(KIND)
        self.tok_key, self.tok_adt = F.adt_by_path(TOKEN)
        self.ev_key, self.ev_adt = F.adt_by_path(EVENT)
        self.mk_key, self.mk_adt = F.adt_by_path(MARKER)
        self.cm_key, _ = F.adt_by_path(COMPLETED)
        for n, x in (("SyntaxKind", self.kind_key), ("Token", self.tok_key), ("Event", self.ev_key),
                     ("Marker", self.mk_key), ("CompletedMarker", self.cm_key)):
            if x is None:
                raise Anchor("type %s not found" % n)
        self.idx = {v["name"]: i for i, v in enumerate(self.kind_adt["variants"])}
        self.U = universe            # kinds the lexer can produce for a current token (no trivia)
        self.trivia = trivia
        self.eof = 1 << self.idx["EOF"]
        self.kind_field = [f["name"] for f in self.tok_adt["variants"][0]["fields"]].index("kind")
        self.nfields = len(self.tok_adt["variants"][0]["fields"])
        self.ev_names = [v["name"] for v in self.ev_adt["variants"]]
        tokv = [v for v in self.ev_adt["variants"] if v["name"] == "Token"]
        if not tokv:
            raise Anchor("Event::Token not found")
        fs = [f["name"] for f in tokv[0]["fields"]]
        self.tk_kind = fs.index("kind") if "kind" in fs else 0
        self.tk_n = fs.index("n_raw_tokens") if "n_raw_tokens" in fs else 1
        self.viol = {}
        self.remaps = set()
        self.allowed_remap = set(allowed_remap)
        self.prim = {}
        for f in F.crate_fns("parser"):
            st = f.impl_self()
            if st is None or f.kind != "AssocFn":
                continue
            p = F.adt_path(st)
            if p == LEXER and f.name in ("bump", "current", "peek", "lookahead_nth", "lookahead",
                                         "lookahead_2", "current_text"):
                self.prim[f.key] = ("L", f.name)
            if p == MARKER and f.name in ("new", "complete", "abandon"):
                self.prim[f.key] = ("M", f.name)
            if p == COMPLETED and f.name in ("new", "precede", "undo_completion", "kind"):
                self.prim[f.key] = ("C", f.name)
            if p == PARSER and f.name in ("tokens", "finish"):
                self.prim[f.key] = ("P", f.name)
        have = {v for v in self.prim.values()}
        for need in (("L", "bump"), ("L", "current"), ("M", "complete"), ("M", "abandon"), ("C", "precede")):
            if need not in have:
                raise Anchor("%s::%s not found" % need)
        self.calls_seen = 0
        self.panic_sites = set()
        self.panic_ok = defaultdict(set)
        self.fuel = set()
        self.fns_seen = set()
        self.unknown_seen = set()

    # -------------------------------------------------- state
    def initial(self):
        # the first token may be trivia (Lexer::new does not skip it)
        return (self.U | self.trivia, self.U, self.U, 0, 0, 0)

    def gkey(self, g):
        return (g[3], g[4], g[5] if g[4] else 0)

    def gjoin(self, a, b):
        return (a[0] | b[0], a[1] | b[1], a[2] | b[2], a[3], a[4], a[5] | b[5])

    def enter(self, g, obj):
        if not obj:
            return (0, 0, 0, 0, g[4], g[5])
        return (g[0], g[1], g[2], 0, g[4], g[5])

    def leave(self, gc, go):
        if go[0] == 0:
            return (gc[0], gc[1], gc[2], gc[3], go[4], go[5])
        return (go[0], go[1], go[2], gc[3] | go[3], go[4], go[5])

    def kind_val(self, i):
        return ("adt", self.kind_key, i, ())

    def token_val(self, i):
        f = [None] * self.nfields
        f[self.kind_field] = self.kind_val(i)
        return ("adt", self.tok_key, 0, tuple(f))

    def bits(self, m):
        i = 0
        while m:
            if m & 1:
                yield i
            m >>= 1
            i += 1

    def report(self, kind, fn, detail, line, ctx, g):
        k = (kind, fn.path, detail)
        if k not in self.viol:
            self.viol[k] = (fn, line, g, ctx)

    def bump(self, fn, g, line):
        """advance by one significant token; EOF is not progress"""
        c0, c1, c2, mv, pend, last = g
        res = []
        p = pend + 1
        if abs(p) > 4:
            p = 4 if p > 0 else -4
        if c0 & ~self.eof:
            res.append((c1, c2, self.U, 1, p, (last if pend else 0) | (c0 & ~self.eof)))
        if c0 & self.eof:
            res.append((self.eof, self.eof, self.eof, mv, p, (last if pend else 0) | self.eof))
        return [(("tup", ()), r) for r in res]

    def look(self, g, n):
        m = g[n]
        res = []
        for i in self.bits(m):
            g2 = list(g)
            g2[n] = 1 << i
            if g2[n] == self.eof:
                # after the end there is only the end
                if any(not g2[j] & self.eof for j in range(n, 3)):
                    continue
                for j in range(n, 3):
                    g2[j] = self.eof
            else:
                # before something else there is not the end
                for j in range(n):
                    g2[j] &= ~self.eof
                if not all(g2[:n]):
                    continue
            res.append((self.token_val(i), tuple(g2)))
        return res

    def call(self, en, ctx, g, fn, callee, key, args, term):
        self.calls_seen += 1
        p = self.prim.get(key)
        if p is not None:
            who, name = p
            if who == "L":
                if name == "bump":
                    return self.bump(fn, g, term["line"])
                if name in ("current", "peek"):
                    return self.look(g, 0)
                if name == "lookahead":
                    return self.look(g, 1)
                if name == "lookahead_nth":
                    n = en.as_int(args[1])
                    if n is not None and n <= 2:
                        return self.look(g, n)
                    return [(None, g)]
                return [(None, g)]
            if who == "M":
                if name == "new":
                    return [(("adt", self.mk_key, 0, (None, None)), g)]
                if name == "complete":
                    return [(("adt", self.cm_key, 0, (None, None, None)), g)]
                return [(("tup", ()), g)]
            if who == "C":
                if name == "precede":
                    return [(("adt", self.mk_key, 0, (None, None)), g)]
                if name == "new":
                    return [(("adt", self.cm_key, 0, (None, None, None)), g)]
                if name == "undo_completion":
                    return [(("adt", self.mk_key, 0, (None, None)), g)]
                return [(None, g)]
            return [(None, g)]
        if self.inert(en, key):
            return [(("tup", ()), g)]
        cp = callee.rpath if callee else ""
        # the fuel counter: Cell<u32> reads are a special value
        if cp.startswith("core::cell::Cell::<T>::get"):
            return [(("fuel",), g)]
        return None

    def inert(self, en, key):
        """returns (), reaches no primitive, cannot panic, builds no token
        event, takes no pointer except the parser: calling it changes nothing
        the analysis tracks"""
        m = en.pure_memo
        if key in m:
            return m[key]
        m[key] = False
        b = self.F.fns.get(key)
        if b is None or b.crate != "parser" or b.local_ty(0).s != "()":
            return False
        for i in range(1, b.argc + 1):
            t = b.local_ty(i)
            if t.k == "ref" and t["mut"] and self.F.adt_path(t.to) != PARSER:
                return False
            if self.F.contains_type(t, lambda x: x.k in ("closure", "fnptr", "param") or x.adt == self.mk_key):
                return False
        for blk in b.blocks:
            if blk["c"]:
                continue
            for s in blk["s"]:
                if s[0] == "=" and s[2][0] == "agg" and isinstance(s[2][1], list) and s[2][1][0] == "adt" \
                        and s[2][1][1] == self.ev_key:
                    return False
            t = blk["t"]
            if t["k"] in ("assert", "tailcall"):
                return False
            if t["k"] == "drop" and t["nd"]:
                return False
            if t["k"] == "call":
                c = b.callee(t)
                if c is None or t["t"] is None:
                    return False
                if c.rkey in self.prim:
                    return False
                bd = self.F.body(c.rkey)
                if bd is not None and bd.crate == "parser" and not self.inert(en, c.rkey):
                    return False
        m[key] = True
        return True

    def binop(self, en, op, a, b):
        if a == ("fuel",) or b == ("fuel",):
            c = b if a == ("fuel",) else a
            if op in ("Le", "Lt", "Gt", "Ge") and isinstance(c, int) and c >= 1000:
                return 1 if (op in ("Le", "Lt")) == (a == ("fuel",)) else 0
            if op.endswith("WithOverflow"):
                return ("tup", (None, 0))
        return None

    def unknown(self, en, ctx, g, fn, callee, key, args, term):
        path = callee.rpath if callee else "<indirect>"
        self.unknown_seen.add((fn.path, path))
        # an unknown callee that is handed the parser can do anything
        if any(a in (("P",), ("L",)) for a in args):
            if not (callee and callee.rpath.startswith("core::mem::drop")):
                self.report("opaque", fn, "the parser is passed to %s, whose body cannot be resolved" % path,
                            term["line"], ctx, g)
        r = self.std_panics(en, path, args)
        if r:
            self.panic(en, ctx, g, fn, None, term, r)
        if callee is not None and callee.name == "next" and (callee.trait or "").endswith("iterator::Iterator"):
            pass
        return [(None, g)]

    def std_panics(self, en, path, args):
        return None

    def agg(self, en, ctx, g, fn, key, variant, vals, line):
        if key == self.ev_key and self.ev_names[variant] == "Token":
            n = en.as_int(vals[self.tk_n])
            kv = vals[self.tk_kind]
            c0, c1, c2, mv, pend, last = g
            if n is None:
                self.report("count", fn, "Event::Token with an unknown token count", line, ctx, g)
                return (c0, c1, c2, mv, 0, 0)
            np = pend - n
            # token kind: recorded kind must be the kind of the consumed token
            if isinstance(kv, tuple) and kv[0] == "adt":
                ki = kv[2]
                src = last if pend > 0 else c0
                for s in self.bits(src & ~(1 << ki)):
                    self.remaps.add((self.kind_adt["variants"][s]["name"],
                                     self.kind_adt["variants"][ki]["name"]))
                    if (self.kind_adt["variants"][s]["name"],
                            self.kind_adt["variants"][ki]["name"]) not in self.allowed_remap:
                        self.report("remap", fn, "a %s token is recorded as %s" % (
                            self.kind_adt["variants"][s]["name"],
                            self.kind_adt["variants"][ki]["name"]), line, ctx, g)
            else:
                self.report("remap", fn, "Event::Token with a kind the analysis cannot determine", line, ctx, g)
            if abs(np) > 4:
                np = 4 if np > 0 else -4
            return (c0, c1, c2, mv, np, last if np else 0)
        return g

    def drop(self, en, ctx, g, fn, bi, term, val, ty):
        if self.live_marker(val, ty):
            if fn.key in self.prim:
                return g
            nm = fn.local_name(term["p"][0])
            self.report("marker", fn, "Marker %s is dropped without complete/abandon"
                        % (nm or "(temporary)"), term["line"], ctx, g)
        return g

    def live_marker(self, val, ty, depth=0):
        def is_marker(t):
            return t.k == "adt" and t.adt == self.mk_key
        if ty is None or not self.F.contains_type(ty, is_marker):
            return False
        if val is None:
            return True
        if isinstance(val, tuple) and val[0] == "adt":
            if val[1] == self.mk_key:
                return True
            a = self.F.adts[val[1]]
            v = a["variants"][val[2]]
            for i, f in enumerate(v["fields"]):
                if i < len(val[3]):
                    x = val[3][i]
                    if isinstance(x, tuple) and x[0] == "adt":
                        if x[1] == self.mk_key:
                            return True
                    elif x is None:
                        # unknown payload: by declared type with generics
                        for at in ty.args():
                            if self.F.contains_type(at, is_marker):
                                return self.payload_may_hold(v["fields"][i], a, ty, is_marker)
            return False
        return True

    def payload_may_hold(self, field, a, ty, pred):
        u = self.F.adt_unit[ty.adt]
        ft = u.types[field["ty"]]
        if ft.k == "param":
            try:
                i = a["generics"].index(ft["name"])
                return self.F.contains_type(ty.args()[i], pred)
            except (ValueError, IndexError):
                return True
        return self.F.contains_type(ft, pred)

    def panic(self, en, ctx, g, fn, bi, term, what):
        self.report("panic", fn, what + ((" (%s!)" % term["mac"]) if term.get("mac") else ""),
                    term["line"], ctx, g)


def lexer_kinds(F):
    """kinds the lexer's tokens may have -- from the interpretation of find_token"""
    raise NotImplementedError


def progress(en):
    """loop iterations / recursion cycles that consume no token.
    -> (violations, loops checked, contexts)"""
    M = en.model
    viol = {}
    nloops = 0
    # left recursion
    graph = defaultdict(set)
    for ctx in en.all:
        for (bi, c), gks in ctx.edges.items():
            if any(gk[0] == 0 for gk in gks):
                graph[ctx.id].add(c.id)
    rec = {}
    for comp in sccs(graph):
        if len(comp) > 1 or comp[0] in graph.get(comp[0], ()):
            fns = sorted({en.all[i].fn.path for i in comp})
            rec.setdefault(tuple(fns), en.all[comp[0]])
    for ctx in en.all:
        fn = ctx.fn
        info = en.info(fn)
        if not info.heads or ctx.blockin is None:
            continue
        for h in info.heads:
            states = ctx.blockin.get(h)
            if not states:
                continue
            nloops += 1
            body = info.loop_body(h)
            if finite_loop(en, fn, body, h, info):
                continue
            edges = defaultdict(set)
            start = {}
            for (ek, gk), (env, g) in states.items():
                g0 = (g[0], g[1], g[2], 0, g[4], g[5])
                start.setdefault(ek, []).append((env, g0))
            for ek, sts in start.items():
                def on_head(env, g, ek=ek):
                    if g[3] == 0:
                        edges[ek].add((frozenset(env.items())))
                for st in sts:
                    en.run(ctx, fn, h, [st], body, lambda e, g: None, on_head)
            if cyclic(edges):
                line = fn.blocks[h]["t"]["line"]
                viol.setdefault((fn.path, fn_loop_ord(info, h)), (fn, line, ctx))
    return viol, rec, nloops


def sccs(graph):
    """strongly connected components (Tarjan, iterative)"""
    index, low, on, stack, out = {}, {}, set(), [], []
    for root in list(graph):
        if root in index:
            continue
        index[root] = low[root] = len(index)
        stack.append(root)
        on.add(root)
        work = [(root, iter(sorted(graph.get(root, ()))))]
        while work:
            v, it = work[-1]
            for w in it:
                if w not in index:
                    index[w] = low[w] = len(index)
                    stack.append(w)
                    on.add(w)
                    work.append((w, iter(sorted(graph.get(w, ())))))
                    break
                if w in on:
                    low[v] = min(low[v], index[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == index[v]:
                    comp = []
                    while True:
                        w = stack.pop()
                        on.discard(w)
                        comp.append(w)
                        if w == v:
                            break
                    out.append(comp)
    return out


def fn_loop_ord(info, h):
    return sorted(info.heads).index(h)


def finite_loop(en, fn, body, h, info):
    """the loop is driven by a std iterator: every iteration calls
    Iterator::next on a std/core iterator other than Range (Range is followed
    exactly) -- or on a Range whose body is interpreted"""
    for b in body:
        t = fn.blocks[b]["t"]
        if t["k"] == "call":
            c = fn.callee(t)
            if c and c.name == "next" and c.trait == "core::iter::traits::iterator::Iterator":
                a = c.args()
                if a and a[0].s.split("<")[0].startswith(("core::", "alloc::", "std::")) and \
                        not a[0].s.startswith("core::iter::sources"):
                    # must dominate the back edges: removing b disconnects h from itself
                    if not reaches(fn, h, h, body, b):
                        return True
    return False


def reaches(fn, a, b, body, avoid):
    """is there a non-empty path a -> b inside body avoiding `avoid`?"""
    seen = set()
    w = [a]
    if a == avoid:
        return False
    while w:
        i = w.pop()
        for s in fn.succs(i):
            if s == b:
                return True
            if s in body and s != avoid and s not in seen:
                seen.add(s)
                w.append(s)
    return False


def cyclic(edges):
    color = {}

    def dfs(n):
        color[n] = 1
        for m in edges.get(n, ()):
            c = color.get(m, 0)
            if c == 1:
                return True
            if c == 0 and dfs(m):
                return True
        color[n] = 2
        return False
    return any(color.get(n, 0) == 0 and dfs(n) for n in list(edges))
