"""From the parser's errors to the diagnostics that the main loop receives,
and the positions they get."""
import re

from ..parser_model import Anchor
from ..seqs import ABS, DUP, EMPTY, SymModel, isa, seq
from .docs import CHANGED, KINDS, OPEN, SyncModel, _memo, of, report_at, visit
from ..events import WORKSPACE, run
from .parsing import guarded
from .server import TASK

RANGE = "core::ops::range::Range"
EVENT = "parser::event::Event"
PERR = "parser::ParseError"
DIAG = "lsp_types::Diagnostic"
POS = {"lsp_types::Position": ("line", "character"), "lsp_types::Range": ("start", "end")}
ENC = "OffsetEncoding"




class AnalysisModel(SyncModel):
    """a turn after which the open document #path is analysed; its parse
    yields the error #E and any others"""
    tokens = ("#path", "#E")
    enough = 128
    max_part = 40

    def __init__(self, F, method, is_open, changed, enc):
        super().__init__(F, method, is_open)
        self.scenario = "a file changed" if changed else "a document was opened"
        self.changed = changed
        key, a = F.adt_by_path("move_language_server::line_index::OffsetEncoding")
        if key is None:
            raise Anchor("OffsetEncoding")
        self.enc = self.variant(a["path"], enc)
        self.encoding = enc
        self.ranges = 0
        self.sev_enum = any(v["name"] == "Error" for v in (F.adt_by_path("lsp_types::DiagnosticSeverity")[1] or {"variants": []})["variants"])
        self.diag_ix = [v["name"] for v in F.adt_by_path(TASK)[1]["variants"]].index("Diagnostics")
        fid = lambda t: self.struct("vfs::FileId", **{"0": t})
        self.prims = [p for p in self.prims if p[0] not in ("no changes", "execute", "path")]
        on = self.on
        vfs = lambda c, n: c.name == n and "vfs::Vfs::" in c.rpath
        on("take", lambda c: vfs(c, "take_changes"), lambda en, ctx, g, fn, c, a, t: [
            (seq(self.struct(CHANGED, file_id="#id(#path)", change_kind=self.variant(KINDS, "Modify")),
                 self.struct(CHANGED, file_id=None, change_kind=None)) if changed else EMPTY, g)])
        on("execute", lambda c: c.crate == "threadpool" and c.name == "execute", self.worker)
        on("apply", lambda c: c.crate in ("ide", "ide_db") and c.name == "apply_change", lambda en, ctx, g, fn, c, a, t: [(("tup", ()), g)])
        on("partition", lambda c: c.name == "partition" and c.crate == "move_language_server", lambda en, ctx, g, fn, c, a, t: [(None, g)])
        on("catch", lambda c: c.crate == "salsa" and c.name == "catch", self.catch)
        on("parse", lambda c: c.crate == "syntax" and self.returns(c, "Parse"), self.parsed)
        on("query", lambda c: c.trait in self.groups or any(c.path.startswith(x + "::") for x in self.groups), self.query)
        on("encoding", lambda c: c.crate == "move_language_server" and self.returns(c, ENC),
           lambda en, ctx, g, fn, c, a, t: [(self.enc, g)])
        on("line index", lambda c: c.crate == "ide_db" and "LineIndex::" in c.rpath, self.line_index)
        on("lsp value", lambda c: c.crate == "lsp_types" and c.name == "new" and c.impl_self() is not None
           and F.adt_path(c.impl_self()) in POS, self.lsp_value)
        on("format", lambda c: "fmt::rt::Argument::" in c.rpath or "fmt::Arguments::" in c.rpath or c.rpath.startswith("alloc::fmt::format"),
           self.format)
        on("path", lambda c: c.crate in ("paths", "vfs", "core"), self.path)
        on("length", lambda c: c.name == "len" and c.crate in ("core", "alloc"), self.count)

        on("min", lambda c: c.name == "min" and c.path.startswith("core::cmp"), self.least)
        on("index", lambda c: c.trait == "core::ops::index::Index" and c.name == "index" or c.name == "get" and "slice" in c.rpath, self.part)

    def count(self, en, ctx, g, fn, c, a, t):
        return [("#count", g)]

    def least(self, en, ctx, g, fn, c, a, t):
        x = sorted((y for y in a[:2]), key=str)
        if len(x) == 2 and x[0] == "#count" and isinstance(x[1], int):
            return [("#count" if x[1] >= self.enough else x[1], g)]
        return None

    def part(self, en, ctx, g, fn, c, a, t):
        """a prefix of a list"""
        _, v = self.target(en, a)
        r = self.plain(en, a[1], en.env) if len(a) > 1 else None
        if not isa(v, "#seq") or not isinstance(r, tuple) or r[0] != "adt":
            return None
        name = self.F.adts[r[1]]["path"] if r[1] in self.F.adts else ""
        if not name.endswith(("RangeTo", "ops::range::Range")) or not r[3] or len(r[3]) == 2 and r[3][0] != 0:
            return None
        x = r[3][-1]
        if not (x == "#count" or isinstance(x, int) and x >= self.enough):
            v = seq(ABS, v[1][2])
        return [(("sref", v) if c.name == "index" else self.some(("sref", v)), g)]

    def mentions(self, en, v, env, depth=0):
        """what is about another error than #E is not about #E"""
        if isinstance(v, tuple) and v[0] in ("adt", "cl", "tup", "arr") and "#E" not in str(v) and "#rest" in str(v):
            return False
        return super().mentions(en, v, env, depth)

    def binop(self, en, op, a, b):
        """sums are counts"""
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if base in ("Add", "Sub") and all(isinstance(x, int) or x == "#count" for x in (a, b)):
            return ("tup", ("#count", 0)) if op.endswith("WithOverflow") else "#count"
        return None

    def assume(self, en, g, term, val):
        """a count is below the number of errors that may be left out"""
        m = re.match(r"#(Lt|Le|Eq)\((#[\w-]*(?:index|count)|\d+),(#[\w-]*(?:index|count)|\d+)\)$", term)
        if m:
            op, x, y = m.groups()
            if y.isdigit() and not x.isdigit():
                if int(y) >= self.enough - (op == "Le") and val == (op == "Eq"):
                    return False
            elif x.isdigit() and not y.isdigit():
                if int(x) >= self.enough - (op == "Lt") and val == 1:
                    return False
        return super().assume(en, g, term, val)

    groups = ("base_db::SourceDatabase", "ide_db::LineIndexDatabase")

    def returns(self, c, name):
        b = self.F.body(c.rkey)
        return b is not None and (self.F.adt_path(b.local_ty(0)) or "").endswith("::" + name)

    def is_parse(self, c):
        if c.crate != "parser":
            return False
        b = self.F.body(c.rkey)
        return b is not None and b.local_ty(0).k == "tuple" and EVENT in b.local_ty(0).s

    # ------------------------------------------------- the worker
    def worker(self, en, ctx, g, fn, callee, args, term):
        self.sites["spawn"] = (fn, term["line"], ctx)
        f = args[-1]
        return [(("tup", ()), g2, en.env) for _, g2, e2 in self.once(en, g, f, [], ctx, fn, term) or [(None, g, en.env)]]

    def catch(self, en, ctx, g, fn, callee, args, term):
        r = [(self.err(), g._replace(bad="cancelled"), en.env)]
        here = en.env
        for v, g2, e2 in self.once(en, g, args[0], [], ctx, fn, term) or [(None, g, here)]:
            r.append((self.ok(v), g2, e2))
        return r

    def query(self, en, ctx, g, fn, c, a, t):
        if c.name == "file_text":
            return [("#text(%s)" % en.term(a[1], en.env), g)]
        if c.name.startswith("set_"):
            return [(("tup", ()), g)]
        q = self.query_body(c.name)
        if q is None or len(a) != 2:
            return None
        self.fns.add(q.key)
        return [(v, g2, en.env) for v, g2, e2 in en.invoke(en.env, g, q, [a[0], a[1]], ctx, fn, en.bi, t)]

    def query_body(self, name):
        want = "".join(x.capitalize() for x in name.split("_")) + "Query"
        for f in self.F.fns.values():
            if f.name == "execute" and (f.impl_trait or "").startswith("salsa::plumbing::QueryFunction") and want in re.findall(r"\w+", f.path):
                return f
        return None

    def parsed(self, en, ctx, g, fn, callee, args, term):
        if len(args) != 1:
            return None
        x = en.term(args[0], en.env)
        self.sites["parse"] = (fn, term["line"], ctx)
        e = self.struct("syntax::syntax_error::SyntaxError", **{"0": "#E", "1": "#at"})
        mine = x == "#text(#id(#path))"
        return [(self.struct("syntax::Parse", errors=seq(e if mine else ABS, "#rest" if mine else "#errors(%s)" % x)), g)]

    def lsp_value(self, en, ctx, g, fn, c, a, t):
        p = self.F.adt_path(c.impl_self())
        return [(self.struct(p, **dict(zip(POS[p], a))), g)]

    def line_index(self, en, ctx, g, fn, c, a, t):
        x = [en.term(y, en.env) for y in a]
        return [("#%s(%s)" % (c.name, ",".join(str(y) for y in x)), g)]

    def format(self, en, ctx, g, fn, c, a, t):
        for x in a:
            v = self.plain(en, x, en.env)
            if self.mentions(en, v, en.env):
                return [("#shown(#E)" if "#E" in str(v) else "#shown(#path)", g)]
        return [(None, g)]

    # ------------------------------------------------- what arrives
    def send(self, en, ctx, g, fn, callee, args, term):
        v = self.plain(en, args[1], en.env) if len(args) > 1 else None
        if isinstance(v, tuple) and v[0] == "adt" and v[1] == self.F.adt_by_path(TASK)[0] and v[2] == self.diag_ix:
            self.judge_task(en, g, v[3][0] if v[3] else None, fn, term["line"], ctx)
            g = self.ev(g, "task")
        return [(self.ok(("tup", ())), g)]

    def judge_task(self, en, g, per_file, fn, line, ctx):
        at = self.sites.get("spawn", (fn, line, ctx))
        pe = self.sites.get("parse", at)
        v = lambda k, m, s=at: report_at(self, s, k + "|" + self.scenario, m)
        if not isa(per_file, "#seq"):
            return v("C07|task", "the diagnostics sent to the main loop cannot be determined")
        T = per_file[1][1]
        if T == ABS:
            if not g.bad:
                v("C07|document", "the diagnostics of an open document are not computed")
            return
        if T == DUP or not (isinstance(T, tuple) and T[0] == "tup" and len(T[1]) == 2):
            return v("C07|document", "an open document's diagnostics are sent as %s" % (T,))
        file, ds = T[1]
        if en.term(file, en.env) != "#id(#path)":
            return v("C07|file", "the diagnostics of an open document are sent as those of %s" % en.term(file, en.env))
        if not isa(ds, "#seq"):
            return v("C07|errors", "the diagnostics of an open document cannot be determined", pe)
        D = ds[1][1]
        if D == ABS:
            return v("C07|errors", "a syntax error of an open document yields no diagnostic", pe)
        if D == DUP:
            return v("C07|errors", "a syntax error of an open document yields several diagnostics", pe)
        f = lambda n: self.get(D, DIAG, n)
        if "#E" not in str(f("message")):
            v("C07|message", "the message of a diagnostic is not that of its syntax error", pe)
        sev = f("severity")
        want = self.variant("lsp_types::DiagnosticSeverity", "Error") if self.sev_enum else None
        if not (isinstance(sev, tuple) and sev[0] == "adt" and sev[3]) or want is not None and sev[3][0] != want:
            v("C07|severity", "the severity of a syntax error is not Error", pe)
        self.ranges += 1
        bad = range_of(self, en, f("range"), "#new(#text(#id(#path)))", "#start(#at)", "#end(#at)", self.encoding)
        if bad:
            report_at(self, self.sites.get("position", pe), "C18|range|%s|%s" % (self.encoding, self.scenario),
                      "the range of a diagnostic, with %s positions, %s" % (self.encoding, bad))

    def end(self, en, g, fn, ctx, term):
        super().end(en, g, fn, ctx, term)
        if g.bad in (0, "cancelled") and ("task",) not in g.ev:
            self.report("C07|trigger|" + self.scenario, fn, term["line"],
                        "%s, but the open documents are not analysed again in that turn" % self.scenario, ctx)


def position_of(M, en, p, index, off, enc):
    """None, or what is wrong with the position made from `off`"""
    L = "#line_col(%s,%s)" % (index, off)
    U = "#to_utf16(%s,%s)" % (index, L)
    line = en.term(M.get(p, "lsp_types::Position", "line"), en.env) if isinstance(p, tuple) else None
    col = en.term(M.get(p, "lsp_types::Position", "character"), en.env) if isinstance(p, tuple) else None
    names = lambda a, f: [x["name"] for x in M.F.adt_by_path(a)[1]["variants"][0]["fields"]].index(f)
    a, b = "ide_db::line_index::LineCol", "ide_db::line_index::LineColUtf16"
    want = [(U, b), (L, a)] if enc == "Utf16" else [(L, a)]
    if line not in ["%s.%d" % (t, names(x, "line")) for t, x in want]:
        return "has the line %s" % line
    if col != "%s.%d" % (want[0][0], names(want[0][1], "col")):
        return "has the column %s" % col
    return None


def range_of(M, en, r, index, start, end, enc):
    for n, off in (("start", start), ("end", end)):
        bad = position_of(M, en, M.get(r, "lsp_types::Range", n) if isinstance(r, tuple) else None, index, off, enc)
        if bad:
            return "%s at its %s" % (bad, n)
    return None


class TreeModel(SymModel):
    """SourceFile::parse, for a text whose parsing yields the error #E"""
    tokens = ("#E",)
    max_part = 40
    arith = False

    def __init__(self, F):
        super().__init__(F)
        on = self.on
        on("parse", self.is_parse, self.parsed)
        on("len", lambda c: c.name == "len", self.length)
        on("range", lambda c: c.name in ("next", "next_back", "into_iter", "rev") and c.crate == "core", self.range)
        on("index", lambda c: c.name in ("index", "index_mut", "get", "get_mut", "get_unchecked", "get_unchecked_mut"), self.index)
        on("pop", lambda c: c.name in ("pop", "pop_back", "last", "last_mut"), self.pop)
        on("size", lambda c: c.crate == "text_size" or "TextSize" in c.rpath, lambda en, ctx, g, fn, c, a, t: [(None, g)])
        on("dyn", lambda c: c.trait == "parser::TreeSink", self.sink)

    def is_parse(self, c):
        if c.crate != "parser":
            return False
        b = self.F.body(c.rkey)
        return b is not None and b.local_ty(0).k == "tuple" and EVENT in b.local_ty(0).s

    def parsed(self, en, ctx, g, fn, callee, args, term):
        e = self.variant(EVENT, "Error", self.struct(PERR, **{"0": "#E"}))
        return [(("tup", (seq(e, "#events"), None)), g)]

    def length(self, en, ctx, g, fn, c, a, t):
        p, v = self.target(en, a)
        if isa(v, "#seq") and v[1][1] != ABS and self.mentions(en, v[1][1], en.env):
            return [("#len(#seq)", g)]
        return None

    def range(self, en, ctx, g, fn, c, a, t):
        p, v = self.target(en, a)
        if not (isinstance(v, tuple) and v[0] == "adt" and len(v[3]) == 2 and v[3][1] == "#len(#seq)"
                and (v[3][0] == 0 or v[3][0] in ("#p0", "#p1"))):
            return None
        if c.name in ("into_iter", "rev"):
            return [(v, g)]
        if p is None:
            return None
        set_ = lambda s: self.put(en, p, v[:3] + ((s, v[3][1]),))
        here = en.env
        r = []
        if v[3][0] != "#p1":
            r.append((self.some("#ix"), g, set_("#p1")))
            r.append((self.some("#io"), g, set_("#p0")))
        else:
            r.append((self.some("#io"), g, set_("#p1")))
            r.append((self.none(), g, here))
        return r

    def index(self, en, ctx, g, fn, c, a, t):
        p, v = self.target(en, a)
        if not isa(v, "#seq") or len(a) != 2 or p is None:
            return None
        i = en.deref_all(a[1], en.env)
        if isinstance(i, tuple):
            return None
        e = dict(en.env)
        e[("other", fn.key, en.bi)] = v[1][2]       # any of many: changes of it are not followed
        at = lambda k: ("ptr", p[1], p[2] + (k,), True) if k == 1 else ("ptr", ("other", fn.key, en.bi), (), True)
        got = []
        if i != "#io":
            got.append(1)
        if i != "#ix":
            got.append(2)
        r = [at(k) for k in got if v[1][k] != ABS]
        opt = c.name in ("get", "get_mut")
        res = [(self.some(x) if opt else x, g, e) for x in r]
        if opt and i not in ("#ix", "#io"):
            res.append((self.none(), g, en.env))
        return res or None

    def pop(self, en, ctx, g, fn, c, a, t):
        p, v = self.target(en, a)
        if not isa(v, "#seq") or p is None:
            return None
        _, T, O = v[1]
        r = [] if T != ABS else [(self.none(), g, en.env)]
        if c.name.startswith("last"):
            return r + [(self.some(x), g, en.env) for x in (T, O) if x != ABS]
        if T != ABS:
            r.append((self.some(T), g, self.put(en, p, seq(ABS, O))))
        if O != ABS:
            r.append((self.some(O), g, en.env))
        return r

    def sink(self, en, ctx, g, fn, callee, args, term):
        """the one implementation of the trait in the workspace"""
        if callee.kind != "virtual":
            return None
        b = [f for f in self.F.fns.values() if f.name == callee.name and f.impl_trait == "parser::TreeSink"]
        if len(b) != 1:
            raise Anchor("the implementation of TreeSink::%s" % callee.name)
        return [(v, g2, e2) for v, g2, e2 in en.invoke(en.env, g, b[0], args, ctx, fn, en.bi, term)]



class ParserModel(TreeModel):
    """the functions that change the parser's list of events directly"""
    def follow(self, en, fn, callee, body):
        return body.crate == "parser" and "lexer" not in body.file


def events_kept(F, R):
    """no function of the parser takes a reported error back"""
    key, a = F.adt_by_path("parser::parser::Parser")
    if key is None:
        raise Anchor("Parser")
    unit = F.adt_unit[key]
    names = [f["name"] for f in a["variants"][0]["fields"]]
    is_ev = lambda t: t is not None and t.s.replace("&mut ", "") == "alloc::vec::Vec<event::Event>" or t is not None and "Vec<" in t.s and EVENT.split("::")[-1] in t.s and t.s.count("<") == 1
    ev = [f["name"] for f in a["variants"][0]["fields"] if is_ev(unit.types[f["ty"]])]
    if len(ev) != 1:
        raise Anchor("the parser's list of events")
    n = 0
    for f in sorted(F.crate_fns("parser"), key=lambda f: f.path):
        if f.derived or f.kind == "Closure":
            continue
        touches = False
        for _, t, c in f.calls():
            if c is not None and t["args"]:
                ty = f.op_ty(t["args"][0])
                if is_ev(ty) and c.crate != "parser":
                    touches = True
        if is_ev(f.local_ty(0)):
            touches = True
        if not touches:
            continue
        M = ParserModel(F)
        err = M.variant(EVENT, "Error", M.struct(PERR, **{"0": "#E"}))
        args, cells, at = [], [], None
        for i in range(f.argc):
            t = f.local_ty(i + 1)
            p = M.struct("parser::parser::Parser", **{ev[0]: seq(err, "#events")})
            if t.k == "ref" and F.adt_path(t.to) == "parser::parser::Parser":
                args.append(("ptr", ("c", len(cells)), (), True))
                at = len(cells)
                cells.append(p)
            elif F.adt_path(t) == "parser::parser::Parser":
                args.append(p)
            else:
                args.append(None)
        if at is None and not any(a is not None for a in args):
            continue
        en, c = run(F, M, f, args, cells, 0, {"parser"})
        n += 1
        R.count("abstract states", en.steps)
        R.sample("functions that change the events", f.path)
        for (ret, couts, _), g in c.out.items():
            got = None
            if at is not None:
                got = M.get(couts[at], "parser::parser::Parser", ev[0])
            elif is_ev(f.local_ty(0)):
                got = ret
            else:
                continue
            if not isa(got, "#seq") or got[1][1] != err:
                R.violation("C07|events|" + f.path, f.loc(), "%s may lose or change an error that was reported before" % f.path)
    if not n:
        raise Anchor("the functions that change the list of events")
    # and reporting one adds one
    for f in F.crate_fns("parser"):
        made = [1 for b in f.blocks for st in b["s"] if st[0] == "=" and agg_is(F, f, st[2], EVENT, "Error")]
        if not made or f.derived:
            continue
        M = ParserModel(F)
        p = M.struct("parser::parser::Parser", **{ev[0]: EMPTY})
        args = []
        for i in range(f.argc):
            t = f.local_ty(i + 1)
            args.append(("ptr", ("c", 0), (), True) if t.k == "ref" and F.adt_path(t.to) == "parser::parser::Parser" else "#E")
        if ("ptr", ("c", 0), (), True) not in args:
            continue
        en, c = run(F, M, f, args, [p], 0, {"parser"})
        R.count("abstract states", en.steps)
        R.sample("functions that report an error", f.path)
        for (ret, couts, _), g in c.out.items():
            got = M.get(couts[0], "parser::parser::Parser", ev[0])
            T = got[1][1] if isa(got, "#seq") else None
            if not (isinstance(T, tuple) and T[0] == "adt" and "#E" in str(T)):
                R.violation("C07|report|" + f.path, f.loc(), "%s does not always record the error it is given" % f.path)


def agg_is(F, f, rv, path, variant):
    if rv[0] != "agg" or not isinstance(rv[1], list) or rv[1][0] != "adt":
        return False
    a = F.adts.get(rv[1][1])
    return a is not None and a["path"] == path and a["variants"][rv[1][2]]["name"] == variant


def tree_errors(F, R):
    """from the parser's events to the errors of the syntax tree"""
    roots = [f for f in F.crate_fns("syntax") if f.name == "parse" and f.argc == 1 and F.adt_path(f.local_ty(0)) == "syntax::Parse"
             and not f.impl_trait]
    if len(roots) != 1:
        raise Anchor("SourceFile::parse")
    M = TreeModel(F)
    en, c = run(F, M, roots[0], ["#text"], [], 0, WORKSPACE)
    R.count("abstract states", en.steps)
    R.count("functions interpreted", len({x.fn.key for x in en.all}))
    for need, what in (("parse", "a call of the parser"), ("dyn", "a call of the tree sink")):
        if need not in M.seen:
            raise Anchor(what)
    if not c.out:
        raise Anchor("the end of SourceFile::parse")
    for (ret, couts, _), g in c.out.items():
        es = M.get(ret, "syntax::Parse", "errors")
        T = es[1][1] if isa(es, "#seq") else None
        if T == DUP:
            R.violation("C07|tree", roots[0].loc(), "an error event of the parser becomes several syntax errors")
        elif T in (ABS, None):
            R.violation("C07|tree", roots[0].loc(), "an error event of the parser becomes no syntax error of the tree")
        elif "#E" not in str(T):
            R.violation("C07|tree", roots[0].loc(), "a syntax error of the tree does not carry the message of the parser's error")


def analysis_runs(F):
    if _memo.get("analysis", (None,))[0] is not F:
        ms = []
        for enc in ("Utf8", "Utf16"):
            for m, o, ch in ((OPEN, False, False), (None, True, True)):
                M = AnalysisModel(F, m, o, ch, enc).run()
                ms.append(M)
        _memo["analysis"] = (F, ms)
    return _memo["analysis"][1]


@guarded
def errors(F, R):
    R.rule("Interpretation of the turn of the main loop after which an open document is analysed, of the worker it starts and of the "
           "queries that runs, for one arbitrary syntax error among any others; of SourceFile::parse for one arbitrary error event; "
           "and of each function that changes the parser's list of events.")
    of(R, analysis_runs(F), "C07")
    for M in analysis_runs(F):
        if not {"query", "parse"} & set(M.seen) and not any(k.startswith("C07") for k in M.viol):
            R.violation("C07|trigger|" + M.scenario, M.root.fn.loc(), "%s, but no document is parsed in that turn" % M.scenario)
    tree_errors(F, R)
    events_kept(F, R)


LI = "move_language_server::line_index::LineIndex"
CAPS = "lsp_types::ClientCapabilities"


class PositionModel(SymModel):
    def __init__(self, F):
        super().__init__(F)
        self.on("line index", lambda c: c.crate == "ide_db" and "LineIndex::" in c.rpath, self.line_index)
        self.on("lsp value", lambda c: c.crate == "lsp_types" and c.name == "new" and c.impl_self() is not None
                and F.adt_path(c.impl_self()) in POS, self.lsp_value)
        self.on("range", lambda c: c.crate == "text_size" and c.name == "new", lambda en, ctx, g, fn, c, a, t: [
            (("tup", tuple(en.term(x, en.env) for x in a)), g)])

    line_index = AnalysisModel.line_index
    lsp_value = AnalysisModel.lsp_value


def conversions(F, R):
    """the functions between offsets and positions"""
    lp, lr = "lsp_types::Position", "lsp_types::Range"
    found = set()
    for f in sorted(F.crate_fns("move_language_server"), key=lambda f: f.path):
        if f.kind == "Closure" or f.derived:
            continue
        ps = [f.local_ty(i + 1).peel() for i in range(f.argc)]
        kinds = [F.adt_path(t) or t.s for t in ps]
        rk = F.adt_path(f.local_ty(0))
        short = lambda k: k.rsplit("::", 1)[-1] if k else k
        if LI not in kinds or len(kinds) != 2:
            continue
        i = kinds.index(LI)
        o = kinds[1 - i]
        what = (short(o), short(rk))
        if what not in (("TextSize", "Position"), ("TextRange", "Range"), ("Position", "TextSize"), ("Range", "TextRange")):
            continue
        found.add(what)
        for enc in ("Utf8", "Utf16"):
            M = PositionModel(F)
            e = M.variant("move_language_server::line_index::OffsetEncoding", enc)
            li = M.struct(LI, index="#I", encoding=e)
            pos = lambda n: M.struct(lp, line="#%sl" % n, character="#%sc" % n)
            arg = {"TextSize": "#o", "TextRange": "#r", "Position": pos("p"),
                   "Range": M.struct(lr, start=pos("s"), end=pos("e"))}[what[0]]
            args = [None, None]
            cells = [li]
            args[i] = ("ptr", ("c", 0), (), False)
            if f.local_ty(2 - i).k == "ref":
                cells.append(arg)
                args[1 - i] = ("ptr", ("c", 1), (), False)
            else:
                args[1 - i] = arg
            en, c = run(F, M, f, args, cells, 0, WORKSPACE)
            R.count("abstract states", en.steps)
            R.count("conversions", 1)
            R.sample("conversions", "%s: %s -> %s" % (f.path, what[0], what[1]))
            en.env = {}
            off = lambda n: "#offset(#I,LineCol(#%sl,#%sc))" % (n, n) if enc == "Utf8" else \
                "#offset(#I,#to_utf8(#I,LineColUtf16(#%sl,#%sc)))" % (n, n)
            for (ret, couts, _), g in c.out.items():
                if what[1] == "Position":
                    bad = position_of(M, en, ret, "#I", "#o", enc)
                elif what[1] == "Range":
                    bad = range_of(M, en, ret, "#I", "#start(#r)", "#end(#r)", enc)
                elif what[1] == "TextSize":
                    bad = None if ret == off("p") else "is %s" % (ret,)
                else:
                    bad = None if ret == ("tup", (off("s"), off("e"))) else "is %s" % (ret,)
                if bad:
                    R.violation("C18|%s|%s" % (f.path, enc), f.loc(), "%s: the result, with %s positions, %s" % (f.path, enc, bad))
    if ("TextSize", "Position") not in found and ("TextRange", "Range") not in found:
        raise Anchor("the conversion of offsets to positions")


class EncodingModel(SymModel):
    """g: what the client's capabilities were found to say about UTF-8"""
    tokens = ("#caps", "#utf8")

    def __init__(self, F):
        super().__init__(F)
        self.made = []
        self.given = []
        self.on("supports", lambda c: c.crate == "move_language_server" and self.supports(c), self.choice)
        self.on("result", lambda c: c.crate == "serde_json" and c.name == "to_value", self.value)
        self.on("init", lambda c: c.crate == "serde_json" and c.name in ("from_value", "from_str", "from_slice"), self.params)
        self.on("loop", lambda c: c.crate == "move_language_server" and any(
            F.adt_path(t) == "move_language_server::config::Config" for t in self.sig(c)) and c.name == "main_loop", self.loop)

    def sig(self, c):
        b = self.F.body(c.rkey)
        return [b.local_ty(i + 1) for i in range(b.argc)] if b is not None else []

    def supports(self, c):
        b = self.F.body(c.rkey)
        return is_supports(self.F, b)

    def choice(self, en, ctx, g, fn, c, a, t):
        x = en.term(a[0], en.env)
        if g is not None and g[0] == x:
            return [(g[1], g)]
        return [(1, (x, 1)), (0, (x, 0))]

    def params(self, en, ctx, g, fn, c, a, t):
        try:
            return [(self.ok(self.struct("lsp_types::InitializeParams", capabilities="#caps")), g)]
        except Anchor:
            return None

    def value(self, en, ctx, g, fn, c, a, t):
        v = self.plain(en, a[0], en.env)
        e = self.get(v, "lsp_types::InitializeResult", "offset_encoding")
        key = self.F.adt_by_path("lsp_types::InitializeResult")[0]
        if isinstance(v, tuple) and v[0] == "adt" and v[1] == key:
            self.made.append((g, e, fn, t["line"], ctx))
        return None

    def loop(self, en, ctx, g, fn, c, a, t):
        for x in a:
            v = self.plain(en, x, en.env)
            k = self.get(v, "move_language_server::config::Config", "caps")
            if isinstance(v, tuple) and v[0] == "adt":
                self.given.append((en.term(k, en.env), fn, t["line"], ctx))
        return [(self.ok(("tup", ())), g)]


def is_supports(F, b):
    return b is not None and b.crate == "move_language_server" and b.argc == 1 and b.local_ty(0).s == "bool" \
        and F.adt_path(b.local_ty(1).peel()) == CAPS


def negotiation(F, R):
    """the encoding announced is the one used"""
    sup = [f for f in F.fns.values() if is_supports(F, f)]
    R.count("functions that look for UTF-8 support", len(sup))
    # 1. the decision itself
    for f in sup:
        for name, val, want in (("lists utf-8", seq("#utf8", "#other"), 1), ("lists other encodings", seq(ABS, "#other"), 0),
                                ("lists none", EMPTY, 0), ("says nothing", None, 0)):
            M = SupportModel(F)
            opt = M.none() if val is None else M.some(val)
            en, c = run(F, M, f, [("ptr", ("c", 0), (), False)], [M.struct(CAPS, offset_encoding=opt)], 0, WORKSPACE)
            R.count("abstract states", en.steps)
            for (ret, _c, _k), g in c.out.items():
                if ret != want:
                    R.violation("C18|supports|%s|%s" % (f.path, name), f.loc(),
                                "%s: %s for a client that %s" % (f.path, {1: "true", 0: "false"}.get(ret, "undetermined"), name))
    # 2. what the server uses
    used = [f for f in F.crate_fns("move_language_server") if (F.adt_path(f.local_ty(0)) or "").endswith("::" + ENC)
            and f.argc == 1 and not f.derived and f.kind != "Closure"]
    if len(used) != 1:
        raise Anchor("the choice of the offset encoding")
    M = EncodingModel(F)
    cfg = M.struct("move_language_server::config::Config", caps="#caps")
    en, c = run(F, M, used[0], [("ptr", ("c", 0), (), False)], [cfg], None, WORKSPACE)
    R.count("abstract states", en.steps)
    enc = {M.variant("move_language_server::line_index::OffsetEncoding", n): n for n in ("Utf8", "Utf16")}
    for (ret, _c, _k), g in c.out.items():
        if g is None or g[0] != "#caps":
            R.violation("C18|used|caps", used[0].loc(), "%s does not depend on the client's capabilities" % used[0].path)
        elif enc.get(ret) != ("Utf8" if g[1] else "Utf16"):
            R.violation("C18|used|%s" % g[1], used[0].loc(), "%s chooses %s for a client that %s UTF-8" % (
                used[0].path, enc.get(ret), "offers" if g[1] else "does not offer"))
    # 3. what the server announces
    root = [f for f in F.fns.values() if f.name == "main" and f.crate == "move_language_server"]
    if len(root) != 1:
        raise Anchor("main")
    M = EncodingModel(F)
    en, c = run(F, M, root[0], [], [], None, WORKSPACE)
    R.count("abstract states", en.steps)
    if not M.made:
        raise Anchor("the result of initialize")
    for g, e, fn, line, ctx in M.made:
        says = None
        if isinstance(e, tuple) and e[0] == "adt" and e[1] == M.opt:
            says = 0 if not e[3] else (1 if e[3][0] == ("s", "utf-8") else None)
        if g is None:
            if True:
                R.violation("C18|announced", fn.loc(line), "%s: the offset encoding announced does not depend on what the client offers" % fn.path)
        elif g[0] != "#caps" or says != g[1]:
            R.violation("C18|announced", fn.loc(line), "%s: %s is announced to a client that %s UTF-8" % (
                fn.path, {0: "no offset encoding", 1: "utf-8"}.get(says, "another offset encoding"), "offers" if g[1] else "does not offer"))
    for caps, fn, line, ctx in M.given:
        if caps != "#caps":
            R.violation("C18|config", fn.loc(line), "%s: the configuration does not hold the client's capabilities (%s)" % (fn.path, caps))


class SupportModel(SymModel):
    tokens = ("#utf8",)

    def __init__(self, F):
        super().__init__(F)
        self.on("same", lambda c: c.trait == "core::cmp::PartialEq" and c.name in ("eq", "ne"), self.same)
        self.on("contains", lambda c: c.name == "contains", self.has)

    def has(self, en, ctx, g, fn, c, a, t):
        _, v = self.target(en, a)
        x = self.plain(en, en.deref_all(a[1], en.env), en.env) if len(a) > 1 else None
        if isa(v, "#seq") and isinstance(x, tuple) and x[0] == "s":
            return [(int("#utf8" in v[1][1:] and x[1] == "utf-8"), g)]
        return None

    def same(self, en, ctx, g, fn, c, a, t):
        x, y = (self.plain(en, en.deref_all(v, en.env), en.env) for v in a[:2])
        if isinstance(y, str):
            x, y = y, x
        if x in ("#utf8", "#other") and isinstance(y, tuple) and y[0] == "s":
            hit = int(x == "#utf8" and y[1] == "utf-8")
            return [(hit if c.name == "eq" else 1 - hit, g)]
        return None


@guarded
def positions(F, R):
    R.rule("Interpretation of the way from a syntax error's offsets to the positions in a diagnostic, of every function between offsets "
           "and positions, and of the choice of the encoding from initialize to its use, for both encodings.")
    ms = analysis_runs(F)
    if not sum(M.ranges for M in ms) and not any(M.viol for M in ms):
        raise Anchor("the range of a diagnostic")
    of(R, ms, "C18")
    conversions(F, R)
    negotiation(F, R)
