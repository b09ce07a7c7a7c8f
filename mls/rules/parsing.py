"""Properties decided by abstract interpretation of the parser."""
from ..interp import BodyInfo, Engine
from ..parser_model import KIND, LEXER, Anchor, ParserModel, finite_loop, names_of, progress

ENTRY = "parser::parse_with_lexer"
_memo = {}


def lexer_kinds(F):
    """the SyntaxKind values the lexer mentions: the kinds its tokens may have"""
    from ..graph import CallGraph
    k, a = F.adt_by_path(KIND)
    if k is None:
        raise Anchor("SyntaxKind")
    G = graph(F)
    roots = [f.key for f in F.crate_fns("parser") if F.adt_path(f.impl_self()) == LEXER]
    if not roots:
        raise Anchor("Lexer")
    kinds = set()

    def val(v):
        if isinstance(v, list):
            if v and v[0] == "adt" and v[1] == k:
                kinds.add(v[2])
            for x in v:
                val(x)
    for key in G.reach(roots):
        f = F.body(key)
        if f is None or f.crate != "parser" or f.derived:
            continue
        if f.impl_trait:      # From<u16>, Debug...: not part of lexing
            continue
        for b in f.blocks:
            for s in b["s"]:
                if s[0] == "=":
                    if s[2][0] == "agg" and isinstance(s[2][1], list) and s[2][1][0] == "adt" and s[2][1][1] == k:
                        kinds.add(s[2][1][2])
                    val(s[2])
            t = b["t"]
            if t["k"] in ("call", "tailcall"):
                for x in t["args"]:
                    val(x)
    m = 0
    for i in kinds:
        m |= 1 << i
    return m


def graph(F):
    if "graph" not in _memo or _memo["graph"].F is not F:
        from ..graph import CallGraph
        _memo["graph"] = CallGraph(F)
    return _memo["graph"]


def trivia_kinds(F):
    """kinds for which SyntaxKind::is_trivia returns true, by interpretation"""
    from ..interp import Model
    k, a = F.adt_by_path(KIND)
    fns = [f for f in F.crate_fns("parser") if f.name == "is_trivia" and F.adt_path(f.impl_self()) == KIND]
    if not fns:
        raise Anchor("SyntaxKind::is_trivia")
    m = 0
    for i, v in enumerate(a["variants"]):
        en = Engine(F, Model(), {"parser"})
        c = en.get_ctx(fns[0], (("adt", k, i, ()),), (), 0)
        en.solve([c])
        rets = {r for (r, _, _) in c.out}
        if rets == {1}:
            m |= 1 << i
        elif rets != {0}:
            raise Anchor("the value of is_trivia(%s)" % v["name"])
    return m


def interpret(F):
    """interpret the whole parser once"""
    if "run" in _memo and _memo["run"][0] is F:
        return _memo["run"][1]
    trivia = trivia_kinds(F)
    U = lexer_kinds(F) & ~trivia
    k, a = F.adt_by_path(KIND)
    idx = {v["name"]: i for i, v in enumerate(a["variants"])}
    U |= 1 << idx["EOF"]
    M = ParserModel(F, U, trivia, [("INTEGER_NUMBER", "DIEM_ADDRESS")])
    en = Engine(F, M, {"parser"})
    r = F.fn(ENTRY)
    if r is None:
        raise Anchor(ENTRY)
    c = en.get_ctx(r, (("L",),), (), M.initial())
    en.solve([c])
    _memo["run"] = (F, (en, M, c))
    return _memo["run"][1]


def report_stats(F, R, en, M):
    R.count("functions interpreted", len({c.fn.key for c in en.all}))
    R.count("calling contexts", len(en.all))
    R.count("abstract states", en.steps)
    R.count("token kinds", bin(M.U).count("1"))
    R.assume("the token stream is any sequence of the %d kinds the lexer mentions, ending in EOF" % bin(M.U).count("1"))


def emit(F, R, M, kinds):
    for (kind, path, detail), (fn, line, g, ctx) in sorted(M.viol.items(), key=lambda x: x[0]):
        if kind in kinds:
            cur = names_of(F, g[0])
            R.violation("%s|%s|%s" % (kind, path, detail), fn.loc(line),
                        "%s: %s; current token there: %s" % (path, detail, ", ".join(cur[:8]) + ("..." if len(cur) > 8 else "")),
                        chain(ctx))


def chain(ctx, n=12):
    """one call chain from the entry point"""
    p = []
    seen = set()
    while ctx is not None and ctx.id not in seen and len(p) < n:
        seen.add(ctx.id)
        p.append("in %s (%s)" % (ctx.fn.path, ctx.fn.loc()))
        nxt = [c for c in ctx.callers if c.id not in seen]
        ctx = min(nxt, key=lambda c: c.id) if nxt else None
    return p


def guarded(fn):
    def w(F, R):
        try:
            fn(F, R)
        except Anchor as e:
            R.anchor(str(e))
    return w


def lexer(F, R, prop):
    from .lexing import lexer_faults
    try:
        lexer_faults(F, R, prop)
    except Anchor as e:
        R.assume("The lexer could not be followed (%s); its texts are not judged here." % e)


@guarded
def termination(F, R):
    en, M, c = interpret(F)
    report_stats(F, R, en, M)
    R.rule("Abstract interpretation of the parser over the MIR: every feasible cycle of a loop and every feasible "
           "cycle of calls in the grammar must consume a token other than EOF. Loops of the lexer, of the event "
           "processor and of the tree sink must be driven by a std iterator or by a counter that every iteration "
           "increases.")
    v, rec, n = progress(en)
    R.count("loops of the grammar", n)
    for (path, o), (fn, line, ctx) in sorted(v.items()):
        R.violation("loop|%s|%d" % (path, o), fn.loc(line),
                    "an iteration of this loop in %s may consume no token" % path, chain(ctx))
    for fns, ctx in sorted(rec.items()):
        R.violation("recursion|" + ",".join(fns), ctx.fn.loc(),
                    "recursion without consuming a token: " + " -> ".join(fns), chain(ctx))
    emit(F, R, M, {"opaque"})
    from . import loops
    roots = [f.key for f in F.fns.values() if f.crate == "syntax" and f.name == "parse"
             and F.adt_path(f.impl_self()) == "syntax::ast::nodes::SourceFile"]
    if not roots:
        raise Anchor("SourceFile::parse")
    done = {x.fn.key for x in en.all}
    loops.check(F, R, [k for k in graph(F).reach(roots) if k not in done], graph(F))
    lexer(F, R, "C01")
    if not c.out:
        R.violation("noreturn|" + ENTRY, c.fn.loc(), "the interpretation of the parser has no terminating path")


@guarded
def no_panic(F, R):
    en, M, c = interpret(F)
    report_stats(F, R, en, M)
    R.rule("Abstract interpretation of the parser over the MIR: no panic, failed assertion or overflowing shift is "
           "reachable in the grammar for any token sequence, and no node marker is dropped unfinished.")
    emit(F, R, M, {"panic", "opaque"})
    R.rule("Abstract interpretation of the lexer over texts known by the set of characters at each position: no slice off a character "
           "boundary or beyond the text, no failed unwrap, no token that ends inside a character.")
    lexer(F, R, "C02")


@guarded
def balanced(F, R):
    en, M, c = interpret(F)
    report_stats(F, R, en, M)
    emit(F, R, M, {"marker", "opaque"})


@guarded
def token_kinds(F, R):
    en, M, c = interpret(F)
    report_stats(F, R, en, M)
    emit(F, R, M, {"count", "remap"})
    for (ret, _, gk), g in c.out.items():
        if g[0] != M.eof:
            R.violation("eof|" + ENTRY, c.fn.loc(), "parsing may end before the end of input")
        if g[4]:
            R.violation("pend|" + ENTRY, c.fn.loc(), "tokens consumed without a token event")
