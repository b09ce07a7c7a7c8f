"""Effects: what reaches standard output, and what the analysis may depend on."""
from ..events import EventModel, run
from ..graph import CallGraph, operands
from ..parser_model import Anchor
from .parsing import chain, guarded

TOOLS = ("generate_ast", "test_utils")
_memo = {}


def graph(F):
    if _memo.get("g", (None,))[0] is not F:
        _memo["g"] = (F, CallGraph(F))
    return _memo["g"][1]


def mains(F):
    r = [f for f in F.fns.values() if f.crate == "move_language_server" and f.path.endswith("::main") and f.argc == 0
         and any(c is not None and c.crate == "move_language_server" for _, _, c in f.calls())]
    if not r:
        raise Anchor("the main function of the server")
    return r


def server_roots(F):
    """main, and whatever external crates may call back: trait implementations"""
    return [f.key for f in mains(F)] + sorted(
        f.key for f in F.fns.values() if f.crate not in TOOLS and f.impl_trait and f.kind == "AssocFn")


def values(v, kind, out):
    if isinstance(v, list):
        if v and v[0] == kind:
            out.append(v)
        for x in v:
            values(x, kind, out)
    return out


def consts(f):
    for i, o in operands(f, cleanup=True):
        if o[0] == "k":
            yield f.blocks[i]["t"]["line"], o[1]
    for b in f.blocks:
        for s in b["s"]:
            if s[0] == "=" and s[2][0] in ("ref", "addr", "tls"):
                yield s[3], s[2]


# ------------------------------------------------------------ standard output
WRITES = ("std::io::stdio::_print", "std::io::stdio::stdout", "std::io::stdio::print_to", "std::io::stdio::set_output_capture",
          "libc::", "rustix::", "nix::", "tracing_subscriber::fmt::init", "tracing_subscriber::fmt::try_init")
LIBC_OUT = ("write", "writev", "printf", "puts", "putchar", "dup", "dup2", "dup3", "fwrite", "sendfile", "splice", "syscall", "vprintf")
PATHS = ("/dev/stdout", "/dev/fd/1", "/proc/self/fd/1", "/dev/tty")
CONSUMERS = ("with", "init", "try_init", "set_global_default", "set_default", "with_default", "and_then", "boxed", "finish")


def is_stdout(t):
    """does the type say so, in one of its arguments (which include defaulted ones)?"""
    return t is not None and any("io::stdio::Stdout" in x.s or "io::Stdout" in x.s for x in t.subtypes())


class Stdio(EventModel):
    """g: 0 before the connection is made, 1 while its threads may hold unwritten messages, 2 after they were joined"""

    def __init__(self, F):
        super().__init__(F)
        on = self.on
        on("stdio", lambda c: c.crate == "lsp_server" and c.name == "stdio", self.open)
        on("join", lambda c: c.crate == "lsp_server" and c.name == "join" and "IoThreads" in c.rpath, self.join)
        on("exit", lambda c: c.rpath in ("std::process::exit", "std::process::abort"), lambda en, ctx, g, fn, c, a, t: [])
        on("loop", lambda c: c.crate == "move_language_server" and c.name == "main_loop",
           lambda en, ctx, g, fn, c, a, t: [(self.ok(("tup", ())), "after" if g == 1 else g), (self.err(), "failed" if g == 1 else g)])

    def gjoin(self, a, b):
        return a

    def open(self, en, ctx, g, fn, c, a, t):
        if g != 0:
            self.report("C12|twice", fn, t["line"], "a second connection on standard input and output is made", ctx)
        return [(None, 1)]

    def join(self, en, ctx, g, fn, c, a, t):
        return [(self.ok(("tup", ())), "joined"), (self.err(), "joined")]


@guarded
def stdout(F, R):
    R.rule("Call graph from main and from every trait implementation of the server's crates (external crates may call those): no "
           "reachable function writes to standard output (print macros, Stdout handles, raw descriptors, subscribers whose type "
           "says Stdout, child processes that inherit it). Interpretation of main: one stdio connection, whose threads are "
           "joined on every way out that follows a main loop ended normally.")
    C = graph(F)
    S = C.reach(server_roots(F))
    fns = sorted((F.fns[k] for k in S if k in F.fns), key=lambda f: f.path)
    R.count("functions", len(fns))

    def bad(f, line, what):
        R.violation("out|%s|%s" % (f.path, what), f.loc(line), "%s: %s" % (f.path, what), C.path_to(S, f.key)[-12:])
    for f in fns:
        spawns, piped = [], False
        for i, t, c in f.calls(cleanup=True):
            if c is None:
                continue
            p = c.rpath
            R.count("call sites")
            line = t["line"]
            if p.startswith("libc::") and c.name not in LIBC_OUT:
                continue
            if any(p == w or (w.endswith("::") and p.startswith(w)) for w in WRITES):
                bad(f, line, "%s writes to, or hands out, standard output" % p)
                continue
            if c.name in ("from_raw_fd", "borrow_raw") and t["args"] and not (
                    t["args"][0][0] == "k" and t["args"][0][1][1] not in (["int", 1], 1)):
                bad(f, line, "a file is made of a raw descriptor")
            if "process::Command" in p:
                if c.name in ("spawn", "status", "exec"):
                    spawns.append(line)
                if c.name == "stdout":
                    a = t["args"][1]
                    piped = True
            if p == "std::process::Stdio::inherit":
                bad(f, line, "a child process inherits the server's streams")
            if c.crate.startswith("tracing") and c.name not in CONSUMERS:
                continue
            dst = f.place_ty(t["dst"]) if t.get("dst") is not None else None
            if any(is_stdout(f.op_ty(a)) for a in t["args"]) and c.name != "drop":
                bad(f, line, "a value that writes to standard output is given to %s" % p)
        if spawns and not piped:
            bad(f, spawns[0], "a child process inherits standard output")
        for line, v in consts(f):
            for s in values(v, "str", []):
                if s[1] in PATHS:
                    bad(f, line, "the path %s is used" % s[1])
            for s in values(v, "fn", []):
                d = s[1]
                for p in (d["path"], (d.get("res") or d)["path"]):
                    if p in WRITES[:4]:
                        bad(f, line, "%s is passed on" % p)
    for m in mains(F):
        M = Stdio(F)
        en, c = run(F, M, m, [None] * m.argc, [], 0, {"move_language_server"})
        if "stdio" not in M.seen or "loop" not in M.seen:
            raise Anchor("the stdio connection and the main loop in main")
        for (ret, cells, _k), g in c.out.items():
            R.count("ways out of main")
            if g == "after":
                R.violation("join|" + m.path, m.loc(), "%s: the server ends without waiting for its last messages to be written" % m.path)
        for key, (fn, line, msg, ctx) in sorted(M.viol.items()):
            R.violation(key, fn.loc(line), "%s: %s" % (fn.path, msg), chain(ctx) if ctx else [])
        R.count("contexts of main", len(en.all))


# ------------------------------------------------------------ purity
ANALYSIS = "ide::Analysis"
CORE = ("parser", "syntax", "ide_db", "ide_diagnostics")
OUTSIDE = ("std::fs::", "std::env::", "std::net::", "std::process::", "std::thread::", "std::time::", "std::io::stdio::", "std::os::",
           "std::sync::", "core::sync::atomic::", "rand::", "getrandom::", "fastrand::", "libc::", "std::random::", "std::panic::Location",
           "std::sys", "std::alloc::", "crossbeam", "parking_lot", "once_cell", "lazy_static", "std::backtrace::")
ALLOWED = ("alloc::sync::Arc", "std::thread::local_impl", "std::process::abort")
ORDERED = ("iter", "iter_mut", "keys", "values", "values_mut", "into_iter", "drain", "into_keys", "into_values", "retain", "extract_if",
           "difference", "union", "intersection", "symmetric_difference", "fmt", "next")


@guarded
def purity(F, R):
    R.rule("Call graph from every method of the parser, the syntax tree, the line index, the diagnostics and of Analysis and from every salsa "
           "query: no function reached reads or writes anything but its arguments and the database: no file system, environment, clock, "
           "randomness, thread, process or lock, no static that can change, no order of a randomly seeded hash table, no address.")
    C = graph(F)
    queries = [f for f in F.fns.values() if f.impl_trait and f.impl_trait.startswith("salsa::plumbing::QueryFunction") and f.name == "execute"]
    if not queries:
        raise Anchor("the salsa queries")
    roots = sorted({f.key for f in queries} | {f.key for f in F.fns.values() if f.crate in CORE and f.kind == "AssocFn"}
                   | {f.key for f in F.fns.values() if F.adt_path(f.impl_self()) == ANALYSIS})
    S = C.reach(roots, stop=lambda f: f.crate in TOOLS)
    fns = sorted((F.fns[k] for k in S if k in F.fns and F.fns[k].crate not in TOOLS), key=lambda f: f.path)
    R.count("functions", len(fns))
    R.count("queries", len(queries))
    stat = {s["key"]: s for s in F.statics}

    def bad(f, line, what):
        R.violation("pure|%s|%s" % (f.path, what), f.loc(line), "%s: %s" % (f.path, what), C.path_to(S, f.key)[-12:])
    for f in fns:
        for i, t, c in f.calls(cleanup=True):
            if c is None:
                continue
            R.count("call sites")
            line = t["line"]
            for p in {c.rpath, c.path}:
                q = p.lstrip("<")
                if q.startswith(OUTSIDE) and not any(x in p for x in ALLOWED):
                    if q.startswith("std::os::") and "OsStrExt" in p or p in ("std::io::stdio::_eprint", "std::io::stdio::stderr"):
                        continue
                    bad(f, line, "calls %s" % p)
                    break
            if c.name in ORDERED and ("hash::map" in c.rpath or "hash::set" in c.rpath or "hash::" in c.path):
                if any("RandomState" in x.s for x in c.args()):
                    bad(f, line, "depends on the order of a randomly seeded hash table (%s)" % c.rpath)
        for b in f.blocks:
            for s in b["s"]:
                if s[0] != "=":
                    continue
                r = s[2]
                if r[0] == "cast" and r[1] in ("PtrToInt", "PointerExposeProvenance", "PointerExposeAddress"):
                    bad(f, s[3], "uses an address as a number")
        for line, v in consts(f):
            for s in values(v, "static", []) + values(v, "tls", []):
                st = stat.get(s[1])
                if st is None:
                    p = s[2] if len(s) > 2 else str(s[1])
                    if str(p).startswith(("tracing", "log::", "core::", "alloc::")):
                        continue
                    bad(f, line, "uses the external static %s" % p)
                    continue
                ty = st["unit"].types[st["ty"]]
                if "tracing_core::" in ty.s or "tracing::" in ty.s:
                    continue
                R.count("statics mentioned")
                if st["mut"] or not st["freeze"] or st["tls"]:
                    bad(f, line, "uses the static %s, which can change" % st["path"])
