"""Documents and files: from client notifications through the virtual file
system to the inputs of the analysis.  One turn of the main loop is
interpreted per scenario, starting from `main_loop`."""
from collections import namedtuple

from ..events import WORKSPACE, run
from ..parser_model import Anchor
from ..seqs import ABS, DUP, EMPTY, SymModel, isa, mapv, seq
from .parsing import chain, guarded
from .server import MSG, NOTE, REQ, RESP, STATE, TASK, lsp_trait_arg

D = namedtuple("D", "turn R ev lib bad loc")
D0 = D(0, None, (), None, 0, None)
VFS = "vfs::Vfs"
CHANGED = "vfs::ChangedFile"
KINDS = "vfs::ChangeKind"
FILE_ID = "vfs::FileId"
ROOT = "base_db::input::SourceRoot"
HIGH, LOW = "2", "0"      # salsa::Durability::{HIGH, LOW}


class DocModel(SymModel):
    """one turn; `message()` is what the first receive yields"""
    tokens = ("#F", "#index")
    max_part = 60

    def __init__(self, F, name):
        super().__init__(F)
        self.scenario = name
        self.method = None
        self.ends = []
        self.sites = {}
        on = self.on
        on("recv", lambda c: c.crate == "crossbeam_channel" and c.name in ("recv", "try_recv", "recv_timeout", "recv_deadline"),
           self.recv)
        on("send", lambda c: c.crate == "crossbeam_channel" and c.name in ("send", "try_send"), self.send)
        on("from_json", lambda c: c.crate == "serde_json" and c.name in ("from_value", "from_str", "from_slice"), self.from_json)
        on("method", lambda c: c.trait == "core::cmp::PartialEq" and c.name in ("eq", "ne"), self.eq)
        on("execute", lambda c: c.crate == "threadpool" and c.name == "execute", self.execute)
        on("into message", lambda c: c.name in ("into", "from") and any(self.F.adt_path(x) == MSG for x in c.args()),
           self.into_message)
        on("utf8", lambda c: c.name in ("from_utf8", "from_utf8_lossy") and c.crate in ("alloc", "core"), self.utf8)

    def utf8(self, en, ctx, g, fn, c, a, t):
        x = en.term(a[0], en.env)
        if c.name == "from_utf8_lossy":
            return [(x, g), ("#lossy", g._replace(bad=1))]
        return [(self.ok(x), g), (self.err(), g._replace(bad=1))]

    def ev(self, g, *e):
        e = tuple(str(x) for x in e)
        if len(g.ev) > 14:
            return g
        return g._replace(ev=g.ev + (e,))

    def message(self, g):
        return [(self.variant(MSG, "Notification", self.struct(NOTE, method="#m")), g)]

    def recv(self, en, ctx, g, fn, callee, args, term):
        a = callee.args()
        t = self.F.adt_path(a[0]) if a else None
        if t not in (MSG, TASK):
            return None
        if g.turn == 0:
            if t == TASK:
                return self.tasks(en, g)
            return [(self.ok(m), g2._replace(turn=1, ev=())) for m, g2 in self.message(g)] or []
        if t == TASK:
            return [(self.err(), g)] if callee.name != "recv" else []
        if g.turn == 1:
            self.end(en, g, fn, ctx, term)
            return [(self.err(), g._replace(turn=2, ev=()))]
        return [(self.err(), g)]

    def tasks(self, en, g):
        return []

    def end(self, en, g, fn, ctx, term):
        self.ends.append((g, fn, term["line"], ctx))

    def send(self, en, ctx, g, fn, callee, args, term):
        return [(self.ok(("tup", ())), g)]

    def params(self):
        return None

    def from_json(self, en, ctx, g, fn, callee, args, term):
        return [(self.ok(self.params()), g)]

    def before(self, en, ctx, g, fn, callee, args, term):
        if callee is not None and callee.crate == "move_language_server":
            r = lsp_trait_arg(self.F, callee)
            if r is not None:
                g = g._replace(R=r)
        return g

    def eq(self, en, ctx, g, fn, callee, args, term):
        a = en.deref_all(args[0], en.env)
        b = en.deref_all(args[1], en.env)
        if a != "#m" and b != "#m":
            return None
        o = b if a == "#m" else a
        name = None if isinstance(o, tuple) and o[0] == "s" else g.R
        hit = int(name is not None and name == self.method)
        return [(hit if callee.name == "eq" else 1 - hit, g)]

    def into_message(self, en, ctx, g, fn, callee, args, term):
        for ty, name in ((RESP, "Response"), (REQ, "Request"), (NOTE, "Notification")):
            if any(self.F.adt_path(x) == ty for x in callee.args()):
                return [(self.variant(MSG, name, args[0]), g)]
        return None

    def execute(self, en, ctx, g, fn, callee, args, term):
        return [(("tup", ()), g)]

    def run(self):
        root = self.F.fn("move_language_server::main_loop::main_loop")
        if root is None:
            raise Anchor("main_loop")
        en, c = run(self.F, self, root, [None] * root.argc, [], D0, WORKSPACE)
        self.en = en
        self.root = c
        if not self.ends and not self.viol:
            raise Anchor("the end of a turn of the main loop (%s)" % self.scenario)
        return self


def emit(R, M, seen):
    R.count("scenarios")
    R.count("abstract states", M.en.steps)
    R.count("paths through the turn", len(M.ends))
    seen |= {c.fn.key for c in M.en.all}
    for key, (fn, line, msg, ctx) in sorted(M.viol.items()):
        R.violation(key, fn.loc(line), "%s: %s" % (fn.path, msg), chain(ctx) if ctx else [])


# ----------------------------------------------------------------- inputs
class ChangeModel(DocModel):
    """the turn that finds changes in the file system: #F changed, others may have"""
    listed = False

    def __init__(self, F, kind):
        super().__init__(F, kind)
        self.kind = kind
        on = self.on
        vfs = lambda c, n: c.name == n and "vfs::Vfs::" in c.rpath
        fid = lambda t: self.struct(FILE_ID, **{"0": t})
        self.fid = fid
        on("take_changes", lambda c: vfs(c, "take_changes"), self.take)
        on("has_changes", lambda c: vfs(c, "has_changes"), lambda en, ctx, g, fn, c, a, t: [(1, g)])
        on("file_contents", lambda c: vfs(c, "file_contents"), self.contents)
        on("file_path", lambda c: vfs(c, "file_path"), lambda en, ctx, g, fn, c, a, t: [("#path(%s)" % en.term(a[1], en.env), g)])
        on("as_path", lambda c: c.name == "as_path" and c.rpath.startswith("vfs::vfs_path::VfsPath::"),
           lambda en, ctx, g, fn, c, a, t: [(self.some(en.term(a[0], en.env)), g)])     # the server only adds real paths
        on("partition", lambda c: c.name == "partition" and "FileSetConfig" in c.rpath,
           lambda en, ctx, g, fn, c, a, t: [(seq("#files(#F)", "#files(#G)"), g)])
        on("files", lambda c: c.name == "iter" and "file_set::FileSet::" in c.rpath, self.files)
        on("normalize", lambda c: c.name == "normalize" and "LineEndings" in c.rpath, self.norm)
        on("endings", lambda c: c.name == "insert" and any("LineEndings" in x.s for x in c.args()), self.endings)
        on("local", lambda c: c.name == "contains" and any(x in c.rpath for x in ("slice", "Set", "Vec")), self.is_local)
        on("local any", lambda c: c.name in ("any", "position", "find", "binary_search") and ("Iterator" in c.rpath or "slice" in c.rpath), self.any_local)
        on("salsa", lambda c: c.trait == "base_db::SourceDatabase" or (c.path.startswith("base_db::SourceDatabase::")), self.salsa)

    def take(self, en, ctx, g, fn, c, a, t):
        self.sites["take"] = (fn, t["line"], ctx)
        return [(seq(self.struct(CHANGED, file_id=self.fid("#F"), change_kind=self.variant(KINDS, self.kind)),
                     self.struct(CHANGED, file_id=self.fid("#G"), change_kind=None)), g)]

    def binop(self, en, op, a, b):
        if op in ("Eq", "Ne") and {a, b} == {"#index", None}:
            return ("" if op == "Eq" else "!") + "#Eq(#index,?)"      # an element of an unknown list
        return None

    def is_local(self, en, ctx, g, fn, c, a, t):
        self.sites["local"] = (fn, t["line"], ctx)
        p, v = self.target(en, a)
        if v is None and en.term(a[1], en.env) == "#index":
            return [(1, g._replace(loc=1)), (0, g._replace(loc=0))]
        return None

    def any_local(self, en, ctx, g, fn, c, a, t):
        p, v = self.target(en, a)
        x = a[1] if len(a) > 1 else None
        if v is not None or not isinstance(x, tuple):
            return None
        caught = [en.deref_all(y, en.env) for y in x[2]] if x[0] == "cl" else [en.deref_all(x, en.env)]
        if "#index" not in caught:
            return None
        self.sites["local"] = (fn, t["line"], ctx)
        yes, no = {"any": (1, 0), "binary_search": (self.ok(), self.err())}.get(c.name, (self.some(), self.none()))
        return [(yes, g._replace(loc=1)), (no, g._replace(loc=0))]

    def contents(self, en, ctx, g, fn, c, a, t):
        f = en.term(a[1], en.env)
        if self.kind == "Delete" and f == "#F":
            self.report("C14|deleted-contents", fn, t["line"], "the contents of a deleted file are read, which panics", ctx)
            return []
        return [("#bytes(%s)" % f, g)]

    def files(self, en, ctx, g, fn, c, a, t):
        x = en.term(a[0], en.env)
        if x == "#files(#F)" and self.kind != "Delete":
            return [(self.it("#F", "#G"), g)]
        return [(self.it(ABS, "#G"), g)]

    def norm(self, en, ctx, g, fn, c, a, t):
        self.sites["normalize"] = (fn, t["line"], ctx)
        x = en.term(a[0], en.env)
        f = "#F" if x == "#bytes(#F)" else ("#G" if x == "#bytes(#G)" else None)
        if f is None:
            self.report("C19|normalize", fn, t["line"], "what is normalized is not the contents of a changed file (%s)" % x, ctx)
        return [(("tup", ("#norm(%s)" % f, "#endings(%s)" % f)), g)]

    def endings(self, en, ctx, g, fn, c, a, t):
        k, v = en.term(a[1], en.env), en.term(a[2], en.env)
        if v != "#endings(%s)" % k:
            self.report("C19|endings", fn, t["line"], "the line endings recorded for %s are %s" % (k, v), ctx)
        if k == "#F":
            g = self.ev(g, "endings")
        return [(None, g)]

    def salsa(self, en, ctx, g, fn, c, a, t):
        n = c.name
        line = t["line"]
        site = {"set_file_text": "text", "set_file_source_root": "fileroot", "set_source_root": "root", "set_local_roots": "local_roots",
                "set_library_roots": "library_roots"}.get(n.replace("_with_durability", ""))
        if site:
            self.sites[site] = (fn, line, ctx)
        v = lambda k, m: self.report(k, fn, line, m, ctx)
        terms = [en.term(x, en.env) for x in a[1:]]
        if n.startswith("set_"):
            dur = LOW
            if n.endswith("_with_durability"):
                n = n[:-len("_with_durability")]
                dur = terms[-1]
                terms = terms[:-1]
            if n == "set_file_text":
                f, txt = terms
                if f == "#F":
                    g = self.ev(g, "text", txt, dur)
                elif f == "#G":
                    if txt is not None and txt not in ("#norm(#G)", "''"):
                        v("C14|other-text", "the text of a file is set to %s" % txt)
                else:
                    v("C14|text-file", "the text of an unknown file (%s) is set" % f)
            elif n == "set_file_source_root":
                if terms[0] == "#F":
                    g = self.ev(g, "fileroot", terms[1], dur)
            elif n == "set_source_root":
                val = self.plain(en, a[2], en.env)
                lib = self.get(val, ROOT, "is_library")
                fs = en.term(self.get(val, ROOT, "file_set"), en.env) if self.get(val, ROOT, "file_set") else None
                if fs == "#files(#F)":
                    g = self.ev(g, "root", terms[0], lib, dur)._replace(lib=lib)
                elif fs is None:
                    v("C14|root", "the source root set here cannot be determined")
            elif n in ("set_local_roots", "set_library_roots"):
                s = self.plain(en, a[1], en.env)
                if isa(s, "#seq"):
                    g = self.ev(g, n[4:], 1 if s[1][1] != ABS else ("?" if s[1][2] is None else 0), en.term(s[1][1], en.env))
                elif g.turn == 1:
                    v("C14|roots", "the set of roots given to %s cannot be determined" % n)
            return [(("tup", ()), g)]
        if n == "file_source_root":
            return [("#root-of(%s)" % terms[0], g)]
        if n == "source_root":
            if terms[0] == "#root-of(#F)":
                if not any(e[0] == "root" for e in g.ev) and self.kind == "Create":
                    v("C14|unset-root", "the source root of a new file is queried before it is set, which panics")
                if g.lib is None:
                    return [("#the-root", g)]
                return [(self.struct(ROOT, is_library=g.lib, file_set="#files(#F)"), g)]
            return [(None, g)]
        return None

    def assume(self, en, g, term, val):
        if "#the-root" in term:
            return g._replace(lib=val)
        if term == "#Eq(#index,?)":
            self.listed = True
            return g._replace(loc=1 if val or g.loc else 0)
        return g


def counted(*terms):
    """positions counted by enumerate, which are comparable"""
    return all("#index" in t for t in terms)


SITE = {"C14|texts": "take", "C14|text": "text", "C19|text": "text", "C19|ends": "normalize", "C14|fileroot": "take",
        "C14|root": "take", "C14|root-durability": "root", "C14|root-id": "fileroot", "C14|local": "local_roots",
        "C14|library": "library_roots", "C14|root-set-id": "local_roots", "C14|local-config": "local", "C14|kind": "text",
        "C14|durability": "text"}


def report_at(M, site, key, msg):
    M.report(key, site[0], site[1], msg, site[2])


def judge(M):
    kind = M.kind
    for g, fn, line, ctx in M.ends:
        at = lambda k: M.sites.get(SITE.get(k), (fn, line, ctx))
        v = lambda k, m: report_at(M, at(k), k + "|" + kind, "a %s file: %s" % (
            {"Create": "new", "Modify": "modified", "Delete": "deleted"}.get(kind, kind), m))
        texts = [e for e in g.ev if e[0] == "text"]
        roots = [e for e in g.ev if e[0] == "root"]
        froots = [e for e in g.ev if e[0] == "fileroot"]
        ends = [e for e in g.ev if e[0] == "endings"]
        if len(texts) != 1:
            v("C14|texts", "its text is given to the analysis %s" % ("twice" if texts else "never"))
            continue
        _, txt, dur = texts[0]
        if kind == "Delete":
            if txt != "''":
                v("C14|text", "its text becomes %s" % txt)
        elif g.bad:
            if txt not in ("''", "#norm(#F)"):
                v("C14|text", "its text becomes %s although its contents are not UTF-8" % txt)
        else:
            if txt != "#norm(#F)":
                v("C19|text", "its text becomes %s, not its contents with normalized line endings" % txt)
            if len(ends) != 1:
                v("C19|ends", "its line endings are recorded %d times" % len(ends))
        if kind != "Modify":
            if kind == "Create":
                if len(froots) != 1:
                    v("C14|fileroot", "its source root is assigned %d times" % len(froots))
                    continue
            if len(roots) != 1:
                v("C14|root", "the contents of its source root are set %d times" % len(roots))
                continue
            _, idx, lib, rdur = roots[0]
            want = HIGH if lib == "1" else LOW
            if rdur != want:
                v("C14|root-durability", "its source root (library: %s) gets durability %s" % (lib, rdur))
            if froots:
                if froots[0][1] != idx and counted(froots[0][1], idx):
                    v("C14|root-id", "it is assigned to root %s but listed in root %s" % (froots[0][1], idx))
                if froots[0][2] != want:
                    v("C14|root-durability", "its root assignment (library: %s) gets durability %s" % (lib, froots[0][2]))
            for e in g.ev:
                if e[0] not in ("local_roots", "library_roots") or e[1] == "?":
                    continue
                if e[1] == "1" and counted(e[2], idx) and e[2] != idx:
                    v("C14|root-set-id", "it is listed in root %s but %s contains %s" % (idx, e[0], e[2]))
                if e[0] == "local_roots" and e[1] != ("0" if lib == "1" else "1"):
                    v("C14|local", "its root (library: %s) is %s the set of local roots" % (lib, "in" if e[1] == "1" else "not in"))
                if e[0] == "library_roots" and e[1] != ("1" if lib == "1" else "0"):
                    v("C14|library", "its root (library: %s) is %s the set of library roots" % (lib, "in" if e[1] == "1" else "not in"))
            if g.loc is None and M.listed:
                pass        # an iteration over the list that did not begin
            elif g.loc is None:
                v("C14|local-config", "its root is set as local or as a library without regard to the configured local file sets")
            elif lib in ("0", "1") and int(lib) == g.loc:
                v("C14|local-config", "its root is %s the configured local file sets but is set as %s root" % (
                    "among" if g.loc else "not among", "a library" if lib == "1" else "a local"))
        if str(g.lib) not in ("0", "1"):
            v("C14|kind", "the durability of its text does not depend on its source root")
        elif dur != (HIGH if str(g.lib) == "1" else LOW):
            v("C14|durability", "its text (library: %s) gets durability %s" % (g.lib, dur))


_memo = {}


def changes(F):
    if _memo.get("changes", (None,))[0] is not F:
        ms = []
        for kind in [x["name"] for x in F.adt_by_path(KINDS)[1]["variants"]]:
            M = ChangeModel(F, kind).run()
            judge(M)
            for need in ("take_changes", "salsa", "normalize"):
                if need not in M.seen and not (need == "normalize" and kind == "Delete"):
                    raise Anchor("a call of " + need)
            ms.append(M)
        _memo["changes"] = (F, ms)
    return _memo["changes"][1]


def of(R, ms, pid):
    seen = set()
    for M in ms:
        R.count("scenarios")
        R.count("abstract states", M.en.steps)
        R.count("paths to the end of the turn", len(M.ends))
        R.sample("scenarios", M.scenario)
        seen |= {c.fn.key for c in M.en.all}
        for key, (fn, line, msg, ctx) in sorted(M.viol.items()):
            if key.startswith(pid + "|"):
                R.violation(key, fn.loc(line), "%s: %s" % (fn.path, msg), chain(ctx) if ctx else [])
    R.count("functions interpreted", len(seen))


@guarded
def inputs(F, R):
    R.rule("Interpretation of a turn of the main loop that finds changes in the file system, for one arbitrary file among "
           "any others, per kind of change, down to the setters of the incremental database.")
    of(R, changes(F), "C14")


@guarded
def endings(F, R):
    R.rule("The same interpretation: the text given to the analysis is the normalized contents of the same file and the line "
           "endings found by that normalization are recorded for it.")
    of(R, changes(F), "C19")
    from .texts import normalization
    R.rule("Interpretation of the normalization itself on every text of a few characters (by kind: carriage return, line feed, "
           "other): every carriage return before a line feed is gone and nothing else has changed.")
    normalization(F, R)


# -------------------------------------------------------------- documents
MEM = "move_language_server::mem_docs::MemDocs"
DOC = "move_language_server::mem_docs::DocumentData"
N = "lsp_types::notification::"
LSP = "lsp_types::"
OPEN, CHANGE, CLOSE = (N + x + "TextDocument" for x in ("DidOpen", "DidChange", "DidClose"))


def visit(v, key, out):
    if isinstance(v, tuple):
        if v[0] == "adt" and v[1] == key:
            out.append(v)
            return
        for x in (v[-1] if v[0] in ("adt", "cl") else v[1] if v[0] in ("tup", "arr") else ()):
            visit(x, key, out)
        if v[0] == "sref":
            visit(v[1], key, out)


class SyncModel(DocModel):
    """one notification about the document #path, which is open or not"""
    tokens = ("#path",)

    def __init__(self, F, method, is_open, bad=False):
        super().__init__(F, "%s, document %s%s" % (method.rsplit(":", 1)[-1] if method else "another message",
                                                    "open" if is_open else "not open", ", malformed" if bad else ""))
        self.method = method
        self.is_open = is_open
        self.malformed = bad
        self.memkey, a = F.adt_by_path(MEM)
        if self.memkey is None:
            raise Anchor(MEM)
        fs = a["variants"][0]["fields"]
        unit = F.adt_unit[self.memkey]
        tys = [unit.types[f["ty"]] for f in fs]
        self.mapix = [i for i, t in enumerate(tys) if "Map" in t.s and any("DocumentData" in x.s for x in t.subtypes())]
        if len(self.mapix) != 1:
            raise Anchor("the map of open documents in MemDocs")
        self.mapix = self.mapix[0]
        self.doc = self.struct(DOC, version="#v0")
        self.states = []
        on = self.on
        vfs = lambda c, n: c.name == n and "vfs::Vfs::" in c.rpath
        on("to_file_path", lambda c: c.name == "to_file_path", self.to_path)
        on("set", lambda c: vfs(c, "set_file_contents"), self.set)
        on("contents", lambda c: vfs(c, "file_contents"), lambda en, ctx, g, fn, c, a, t: [
            ("#text0" if en.term(a[1], en.env) == "#id(#path)" else None, g)])
        on("file_id", lambda c: vfs(c, "file_id"), lambda en, ctx, g, fn, c, a, t: [
            (self.some("#id(#path)" if self.mentions(en, a[1], en.env) else None), g)])
        on("no changes", lambda c: vfs(c, "take_changes"), lambda en, ctx, g, fn, c, a, t: [(EMPTY, g)])
        on("apply", self.applies, self.apply)
        on("path", lambda c: c.crate in ("paths", "vfs", "core"), self.path)

    def applies(self, c):
        if c.crate != "move_language_server":
            return False
        b = self.F.body(c.rkey)
        if b is None or b.argc != 2:
            return False
        a0, a1 = b.local_ty(1), b.local_ty(2)
        return a0.s == "&mut alloc::string::String" and any("TextDocumentContentChangeEvent" in x.s for x in a1.subtypes())

    def apply(self, en, ctx, g, fn, c, a, t):
        new = "#applied(%s,%s)" % (en.term(a[0], en.env), en.term(a[1], en.env))
        e = dict(en.env)
        if isinstance(a[0], tuple) and a[0][0] == "ptr":
            en.store(e, a[0][1], a[0][2], new)
        return [(("tup", ()), g, e)]

    def to_path(self, en, ctx, g, fn, c, a, t):
        if en.term(a[0], en.env) == "#uri":
            return [(self.ok("#path"), g), (self.err(), g._replace(bad=1))]
        return None

    def path(self, en, ctx, g, fn, c, a, t):
        """conversions between the path types keep the path"""
        ty = fn.place_ty(t["dst"])
        if len(a) == 1 and ty is not None and self.F.adt_path(ty) in ("vfs::vfs_path::VfsPath", "paths::AbsPathBuf") \
                and self.mentions(en, a[0], en.env):
            return [("#path", g)]
        return None

    def set(self, en, ctx, g, fn, c, a, t):
        val = en.deref_all(a[2], en.env)
        txt = en.term(val[3][0], en.env) if isinstance(val, tuple) and val[0] == "adt" and val[1] == self.opt and val[3] else str(val)
        self.sites["set"] = (fn, t["line"], ctx)
        where = "#path" if self.mentions(en, a[1], en.env) else en.term(a[1], en.env)
        return [(None, self.ev(g, "set", where, txt))]

    def params(self):
        td = dict(uri="#uri")
        if self.method == OPEN:
            return self.struct(LSP + "DidOpenTextDocumentParams", text_document=self.struct(
                LSP + "TextDocumentItem", uri="#uri", version="#v", text="#text"))
        if self.method == CHANGE:
            return self.struct(LSP + "DidChangeTextDocumentParams", content_changes="#changes", text_document=self.struct(
                LSP + "VersionedTextDocumentIdentifier", uri="#uri", version="#v"))
        if self.method == CLOSE:
            return self.struct(LSP + "DidCloseTextDocumentParams", text_document=self.struct(LSP + "TextDocumentIdentifier", uri="#uri"))
        return None

    def from_json(self, en, ctx, g, fn, callee, args, term):
        if self.malformed:
            return [(self.err(), g._replace(bad=2))]
        return super().from_json(en, ctx, g, fn, callee, args, term)

    def default_of(self, t, depth=0):
        v = super().default_of(t, depth)
        if isa(v, "#map") and any("DocumentData" in x.s for x in t.subtypes()):
            return mapv(self.doc if self.is_open else ABS, self.struct(DOC, version="#other"), "#path")
        return v

    def map_call(self, en, ctx, g, fn, callee, args, term, p, v):
        if any("DocumentData" in x.s for x in callee.args()) and callee.name not in ("get", "keys", "iter", "contains_key", "clone"):
            self.sites["docs"] = (fn, term["line"], ctx)
            if callee.name in ("remove", "remove_entry", "retain", "extract_if") and not (len(args) > 1 and self.mentions(en, args[1], en.env)):
                self.report("C21|others", fn, term["line"], "%s: other open documents than that of the notification may be forgotten" % self.scenario, ctx)
        return super().map_call(en, ctx, g, fn, callee, args, term, p, v)

    def end(self, en, g, fn, ctx, term):
        out = []
        for v in en.env.values():
            visit(v, self.memkey, out)
        d = None
        for m in out:
            m = m[3][self.mapix]
            if isa(m, "#map"):
                d = (m[1][1], m[1][2])
        self.ends.append((g, fn, term["line"], ctx))
        self.states.append((g, d, fn, term["line"], ctx))


def judge_sync(M):
    for g, d, fn, line, ctx in M.states:
        v = lambda k, m: report_at(M, M.sites.get(k, (fn, line, ctx)), "C21|%s|%s" % (k, M.scenario), "%s: %s" % (M.scenario, m))
        if d is None:
            v("docs", "the set of open documents at the end of the turn cannot be determined")
            continue
        d, others = d
        if others != M.struct(DOC, version="#other"):
            v("others", "the other open documents are %s" % ("forgotten" if others == ABS else "changed"))
        sets = [e for e in g.ev if e[0] == "set"]
        want = M.doc if M.is_open else ABS
        text = None
        if not g.bad:
            if M.method == OPEN:
                want, text = M.struct(DOC, version="#v"), "#text"
            elif M.method == CHANGE and M.is_open:
                want, text = M.struct(DOC, version="#v"), "#applied(#text0,#changes)"
            elif M.method == CLOSE:
                want = ABS
        if d != want:
            show = lambda x: "not open" if x == ABS else "open at version %s" % (
                x[3][0] if isinstance(x, tuple) and x[0] == "adt" and x[3] else x)
            v("docs", "the document is then %s instead of %s" % (show(d), show(want)))
        if text is None:
            if sets and M.method != CLOSE:
                v("set", "the contents of a file are set nevertheless")
        elif [e[1:] for e in sets] != [("#path", text)]:
            v("set", "its contents become %s instead of %s" % (", ".join(e[2] for e in sets) or "nothing new", text))


def sync_runs(F):
    if _memo.get("sync", (None,))[0] is not F:
        ms = []
        for is_open in (True, False):
            for method, bad in ((OPEN, 0), (CHANGE, 0), (CLOSE, 0), (None, 0), (CHANGE, 1), (OPEN, 1), (CLOSE, 1)):
                M = SyncModel(F, method, is_open, bad).run()
                judge_sync(M)
                ms.append(M)
        seen = set().union(*(M.seen for M in ms))
        for need, what in (("to_file_path", "a conversion of a URL to a path"), ("set", "a call of Vfs::set_file_contents"),
                           ("apply", "a function that applies content changes to a text")):
            if need not in seen:
                raise Anchor(what)
        _memo["sync"] = (F, ms)
    return _memo["sync"][1]


@guarded
def sync(F, R):
    R.rule("Interpretation of the turn of the main loop for each document notification, for a document that is open or not: "
           "the set of open documents, their versions and the contents given to the file system afterwards.")
    of(R, sync_runs(F), "C21")
    from .texts import edits
    R.rule("Interpretation of the application of a list of changes, full ones and ones of a range, to small texts: the result is "
           "that of applying them one after another.")
    edits(F, R)


# ------------------------------------------------------------- publication
COLLECTION = "move_language_server::diagnostics::DiagnosticCollection"
DIAG = "lsp_types::Diagnostic"
PUBLISH = "lsp_types::PublishDiagnosticsParams"
SHOWN = ("range", "severity", "message")


class PublishModel(DocModel):
    """a task brings new diagnostics of #F; `old`: which map already has some"""
    tokens = ("#F", "#index", "#new", "#old")

    def __init__(self, F, old, is_open, new="some"):
        super().__init__(F, "%s diagnostics, %s, the document %s" % (
            {"some": "new", "empty": "no more"}[new], {None: "none known before", 0: "others known before"}.get(old, "others known from %s" % old), "open" if is_open else "not open"))
        self.old = old
        self.is_open = is_open
        self.new = new
        self.doc = self.struct(DOC, version="#v0")
        key, a = F.adt_by_path(COLLECTION)
        if key is None:
            raise Anchor(COLLECTION)
        unit = F.adt_unit[key]
        self.maps = [f["name"] for f in a["variants"][0]["fields"] if self.is_map(unit.types[f["ty"]])]
        self.sites_of = {}
        self.names = [f["name"] for f in F.adt_by_path(DIAG)[1]["variants"][0]["fields"]]
        fid = lambda t: self.struct(FILE_ID, **{"0": t})
        on = self.on
        vfs = lambda c, n: c.name == n and "vfs::Vfs::" in c.rpath
        on("no changes", lambda c: vfs(c, "take_changes"), lambda en, ctx, g, fn, c, a, t: [(EMPTY, g)])
        on("url", lambda c: c.crate == "move_language_server", self.url)
        on("to_file_path", lambda c: c.name == "to_file_path" and c.crate == "url", lambda en, ctx, g, fn, c, a, t: [
            (self.ok("#path(#F)") if self.mentions(en, a[0], en.env) else self.ok(None), g)])
        on("path", lambda c: c.crate in ("paths", "vfs", "core"), self.path)
        on("salsa", lambda c: c.trait == "base_db::SourceDatabase" or c.path.startswith("base_db::SourceDatabase::"), self.salsa)
        on("len", lambda c: c.name == "len", self.length)
        on("same", lambda c: c.trait == "core::cmp::PartialEq" and c.name in ("eq", "ne"), self.same)
        on("note", lambda c: c.crate == "lsp_server" and c.name == "new" and "Notification" in c.rpath,
           lambda en, ctx, g, fn, c, a, t: [(self.struct(NOTE, params=self.plain(en, a[1], en.env)), g)])
        self.task = self.variant(TASK, "Diagnostics", seq(("tup", (fid("#F"), seq("#new", "#onew") if new == "some" else EMPTY)), ("tup", (fid("#G"), None))))

    def is_map(self, t):
        return "Map" in (self.F.adt_path(t) or "") and "<lsp_types::Diagnostic" in t.s

    def tasks(self, en, g):
        return [(self.ok(self.task), g._replace(turn=1, ev=()))]

    def message(self, g):
        return []

    def empty(self, callee, fn, term, g):
        r = super().empty(callee, fn, term, g)
        t = fn.place_ty(term["dst"])
        if r and isa(r[0][0], "#map"):
            if any("DocumentData" in x.s for x in t.subtypes()):
                return [(mapv(self.doc if self.is_open else ABS, self.struct(DOC, version=None), "#path(#F)"), g)]
            if self.is_map(t):
                k = (fn.key, term["line"], str(term["dst"]))
                n = self.sites_of.setdefault(k, len(self.sites_of))
                if self.old is not None and n < len(self.maps) and self.maps[n] == self.old:
                    return [(mapv(seq("#old", "#oold"), None, "#F"), g)]
                return [(mapv(ABS, None, "#F"), g)]
        return r

    def url(self, en, ctx, g, fn, c, a, t):
        ty = fn.place_ty(t["dst"])
        if ty is not None and self.F.adt_path(ty) == "url::Url":
            return [("#url(#F)" if any(self.mentions(en, x, en.env) for x in a) else None, g)]
        return None

    def path(self, en, ctx, g, fn, c, a, t):
        ty = fn.place_ty(t["dst"])
        if len(a) == 1 and ty is not None and self.F.adt_path(ty) in ("vfs::vfs_path::VfsPath", "paths::AbsPathBuf") \
                and self.mentions(en, a[0], en.env):
            return [("#path(#F)", g)]
        return None

    def salsa(self, en, ctx, g, fn, c, a, t):
        x = en.term(a[1], en.env) if len(a) > 1 else None
        if c.name == "file_source_root":
            return [("#root-of(%s)" % x, g)]
        if c.name == "source_root":
            return [("#the-root" if x == "#root-of(#F)" else None, g)]
        return None

    def assume(self, en, g, term, val):
        if "#the-root" in term:
            return g._replace(lib=val)
        if self.new == "empty" and term.startswith("#Eq(") and "#len(#old)" in term and "0" in term.replace("#len(#old)", ""):
            return False if val else self.eqs(g, "differ")
        if term.startswith("#Eq(") and "#new" in term and "#old" in term:
            if not val:
                return self.eqs(g, "differ")
            if "#len" in term:
                return self.eqs(g, "len")
            a, b = term[4:-1].split(",", 1) if term.count(",") == 1 else (term, "")
            fa, fb = a.replace("#new", "").replace("#old", ""), b.replace("#new", "").replace("#old", "")
            if fa == fb:
                if fa == "":
                    for n in self.names:
                        g = self.eqs(g, n)
                elif fa.count(".") == 1 and fa[1:].isdigit():
                    g = self.eqs(g, self.names[int(fa[1:])])
        return g

    def alone(self, g, O):
        return g if O != "#onew" or ("alone",) in g.ev else self.ev(g, "alone")

    def eqs(self, g, n):
        if ("eq", n) in g.ev:
            return g
        return self.ev(g, "eq", n)

    def length(self, en, ctx, g, fn, c, a, t):
        p, v = self.target(en, a)
        if isa(v, "#seq"):
            if v == EMPTY:
                return [(0, g)]
            x = en.term(v[1][1], en.env)
            return [("#len(%s)" % x if x not in (None, ABS) else None, g)]
        return None

    def same(self, en, ctx, g, fn, c, a, t):
        x, y = (self.plain(en, en.deref_all(v, en.env), en.env) for v in a[:2])
        if isa(x, "#seq") and isa(y, "#seq") and EMPTY in (x, y) and x != y:
            return [(int(c.name == "ne"), g)]
        if isa(x, "#seq") and isa(y, "#seq") and {x[1][1], y[1][1]} == {"#new", "#old"}:
            g1 = g
            for n in ["len"] + self.names:
                g1 = self.eqs(g1, n)
            hit = c.name == "eq"
            return [(int(hit), g1), (int(not hit), self.eqs(g, "differ"))]
        return None

    def send(self, en, ctx, g, fn, callee, args, term):
        v = self.plain(en, args[1], en.env) if len(args) > 1 else None
        out = []
        key = self.F.adt_by_path(PUBLISH)[0]
        visit(v, key, out)
        for m in out:
            u = en.term(self.get(m, PUBLISH, "uri"), en.env)
            ds = self.get(m, PUBLISH, "diagnostics")
            ver = self.get(m, PUBLISH, "version")
            if u == "#url(#F)" or self.mentions(en, m, en.env):
                self.sites["publish"] = (fn, term["line"], ctx)
                what = en.term(ds[1][1], en.env) if isa(ds, "#seq") else "?"
                rest = en.term(ds[1][2], en.env) if isa(ds, "#seq") else "?"
                g = self.ev(g, "publish", u, what, rest, en.term(ver[3][0], en.env) if isinstance(ver, tuple) and ver[0] == "adt" and ver[3]
                            else ("-" if isinstance(ver, tuple) and ver[0] == "adt" else "?"))
        return [(self.ok(("tup", ())), g)]


def judge_publish(M):
    for g, fn, line, ctx in M.ends:
        v = lambda k, m: report_at(M, M.sites.get(k, (fn, line, ctx)), "C20|%s|%s" % (k, M.scenario), "%s: %s" % (M.scenario, m))
        pubs = [e for e in g.ev if e[0] == "publish"]
        eqs = {e[1] for e in g.ev if e[0] == "eq"}
        if not pubs:
            if str(g.lib) == "1":
                continue
            if M.old == "native":
                missing = [x for x in ("len",) + SHOWN if x not in eqs]
                if not missing:
                    continue
                v("skip", "they are not published although they may differ in %s" % ", ".join(
                    {"len": "number"}.get(x, x) for x in missing))
            else:
                v("skip", "they are not published")
            continue
        if len(pubs) > 1:
            v("publish", "they are published %d times" % len(pubs))
        _, u, what, rest, ver = pubs[0]
        if str(g.lib) != "0":
            v("publish", "they are published for a file of a library")
        if u != "#url(#F)":
            v("publish", "they are published for %s" % u)
        if M.old not in (None, "native"):
            if what not in (DUP, "#new", "#old"):
                v("publish", "what is published is %s" % what)
            elif what != DUP:
                v("publish", "only %s diagnostics are published" % {"#new": "the new", "#old": "the other"}[what])
        elif M.new == "empty":
            if (what, rest) != (ABS, ABS):
                v("publish", "something else than an empty list is published for it")
        elif what != "#new" or rest == "?" or rest == ABS and ("alone",) not in g.ev:
            v("publish", "what is published is %s" % {"#old": "the previous diagnostics", DUP: "the new ones twice or together with the previous ones",
                                                      ABS: "not all of them"}.get(what, what))
        if ver != ("#v0" if M.is_open else "-"):
            v("publish", "they are published with version %s instead of %s" % (ver, "that of the document" if M.is_open else "none"))


def publish_runs(F):
    if _memo.get("publish", (None,))[0] is not F:
        ms = []
        for old in (None, "native", "check"):
            for is_open in (True, False):
                M = PublishModel(F, old, is_open)
                if old is not None and old not in M.maps:
                    continue
                M.run()
                judge_publish(M)
                ms.append(M)
                if old == "native":
                    M = PublishModel(F, old, is_open, "empty").run()
                    judge_publish(M)
                    ms.append(M)
        seen = set().union(*(M.seen for M in ms))
        for need, what in (("note", "a notification being built"), ("url", "a URL of a file"), ("salsa", "the source root of a file")):
            if need not in seen:
                raise Anchor(what)
        _memo["publish"] = (F, ms)
    return _memo["publish"][1]


@guarded
def publication(F, R):
    R.rule("Interpretation of the turn of the main loop that receives new diagnostics of a file: what is published for it, "
           "for every relation to the diagnostics known before.")
    of(R, publish_runs(F), "C20")
