"""The virtual file system: its change log."""
from collections import namedtuple

from ..events import run
from ..parser_model import Anchor
from ..seqs import ABS, EMPTY, SymModel, isa, seq
from .parsing import chain, guarded

VFS = "vfs::Vfs"
CHANGED = "vfs::ChangedFile"
KINDS = "vfs::ChangeKind"
FILE_ID = "vfs::FileId"


# what has been established: old == new (1, 0 or None), and comparisons with the number of slots
G = namedtuple("G", "eq facts")


def operands(t):
    """("#f", [args]) of a term"""
    if not (t.startswith("#") and "(" in t):
        return t, []
    name, rest = t.split("(", 1)
    args, depth, cur = [], 0, ""
    for i, ch in enumerate(rest):
        if ch == ")" and depth == 0:
            return (name, args + [cur]) if not rest[i + 1:].strip(".0123456789") else (t, [])
        if ch == "," and depth == 0:
            args.append(cur)
            cur = ""
            continue
        depth += {"(": 1, ")": -1}.get(ch, 0)
        cur += ch
    return t, []


def at_least(t, n, facts):
    """the term t is at least n, by its form or by the comparisons made"""
    if t == n:
        return True
    for f, val in facts:
        op, ab = operands(f)
        if len(ab) == 2:
            a, b = ab
            if val and (op in ("#Lt", "#Le", "#Eq") and (a, b) == (n, t) or op == "#Eq" and (b, a) == (n, t)):
                return True
            if not val and op in ("#Lt", "#Le") and (a, b) == (t, n):
                return True
    op, ab = operands(t)
    if op.endswith("max") and len(ab) == 2 or op.startswith("#Add") or op.endswith("_add"):
        return any(at_least(x, n, facts) for x in ab)
    return False


class VfsModel(SymModel):
    tokens = ("#id",)

    def assume(self, en, g, term, val):
        if isinstance(g, G) and "#len(" in term and len(g.facts) < 6 and (term, val) not in g.facts:
            if (term, 1 - val) in g.facts:
                return False
            return g._replace(facts=tuple(sorted(g.facts + ((term, val),))))
        return g

    def __init__(self, F, slot):
        super().__init__(F)
        self.slot = slot
        on = self.on
        on("intern", lambda c: "indexmap" in c.path and c.name in ("insert_full", "insert"), self.intern)
        on("get_index_of", lambda c: "indexmap" in c.path and c.name in ("get_index_of", "get_full"),
           lambda en, ctx, g, fn, c, a, t: [(self.some("#id"), g), (self.none(), g)])
        on("get_index", lambda c: "indexmap" in c.path and c.name in ("get_index", "index"), self.by_index)
        on("range", lambda c: c.name in ("map", "filter", "filter_map", "into_iter", "rev") and "ops::range::Range" in c.args()[0].s
           if c.args() else False, self.range)
        on("slot", lambda c: c.name in ("index", "index_mut", "get", "get_mut", "get_unchecked", "get_unchecked_mut"), self.index)
        on("grow", lambda c: "vec::Vec" in c.rpath and c.name in ("resize_with", "resize", "push"), self.grow)
        on("max", lambda c: c.name == "max" and c.crate == "core", lambda en, ctx, g, fn, c, a, t: [
            ("#max(%s,%s)" % (en.term(a[0], en.env), en.term(a[1], en.env)), g)] if len(a) == 2 else None)
        on("eq", lambda c: c.trait == "core::cmp::PartialEq" and c.name in ("eq", "ne"), self.eq)

    def by_index(self, en, ctx, g, fn, c, a, t):
        if en.term(a[1], en.env) == "#id":
            return [(self.some("#path"), g)]
        return [(None, g)]

    def range(self, en, ctx, g, fn, c, a, t):
        r = en.deref_all(a[0], en.env)
        if not (isinstance(r, tuple) and r[0] == "adt" and len(r[3]) == 2):
            return None
        lo, hi = r[3]
        if lo != 0 or not (isinstance(hi, str) and hi.startswith("#len(")):
            self.report("C15|range", fn, t["line"], "the iteration does not cover all file ids", ctx)
        it = self.it("#id", ABS)
        return self.it_call(en, ctx, g, fn, c, [it] + list(a[1:]), t, None, it)

    def grow(self, en, ctx, g, fn, c, a, t):
        p, v = self.target(en, a)
        if v != self.slot:
            return None
        if c.name != "push":
            n = en.term(a[1], en.env)
            if not isinstance(n, str) or not at_least(n, "#len(%s)" % en.term(v, en.env), g.facts if isinstance(g, G) else ()):
                self.report("C15|shrink", fn, t["line"], "the table of contents is resized to %s, which is not known to keep "
                            "the files there are" % n, ctx)
        fill = a[-1]
        if c.name == "resize_with":
            outs = self.once(en, g, a[-1], [], ctx, fn, t)
            fill = outs[0][0] if outs and len(outs) == 1 else None
        if not (isinstance(fill, tuple) and fill[0] == "adt" and fill[1] == self.opt and not fill[3]):
            self.report("C15|fill", fn, t["line"], "a new slot is not known to start without contents", ctx)
        return [(("tup", ()), g)]

    def intern(self, en, ctx, g, fn, c, a, t):
        if en.term(a[1], en.env) != "#path":
            self.report("C15|path", fn, t["line"], "another path than the one given is interned", ctx)
        return [(("tup", ("#id", "#added")), g)]

    def index(self, en, ctx, g, fn, c, a, t):
        p, v = self.target(en, a)
        if v != self.slot:
            return None
        i = en.term(a[1], en.env)
        if i != "#id":
            self.report("C15|index", fn, t["line"], "the contents are stored or read under another index than the file's id", ctx)
        # the slot is behind the pointer to the data
        q = ("ptr", p[1], p[2] + (1,), p[3])
        if c.name.startswith("get"):
            return [(self.some(q), g)]
        return [(q, g)]

    def eq(self, en, ctx, g, fn, c, a, t):
        x, y = en.term(a[0], en.env), en.term(a[1], en.env)
        if {x, y} == {"#old", "#new"}:
            yes, no = (1, 0) if c.name == "eq" else (0, 1)
            if not isinstance(g, G):
                return None
            if g.eq is not None:
                return [((yes if g.eq else no), g)]
            return [(yes, g._replace(eq=1)), (no, g._replace(eq=0))]
        return None

    def mentions(self, en, v, env, depth=0):
        return super().mentions(en, v, env, depth)


@guarded
def change_log(F, R):
    R.rule("Interpretation of Vfs::set_file_contents over every combination of stored and new contents: a change of the "
           "right kind for this file is appended exactly when the stored contents change, and the result says so; "
           "the stored contents become the new ones. The only writers of the contents and of the log are found by type: "
           "every function of the crate that mutably reaches Vfs is interpreted or must leave both alone; take_changes "
           "returns the whole log and empties it.")
    vk, va = F.adt_by_path(VFS)
    if vk is None:
        raise Anchor(VFS)
    fields = [f["name"] for f in va["variants"][0]["fields"]]
    u = F.adt_unit[vk]
    # which field is which, by type
    data = log = None
    for f in va["variants"][0]["fields"]:
        s = u.types[f["ty"]].s
        if "ChangedFile" in s:
            log = f["name"]
        elif "Option<" in s and "u8" in s:
            data = f["name"]
    if not data or not log:
        raise Anchor("the contents and the change log in Vfs")
    meths = [f for f in F.crate_fns("vfs") if F.adt_path(f.impl_self()) == VFS and f.kind == "AssocFn" and not f.derived
             and not f.impl_trait]
    setter = [f for f in meths if f.argc == 3 and f.local_ty(1).k == "ref" and f.local_ty(0).k == "bool"]
    taker = [f for f in meths if f.argc == 1 and f.local_ty(1).k == "ref" and f.local_ty(1).d.get("mut")
             and "ChangedFile" in f.local_ty(0).s]
    if not setter or not taker:
        raise Anchor("Vfs::set_file_contents and Vfs::take_changes")
    kinds = [v["name"] for v in F.adt_by_path(KINDS)[1]["variants"]]
    n = 0
    for old in (0, 1):
        for new in (0, 1):
            for f in setter:
                slotv = None
                m0 = SymModel(F)
                o = m0.some("#old") if old else m0.none()
                slotv = ("tup", ("#slots", o))
                M = VfsModel(F, slotv)
                v = M.struct(VFS, **{data: slotv, log: seq(ABS, "#earlier")})
                c_new = M.some("#new") if new else M.none()
                en, c = run(F, M, f, [("ptr", ("c", 0), (), True), "#path", c_new], [v], G(None, ()), {"vfs"})
                n += 1
                what = "%s->%s" % ("some" if old else "none", "some" if new else "none")
                if not c.out:
                    M.report("C15|%s|none" % what, f, f.line, "never returns", c)
                for (ret, cells, _k), g in c.out.items():
                    g = g.eq
                    me = cells[0]
                    slots, lg = M.get(me, VFS, data), M.get(me, VFS, log)
                    bad = lambda k, m: M.report("C15|%s|%s" % (what, k), f, f.line, m, c)
                    if not isa(slots, "#slots") or not isa(lg, "#seq"):
                        bad("lost", "the stored contents or the change log cannot be determined after the call")
                        continue
                    fin = slots[1][1]
                    T, O = lg[1][1], lg[1][2]
                    kind = None
                    if isinstance(T, tuple) and T[0] == "adt":
                        fid = M.get(T, CHANGED, "file_id")
                        if en.term(fid, {}) != "#id":
                            bad("fid", "a change is recorded for another file")
                        ck = M.get(T, CHANGED, "change_kind")
                        kind = kinds[ck[2]] if isinstance(ck, tuple) and ck[0] == "adt" else "?"
                    elif T != ABS:
                        kind = "two changes"
                    if O == ABS:
                        bad("dropped", "changes recorded earlier are dropped")
                    elif O != "#earlier":
                        bad("fid", "a change is recorded for another file")
                    if old and new:
                        if g == 1:
                            want = None
                        elif g == 0:
                            want = "Modify"
                        elif g is None:
                            bad("uncompared", "old and new contents are not compared")
                            continue
                    else:
                        want = None if old == new else ("Create" if new else "Delete")
                    if kind != want:
                        bad("kind", "contents %s: recorded change is %s, expected %s" %
                            (what + (" (equal)" if g == 1 else ""), kind, want))
                    if ret != int(want is not None):
                        bad("ret", "contents %s: returns %s" % (what + (" (equal)" if g == 1 else ""), ret))
                    t = en.term(fin, {}) if fin is not None else None
                    okv = {"None"} if not new else {"#new"}
                    if g == 1:
                        okv.add("#old")
                    if t not in okv:
                        bad("stored", "contents %s: stored contents afterwards are %s" % (what, t))
                for key, (fn, line, msg, ctx) in sorted(M.viol.items()):
                    R.violation(key, fn.loc(line), "%s: %s" % (fn.path, msg), chain(ctx) if ctx else [])
    R.count("scenarios of set_file_contents", n)
    for f in taker:
        M = VfsModel(F, None)
        v = M.struct(VFS, **{data: "#data", log: seq("#id-change", "#other")})
        en, c = run(F, M, f, [("ptr", ("c", 0), (), True)], [v], None, {"vfs"})
        for (ret, cells, _k), g in c.out.items():
            if M.plain(en, ret, {}) != seq("#id-change", "#other"):
                R.violation("take|" + f.name, f.loc(), "%s does not return all recorded changes" % f.path)
            if M.get(cells[0], VFS, log) not in (EMPTY, None) or M.get(cells[0], VFS, log) is None:
                R.violation("take-left|" + f.name, f.loc(), "%s leaves changes in the log" % f.path)
        if not c.out:
            raise Anchor("the result of " + f.path)
    readers(F, R, meths, data, log)
    kinds_ok(F, R, kinds)
    # nobody else writes the contents or the log
    wr = {x.key for x in setter + taker}
    di, li = fields.index(data), fields.index(log)
    for f in sorted(F.fns.values(), key=lambda x: x.path):
        if f.crate not in ("vfs",) or f.derived or f.key in wr:
            continue
        R.count("functions scanned for other writers")
        for b in f.blocks:
            for s in b["s"]:
                if s[0] == "=":
                    hit(F, R, f, s[1], s[3], vk, di, li, "assigned")
                    if s[2][0] == "ref" and s[2][1]:
                        hit(F, R, f, s[2][2], s[3], vk, di, li, "mutably borrowed")
    callers_ok(F, R, meths, setter, taker, vk, di, li)


def hit(F, R, f, place, line, vk, di, li, how):
    t = f.local_ty(place[0])
    for i, e in enumerate(place[1]):
        if e != "*" and e[0] == "f" and t is not None and t.k == "adt" and t.adt == vk and e[1] in (di, li):
            R._writes = getattr(R, "_writes", []) + [(f, line, "contents" if e[1] == di else "log", how)]
            return
        if e == "*":
            t = t.to if t is not None and t.k in ("ref", "ptr") else None
        elif e[0] == "f":
            t = f.unit.types[e[2]]
        else:
            t = None


def callers_ok(F, R, meths, setter, taker, vk, di, li):
    """other functions that touch the fields mutably must be private helpers reached only from the interpreted ones"""
    from .parsing import graph
    G = graph(F)
    ok = G.reach([f.key for f in setter + taker])
    pub = {f.key for f in meths if f.d.get("vis") == "pub"}
    callers = {}
    for k, es in G.edges.items():
        for e in es:
            callers.setdefault(e, set()).add(k)
    allowed = {f.key for f in setter + taker}
    for f, line, what, how in getattr(R, "_writes", []):
        cs = callers.get(f.key, set())
        if f.key in ok and cs and all(c in ok for c in cs):
            continue
        R.violation("writer|%s|%s" % (f.path, what), f.loc(line), "%s: the %s of the file system are %s outside "
                    "set_file_contents and take_changes" % (f.path, what, how))
    R.count("other functions that borrow or assign the contents or the log", len(getattr(R, "_writes", [])))


def readers(F, R, meths, data, log):
    """file_id, file_path, file_contents and iter agree with the stored contents"""
    n = 0
    for present in (0, 1):
        for f in meths:
            if f.name not in ("file_id", "file_path", "file_contents", "iter", "has_changes"):
                continue
            o = SymModel(F)
            slotv = ("tup", ("#slots", o.some("#old") if present else o.none()))
            M = VfsModel(F, slotv)
            v = M.struct(VFS, **{data: slotv, log: EMPTY})
            arg = {"file_id": "#path", "iter": None, "has_changes": None}.get(f.name, M.struct(FILE_ID, **{"0": "#id"}))
            en, c = run(F, M, f, [("ptr", ("c", 0), (), False)] + ([arg] if f.argc == 2 else []), [v], None, {"vfs"})
            n += 1
            rets = set()
            for (ret, cells, _k), g in c.out.items():
                if f.name == "iter":
                    en.env = {("c", 0): v}
                    en.bi = -1
                    for T, O, _g, _e in M.drained(en, c, None, f, {"line": f.line, "args": [], "dst": [0, []]}, ret):
                        rets.add("None" if T == ABS else en.term(T, en.env))
                else:
                    rets.add(en.term(M.plain(en, ret, {("c", 0): v}), {}))
            want = {"file_id": {"#id", "None"} if present else {"None"},
                    "file_path": {"#path"}, "file_contents": {"#old"} if present else set(),
                    "iter": {"(#id,#path)"} if present else {"None"}, "has_changes": {"0"}}[f.name]
            if rets != want:
                R.violation("reader|%s|%d" % (f.name, present), f.loc(), "%s of a file %s may return %s, expected %s" % (
                    f.path, "with contents" if present else "that is deleted", ", ".join(sorted(map(str, rets))),
                    " or ".join(sorted(want)) or "a panic"))
            for key, (fn, line, msg, ctx) in sorted(M.viol.items()):
                R.violation(key, fn.loc(line), "%s: %s" % (fn.path, msg), chain(ctx) if ctx else [])
    R.count("interpretations of the readers", n)
    if n < 8:
        raise Anchor("the readers of Vfs (file_id, file_path, file_contents, iter)")


def kinds_ok(F, R, kinds):
    ck = F.adt_by_path(KINDS)[0]
    n = 0
    for f in F.crate_fns("vfs"):
        if F.adt_path(f.impl_self()) == CHANGED and f.name in ("exists", "is_created_or_deleted"):
            for i, k in enumerate(kinds):
                M = SymModel(F)
                v = M.struct(CHANGED, change_kind=("adt", ck, i, ()), file_id="#id")
                en, c = run(F, M, f, [("ptr", ("c", 0), (), False)], [v], None, {"vfs"})
                got = {ret for (ret, _c, _k) in c.out}
                want = int(k != "Delete") if f.name == "exists" else int(k != "Modify")
                n += 1
                if got != {want}:
                    R.violation("kind|%s|%s" % (f.name, k), f.loc(), "%s is %s for %s" % (f.path, sorted(map(str, got)), k))
    if n < 6:
        raise Anchor("ChangedFile::exists and is_created_or_deleted")
