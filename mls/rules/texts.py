"""What line ending normalization and the application of changes make of a text."""
import itertools

from ..events import WORKSPACE
from ..interp import Budget, Engine
from ..lex_model import ASCII, G0, WIDE
from ..parser_model import Anchor
from ..seqs import isa
from ..text_model import S, StrModel

MASK = {"r": 1 << 13, "n": 1 << 10, 1: ASCII & ~(1 << 10 | 1 << 13)}
EVENT = "lsp_types::TextDocumentContentChangeEvent"


class Inputs:
    """input texts, each character at an offset of its own"""

    def __init__(self):
        self.P, self.o, self.what = [], 0, {}

    def text(self, ws):
        ids = []
        for w in ws:
            self.P.append((self.o, MASK.get(w) or WIDE[w]))
            ids.append("#ch%d" % self.o)
            self.what[ids[-1]] = w
            self.o += w if isinstance(w, int) else 1
        return tuple(ids)

    @property
    def g(self):
        return G0._replace(P=tuple(self.P))


def say(ws):
    return "'%s'" % "".join({"r": "\\r", "n": "\\n", 1: "a", 2: "\u00e9", 3: "\u20ac", 4: "\U0001F600"}[w] for w in ws)


def outcome(F, R, f, args, cells, g):
    """-> (result, cells) if there is one, 'panic' and the place, or None"""
    if R.counts.get("given up", 0) > 5:
        return None
    M = StrModel(F)
    M.max_steps = 20000
    en = Engine(F, M, WORKSPACE)
    try:
        c = en.get_ctx(f, tuple(args), tuple(cells), g)
        en.solve([c])
    except Budget:
        R.count("given up")
        return None
    R.count("abstract states", en.steps)
    outs = {(r, cs) for (r, cs, _k) in c.out}
    if len(outs) == 1:
        return outs.pop()
    if not outs and (M.bad or M.faults):
        (_p, what), e = sorted((M.bad or M.faults).items(), key=lambda x: x[0])[0]
        return "panic", (e[0].loc(e[1]), what)
    return None


def normalization(F, R):
    fs = [f for f in F.crate_fns("move_language_server") if f.kind != "Closure" and f.argc == 1 and f.local_ty(0).k == "tuple"
          and f.local_ty(1).s.endswith("String") and any("LineEndings" in x.s for x in f.local_ty(0).subtypes())]
    if len(fs) != 1:
        raise Anchor("line ending normalization")
    f = fs[0]
    k, a = F.adt_by_path("move_language_server::line_index::LineEndings")
    names = [v["name"] for v in a["variants"]]
    most = 4 if R.tier == "quick" else 6
    units = [("r",), ("n",), ("r", "n"), (1,), (2,)]
    seen = set()
    for us in (w for n in range(most + 1) for w in itertools.product(units if n < 5 else units[:4], repeat=n)):
        ws = sum(us, ())
        if ws in seen:
            continue
        seen.add(ws)
        I = Inputs()
        ids = I.text(ws)
        want = tuple(c for i, c in enumerate(ids) if not (ws[i] == "r" and i + 1 < len(ws) and ws[i + 1] == "n"))
        r = outcome(F, R, f, [("tup", (S,) + ids)], [], I.g)
        if r is None:
            R.count("normalizations not followed")
            continue
        if r[0] == "panic":
            R.count("normalizations")
            R.violation("C19|normalization", r[1][0], "%s: %s for the text %s" % (f.path, r[1][1], say(ws)))
            continue
        v = r[0]
        if not (isinstance(v, tuple) and v[0] == "tup" and len(v[1]) == 2 and isa(v[1][0], S)):
            R.count("normalizations not followed")
            continue
        R.count("normalizations")
        got, ends = v[1][0][1][1:], v[1][1]
        if tuple(10 if c == 10 else c for c in got) != want and not alike(got, want, I):
            R.violation("C19|normalization", f.loc(), "%s: makes %s of the text %s" % (f.path, say([I.what.get(c, "n" if c == 10 else "r" if c == 13 else 1) for c in got]), say(ws)))
        if isinstance(ends, tuple) and ends[0] == "adt" and ends[1] == k and isinstance(ends[2], int):
            name = names[ends[2]]
            if name == "Unix" and len(want) != len(ids) or name == "Dos" and "r" not in ws:
                R.violation("C19|normalization|endings", f.loc(), "%s: the line endings of the text %s are said to be %s" % (f.path, say(ws), name))


def alike(a, b, I):
    """the same characters (a line feed is a line feed)"""
    kind = lambda c: "n" if c == 10 or I.what.get(c) == "n" else "r" if c == 13 or I.what.get(c) == "r" else c
    return [kind(c) for c in a] == [kind(c) for c in b]


def at(ids, I, q):
    """the number of characters before position q"""
    line, col, i = 0, 0, 0
    while (line, col) != q:
        if i >= len(ids):
            return None
        if I.what[ids[i]] == "n":
            line, col = line + 1, 0
        else:
            col += 2 if I.what[ids[i]] == 4 else 1
        i += 1
    return i


def positions(ids, I):
    line, col, r = 0, 0, [(0, 0)]
    for c in ids:
        if I.what[c] == "n":
            line, col = line + 1, 0
        else:
            col += 2 if I.what[c] == 4 else 1
        r.append((line, col))
    return r


def edits(F, R):
    fs = [f for f in F.crate_fns("move_language_server") if f.kind != "Closure" and f.argc == 2
          and f.local_ty(1).s == "&mut alloc::string::String" and any("TextDocumentContentChangeEvent" in x.s for x in f.local_ty(2).subtypes())]
    ek, ea = F.adt_by_path(EVENT)
    rk, pk = F.adt_by_path("lsp_types::Range")[0], F.adt_by_path("lsp_types::Position")[0]
    if len(fs) != 1 or None in (ek, rk, pk):
        R.count("lists of changes not followed")
        return
    f = fs[0]
    names = [x["name"] for x in ea["variants"][0]["fields"]]
    M0 = StrModel(F)
    pos = lambda q: ("adt", pk, 0, q)

    def event(rng, ids):
        r = M0.none() if rng is None else M0.some(("adt", rk, 0, (pos(rng[0]), pos(rng[1]))))
        return ("adt", ek, 0, tuple({"range": r, "text": ("tup", (S,) + ids)}.get(n, M0.none()) for n in names))

    def follow(start, script):
        """script: (None or (i, j): numbers of boundaries of the text at that point, new text)"""
        I = Inputs()
        cur = first = I.text(start)
        evs, said = [], []
        for rng, ws in script:
            ids = I.text(ws)
            ps = positions(cur, I)
            if rng is None:
                cur, q = ids, None
            else:
                i, j = rng
                if j >= len(ps):
                    return
                q = (ps[i], ps[j])
                cur = cur[:i] + ids + cur[j:]
            evs.append(event(q, ids))
            said.append("%s -> %s" % ("all" if q is None else "%d:%d-%d:%d" % (q[0] + q[1]), say(ws)))
        r = outcome(F, R, f, [("ptr", ("c", 0), (), True), ("arr", tuple(evs))], [("tup", (S,) + first)], I.g)
        if r is None or r[0] != "panic" and not (len(r[1]) == 1 and isa(r[1][0], S)):
            R.count("lists of changes not followed")
            return
        R.count("lists of changes")
        if r[0] == "panic":
            R.violation("C21|apply", r[1][0], "%s: %s for the text %s and the changes %s" % (f.path, r[1][1], say(start), ", ".join(said)))
            return
        got = r[1][0][1][1:]
        if not alike(got, cur, I):
            R.violation("C21|apply", f.loc(), "%s: makes %s of the text %s by the changes %s" % (
                f.path, say([I.what.get(c, 1) for c in got]), say(start), ", ".join(said)))

    new = [(), (1,), (1, "n", 2)]
    for start in ((), (1,), (1, "n", 1)):
        for n in (0, 1, 2, 3):
            for ws in itertools.product([(), (1,), ("n", 1)], repeat=n):
                follow(start, [(None, w) for w in ws])
    deep = R.tier != "quick"
    start = (1, "n", 2, "n", 1) if not deep else (1, "n", 2, "n", 4)
    n = len(start) + 1
    pairs = [(i, j) for i in range(n) for j in range(i, n)]
    for rng in pairs:
        for ws in new:
            follow(start, [(rng, ws)])
            follow(start, [(None, (2, "n", 1)), (rng, ws)])
            follow(start, [(rng, ws), (None, (2,))])
    for a in pairs:
        for b in pairs:
            for ws, ws2 in (((2,), (1,)), ((), ("n", 1))) if not deep else itertools.product(new, repeat=2):
                follow(start, [(a, ws), (b, ws2)])
