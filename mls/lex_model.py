"""Abstract texts, for the interpretation of the lexer.

A text is known by the set of characters possible at each of its first
positions and by where it ends, if that is known; both are refined by the
tests the code makes. Nothing is assumed about what no test has looked at.
Paths that look further than the window are not judged."""
import re
from collections import namedtuple

from .interp import freeze_env
from .parser_model import Anchor
from .seqs import SymModel, isa

ALL = (1 << 131) - 1
ASCII = (1 << 128) - 1
WIDE = {2: 1 << 128, 3: 1 << 129, 4: 1 << 130}
STR, IT, BYTES = "#str", "#chars", "#bytes"
OPEN = "-open"       # a slice up to the end of the text


def chars(s):
    m = 0
    for c in s:
        m |= 1 << ord(c)
    return m


def between(a, b):
    """the characters of code points a..=b"""
    m = 0
    if a <= b:
        for i in range(max(a, 0), min(b, 127) + 1):
            m |= 1 << i
    for w, lo, hi in ((2, 0x80, 0x7ff), (3, 0x800, 0xffff), (4, 0x10000, 0x10ffff)):
        if a <= hi and b >= lo:
            m |= WIDE[w]
    return m


DIGIT, LOWER, UPPER = between(48, 57), between(97, 122), between(65, 90)
CLASSES = {      # method -> (surely, perhaps)
    "is_ascii_digit": (DIGIT, 0), "is_ascii_lowercase": (LOWER, 0), "is_ascii_uppercase": (UPPER, 0),
    "is_ascii_alphabetic": (LOWER | UPPER, 0), "is_ascii_alphanumeric": (LOWER | UPPER | DIGIT, 0),
    "is_ascii_hexdigit": (DIGIT | chars("abcdefABCDEF"), 0), "is_ascii": (ASCII, 0),
    "is_ascii_whitespace": (chars(" \t\n\r\x0c"), 0), "is_whitespace": (chars(" \t\n\r\x0b\x0c"), WIDE[2] | WIDE[3]),
    "is_ascii_punctuation": (chars("!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~"), 0),
    "is_alphabetic": (LOWER | UPPER, ALL & ~ASCII), "is_alphanumeric": (LOWER | UPPER | DIGIT, ALL & ~ASCII),
    "is_numeric": (DIGIT, ALL & ~ASCII), "is_lowercase": (LOWER, ALL & ~ASCII), "is_uppercase": (UPPER, ALL & ~ASCII),
    "is_control": (between(0, 31) | 1 << 127, WIDE[2]), "is_ascii_control": (between(0, 31) | 1 << 127, 0),
    "is_ascii_graphic": (between(33, 126), 0),
}

G = namedtuple("G", "P end kw")
G0 = G((), None, ())


def get(g, off):
    for o, m in g.P:
        if o == off:
            return m
    return None


def put(g, off, mask):
    return g._replace(P=tuple(sorted([x for x in g.P if x[0] != off] + [(off, mask)])))


def width(mask):
    """the width of the characters in mask, None if they differ"""
    ws = [w for w, m in ((1, ASCII), (2, WIDE[2]), (3, WIDE[3]), (4, WIDE[4])) if mask & m]
    return ws[0] if len(ws) == 1 else None


def cover(g):
    """(offsets known to be between characters, first offset about which nothing is known)"""
    at, o = [0], 0
    while True:
        m = get(g, o)
        w = width(m) if m is not None else None
        if w is None:
            return at, o
        o += w
        at.append(o)


def valid(g, off):
    """is off a boundary within the text? None: may or may not be"""
    at, o = cover(g)
    if off in at:
        return True
    if off < o:
        return False
    if g.end is not None and off > g.end:
        return False
    return None


def show(g, upto=None):
    """a text, for messages"""
    r, o = "", 0
    while True:
        m = get(g, o)
        if m is None:
            break
        pick = next((chr(c) for c in list(range(97, 123)) + list(range(33, 127)) + list(range(128)) if m >> c & 1), None)
        w = width(m) or (1 if pick else 2)
        if pick is None:
            pick = {2: "\u00e9", 3: "\u20ac", 4: "\U0001F600"}[width(m) or 2]
        r += pick
        o += w
    return repr(r) + ("" if g.end is not None else "...")


class LexModel(SymModel):
    tokens = ()
    max_part = 20000
    max_ints = 64
    max_out = 20000
    max_steps = 400000

    def __init__(self, F, window):
        super().__init__(F)
        self.window = window
        self.bad = {}
        self.joined = False
        self.prims = []
        self.paths = 0
        self.tests = 0

    def gjoin(self, a, b):
        if a == b:
            return a
        self.joined = True
        q = dict(b.P)
        return G(tuple((o, m | q[o]) for o, m in a.P if o in q), a.end if a.end == b.end else None,
                 tuple(x for x in a.kw if x in b.kw))

    # ------------------------------------------------- reports
    def fault(self, fn, line, what, g, ctx):
        self.bad.setdefault((fn.path, what), (fn, line, g, ctx))

    def panic(self, en, ctx, g, fn, bi, term, what):
        if what.startswith("assert"):
            v = en.as_int(en.operand(en.env, term["cond"], fn)) if "cond" in term else None
            if v is None:
                return
        self.fault(fn, term.get("line", 0), "may panic (%s)" % what.split("::")[-1], g, ctx)

    def binop(self, en, op, a, b):
        if op[:3] in ("Sub", "Add"):
            x, y = [re.match(r"#len\((-?\d+)\)$", v) if isinstance(v, str) else None for v in (a, b)]
            r = None
            if op[:3] == "Sub" and x and y:
                r = int(y.group(1)) - int(x.group(1))
            elif op[:3] == "Sub" and x and isinstance(b, int):
                r = "#len(%d)" % (int(x.group(1)) + b)
            elif op[:3] == "Add" and (x and isinstance(b, int) or y and isinstance(a, int)):
                r = "#len(%d)" % (int((x or y).group(1)) - (b if x else a))
            if r is not None:
                return r if not op.endswith("WithOverflow") else ("tup", (r, int(r < 0) if isinstance(r, int) else 0))
        h = getattr(super(), "binop", None)
        return h(en, op, a, b) if h is not None else None

    def metadata(self, v, g):
        return self.size(g, v[1][1], v[1][2]) if isa(v, BYTES) or isa(v, STR) else None

    def element(self, v, e):
        if isa(v, BYTES) and e[0] == "i" and isinstance(e[1], int):
            return "#by%d" % (v[1][1] + e[1])
        return None

    # ------------------------------------------------- knowledge
    def exists(self, g, off):
        """-> [(g, 1 if there is a character at off else 0)]; off: a boundary"""
        if g.end is not None:
            return [(g, int(off < g.end))]
        if get(g, off) is not None:
            return [(g, 1)]
        if off >= self.window:
            return []
        if valid(g, off) is not True:
            return []
        return [(put(g, off, ALL), 1), (g._replace(end=off), 0)]

    def settle(self, g, off):
        """the cases in which it is known whether off is a boundary of the text"""
        res, work = [], [g]
        while work:
            g = work.pop()
            if valid(g, off) is not None:
                res.append(g)
                continue
            at, top = cover(g)
            if get(g, top) is not None:
                work += [g2 for g2, _w in self.widths(g, top)]
            else:
                work += [g2 for g2, _e in self.exists(g, top)]
        return res

    def narrow(self, g, off, mask):
        m = get(g, off)
        m = (ALL if m is None else m) & mask
        return put(g, off, m) if m else None

    def widths(self, g, off):
        """-> [(g, width of the character at off)]"""
        r = []
        for w, m in ((1, ASCII), (2, WIDE[2]), (3, WIDE[3]), (4, WIDE[4])):
            g2 = self.narrow(g, off, m)
            if g2 is not None:
                r.append((g2, w))
        return r

    def spelled(self, g, off, end, s):
        """does the text at off start with s? -> [(g, 0/1)]"""
        res = []
        for i, c in enumerate(s.encode()):
            o = off + i
            if end is not None and o >= end:
                return res + [(g, 0)]
            nxt = None
            for g2, e in self.exists(g, o):
                if not e:
                    res.append((g2, 0))
                    continue
                b = 1 << c if c < 128 else 0
                no = self.narrow(g2, o, ALL & ~b)
                if no is not None:
                    res.append((no, 0))
                if b:
                    nxt = self.narrow(g2, o, b) or nxt
            if nxt is None:
                return res
            g = nxt
        return res + [(g, 1)]

    def term_mask(self, op, n, left):
        """the characters for which `ch op n` (left: ch is the left operand)"""
        if op == "Eq":
            return between(n, n) if n < 128 else between(n, n)
        if op == "Lt":
            return between(0, n - 1) if left else between(n + 1, 0x10ffff)
        if op == "Le":
            return between(0, n) if left else between(n, 0x10ffff)
        return None

    def assume(self, en, g, term, val):
        self.tests += 1
        m = re.match(r"#(Eq|Lt|Le)\(([^,()]+(?:\(-?\d+\))?),([^,()]+(?:\(-?\d+\))?)\)$", term)
        if not m:
            return g
        op, x, y = m.groups()
        for a, b, left in ((x, y, True), (y, x, False)):
            c = re.match(r"#(ch|by)(\d+)$", a)
            if c and re.match(r"-?\d+$", b):
                off, n = int(c.group(2)), int(b)
                mask = self.term_mask(op, n, left)
                exact = ALL if c.group(1) == "ch" else ASCII
                if c.group(1) == "by":      # a byte of 128 or more: part of a wide character
                    mask = mask & ASCII | (ALL & ~ASCII if (op != "Eq" and left == (n > 128) and n != 128 or n >= 128 and op == "Eq") else 0)
                    if op in ("Lt", "Le") and not left:
                        mask = mask & ASCII | (ALL & ~ASCII)
                    elif op in ("Lt", "Le") and left and n <= 128:
                        mask &= ASCII
                wide = 0                    # wide characters for which both are possible
                for w, lo, hi in ((2, 0x80, 0x7ff), (3, 0x800, 0xffff), (4, 0x10000, 0x10ffff)):
                    if op == "Eq" and n >= 128 or op != "Eq" and lo < n < hi:
                        wide |= WIDE[w]
                mask = mask if val else ALL & ~mask | wide
                g2 = self.narrow(g, off, mask)
                return False if g2 is None else g2
            c = re.match(r"#len\((-?\d+)\)$", a)
            if c and re.match(r"\d+$", b):
                base, n = int(c.group(1)), int(b)
                # the smallest length for which the comparison differs from that of a shorter one
                if op == "Eq":
                    if g.end is not None:
                        return g if (g.end - base == n) == bool(val) else False
                    if n == 0:
                        return self.longer(g, base, 1, 1 - val)
                    if val and valid(g, base + n) is True:
                        return g._replace(end=base + n) if g.end in (None, base + n) and get(g, base + n) is None else False
                    return g
                need, sense = {("Lt", True): (n, 0), ("Le", True): (n + 1, 0), ("Lt", False): (n + 1, 1), ("Le", False): (n, 1)}[(op, left)]
                return self.longer(g, base, need, val if sense else 1 - val)
        return g

    def longer(self, g, base, n, yes):
        """the text from base has at least n bytes, or not"""
        if n <= 0:
            return g if yes else False
        o = base + n - 1
        if o >= self.window:
            return False
        at, top = cover(g)
        if top > o:
            return g if yes else False
        if g.end is not None:
            return g if (g.end >= base + n) == bool(yes) else False
        if top == o and o < self.window:
            m = get(g, o)
            if m is not None:
                return g if yes else False
            return put(g, o, ALL) if yes else g._replace(end=o)
        return g

    def choose(self, en, g, term, val, vals):
        c = re.match(r"#(ch|by)(\d+)$", term)
        if not c:
            return g
        off = int(c.group(2))
        self.tests += 1
        if val is not None:
            m = between(val, val) if val < 128 or c.group(1) == "ch" else ALL & ~ASCII
        else:
            m = ALL
            for x in vals:
                if x < 128:
                    m &= ~(1 << x)
        g2 = self.narrow(g, off, m)
        return False if g2 is None else g2

    # ------------------------------------------------- calls
    def call(self, en, ctx, g, fn, callee, key, args, term):
        if callee is None:
            return None
        r = self.text_call(en, ctx, g, fn, callee, args, term)
        if r is not None:
            return r
        return super().call(en, ctx, g, fn, callee, key, args, term)

    def value(self, en, v):
        return self.plain(en, v, en.env)

    def text_call(self, en, ctx, g, fn, callee, args, term):
        n = callee.name
        if not args:
            return None
        p, v = self.target(en, args)
        x = self.value(en, args[0])
        if isa(x, STR):
            return self.str_call(en, ctx, g, fn, callee, n, args, term, x[1][1], x[1][2])
        if isa(x, BYTES):
            return self.bytes_call(en, ctx, g, fn, callee, n, args, term, x[1][1], x[1][2])
        if n in ("max", "min", "saturating_sub", "saturating_add", "wrapping_add", "wrapping_sub") and isinstance(x, int) and len(args) == 2:
            y = self.value(en, args[1])
            if isinstance(y, int):
                return [({"max": max(x, y), "min": min(x, y)}.get(n, max(0, x - y) if "sub" in n else x + y), g)]
        if isinstance(x, tuple) and x[0] == "s" and n == "len":
            return [(len(x[1].encode()), g)]
        if isinstance(x, tuple) and x[0] == "arr" and n in ("iter", "into_iter"):
            by = "ref" if n == "iter" or isinstance(args[0], tuple) and args[0][0] in ("ptr", "sref") else "val"
            return [(("tup", (IT, "arr", ("tup", (by, x)), 0, len(x[1]), 0, ("tup", ()), 0)), g)]
        if isa(v, IT):
            return self.iter_call(en, ctx, g, fn, callee, n, args, term, p, v)
        if isinstance(x, str) and re.match(r"#(ch|by)\d+$", x):
            return self.char_call(en, g, n, args, x)
        if n == "contains" and len(args) > 1 and "Range" in callee.rpath:
            c = self.value(en, args[1])
            if isinstance(x, tuple) and x[0] == "adt" and len(x[3]) >= 2 and isinstance(c, str) and re.match(r"#(ch|by)\d+$", c):
                lo, hi = x[3][0], x[3][1]
                if isinstance(lo, int) and isinstance(hi, int):
                    m = between(lo, hi if "Inclusive" in callee.rpath else hi - 1)
                    return self.split(g, c, m, 0)
        return None

    def split(self, g, c, yes, maybe):
        off = int(c[3:])
        r = []
        for m, b in ((yes | maybe, 1), (ALL & ~yes, 0)):
            g2 = self.narrow(g, off, m)
            if g2 is not None:
                r.append((b, g2))
        return r

    def char_call(self, en, g, n, args, x):
        if n in CLASSES:
            return self.split(g, x, *CLASSES[n])
        off = int(x[3:])
        if n == "len_utf8":
            return [(w, g2) for g2, w in self.widths(g, off)]
        if n in ("clone", "from", "into", "copied", "cloned"):
            return [(x, g)]
        if n == "is_digit" and len(args) > 1 and args[1] in (10, 16):
            return self.split(g, x, *CLASSES["is_ascii_digit" if args[1] == 10 else "is_ascii_hexdigit"])
        if n in ("eq", "ne") and len(args) > 1:
            y = self.value(en, args[1])
            if isinstance(y, int) and y < 128:
                return [(b if n == "eq" else 1 - b, g2) for b, g2 in self.split(g, x, 1 << y, 0)]
        return None

    def text(self, a, b):
        return ("sref", ("tup", (STR, a, b)))

    def size(self, g, a, b):
        return b - a if b is not OPEN else "#len(%d)" % a      # the distance from a to the end of the text

    def known(self, g, v):
        m = re.match(r"#len\((-?\d+)\)$", v) if isinstance(v, str) else None
        return g.end - int(m.group(1)) if m and g.end is not None else v

    def range(self, en, g, v, a, b):
        """-> (start, end) of a slice of (a, b), None when not known"""
        v = self.value(en, v)
        if not isinstance(v, tuple) or v[0] != "adt":
            return None
        path = self.F.adts[v[1]]["path"] if v[1] in self.F.adts else ""
        f = [en.as_int(x) if not isinstance(x, str) else x for x in v[3]]
        for i, x in enumerate(f):
            x = self.known(g, x)
            f[i] = "end" if x == "#len(%d)" % a else x
        if path.endswith("RangeFrom"):
            lo, hi = f[0], "end"
        elif path.endswith("RangeToInclusive"):
            lo, hi = 0, None if not isinstance(f[0], int) else f[0] + 1
        elif path.endswith("RangeTo"):
            lo, hi = 0, f[0]
        elif path.endswith("RangeFull"):
            lo, hi = 0, "end"
        elif path.endswith("RangeInclusive"):
            lo, hi = f[0], None if not isinstance(f[1], int) else f[1] + 1
        elif path.endswith("Range"):
            lo, hi = f[0], f[1]
        else:
            return None
        if not isinstance(lo, int):
            return None
        if hi == "end":
            return a + lo, b
        return (a + lo, a + hi) if isinstance(hi, int) else None

    def str_call(self, en, ctx, g, fn, callee, n, args, term, a, b):
        if n in ("index", "get") and len(args) > 1:
            r = self.range(en, g, args[1], a, b)
            if r is None:
                return [(None, g)] if n == "index" else None
            lo, hi = r
            res = []
            for g1 in self.settle(g, max(lo, hi if hi is not OPEN else 0)):
                ok = valid(g1, lo) and (b is OPEN or lo <= b)
                ok2 = hi is OPEN or lo <= hi and valid(g1, hi) and (b is OPEN or hi <= b)
                if ok and ok2:
                    v = self.text(lo, hi)
                    res.append((v if n == "index" else self.some(v), g1))
                elif n == "get":
                    res.append((self.none(), g1))
                else:
                    self.fault(fn, term["line"], "slices the text where it need not be between two characters, or beyond its end "
                               "(offset %s)" % (hi if ok else lo), g1, ctx)
            return res
        if n == "len":
            return [(self.size(g, a, b), g)]
        if n == "is_empty":
            if b is not OPEN:
                return [(int(a == b), g)]
            return [(1 - e, g2) for g2, e in self.exists(g, a)]
        if n in ("chars", "char_indices", "bytes"):
            return [(("tup", (IT, n, a, a, b, 0, ("tup", ()), 0)), g)]
        if n == "as_bytes":
            return [(("sref", ("tup", (BYTES, a, b))), g)]
        if n in ("starts_with", "strip_prefix"):
            pat = self.value(en, args[1])
            ends = None if b is OPEN else b
            if isinstance(pat, tuple) and pat[0] == "s":
                outs = self.spelled(g, a, ends, pat[1])
                ln = len(pat[1].encode())
            elif isinstance(pat, int):
                outs = self.spelled(g, a, ends, chr(pat))
                ln = len(chr(pat).encode())
            else:
                outs = []
                if ends is not None and a >= ends:
                    return [(0, g)]
                for g2, e in self.exists(g, a):
                    if not e:
                        outs.append((g2, 0))
                        continue
                    for y, g3, _ in self.matches(en, ctx, g2, fn, term, args[1], "#ch%d" % a):
                        outs.append((g3, y))
                ln = None
            if n == "starts_with":
                return [(y, g2) for g2, y in outs]
            return [(self.none() if not y else self.some(self.text(a + ln, b)), g2) for g2, y in outs] if ln is not None else None
        if n == "find":
            pat = self.value(en, args[1])
            it = ("tup", (IT, "char_indices", a, a, b, 0, ("tup", ()), 0))
            res, work = [], [(g, it, en.env)]
            while work:
                g1, it1, e1 = work.pop()
                for item, it2, g2 in self.step(g1, it1):
                    if item is None:
                        res.append((self.none(), g2, e1))
                        continue
                    pos, ch = item[1]
                    if isinstance(pat, tuple) and pat[0] == "s":
                        outs = [(y, g3, e1) for g3, y in self.spelled(g2, pos + a, None if b is OPEN else b, pat[1])]
                    elif isinstance(pat, int):
                        outs = [(y, g3, e1) for y, g3 in self.split(g2, ch, between(pat, pat), 0)]
                    else:
                        en.env = e1
                        outs = self.matches(en, ctx, g2, fn, term, args[1], ch)
                    for y, g3, e3 in outs:
                        if y:
                            res.append((self.some(pos), g3, e3))
                        else:
                            work.append((g3, it2, e3))
            return res
        if n in ("trim_start_matches",):
            res, work = [], [(g, a, en.env)]
            pat = self.value(en, args[1])
            while work:
                g1, o, e1 = work.pop()
                if b is not OPEN and o >= b:
                    res.append((self.text(o, b), g1, e1))
                    continue
                for g2, e in self.exists(g1, o):
                    if not e:
                        res.append((self.text(o, b), g2, e1))
                        continue
                    en.env = e1
                    outs = [(y, g3, e1) for y, g3 in self.split(g2, "#ch%d" % o, between(pat, pat), 0)] if isinstance(pat, int) else \
                        self.matches(en, ctx, g2, fn, term, args[1], "#ch%d" % o)
                    for y, g3, e3 in outs:
                        if not y:
                            res.append((self.text(o, b), g3, e3))
                        else:
                            work += [(g4, o + w, e3) for g4, w in self.widths(g3, o)]
            return res
        if n == "split_at" and len(args) > 1 and isinstance(args[1], int):
            o = a + args[1]
            res = []
            for g1 in self.settle(g, o):
                if valid(g1, o) and (b is OPEN or o <= b):
                    res.append((("tup", (self.text(a, o), self.text(o, b))), g1))
                else:
                    self.fault(fn, term["line"], "splits the text where it need not be between two characters, or beyond its end "
                               "(offset %d)" % o, g1, ctx)
            return res
        if n == "is_char_boundary" and len(args) > 1 and isinstance(args[1], int):
            return [(int(valid(g1, a + args[1])), g1) for g1 in self.settle(g, a + args[1])]
        if n == "lines":
            return [(("tup", (IT, "lines", a, a, b, 0, ("tup", ()), 0)), g)]
        if n in ("eq", "ne") and len(args) > 1:
            y = self.value(en, args[1])
            if isinstance(y, tuple) and y[0] == "s":
                k = len(y[1].encode())
                if b is not OPEN and b - a != k:
                    outs = [(g, 0)]
                else:
                    outs = []
                    for g2, e in self.spelled(g, a, None if b is OPEN else b, y[1]):
                        if e and b is OPEN:
                            outs += [(g3, 1 - z) for g3, z in self.exists(g2, a + k)]
                        else:
                            outs.append((g2, e))
                return [(e if n == "eq" else 1 - e, g2) for g2, e in outs]
        if n in ("as_ref", "deref", "borrow", "clone", "to_owned", "to_string", "into", "from", "as_str"):
            return [(x, g) for x in [self.text(a, b)]]
        if self.lookup(callee):
            for s, r in g.kw:
                if s == (a, b):
                    return [(self.some("#kw") if r else self.none(), g)]
            return [(self.some("#kw"), g._replace(kw=g.kw + (((a, b), 1),))), (self.none(), g._replace(kw=g.kw + (((a, b), 0),)))]
        return None

    def lookup(self, c):
        """a function from a spelling to the kind of a keyword"""
        b = self.F.body(c.rkey)
        return b is not None and c.crate == "parser" and b.argc == 1 and "option::Option" in b.local_ty(0).s \
            and "SyntaxKind" in b.local_ty(0).s and b.local_ty(1).peel().s == "str"

    def matches(self, en, ctx, g, fn, term, f, ch):
        """what a condition says of a character -> [(0/1, g, env)]"""
        res = []
        here = en.env
        plain = lambda outs: [(y, g2, here) for y, g2 in outs]
        fv = self.value(en, f) if en.callable(f, en.env) is None else f
        if isinstance(fv, tuple) and fv[0] == "arr":
            if all(isinstance(x, int) for x in fv[1]):
                m = 0
                for x in fv[1]:
                    m |= between(x, x)
                return plain(self.split(g, ch, m, 0))
            return plain([(0, g), (1, g)])
        c = en.callable(f, here)
        if c is not None and c[0] == "fn" and re.split("::", c[2])[-1] in CLASSES:
            return plain(self.split(g, ch, *CLASSES[c[2].split("::")[-1]]))
        outs = self.once(en, g, f, [("sref", ch) if self.by_ref(en, f) else ch], ctx, fn, term)
        en.env = here
        if outs is None:
            return plain([(0, g), (1, g)])
        for b, g2, e2 in outs:
            res += [(y, g3, e2) for y, g3 in self.decide(en, g2, b)]
        return self.same_char(res, ch)

    def same_char(self, res, ch):
        """cases that differ only in what this character may be are one"""
        off = int(ch[3:])
        m, envs = {}, {}
        for y, g, e in res:
            k = (y, g._replace(P=tuple(x for x in g.P if x[0] != off)), freeze_env(e))
            envs[k] = e
            m[k] = m.get(k, 0) | (get(g, off) if get(g, off) is not None else ALL)
        return [(k[0], put(k[1], off, x), envs[k]) for k, x in m.items()]

    def by_ref(self, en, f):
        c = en.callable(f, en.env)
        b = self.F.body(c[1]) if c is not None else None
        if b is None:
            return False
        i = 2 if b.kind == "Closure" else 1
        return b.argc >= i and b.local_ty(i).k == "ref"

    # ------------------------------------------------- iterators
    def step(self, g, it):
        """-> [(item or None, the iterator after it, g)]"""
        _, kind, base, pos, end, count, stages, pending = it[1]
        mk = lambda p, pend=0: ("tup", (IT, kind, base, p, end, count + 1, stages, pend))
        if pending:         # the character at pos has been taken
            res = []
            for g2, w in self.widths(g, pos):
                res += self.step(g2, ("tup", (IT, kind, base, pos + w, end, count, stages, 0)))
            return res
        if end is not OPEN and pos >= end:
            return [(None, it, g)]
        res = []
        if kind == "arr":
            by, x = base[1]
            return [(x[1][pos] if by == "val" else ("sref", x[1][pos]), mk(pos + 1), g)]
        if kind == "lines":
            for g1, e in self.exists(g, pos):
                if not e:
                    res.append((None, it, g1))
                    continue
                work = [(g1, pos)]
                while work:
                    g2, o = work.pop()
                    if end is not OPEN and o >= end:
                        res.append((self.text(pos, o), mk(o), g2))
                        continue
                    for g3, e3 in self.exists(g2, o):
                        if not e3:
                            res.append((self.text(pos, o), mk(o), g3))
                            continue
                        y = self.narrow(g3, o, 1 << 10)
                        if y is not None:
                            cr = o > pos and get(y, o - 1) == 1 << 13
                            res.append((self.text(pos, o - 1 if cr else o), mk(o + 1), y))
                        for c in (1 << 13, ALL & ~(1 << 13 | 1 << 10)):
                            z = self.narrow(g3, o, c)
                            if z is not None:
                                work += [(g4, o + w) for g4, w in self.widths(z, o)]
            return res
        for g1, e in self.exists(g, pos):
            if not e:
                res.append((None, it, g1))
                continue
            if kind == "bytes":
                # a byte of a wide character cannot be told from another
                for g2, w in self.widths(g1, pos):
                    if w > 1:
                        continue
                    res.append(("#by%d" % pos, mk(pos + 1), g2))
                continue
            ch = "#ch%d" % pos
            item = ("tup", (pos - base, ch)) if kind == "char_indices" else ch
            res.append((item, mk(pos, 1), g1))
        return res

    def staged_step(self, en, ctx, g, fn, term, it, env):
        """-> [(item or None, it, g, env)], through the adaptors"""
        stages = it[1][6][1]
        out, work = [], [(g, it, env)]
        while work:
            g1, it1, e1 = work.pop()
            for item, it2, g2 in self.step(g1, it1):
                if item is None:
                    out.append((None, it2, g2, e1))
                    continue
                states = [(item, it2, g2, e1)]
                for st in stages:
                    kind, f = st[1]
                    nxt = []
                    for v, i3, g3, e3 in states:
                        en.env = e3
                        if kind == "enumerate":
                            nxt.append((("tup", (i3[1][5] - 1, v)), i3, g3, e3))
                        elif kind == "copied":
                            nxt.append((self.value(en, v), i3, g3, e3))
                        elif kind in ("take_while", "filter"):
                            for y, g4, e4 in self.item_matches(en, ctx, g3, fn, term, f, v):
                                if y:
                                    nxt.append((v, i3, g4, e4))
                                elif kind == "take_while":
                                    out.append((None, i3, g4, e4))
                                else:
                                    work.append((g4, i3, e4))
                        elif kind in ("map", "map_while", "filter_map"):
                            for r, g4, e4 in self.once(en, g3, f, [v], ctx, fn, term) or [(None, g3, e3)]:
                                if kind == "map":
                                    nxt.append((r, i3, g4, e4))
                                    continue
                                w = self.value(en, r)
                                if isinstance(w, tuple) and w[0] == "adt" and w[1] == self.opt:
                                    if w[3]:
                                        nxt.append((w[3][0], i3, g4, e4))
                                    elif kind == "map_while":
                                        out.append((None, i3, g4, e4))
                                    else:
                                        work.append((g4, i3, e4))
                                else:
                                    nxt.append((None, i3, g4, e4))
                                    out.append((None, i3, g4, e4))
                    states = nxt
                out += states
        return out

    def item_matches(self, en, ctx, g, fn, term, f, v, own=False):
        if isinstance(v, str) and re.match(r"#(ch|by)\d+$", v):
            return self.matches(en, ctx, g, fn, term, f, v)
        here = en.env
        given = own and isinstance(v, tuple) and v[0] in ("sref", "ptr")     # the item itself is a reference
        outs = self.once(en, g, f, [("sref", v) if self.by_ref(en, f) and not given else v], ctx, fn, term)
        en.env = here
        if outs is None:
            return [(0, g, here), (1, g, here)]
        res = []
        for b, g2, e2 in outs:
            res += [(y, g3, e2) for y, g3 in self.decide(en, g2, b)]
        return res

    def iter_call(self, en, ctx, g, fn, callee, n, args, term, p, it):
        here = en.env
        if n == "next" and p is not None:
            return [(self.none() if item is None else self.some(item), g2, self.at(en, e2, p, it2))
                    for item, it2, g2, e2 in self.staged_step(en, ctx, g, fn, term, it, here)]
        if n == "peek" and p is not None:
            return [(self.none() if item is None else self.some(("sref", item)), g2, e2)
                    for item, it2, g2, e2 in self.staged_step(en, ctx, g, fn, term, it, here)]
        if n in ("nth", "skip") and len(args) > 1 and isinstance(args[1], int) and args[1] < 8:
            res, work = [], [(g, it, here, 0)]
            while work:
                g1, it1, e1, k = work.pop()
                if n == "skip" and k == args[1]:
                    res.append((it1, g1, e1))
                    continue
                for item, it2, g2, e2 in self.staged_step(en, ctx, g1, fn, term, it1, e1):
                    if n == "skip":
                        work.append((g2, it2, e2, args[1] if item is None else k + 1))
                    elif item is None or k == args[1]:
                        res.append((self.none() if item is None else self.some(item), g2, self.at(en, e2, p, it2)))
                    else:
                        work.append((g2, it2, e2, k + 1))
            return res
        if n in ("position", "find", "any", "all", "count", "sum", "fold", "find_map"):
            res, work = [], [(g, it, args[1] if n == "fold" else 0, here)]
            while work:
                g1, it1, k, e1 = work.pop()
                for item, it2, g2, e2 in self.staged_step(en, ctx, g1, fn, term, it1, e1):
                    if item is None:
                        v = k if n in ("count", "sum", "fold") else {"any": 0, "all": 1}.get(n, self.none())
                        res.append((v, g2, self.at(en, e2, p, it2)))
                        continue
                    en.env = e2
                    if n == "count":
                        work.append((g2, it2, k + 1, e2))
                        continue
                    if n == "sum":
                        k2 = self.total(k, self.value(en, item))
                        if k2 is None:
                            return None
                        work.append((g2, it2, k2, e2))
                        continue
                    if n in ("fold", "find_map"):
                        outs = self.once(en, g2, args[2] if n == "fold" else args[1], [k, item] if n == "fold" else [item], ctx, fn, term)
                        if outs is None:
                            return None
                        for r, g3, e3 in outs:
                            if n == "fold":
                                work.append((g3, it2, r, e3))
                            elif isinstance(r, tuple) and r[0] == "adt" and r[1] == self.opt and not r[3]:
                                work.append((g3, it2, k + 1, e3))
                            else:
                                res.append((r, g3, self.at(en, e3, p, it2)))
                        continue
                    for y, g3, e3 in self.item_matches(en, ctx, g2, fn, term, args[1], item, n in ("position", "any", "all")):
                        stop = 1 - y if n == "all" else y
                        if not stop:
                            work.append((g3, it2, k + 1, e3))
                        else:
                            v = {"any": 1, "all": 0, "position": self.some(k), "find": self.some(item)}[n]
                            res.append((v, g3, self.at(en, e3, p, it2)))
            return res
        if n in ("take_while", "filter", "map", "map_while", "filter_map", "enumerate", "copied", "cloned"):
            f = args[1] if len(args) > 1 else None
            t = it[1]
            k = "copied" if n == "cloned" else n
            return [(("tup", t[:6] + (("tup", t[6][1] + (("tup", (k, f)),)), t[7])), g)]
        if n in ("into_iter", "by_ref", "peekable", "fuse", "iter", "clone"):
            return [(args[0] if n == "by_ref" else it, g)]
        if n == "as_str":
            if it[1][7]:
                return [(self.text(it[1][3] + w, it[1][4]), g2) for g2, w in self.widths(g, it[1][3])]
            return [(self.text(it[1][3], it[1][4]), g)]
        return None

    def total(self, a, b):
        return a + b if isinstance(a, int) and isinstance(b, int) else None

    def at(self, en, env, p, it):
        en.env = env
        return self.put(en, p, it)

    # ------------------------------------------------- bytes
    def bytes_call(self, en, ctx, g, fn, callee, n, args, term, a, b):
        if n == "len":
            return [(self.size(g, a, b), g)]
        if n == "is_empty":
            return [(1 - e, g2) for g2, e in self.exists(g, a)] if b is OPEN else [(int(a == b), g)]
        if n == "get" and len(args) > 1 and isinstance(args[1], int):
            o = a + args[1]
            if b is not OPEN and o >= b:
                return [(self.none(), g)]
            if valid(g, o) is not True:
                return None
            return [(self.some(("sref", "#by%d" % o)) if e else self.none(), g2) for g2, e in self.exists(g, o)]
        if n in ("iter", "into_iter"):
            return [(("tup", (IT, "bytes", a, a, b, 0, ("tup", ()), 0)), g)]
        if n == "first":
            return [(self.some(("sref", "#by%d" % a)) if e else self.none(), g2) for g2, e in self.exists(g, a)]
        if n == "index" and len(args) > 1:
            r = self.range(en, g, args[1], a, b)
            if r is not None and valid(g, r[0]) and (r[1] is OPEN or valid(g, r[1])):
                return [(("sref", ("tup", (BYTES, r[0], r[1]))), g)]
        if n in ("starts_with",):
            y = self.value(en, args[1])
            if isinstance(y, tuple) and y[0] == "arr" and all(isinstance(c, int) for c in y[1]):
                return [(e, g2) for g2, e in self.spelled(g, a, None if b is OPEN else b, bytes(y[1]).decode("latin1"))]
        return None


def find_lexer(F):
    """the function from a text to the kind and the length of its first token"""
    fs = [f for f in F.crate_fns("parser") if f.argc == 1 and f.kind != "Closure" and f.local_ty(1).peel().s == "str"
          and f.local_ty(0).k == "tuple" and f.local_ty(0).s.endswith("usize)") and "SyntaxKind" in f.local_ty(0).s]
    return fs
