"""Strings and byte buffers whose characters are known by their class, for the
interpretation of code that builds new texts from old ones.

A string is the list of its characters; each is the character at some offset
of an input text, whose class is known. Bytes are those of such characters."""
import re

from .lex_model import IT, get, width
from .rules.linecols import PosModel
from .seqs import isa

S, MS = "#S", "#ms"
ONE = re.compile(r"#(ch|by)(\d+)$")


class StrModel(PosModel):
    def __init__(self, F):
        super().__init__(F, 9999)

    # ------------------------------------------------- representation
    def s(self, ids):
        return ("tup", (S,) + tuple(ids))

    def w(self, g, c):
        """the width of a character in bytes"""
        if isinstance(c, int):
            return len(chr(c).encode())
        m = get(g, int(c[3:]))
        return width(m) if m is not None else None

    def bytes_of(self, g, ids):
        r = []
        for c in ids:
            if isinstance(c, int):
                r += list(chr(c).encode())
            else:
                o = int(c[3:])
                r += ["#by%d" % (o + i) for i in range(self.w(g, c))]
        return tuple(r)

    def chars_of(self, g, bs):
        """bytes -> characters, None if they are not whole ones"""
        r, i = [], 0
        while i < len(bs):
            b = bs[i]
            if isinstance(b, int):
                if b > 127:
                    return None
                r.append(b)
                i += 1
                continue
            o = int(b[3:])
            m = get(g, o)
            k = width(m) if m is not None else None
            if k is None or tuple(bs[i:i + k]) != tuple("#by%d" % (o + j) for j in range(k)):
                return None
            r.append("#ch%d" % o)
            i += k
        return tuple(r)

    def bounds(self, g, ids):
        r = [0]
        for c in ids:
            r.append(r[-1] + self.w(g, c))
        return r

    def same(self, g, a, b):
        """are two characters or bytes the same? None: not known"""
        if a == b:
            return 1
        if isinstance(a, str) and isinstance(b, str):
            return None
        if isinstance(a, str):
            a, b = b, a
        if not isinstance(a, int) or not isinstance(b, str):
            return None
        m = get(g, int(b[3:]))
        if m is None:
            return 0 if a < 128 and b.startswith("#by") else None
        if a > 127:
            return None if width(m) != 1 else 0
        return 0 if not m >> a & 1 else 1 if m == 1 << a else None

    def letters(self, v):
        """the characters of a string value, None if it is not one"""
        if isa(v, S):
            return v[1][1:]
        if isinstance(v, tuple) and v[0] == "s":
            return tuple(ord(c) for c in v[1])
        return None

    def units(self, v):
        """the bytes of a constant or a list"""
        if isinstance(v, tuple) and v[0] == "arr":
            return v[1]
        if isinstance(v, tuple) and v[0] == "s":
            return tuple(v[1].encode())
        if isinstance(v, tuple) and v[0] in ("bs", "bytes") and isinstance(v[1], (bytes, str)):
            return tuple(v[1] if isinstance(v[1], bytes) else v[1].encode("latin1"))
        return None

    def arr(self, items):
        return ("tup", (IT, "arr", ("tup", ("val", ("arr", tuple(items)))), 0, len(items), 0, ("tup", ()), 0))

    def match_at(self, g, ids, i, pat):
        """does pat occur at position i?"""
        if i + len(pat) > len(ids):
            return 0
        rs = [self.same(g, ids[i + j], pat[j]) for j in range(len(pat))]
        return 0 if 0 in rs else None if None in rs else 1

    def span(self, en, g, r, n):
        """-> (from, to) of a range value over n units"""
        r = self.value(en, r)
        if isa(r, "#tr"):
            return r[1][1], r[1][2]
        if not isinstance(r, tuple) or r[0] != "adt" or r[1] not in self.F.adts:
            return None
        path, f = self.F.adts[r[1]]["path"], [en.as_int(x) for x in r[3]]
        lo, hi = (f[0], n) if path.endswith("RangeFrom") else (0, f[0]) if path.endswith("RangeTo") else (0, n) if path.endswith("RangeFull") else \
            (f[0], f[1]) if path.endswith("::Range") else (f[0], None if f[1] is None else f[1] + 1) if path.endswith("RangeInclusive") else (None, None)
        return None if lo is None or hi is None else (lo, hi)

    # ------------------------------------------------- calls
    def text_call(self, en, ctx, g, fn, callee, args, term):
        n = callee.name
        t = fn.place_ty(term["dst"]) if term.get("dst") is not None else None
        tp = self.F.adt_path(t) if t is not None else None
        if tp == "alloc::string::String" and n in ("new", "with_capacity", "default"):
            return [(self.s(()), g)]
        if not args:
            return super().text_call(en, ctx, g, fn, callee, args, term)
        p, v = self.target(en, args)
        x = self.value(en, args[0])
        if n in ("from", "into") and isa(x, "#tr") and tp and "Range" in tp and t.k == "adt":
            return [(("adt", t["adt"], 0, (x[1][1], x[1][2])), g)]
        if isa(x, MS):
            r = self.ms_call(en, ctx, g, fn, callee, n, args, term, self.slice_at(en, args[0]))
            if r is not None:
                return r
        if isa(v, S) or isa(x, S):
            r = self.string_call(en, ctx, g, fn, callee, n, args, term, p, x)
            if r is not None:
                return r
        if n in ("eq", "ne") and len(args) == 2:
            a, b = self.units(x), self.units(self.value(en, args[1]))
            if a is not None and b is not None and (len(a) != len(b) or all(isinstance(i, (int, str)) for i in a + b)):
                r = 0 if len(a) != len(b) else self.match_at(g, a, 0, b)
                if r is not None:
                    return [(r if n == "eq" else 1 - r, g)]
        if n == "contains" and len(args) == 2 and isinstance(x, tuple) and x[0] == "arr":
            y = self.value(en, args[1])
            rs = [self.same(g, i, y) for i in x[1]] if isinstance(y, int) else [None]
            if 1 in rs or None not in rs:
                return [(int(1 in rs), g)]
        if isinstance(x, tuple) and x[0] == "arr":
            r = self.buffer_call(en, ctx, g, fn, callee, n, args, term, p, v, x[1])
            if r is not None:
                return r
        return super().text_call(en, ctx, g, fn, callee, args, term)

    def string_call(self, en, ctx, g, fn, callee, n, args, term, p, x):
        ids = x[1][1:]
        put = lambda xs: self.put(en, p, self.s(xs))
        unit = ("tup", ())
        at = self.bounds(g, ids)
        if n in ("deref", "deref_mut", "as_str", "as_ref", "borrow", "as_mut_str", "as_mut"):
            return [(args[0], g)]
        if n in ("clone", "to_string", "to_owned", "into", "from", "into_boxed_str", "into_string", "to_lowercase") and n != "to_lowercase":
            return [(x, g)]
        if n == "len":
            return [(at[-1], g)]
        if n in ("of", "text_len"):
            return [(at[-1], g)]
        if n == "is_empty":
            return [(int(not ids), g)]
        if n == "chars":
            return [(self.arr(ids), g)]
        if n == "char_indices":
            return [(self.arr([("tup", (o, c)) for o, c in zip(at, ids)]), g)]
        if n in ("as_bytes", "into_bytes", "as_bytes_mut"):
            b = ("arr", self.bytes_of(g, ids))
            return [(b if n == "into_bytes" else ("sref", b), g)]
        if n == "bytes":
            return [(self.arr(self.bytes_of(g, ids)), g)]
        if n in ("contains", "find", "replace", "starts_with", "ends_with", "replacen", "rfind") and len(args) > 1:
            y = self.value(en, args[1])
            pat = (y,) if isinstance(y, int) else self.letters(y)
            if not pat:
                return None
            if n in ("starts_with", "ends_with"):
                r = self.match_at(g, ids, 0 if n == "starts_with" else len(ids) - len(pat), pat) if len(pat) <= len(ids) else 0
                return None if r is None else [(r, g)]
            hits, i = [], 0
            while i < len(ids):
                r = self.match_at(g, ids, i, pat)
                if r is None:
                    return None
                if r:
                    hits.append(i)
                    i += len(pat)
                else:
                    i += 1
            if n == "contains":
                return [(int(bool(hits)), g)]
            if n in ("find", "rfind"):
                return [(self.some(at[hits[0 if n == "find" else -1]]) if hits else self.none(), g)]
            to = self.letters(self.value(en, args[2]))
            if to is None or n == "replacen":
                return None
            r, i = [], 0
            while i < len(ids):
                if i in hits:
                    r += list(to)
                    i += len(pat)
                else:
                    r.append(ids[i])
                    i += 1
            return [(self.s(r), g)]
        if n in ("index", "get") and len(args) == 2:
            lh = self.span(en, g, args[1], at[-1])
            if lh is None:
                return None
            if lh[0] in at and lh[1] in at and lh[0] <= lh[1]:
                r = ("sref", self.s(ids[at.index(lh[0]):at.index(lh[1])]))
                return [(r if n == "index" else self.some(r), g)]
            if n == "get":
                return [(self.none(), g)]
            self.fault(fn, term["line"], "slices a text where it is not between two characters", g, ctx)
            return []
        if p is None:
            return None
        if n == "push":
            return [(unit, g, put(ids + (self.value(en, args[1]),)))]
        if n in ("push_str", "add_assign"):
            y = self.letters(self.value(en, args[1]))
            return None if y is None else [(unit, g, put(ids + y))]
        if n == "clear":
            return [(unit, g, put(()))]
        if n == "pop":
            return [(self.some(ids[-1]), g, put(ids[:-1]))] if ids else [(self.none(), g)]
        if n in ("reserve", "shrink_to_fit"):
            return [(unit, g)]
        if n in ("truncate", "remove", "insert_str", "insert", "split_off") and len(args) > 1:
            o = self.value(en, args[1])
            if not isinstance(o, int):
                return None
            if n == "truncate" and o >= at[-1]:
                return [(unit, g)]
            if o not in at:
                self.fault(fn, term["line"], "cuts a text where it is not between two characters", g, ctx)
                return []
            k = at.index(o)
            if n == "truncate":
                return [(unit, g, put(ids[:k]))]
            if n == "split_off":
                return [(self.s(ids[k:]), g, put(ids[:k]))]
            if n == "remove":
                return [(ids[k], g, put(ids[:k] + ids[k + 1:]))] if k < len(ids) else []
            y = self.value(en, args[2])
            y = (y,) if n == "insert" else self.letters(y)
            return None if y is None else [(unit, g, put(ids[:k] + y + ids[k:]))]
        if n in ("replace_range", "drain") and len(args) > 1:
            lh = self.span(en, g, args[1], at[-1])
            y = self.letters(self.value(en, args[2])) if n == "replace_range" else ()
            if lh is None or y is None:
                return None
            if not (lh[0] in at and lh[1] in at and lh[0] <= lh[1]):
                self.fault(fn, term["line"], "replaces a piece of a text that is not whole characters of it", g, ctx)
                return []
            a, b = at.index(lh[0]), at.index(lh[1])
            return [(unit if n == "replace_range" else self.arr(ids[a:b]), g, put(ids[:a] + y + ids[b:]))]
        if n == "swap" and callee.rpath.startswith("core::mem::") and len(args) == 2:
            q, w = self.target(en, args[1:])
            if q is not None and isa(w, S):
                en2 = put(w[1][1:])
                here, en.env = en.env, en2
                out = self.put(en, q, x)
                en.env = here
                return [(unit, g, out)]
        if n in ("take", "replace") and callee.rpath.startswith("core::mem::"):
            return [(x, g, self.put(en, p, self.s(()) if n == "take" else self.value(en, args[1])))]
        return None

    # ------------------------------------------------- buffers of bytes
    def slice_at(self, en, a):
        for _ in range(9):
            if isa(a, MS) or not isinstance(a, tuple):
                break
            a = en.proj(en.env.get(a[1]), a[2]) if a[0] == "ptr" else a[1] if a[0] == "sref" else None
        return a if isa(a, MS) else None

    def view(self, en, x):
        """-> (pointer, from, to, elements) of a mutable slice"""
        _t, q, lo, hi = x[1]
        w = en.proj(en.env.get(q[1]), q[2])
        return q, lo, hi, w[1] if isinstance(w, tuple) and w[0] == "arr" else None

    def ms_call(self, en, ctx, g, fn, callee, n, args, term, x):
        if x is None:
            return None
        q, lo, hi, items = self.view(en, x)
        if items is None:
            return None
        mine = items[lo:hi]
        if n in ("index_mut", "get_mut", "index", "get") and len(args) == 2:
            i = self.value(en, args[1])
            if isinstance(i, int):
                if not 0 <= i < len(mine):
                    self.fault(fn, term["line"], "reads beyond the end of a buffer", g, ctx)
                    return []
                r = self.at_ptr(q, ("arr", items), lo + i)
            else:
                lh = self.span(en, g, i, len(mine))
                if lh is None:
                    return None
                if not 0 <= lh[0] <= lh[1] <= len(mine):
                    self.fault(fn, term["line"], "takes a piece of a buffer beyond its end", g, ctx)
                    return []
                r = ("sref", ("tup", (MS, q, lo + lh[0], lo + lh[1]))) if "mut" in n else ("sref", ("arr", mine[lh[0]:lh[1]]))
            return [(r if not n.startswith("get") else self.some(r), g)]
        r = self.slice_ops(en, ctx, g, fn, n, args, term, q, lo, hi, items)
        if r is not None:
            return r
        return super().text_call(en, ctx, g, fn, callee, [("sref", ("arr", mine))] + list(args[1:]), term)

    def slice_ops(self, en, ctx, g, fn, n, args, term, q, lo, hi, items):
        mine = items[lo:hi]
        put = lambda xs: self.put(en, q, ("arr", tuple(items[:lo]) + tuple(xs) + tuple(items[hi:])))
        if n == "copy_within" and q is not None and len(args) == 3:
            lh, d = self.span(en, g, args[1], len(mine)), self.value(en, args[2])
            if lh is None or not isinstance(d, int):
                return None
            if not 0 <= lh[0] <= lh[1] <= len(mine) or d + lh[1] - lh[0] > len(mine):
                self.fault(fn, term["line"], "copies beyond the end of a buffer", g, ctx)
                return []
            piece = mine[lh[0]:lh[1]]
            return [(("tup", ()), g, put(mine[:d] + piece + mine[d + len(piece):]))]
        if n == "swap" and q is not None and len(args) == 3:
            i, j = self.value(en, args[1]), self.value(en, args[2])
            if isinstance(i, int) and isinstance(j, int) and i < len(mine) and j < len(mine):
                xs = list(mine)
                xs[i], xs[j] = xs[j], xs[i]
                return [(("tup", ()), g, put(xs))]
        if n == "windows" and len(args) == 2 and isinstance(self.value(en, args[1]), int):
            k = self.value(en, args[1])
            return [(self.arr([("sref", ("arr", mine[i:i + k])) for i in range(len(mine) - k + 1)]), g)]
        return None

    def buffer_call(self, en, ctx, g, fn, callee, n, args, term, p, v, items):
        if n in ("from_utf8_unchecked", "from_utf8", "from_utf8_lossy") and all(isinstance(i, int) or isinstance(i, str) and ONE.match(i) for i in items):
            ids = self.chars_of(g, items)
            if ids is None:
                self.fault(fn, term["line"], "makes a text of bytes that are not whole characters", g, ctx)
                return []
            s = self.s(ids)
            s = s if isinstance(args[0], tuple) and args[0][0] == "arr" else ("sref", s)
            return [(self.ok(s) if n == "from_utf8" else s, g)]
        if n in ("as_mut_slice", "deref_mut", "as_mut") and p is not None and "Vec" in callee.rpath:
            return [(("sref", ("tup", (MS, p, 0, len(items)))), g)]
        if n == "index_mut" and p is not None and not isinstance(self.value(en, args[1]), int):
            return self.ms_call(en, ctx, g, fn, callee, n, args, term, ("tup", (MS, p, 0, len(items))))
        if n == "set_len" and p is not None and isinstance(self.value(en, args[1]), int):
            k = self.value(en, args[1])
            if k > len(items):
                self.fault(fn, term["line"], "makes a buffer longer than it is", g, ctx)
                return []
            return [(("tup", ()), g, self.put(en, p, ("arr", items[:k])))]
        if n == "extend_from_slice" and p is not None:
            y = self.units(self.value(en, args[1]))
            return None if y is None else [(("tup", ()), g, self.put(en, p, ("arr", items + y)))]
        if n == "retain" and p is not None and len(args) == 2:
            kept, env = [], en.env
            for i in items:
                r = self.once(en, g, args[1], [("sref", i)], ctx, fn, term)
                if r is None or len(r) != 1 or r[0][0] not in (0, 1):
                    en.env = env
                    return None
                if r[0][0]:
                    kept.append(i)
                env = en.env = r[0][2]
            return [(("tup", ()), g, self.put(en, p, ("arr", tuple(kept))))]
        return self.slice_ops(en, ctx, g, fn, n, args, term, p, 0, len(items), items)
