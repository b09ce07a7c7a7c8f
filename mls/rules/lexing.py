"""What the lexer makes of every text."""
import re

from ..events import WORKSPACE, run
from ..interp import Budget
from ..lex_model import (ALL, ASCII, DIGIT, G, G0, LOWER, OPEN, STR, UPPER, LexModel, between, chars, cover, find_lexer, get, put, show, valid,
                         width)
from ..parser_model import KIND, Anchor
from .docs import _memo
from .server import guarded

WINDOW = 7
NAME = LOWER | UPPER | DIGIT | chars("_")
SPACE = chars(" \t\n")


def kinds(F):
    k, a = F.adt_by_path(KIND)
    if k is None:
        raise Anchor("SyntaxKind")
    return k, [v["name"] for v in a["variants"]]


def spellings(F):
    """the T! macro: kind -> spelling, from the source of the crate that defines SyntaxKind"""
    import glob
    import os
    k, a = F.adt_by_path(KIND)
    table = {}
    for p in sorted(glob.glob(os.path.join(F.repo, "crates/parser/src/**/*.rs"), recursive=True)):
        text = open(p, encoding="utf-8").read()
        m = re.search(r"macro_rules\s*!\s*T\s*[{(\[]", text)
        if not m:
            continue
        for s, name in re.findall(r"\[(\S+)\]\s*=>\s*\{\s*\$\s*crate\s*::\s*SyntaxKind\s*::\s*(\w+)\s*\}", text[m.end():]):
            if len(s) == 3 and s[0] == s[2] == "'":
                s = s[1]
            table[name] = s
    if not table:
        raise Anchor("the T! macro")
    return table


def follows(g, s):
    """can the text still start with s? None if that is not excluded, for a window's lack"""
    o = 0
    for c in s:
        m = get(g, o)
        if g.end is not None and o >= g.end:
            return False
        if m is None:
            return True
        if not m >> ord(c) & 1:
            return False
        o += 1
    return True


def may_be(g, s):
    """can the text be s and nothing more?"""
    if not follows(g, s):
        return False
    if g.end is not None:
        return g.end == len(s)
    return not any(o >= len(s) for o, _m in g.P)


def exactly(g, s):
    return all(get(g, i) == 1 << ord(c) for i, c in enumerate(s))


def ends_name(g, o):
    """the text's name characters end at o"""
    if g.end is not None and o >= g.end:
        return True
    m = get(g, o)
    return m is not None and not m & NAME


class Spec:
    def __init__(self, F):
        self.key, self.names = kinds(F)
        t = spellings(F)
        self.all = t
        word = lambda s: re.match(r"[A-Za-z_]\w*$", s)
        self.punct = {n: s for n, s in t.items() if not word(s)}
        self.words = {n: s for n, s in t.items() if word(s) and n.endswith("_KW")}
        for n in list(self.punct) + list(self.words):
            if n not in self.names:
                raise Anchor("SyntaxKind::" + n)
        self.starts = NAME | SPACE
        for s in self.punct.values():
            self.starts |= chars(s[0])

    def wordy(self, s):
        return bool(re.match(r"\w", s[-1]))

    def judge(self, kind, n, g):
        """None, or (property, what is wrong)"""
        if not isinstance(n, int):
            return None
        if n == 0:
            if kind != "EOF":
                return "C01", "a token of kind %s and length 0 is found at the start of %s" % (kind, show(g))
            return None if g.end == 0 else ("C27", "the text %s is taken to be at its end" % show(g))
        if kind == "EOF":
            return "C01", "a token of kind EOF has length %d" % n
        v = valid(g, n)
        if v is not True:
            if v is None:
                # the width of the last character does not matter if all widths are wrong or right
                at, top = cover(g)
                m = get(g, top)
                if m is not None and width(m) is None and top < n:
                    return "C02", "the token of %s may end inside a character (length %d)" % (show(g), n)
                return "C02", "the token of %s may be longer than the text (length %d)" % (show(g), n)
            return "C02", "the token of %s ends inside a character or beyond the text (length %d)" % (show(g), n)
        r = self.kind(kind, n, g)
        return r and ("C27", r)

    def masks(self, g, n):
        at, top = cover(g)
        return [get(g, o) for o in at if o < n]

    def kind(self, kind, n, g):
        ms = self.masks(g, n)
        what = "%s (length %d) at the start of %s" % (kind, n, show(g))
        if kind == "#kw" or kind == "IDENT" or kind in self.words:
            if any(m & ~NAME for m in ms):
                return what + ": holds characters that are not those of a name"
            if ms[0] & DIGIT:
                return what + ": starts with a digit"
            if not ends_name(g, n):
                return what + ": the name goes on"
            if kind == "#kw":
                return None if ((0, n), 1) in g.kw else what + ": the keyword looked up is not the token"
            if kind in self.words:
                s = self.words[kind]
                return None if n == len(s) and exactly(g, s) else what + ": is not spelled %s" % s
            if ((0, n), 0) in g.kw:
                return None
            for k, s in self.words.items():
                if len(s) == n and follows(g, s):
                    return what + ": may be the keyword %s" % s
            return None
        if kind in self.punct:
            s = self.punct[kind]
            if n != len(s) or not exactly(g, s):
                return what + ": is not spelled %s" % s
            if self.wordy(s) and not ends_name(g, n):
                return what + ": the name goes on"
            for k, longer in self.punct.items():
                if longer != s and longer.startswith(s) and follows(g, longer):
                    if self.wordy(longer):
                        m = get(g, len(longer))
                        if m is not None and not m & ~NAME:
                            continue
                    return what + ": may be %s" % longer
            if follows(g, "//") and s == "/":
                return what + ": may be a comment"
            return None
        if kind == "WHITESPACE":
            if any(m & ~SPACE for m in ms):
                return what + ": holds characters that are not white space"
            return None
        if kind == "COMMENT":
            if not exactly(g, "//"):
                return what + ": does not start with //"
            if any(m >> 10 & 1 for m in ms[:-1]):
                return what + ": goes on behind the end of the line"
            if ms[-1] != 1 << 10 and not (g.end is not None and n >= g.end) and get(g, n) != 1 << 10:
                return what + ": ends before the line does"
            return None
        if kind == "INTEGER_NUMBER":
            return self.number(n, g, ms, what)
        if kind in ("BYTE_STRING", "HEX_STRING"):
            return self.string(n, g, ms, what)
        if kind == "ERROR":
            if ms[0] & self.starts == 0:
                return None if len(ms) == 1 else what + ": takes in more than the character that starts no token"
            if (exactly(g, 'b"') or exactly(g, 'x"')):
                if self.string(n, g, ms, what) is not None:
                    return None
            return what + ": the text starts with a token"
        return what + ": such a token is not made from text"

    def number(self, n, g, ms, what):
        hexd = DIGIT | chars("abcdefABCDEF")
        is_hex = exactly(g, "0x") and n > 2
        body = hexd if is_hex else DIGIT
        i = 2 if is_hex else 0
        if len(ms) != n:
            return what + ": holds characters that are not those of a number"
        if ms[0] & ~DIGIT:
            return what + ": does not start with a digit"
        if not is_hex and n == 1 and ms[0] == chars("0") and exactly(g, "0x"):
            m = get(g, 2)
            if g.end == 2 or m is not None and not m & hexd:
                return None
            return what + ": may be a hexadecimal number"
        for s in ("u8", "u64", "u128"):
            if n - len(s) >= i and all(ms[n - len(s) + j] == chars(c) for j, c in enumerate(s)) \
                    and not any(m & ~body for m in ms[i:n - len(s)]):
                return None
        if any(m & ~body for m in ms[i:]):
            return what + ": holds characters that are not those of a number"
        if is_hex and n == 2:
            return what + ": has no digits"
        # what follows
        at_end = g.end is not None and n >= g.end
        if not at_end:
            m = get(g, n)
            if m is None or m & body:
                return what + ": the number goes on"
            rest = G(tuple((o - n, x) for o, x in g.P if o >= n), None if g.end is None else g.end - n, ())
            for s in ("u8", "u64", "u128"):
                if follows(rest, s):
                    return what + ": the type %s may follow" % s
        if not is_hex and ms[0] == chars("0") and n == 1 and follows(g, "0x"):
            return what + ": may be a hexadecimal number"
        return None

    def string(self, n, g, ms, what):
        if not (exactly(g, 'b"') or exactly(g, 'x"')) or n < 3:
            return what + ': does not start with b" or x"'
        esc = False
        for i, m in enumerate(ms[2:]):
            last = i == len(ms) - 3
            if m >> 10 & 1 and m != 1 << 10:
                return what + ": may hold a line end"
            if m == 1 << 10:
                return what + ": holds a line end"
            if esc:
                esc = False
                if last:
                    return what + ": ends at an escaped character"
                continue
            if m == chars('"'):
                return None if last else what + ": goes on behind the closing quote"
            if m & chars('"'):
                return what + ": may go on behind the closing quote"
            if m & chars("\\"):
                if m != chars("\\"):
                    return what + ": may not skip an escaped character"
                esc = True
        return what + ": ends before the closing quote"


def tokens_of(F):
    """the interpretation of the lexer for every text; memoized"""
    if _memo.get("lexer", (None,))[0] is not F:
        fs = find_lexer(F)
        if not fs:
            raise Anchor("the function that finds a token")
        # the one that is called by the lexer's methods and not by another of them
        called = set()
        for f in fs:
            for b in f.blocks:
                t = b["t"]
                if t["k"] in ("call", "tailcall"):
                    c = f.callee(t)
                    if c is not None:
                        called.add(c.rkey)
        roots = [f for f in fs if f.key not in called]
        if len(roots) != 1:
            raise Anchor("the function that finds a token")
        for w in (WINDOW, 5, 4, 3):
            M = LexModel(F, w)
            try:
                en, c = run(F, M, roots[0], [("sref", ("tup", (STR, 0, OPEN)))], [], G0, WORKSPACE)
                break
            except Budget:
                pass
        else:
            raise Anchor("the tokens of short texts")
        if not c.out:
            raise Anchor("a token")
        _memo["lexer"] = (F, M, en, c, roots[0])
    return _memo["lexer"][1:]


def outcomes(F, S, M, c):
    for (ret, _c, _k), g in c.out.items():
        k = n = None
        if isinstance(ret, tuple) and ret[0] == "tup" and len(ret[1]) == 2:
            k, n = ret[1]
            n = M.known(g, n)
        if isinstance(k, tuple) and k[0] == "adt" and k[1] == S.key:
            k = S.names[k[2]]
        elif k != "#kw":
            k = None
        yield k, n, g


def lexer_faults(F, R, prop):
    """what the lexer does wrong, of one property"""
    M, en, c, f = tokens_of(F)
    S = Spec(F)
    R.count("abstract texts", len(c.out))
    R.count("abstract states of the lexer", en.steps)
    seen = set()
    if prop != "C01":
        for (path, what), (fn, line, g, ctx) in sorted(M.bad.items(), key=lambda x: (x[0], x[1][1])):
            R.violation("%s|lexer|%s|%s" % (prop, path, what.split("(")[0]), fn.loc(line), "%s: %s, for a text like %s" % (path, what, show(g)))
    und = 0
    for k, n, g in outcomes(F, S, M, c):
        if k is None or not isinstance(n, int):
            und += 1
            continue
        R.sample("tokens", "%s: %s of %d" % (show(g), k, n))
        j = S.judge(k, n, g)
        if j is not None and (j[0] == prop or prop == "C27"):
            key = "%s|%s|%s" % (prop, k, j[1].rsplit(": ", 1)[-1] if ": " in j[1] else n)
            if key not in seen:
                seen.add(key)
                R.violation(key, f.loc(), "%s: %s" % (f.path, j[1]))
    R.count("texts whose token could not be determined", und)
    if und * 2 > len(c.out):
        raise Anchor("the tokens the lexer makes")


def tables(F, R, S):
    """the functions that relate kinds and spellings agree with the T! macro"""
    key = S.key
    adt = lambda i: ("adt", key, i, ())
    singles = {s: n for n, s in S.all.items() if len(s) == 1}
    done = 0
    for f in sorted(F.crate_fns("parser"), key=lambda f: f.path):
        if f.kind == "Closure" or f.derived or f.impl_trait or f.argc != 1:
            continue
        ps = f.local_ty(1).peel()
        opt = "option::Option<" in f.local_ty(0).s and "SyntaxKind" in f.local_ty(0).s
        if opt and ps.s in ("char", "str"):
            table = {s: n for n, s in S.words.items()} if ps.s == "str" else singles
            M = LexModel(F, 14)
            arg = "#ch0" if ps.s == "char" else ("sref", ("tup", (STR, 0, OPEN)))
            en, c = run(F, M, f, [arg], [], G0 if ps.s == "str" else put(G0, 0, ALL), WORKSPACE)
            R.count("abstract states", en.steps)
            done += 1
            got = {}
            for (ret, _c, _k), g in c.out.items():
                v = None
                if isinstance(ret, tuple) and ret[0] == "adt" and ret[1] == M.opt:
                    v = "-none" if not ret[3] else (S.names[ret[3][0][2]] if isinstance(ret[3][0], tuple) else None)
                if v is None:
                    continue
                for s, n in table.items():
                    if follows(g, s) and (ps.s == "char" or may_be(g, s)):
                        got.setdefault(s, set()).add(v)
                if v != "-none" and not any(table.get(s) == v and follows(g, s) for s in table):
                    R.violation("C27|%s|%s" % (f.path, v), f.loc(), "%s: yields %s for %s" % (f.path, v, show(g)))
            for s, n in sorted(table.items()):
                if got.get(s) and got[s] != {n}:
                    R.violation("C27|%s|%s" % (f.path, s), f.loc(), "%s: yields %s for `%s`, whose kind is %s" % (
                        f.path, " or ".join(sorted(x.strip("-") for x in got[s])), s, n))
            R.sample("tables", "%s: %d spellings" % (f.path, len(table)))
        elif F.adt_path(ps) == KIND and f.local_ty(0).s == "bool" and f.name in ("is_keyword", "is_punct"):
            want = S.words if f.name == "is_keyword" else S.punct
            done += 1
            for i, n in enumerate(S.names):
                M = LexModel(F, 1)
                en, c = run(F, M, f, [("ptr", ("c", 0), (), False) if f.local_ty(1).k == "ref" else adt(i)],
                            [adt(i)] if f.local_ty(1).k == "ref" else [], G0, WORKSPACE)
                R.count("abstract states", en.steps)
                vals = {r for (r, _c, _k) in c.out}
                if n in ("WILDCARD",):
                    continue
                if vals in ({0}, {1}) and vals != {int(n in want)}:
                    R.violation("C27|%s|%s" % (f.path, n), f.loc(), "%s: is %s for %s" % (f.path, "true" if 1 in vals else "false", n))
            R.sample("tables", "%s: %d kinds" % (f.path, len(S.names)))
    R.count("tables", done)
    if not done:
        raise Anchor("the tables of kinds and spellings")


@guarded
def spelling(F, R):
    R.rule("Abstract interpretation of the lexer over texts known by the set of characters at each position and their end: every "
           "kind and length it may return is judged against the T! macro's spellings, with the longest spelling preferred; and of the "
           "functions that relate kinds and spellings, for every kind and spelling.")
    R.assume("Texts are followed for %d bytes; what the lexer decides further on is not judged." % WINDOW)
    lexer_faults(F, R, "C27")
    tables(F, R, Spec(F))
