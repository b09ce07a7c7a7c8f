"""The syntax tree holds the text, in the shape the grammar gave it."""
import itertools

from ..events import WORKSPACE, run
from ..interp import Budget
from ..parser_model import KIND, Anchor
from ..tree_model import TreeModel
from .server import guarded

TRIVIA = ("WHITESPACE", "COMMENT")
SOLID = ("IDENT", "L_BRACE", "INTEGER_NUMBER", "SEMICOLON", "R_BRACE")
MAX = 4


def pattern(bits):
    """kinds for a text; True: trivia"""
    r, t, s = [], 0, 0
    for b in bits:
        if b:
            r.append(TRIVIA[t % 2])
            t += 1
        else:
            r.append(SOLID[s % len(SOLID)])
            s += 1
    return tuple(r)


def texts(F, thorough):
    for length in range(MAX + thorough + 1):
        for bits in itertools.product((False, True), repeat=length):
            yield pattern(bits), length <= 2 or bits in RICH or thorough
    for bits in ((0,) + (1,) * 7, (1,) * 6 + (0,), (0,) + (1,) * 6 + (0,), (0,) * 7, (0, 1) * 4):
        yield pattern(bits), False
    a = F.adt_by_path(KIND)[1]
    names = [v["name"] for v in a["variants"]]
    for k in names[:names.index("SOURCE_FILE")]:
        if k not in ("EOF", "TOMBSTONE") and k not in TRIVIA:
            yield ("IDENT", "WHITESPACE", k, "COMMENT"), False


def bumped(kinds):
    """raw tokens that are current at some time: the first, and all that are not trivia"""
    return [i for i, k in enumerate(kinds) if i == 0 or k not in TRIVIA]


def looks(kinds, cur, i):
    """what is expected in front of the i-th consumed token"""
    ops = []
    for n in range(4):
        rest = [kinds[j] for j in cur[i:]] + ["EOF"] * 4
        ops.append(("nth", n, rest[n]))
    if i < len(cur):
        ops.append(("text", cur[i]))
    return ops


def scripts(kinds, rich):
    cur = bumped(kinds)
    B = len(cur)
    b = [("bump",)]
    yield [("start", "r")] + [x for i in range(B) for x in looks(kinds, cur, i) + b] + looks(kinds, cur, B) + [("complete", "r", "SOURCE_FILE")]
    if not rich:
        return
    root = lambda ops: [("start", "r")] + ops + [("complete", "r", "SOURCE_FILE")]
    lead = int(bool(kinds) and kinds[0] in TRIVIA)      # the grammar takes trivia at the start into the root
    for i in range(lead, B + 1):
        for j in range(i, B + 1):
            inner, rest = b * (j - i), b * (B - j)
            a = b * i + [("start", "a")] + inner
            yield root(a + [("complete", "a", "MODULE_DEF")] + rest)
            yield root(a + [("abandon", "a")] + rest)
            yield root(a + [("error",), ("complete", "a", "ERROR"), ("error",)] + rest)
            for k in range(j, B + 1):
                yield root(a + [("complete", "a", "PATH_EXPR"), ("precede", "b", "a")] + b * (k - j) + [("complete", "b", "CALL_EXPR")] + b * (B - k))
                yield root(a + [("complete", "a", "PATH_EXPR"), ("precede", "b", "a"), ("complete", "b", "CALL_EXPR"), ("precede", "c", "b")]
                           + b * (k - j) + [("complete", "c", "BIN_EXPR")] + b * (B - k))
                yield root(a + [("complete", "a", "BIN_EXPR"), ("precede", "b", "a")] + b * (k - j) + [("complete", "b", "BIN_EXPR"), ("precede", "c", "b"),
                                                                                                      ("complete", "c", "BIN_EXPR")] + b * (B - k))
                if k > j:
                    yield root(a + [("complete", "a", "PATH_EXPR"), ("precede", "b", "a")] + b * (k - j) + [("abandon", "b")] + b * (B - k))
                yield root(a + [("complete", "a", "PATH_EXPR"), ("undo", "b", "a")] + b * (k - j) + [("complete", "b", "CALL_EXPR")] + b * (B - k))
                yield root(a + [("start", "b")] + b * (k - j) + [("complete", "b", "BLOCK_EXPR"), ("complete", "a", "MODULE_DEF")] + b * (B - k))
    if B and not lead:
        yield root([("remap", "MODULE_KW")] + b * (B - 1))


def tree_of(kinds, script):
    """-> the builder's calls, without trivia"""
    cur = bumped(kinds)
    n = 0
    flat = []                           # objects; open objects are shared lists
    marks = {}
    for op in script:
        if op[0] == "start":
            o = ["open", None]
            marks[op[1]] = o
            flat.append(o)
        elif op[0] == "complete":
            marks[op[1]][1] = op[2]
            flat.append(["close", marks[op[1]]])
        elif op[0] == "abandon":
            flat[:] = [o for o in flat if o is not marks[op[1]]]
        elif op[0] == "precede":
            o = ["open", None]
            i = next(k for k, x in enumerate(flat) if x is marks[op[2]])
            flat.insert(i, o)
            marks[op[1]] = o
        elif op[0] == "undo":
            old = marks[op[2]]
            flat[:] = [o for o in flat if not (o[0] == "close" and o[1] is old)]
            old[1] = None
            marks[op[1]] = old
        elif op[0] in ("bump", "remap") and n < len(cur):
            flat.append(["tok", op[1] if op[0] == "remap" else kinds[cur[n]], cur[n]])
            n += 1
    r = []
    for o in flat:
        if o[0] == "open":
            r.append(("start", o[1]))
        elif o[0] == "close":
            r.append(("finish",))
        elif o[1] not in TRIVIA:
            r.append(("tok", o[1], o[2]))
    return r


def describe(kinds, script):
    return "%s; %s" % (" ".join(kinds) or "no token", ", ".join(" ".join(str(x) for x in op) for op in script if op[0] not in ("nth", "text")))


def judge(kinds, script, trace):
    """None or what is wrong with the builder's calls"""
    want = tree_of(kinds, script)
    got, pos, depth, done = [], 0, 0, False
    for e in trace:
        if done:
            return "the tree is changed after its end"
        if e[0] == "tok":
            if e[2] != pos:
                return "token %d is given to the tree where token %d comes next" % (e[2], pos)
            if e[3] != pos + 1:
                return "%s tokens become one token of the tree" % ("no" if e[3] == pos else e[3] - pos)
            if depth == 0:
                return "a token is given to the tree outside of its root"
            k = kinds[pos]
            if k in TRIVIA:
                if e[1] != k:
                    return "a token of kind %s becomes one of kind %s" % (k, e[1])
            else:
                got.append(("tok", e[1], pos))
            pos += 1
        elif e[0] == "start":
            if depth == 0 and got:
                return "the tree has two roots"
            depth += 1
            got.append(("start", e[1]))
        elif e[0] == "finish":
            depth -= 1
            if depth < 0:
                return "a node is finished that was not started"
            got.append(("finish",))
        elif e[0] == "end":
            done = True
    if not done:
        return "the tree is not finished"
    if depth:
        return "a node is not finished"
    if pos != len(kinds):
        return "the text from token %d on is not in the tree" % pos
    if got != want:
        for i, (x, y) in enumerate(itertools.zip_longest(got, want)):
            if x != y:
                f = lambda e: "nothing" if e is None else {"start": "a node %s", "finish": "the end of a node", "tok": "a token %s"}[e[0]] % e[1:2]
                return "the tree has %s where the grammar made %s" % (f(x), f(y))
    return None


@guarded
def lossless(F, R):
    R.rule("Abstract interpretation of the way from the text to the tree (lexer, parser interface, event processing, tree sink) over token "
           "lists of symbolic lengths: for every pattern of trivia and other tokens and every way to open, close, precede, abandon and undo "
           "nodes around them, the tree builder is given each token once, in order, with its own text and kind, inside one root, in the shape "
           "that was asked for; looking ahead finds what is consumed next.")
    R.assume("Texts of up to %d tokens (thorough: one more) and some longer ones; each token's length is any positive number; the grammar is any sequence of calls of the parser's "
             "interface with up to three nodes below the root." % MAX)
    roots = [f for f in F.crate_fns("syntax") if f.name == "parse" and f.argc == 1 and F.adt_path(f.local_ty(0)) == "syntax::Parse"
             and not f.impl_trait]
    if len(roots) != 1:
        raise Anchor("SourceFile::parse")
    f = roots[0]
    bad, lost = {}, {}
    n = 0
    for kinds, rich in texts(F, R.tier == "thorough"):
        for script in scripts(kinds, rich):
            n += 1
            M = TreeModel(F, kinds, script)
            try:
                en, c = run(F, M, f, [("sref", ("tup", ("#txt", 0, "-open")))], [], (), WORKSPACE)
            except (Anchor, Budget) as e:
                lost[str(e)] = lost.get(str(e), 0) + 1
                continue
            R.count("abstract states", en.steps)
            for (path, what), (fn, line, msg, ctx) in M.faults.items():
                bad.setdefault((path, what), (fn.loc(line), "%s: %s (%s)" % (path, msg, describe(kinds, script))))
            if M.faults:
                continue
            if not c.out:
                at = sorted("%s: %s" % (path, what) for path, what in M.bad)
                if at:
                    bad.setdefault(("end", at[0]), (f.loc(), "%s does not return, %s (%s)" % (f.path, at[0], describe(kinds, script))))
                else:
                    lost["its end"] = lost.get("its end", 0) + 1
                continue
            js = {judge(kinds, script, g) for (ret, _c, _k), g in c.out.items()}
            if None in js and not M.forks:
                if len(js) > 1:
                    lost["its only outcome"] = lost.get("its only outcome", 0) + 1
                continue
            for j in js - {None}:
                bad.setdefault(("tree", j), (f.loc(), "%s (%s)" % (j, describe(kinds, script))))
    R.count("token patterns and grammars", n)
    R.count("of them not followed", sum(lost.values()))
    for what, k in sorted(lost.items()):
        R.assume("%d token patterns and grammars could not be followed to the tree (%s) and are not judged." % (k, what))
    for (a, b), (loc, msg) in sorted(bad.items())[:12]:
        R.violation("C03|%s|%s" % (a, b), loc, msg)


RICH = {(False, True, False), (True, False, True), (False, False, True), (False, True, True, False), (True, True, False, True)}
