"""Typed nodes and tokens agree with the tree they are views of."""
import itertools
import re

from ..events import WORKSPACE, run
from ..interp import Budget
from ..parser_model import KIND, Anchor
from ..seqs import isa
from ..lex_model import IT, LexModel
from ..tree_model import TreeModel
from .lexing import Spec
from .parsing import guarded

NODE = "#node"
TRAITS = {"syntax::ast::AstNode": "node", "syntax::ast::AstToken": "token"}
ROWAN = {"rowan::api::SyntaxNode": "node", "rowan::api::SyntaxToken": "token"}


def node(i):
    return ("tup", (NODE, i))


class AstModel(TreeModel):
    max_steps = 4000

    def __init__(self, F, items, children, subject=None, inner={}):
        """items: the kind of each node or token; children: ('node' or 'token', item) in order"""
        LexModel.__init__(self, F, 1)
        self.key, a = F.adt_by_path(KIND)
        self.names = [v["name"] for v in a["variants"]]
        self.items, self.kids = items, children
        self.inner = inner              # the tokens in a child
        self.subject = subject          # what a type parameter stands for
        self.lexers, self.kinds, self.n, self.sinks = set(), (), 0, {}
        self.faults, self.used, self.forks = {}, set(), False
        self.nort = next((k for k, a in F.adts.items() if a["path"] == "rowan::utility_types::NodeOrToken"), None)
        self.impls = {}
        for f in F.crate_fns("syntax"):
            if f.impl_trait in TRAITS:
                self.impls[F.adt_path(f.impl_self()), f.name] = f

    def arr(self, items):
        return ("tup", (IT, "arr", ("tup", ("val", ("arr", tuple(items)))), 0, len(items), 0, ("tup", ()), 0))

    def either(self, k, i):
        return ("adt", self.nort, 0 if k == "node" else 1, (node(i),))

    def once(self, en, g, f, args, ctx, fn, term):
        if isinstance(f, tuple) and f[0] == "fn" and len(f) > 2:
            m = re.match(r".*\b(AstNode|AstToken)::(\w+)$", f[2])
            if m and self.F.body(f[1]) is None:
                b = self.impls.get((self.subject, m.group(2)))
                return None if b is None else en.invoke(en.env, g, b, args, ctx, fn, en.bi, term)
            if "rowan" in f[2] and self.F.body(f[1]) is None:
                r = self.tree_call(en, g, f[2].split("::")[-1], args)
                return None if r is None else [(v, g2, en.env) for v, g2 in r]
        return super().once(en, g, f, args, ctx, fn, term)

    def text_call(self, en, ctx, g, fn, callee, args, term):
        n = callee.name
        if callee.trait in TRAITS and callee.res is None:
            b = self.impls.get((self.subject, n))
            if b is not None:
                return en.invoke(en.env, g, b, args, ctx, fn, en.bi, term)
        if callee.crate == "rowan" and args:
            r = self.tree_call(en, g, n, args)
            if r is not None:
                return r
        x = self.value(en, args[0]) if args else None
        if isa(x, NODE) and n in ("clone", "as_ref", "borrow", "into", "from"):
            return [(x, g)]
        if isinstance(x, tuple) and x[0] == "adt" and self.F.adts.get(x[1], {}).get("path") == "syntax::ast::AstChildren" \
                and n not in ("next", "new", "clone") and callee.trait == "core::iter::traits::iterator::Iterator":
            items = self.drained(en, ctx, g, fn, x, term)
            if items is not None:
                return super().text_call(en, ctx, g, fn, callee, [self.arr(items)] + list(args[1:]), term)
        if n == "successors" and isinstance(x, tuple) and x[:2] == ("adt", self.opt) and len(args) == 2:
            items, at = [], x
            while at[3] and len(items) < 40:
                items.append(at[3][0])
                r = self.once(en, g, args[1], [("sref", items[-1])], ctx, fn, term)
                at = r[0][0] if r is not None and len(r) == 1 else None
                if not isinstance(at, tuple) or at[:2] != ("adt", self.opt):
                    return None
            return [(self.arr(items), g)]
        if n in ("and_then", "map") and isinstance(x, tuple) and x[:2] == ("adt", self.opt) and len(args) == 2:
            if not x[3]:
                return [(self.none(), g)]
            r = self.once(en, g, args[1], [x[3][0]], ctx, fn, term)
            return None if r is None else [(v if n == "and_then" else self.some(v), g2, e2) for v, g2, e2 in r]
        if n in ("filter_map", "map") and isa(x, IT) and len(args) == 2 and not (isinstance(args[1], tuple) and args[1][0] == "cl"):
            items, env = [], en.env         # a function by name: at once
            for y in x[1][2][1][1][1][x[1][3]:x[1][4]]:
                r = self.once(en, g, args[1], [y], ctx, fn, term)
                if r is None or len(r) != 1 or x[1][6][1]:
                    return None
                v = r[0][0]
                if n == "map":
                    items.append(v)
                elif isinstance(v, tuple) and v[0] == "adt" and v[1] == self.opt:
                    items += list(v[3])
                else:
                    return None
            return [(self.arr(items), g)]
        return super().text_call(en, ctx, g, fn, callee, args, term)

    def drained(self, en, ctx, g, fn, x, term):
        """what an iterator of the workspace yields"""
        fs = [f for f in self.F.crate_fns("syntax") if f.name == "next" and self.F.adt_path(f.impl_self()) == self.F.adts[x[1]]["path"]]
        if len(fs) != 1:
            return None
        items, cell = [], ("b", fn.key, en.bi)
        env = dict(en.env)
        env[cell] = x
        for _ in range(40):
            r = en.invoke(env, g, fs[0], [("ptr", cell, (), True)], ctx, fn, en.bi, term)
            if len(r) != 1 or not isinstance(r[0][0], tuple) or r[0][0][:2] != ("adt", self.opt):
                return None
            if not r[0][0][3]:
                return items
            items.append(r[0][0][3][0])
            env = dict(r[0][2])
        return None

    def tree_call(self, en, g, n, args):
        x = self.value(en, args[0])
        if isa(x, NODE):
            i = x[1][1]
            if n == "kind":
                return [(("adt", self.key, self.names.index(self.items[i]), ()), g)]
            if n in ("clone", "syntax"):
                return [(x, g)]
            if i == 0 and n in ("children", "children_with_tokens"):
                kids = [node(j) for k, j in self.kids if k == "node"] if n == "children" else [self.either(k, j) for k, j in self.kids]
                return [(self.arr(kids), g)]
            if i == 0 and n in ("first_child", "last_child", "first_child_or_token", "last_child_or_token"):
                kids = [(k, j) for k, j in self.kids if "token" in n or k == "node"]
                if not kids:
                    return [(self.none(), g)]
                k, j = kids[0 if n.startswith("first") else -1]
                return [(self.some(self.either(k, j) if "token" in n else node(j)), g)]
            order = [t for k, j in self.kids for t in ([j] if k == "token" else self.inner.get(j, ()))]
            if i == 0 and n in ("first_token", "last_token"):
                return [(self.some(node(order[0 if n.startswith("first") else -1])) if order else self.none(), g)]
            if i in order and n in ("next_token", "prev_token"):
                at = order.index(i) + (1 if n.startswith("next") else -1)
                return [(self.some(node(order[at])) if 0 <= at < len(order) else self.none(), g)]
            if i == 0 and n in ("descendants", "descendants_with_tokens"):
                kids = [self.either("node", 0)] if n.endswith("tokens") else [node(0)]
                for k, j in self.kids:
                    if n.endswith("tokens"):
                        kids += [self.either(k, j)] + [self.either("token", t) for t in self.inner.get(j, ())]
                    elif k == "node":
                        kids.append(node(j))
                return [(self.arr(kids), g)]
            if i > 0 and n in ("next_sibling", "prev_sibling", "next_sibling_or_token", "prev_sibling_or_token"):
                kids = [(k, j) for k, j in self.kids if "token" in n or k == "node"]
                at = next((p for p, (k, j) in enumerate(kids) if j == i), None)
                if at is None:
                    return None
                at += 1 if n.startswith("next") else -1
                if not 0 <= at < len(kids):
                    return [(self.none(), g)]
                k, j = kids[at]
                return [(self.some(self.either(k, j) if "token" in n else node(j)), g)]
        if isinstance(x, tuple) and x[0] == "adt" and x[1] == self.nort and x[2] is not None:
            if n in ("into_token", "as_token", "into_node", "as_node"):
                return [(self.some(x[3][0]) if x[2] == (1 if n.endswith("token") else 0) else self.none(), g)]
            if n == "kind":
                return self.tree_call(en, g, "kind", [x[3][0]])
        return None


def held(v):
    """the node in a typed value"""
    if isa(v, NODE):
        return v[1][1]
    if isinstance(v, tuple) and v[0] == "adt":
        hs = {held(x) for x in v[3]} - {None}
        return hs.pop() if len(hs) == 1 else None
    return None


def only(M, c):
    vals = [r for (r, _c, _k) in c.out]
    return vals[0] if len(vals) == 1 else None


def snake(name):
    return re.sub(r"(?<!^)(?=[A-Z])", "_", name).upper()


def cell(en, v):
    return v


def views(F, R):
    """per type: the kinds it stands for, None where it could not be determined"""
    M0 = AstModel(F, ["TOMBSTONE"], [])
    types = sorted({t for t, _n in M0.impls})
    if not types:
        raise Anchor("the implementations of AstNode")
    what = {t: TRAITS[M0.impls[t, n].impl_trait] for t, n in M0.impls}
    accepts, variants = {}, {}

    def value(M, f, args, cells=()):
        try:
            en, c = run(F, M, f, args, list(cells), (), WORKSPACE)
        except (Anchor, Budget):
            return None
        R.count("abstract states", en.steps)
        return only(M, c)

    for t in types:
        can, cast, syn = (M0.impls.get((t, n)) for n in ("can_cast", "cast", "syntax"))
        if can is None or cast is None or syn is None:
            continue
        ks = set()
        for i, k in enumerate(M0.names):
            M = AstModel(F, [k], [])
            yes = value(M, can, [("adt", M.key, i, ())])
            v = value(M, cast, [node(0)])
            some = None if not isinstance(v, tuple) or v[:2] != ("adt", M.opt) else int(bool(v[3]))
            R.count("kinds decided", int(yes in (0, 1) and some is not None))
            if yes not in (0, 1) or some is None:
                R.count("kinds not determined")
                continue
            if yes != some:
                R.violation("C26|%s|cast|%s" % (t, k), cast.loc(), "%s: %s a %s of kind %s, for which can_cast is %s" % (
                    cast.path, "accepts" if some else "refuses", what[t], k, "true" if yes else "false"))
            if yes:
                ks.add(k)
            if some:
                x = v[3][0]
                if held(x) != 0:
                    R.violation("C26|%s|held" % t, cast.loc(), "%s: does not hold the %s it was made from" % (cast.path, what[t]))
                    continue
                r = value(AstModel(F, [k], []), syn, [("sref", x)])
                while isinstance(r, tuple) and r[0] == "sref":
                    r = r[1]
                if r is not None and held(r) != 0:
                    R.violation("C26|%s|syntax" % t, syn.loc(), "%s: is not the %s the value was made from" % (syn.path, what[t]))
                a = F.adts[x[1]]
                if a["kind"] == "enum" and x[3] and isinstance(x[3][0], tuple) and x[3][0][0] == "adt":
                    variants.setdefault(t, {})[k] = F.adts[x[3][0][1]]["path"]
        accepts[t] = ks
    for t, ks in sorted(accepts.items()):
        f = M0.impls[t, "can_cast"]
        R.sample("types", "%s: %s" % (t, " ".join(sorted(ks))))
        if t in variants:
            for k, p in sorted(variants[t].items()):
                if p in accepts and k not in accepts[p]:
                    R.violation("C26|%s|variant|%s" % (t, k), M0.impls[t, "cast"].loc(), "%s: makes a %s of kind %s a %s, which does not stand for it" % (
                        M0.impls[t, "cast"].path, what[t], k, p.split("::")[-1]))
            for p in sorted(set(variants[t].values())):
                for k in sorted(accepts.get(p, set()) - ks):
                    R.violation("C26|%s|missing|%s" % (t, k), f.loc(), "%s: is false for %s, of which a %s is made" % (f.path, k, p.split("::")[-1]))
            a = next(a for a in F.adts.values() if a["path"] == t)
            continue
        want = snake(t.split("::")[-1])
        if want in M0.names and ks != {want}:
            R.violation("C26|%s|kind" % t, f.loc(), "%s: %s stands for %s" % (f.path, t.split("::")[-1], " and ".join(sorted(ks)) or "no kind"))
    return M0, accepts, what, value


def accessors(F, R, M0, accepts, what, value):
    """the methods of typed nodes that look at the children"""
    S = Spec(F)
    by = {}
    for f in F.crate_fns("syntax"):
        p = F.adt_path(f.impl_self()) if f.impl_self() is not None else None
        if p in accepts and not f.impl_trait and f.kind != "Closure" and f.argc == 1 and not f.derived and accepts[p]:
            by.setdefault(p, []).append(f)
    nexts = [f for f in F.crate_fns("syntax") if f.name == "next" and F.adt_path(f.impl_self()) == "syntax::ast::AstChildren"]
    tokens = sorted(set(S.all) & set(M0.names))
    for p, fs in sorted(by.items()):
        a = next((k for k, a in F.adts.items() if a["path"] == p and a["kind"] == "struct"), None)
        if a is None:
            continue
        own = sorted(accepts[p])[0]
        same = {}
        kinds_of = {}
        for f in sorted(fs, key=lambda f: f.line):
            rt = f.local_ty(0)
            inner = [x for x in accepts if re.search(r"\b%s\b" % re.escape(x), rt.s)]
            one = F.adt_path(rt) == "core::option::Option"
            if one and "rowan::api::SyntaxToken<" in rt.s:
                # which kind of token it is for: the one that it finds alone
                found = []
                for k in tokens:
                    M = AstModel(F, [own, "WHITESPACE", k], [("token", 1), ("token", 2)])
                    v = value(M, f, [("sref", ("adt", a, 0, (node(0),)))])
                    if not isinstance(v, tuple) or v[:2] != ("adt", M.opt):
                        found = None
                        break
                    if v[3]:
                        found.append((k, held(v[3][0])))
                if found is None:
                    R.count("accessors not determined")
                    continue
                R.count("accessors")
                R.sample("accessors", "%s: %s" % (f.path, " ".join(k for k, _ in found)))
                if len(found) != 1:
                    R.violation("C26|%s" % f.path, f.loc(), "%s: finds %s" % (f.path, " and ".join(k for k, _ in found[:4]) or "no token"))
                    continue
                k = found[0][0]
                stem = f.name[:-6].upper() if f.name.endswith("_token") else ""
                names = {stem, stem + "_KW"} & set(tokens)
                if names and k not in names:
                    R.violation("C26|%s" % f.path, f.loc(), "%s: finds %s" % (f.path, k))
                if k in kinds_of:
                    R.violation("C26|%s" % f.path, f.loc(), "%s: finds %s as %s does" % (f.path, k, kinds_of[k]))
                kinds_of[k] = f.name
                # the first of them, and no node
                M = AstModel(F, [own, "ERROR", k, k, k], [("node", 1), ("token", 2), ("token", 3)], None, {1: (4,)})
                v = value(M, f, [("sref", ("adt", a, 0, (node(0),)))])
                if isinstance(v, tuple) and v[:2] == ("adt", M.opt) and (not v[3] or held(v[3][0]) != 2):
                    R.violation("C26|%s|first" % f.path, f.loc(), "%s: is not the node's first %s" % (f.path, k))
                continue
            if len(inner) != 1 or what[inner[0]] != "node":
                continue
            t = inner[0]
            mine = sorted(accepts[t])
            other = next(k for k in ("BLOCK_EXPR", "NAME", "PATH", "ERROR") if k in M0.names and k not in mine)
            if not mine:
                continue
            # children: another node, a token, then nodes of this type with others between them
            items, kids = [own, other, "WHITESPACE"], [("node", 1), ("token", 2)]
            places = []
            for j in range(4):
                places.append(len(items))
                kids += [("node", len(items)), ("token", len(items) + 1), ("node", len(items) + 2)]
                items += [mine[j % len(mine)], "WHITESPACE", other]
            M = AstModel(F, items, kids, t)
            v = value(M, f, [("sref", ("adt", a, 0, (node(0),)))])
            if one:
                i = same.get(t, 0)
                same[t] = i + 1
                if not isinstance(v, tuple) or v[:2] != ("adt", M.opt):
                    R.count("accessors not determined")
                    continue
                R.count("accessors")
                h = held(v[3][0]) if v[3] else None
                if v[3] and h is None:
                    continue
                if h != places[i]:
                    R.violation("C26|%s" % f.path, f.loc(), "%s: is %s, not child %d of that type" % (
                        f.path, "nothing" if h is None else "child %d of type %s" % (places.index(h) + 1, t.split("::")[-1]) if h in places else
                        "a child of another type", i + 1))
            elif v is not None and nexts:
                if isinstance(v, tuple) and v[0] == "adt" and len(nexts) == 1:
                    got, state, ok = [], v, True
                    for _ in range(len(places) + 1):
                        M = AstModel(F, items, kids, t)
                        try:
                            en, c = run(F, M, nexts[0], [("ptr", ("c", 0), (), True)], [state], (), WORKSPACE)
                        except (Anchor, Budget):
                            ok = False
                            break
                        R.count("abstract states", en.steps)
                        if len(c.out) != 1:
                            ok = False
                            break
                        (r, cells, _k), = c.out
                        if not isinstance(r, tuple) or r[:2] != ("adt", M.opt):
                            ok = False
                            break
                        if not r[3]:
                            break
                        got.append(held(r[3][0]))
                        state = cells[0]
                    if not ok or None in got:
                        R.count("accessors not determined")
                        continue
                    R.count("accessors")
                    if got != places:
                        R.violation("C26|%s" % f.path, f.loc(), "%s: is not the node's children of that type, in order" % f.path)
                else:
                    R.count("accessors not determined")


@guarded
def typed(F, R):
    R.rule("Abstract interpretation of every implementation of AstNode and AstToken for every kind: cast accepts exactly what can_cast does, "
           "the value holds the node it was made from and gives it back, a type stands for the kind of its name, a variant for a kind of its "
           "payload; and of every accessor over a list of children: it finds the first token of one kind, the child of its type, or all of them.")
    M0, accepts, what, value = views(F, R)
    accessors(F, R, M0, accepts, what, value)
    if not R.counts.get("kinds decided"):
        raise Anchor("the kinds that typed nodes stand for")
