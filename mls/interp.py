"""A small abstract interpreter over the extracted MIR.

Value-partitioned states (constants, enum variants, tuples, closures, pointers
into the frame), an opaque "global" component supplied by a model, and
interprocedural summaries computed by a fixpoint per (function, argument
values, global state on entry).  Unknown values are None.

The deciding step reads only the compiler's MIR; nothing is executed.
"""
from collections import defaultdict, deque

DISCRIMINANT = "core::intrinsics::discriminant_value"
FN_TRAITS = ("core::ops::function::FnOnce", "core::ops::function::FnMut", "core::ops::function::Fn")
MAX_PART = 2500
MAX_INTS = 300
MAX_DEPTH = 6
MAX_TERM = 160
WRAPPERS = ("core::option::Option", "core::result::Result")


class Budget(Exception):
    """more states than are worth following"""


class Model:
    max_part = MAX_PART
    max_ints = MAX_INTS
    max_out = 1200
    max_steps = 10 ** 9

    def metadata(self, v, g):
        """the length of a slice that the model made up"""
        return None

    def narrowed(self, en, v, ty, fn):
        """a symbolic value after a cast to another type"""
        return v

    def element(self, v, e):
        """an element of a value that the model made up"""
        return None
    run_closures = False  # unknown callees call the closures they are given
    arith = True          # False: sums are unknown (the rule does not count)
    symbolic = False      # "#..." strings are terms: projections and pure calls build larger terms
    objects = {}          # adt path -> tag : values of this type are opaque singletons

    def call(self, en, ctx, g, fn, callee, key, args, term):
        return None       # or a list of (ret, g)

    def unknown(self, en, ctx, g, fn, callee, key, args, term):
        return [(None, g)]

    def before(self, en, ctx, g, fn, callee, args, term):
        return g          # every call, whoever the callee turns out to be

    def agg(self, en, ctx, g, fn, key, variant, vals, line):
        return g

    def drop(self, en, ctx, g, fn, bi, term, val, ty):
        return g

    def panic(self, en, ctx, g, fn, bi, term, what):
        pass

    def follow(self, en, fn, callee, body):
        return True

    def assume(self, en, g, term, val):
        return g          # a branch on a term; False: infeasible

    def choose(self, en, g, term, val, vals):
        return g          # a multi-way branch on a term; val None: none of vals; False: infeasible

    transparent = frozenset()

    def discriminant(self, en, v, ty):
        return None       # of a term

    def gkey(self, g):
        return g

    def gjoin(self, a, b):
        return a

    def enter(self, g, obj):
        return g          # the entry state of a callee (obj: it is handed an object)

    def leave(self, g_call, g_out):
        return g_out      # compose


class Ctx:
    __slots__ = ("fn", "args", "g", "out", "callers", "queued", "edges", "id", "cells", "wide", "blockin")

    def __init__(self, fn, args, cells, g, id):
        self.fn = fn
        self.args = args
        self.cells = cells
        self.g = g
        self.out = {}
        self.callers = set()
        self.queued = False
        self.edges = {}
        self.id = id
        self.wide = False
        self.blockin = None


class BodyInfo:
    def __init__(self, fn):
        self.fn = fn
        n = len(fn.blocks)
        self.addr = set()
        use = [set() for _ in range(n)]
        deff = [set() for _ in range(n)]

        def u(i, l):
            if l not in deff[i]:
                use[i].add(l)

        def place_use(i, p):
            u(i, p[0])
            for e in p[1]:
                if e != "*" and e[0] == "i":
                    u(i, e[1])

        def op(i, o):
            if o[0] != "k":
                place_use(i, o[1])

        for i, b in enumerate(fn.blocks):
            if b["c"]:
                continue
            for s in b["s"]:
                if s[0] == "=":
                    r = s[2]
                    k = r[0]
                    if k == "use":
                        op(i, r[1])
                    elif k == "rep":
                        op(i, r[1])
                    elif k in ("ref", "ptr"):
                        place_use(i, r[2])
                        if "*" not in r[2][1]:
                            self.addr.add(r[2][0])
                    elif k == "cast":
                        op(i, r[2])
                    elif k == "bin":
                        op(i, r[2])
                        op(i, r[3])
                    elif k == "un":
                        op(i, r[2])
                    elif k == "disc":
                        place_use(i, r[1])
                    elif k == "agg":
                        for o in r[2]:
                            op(i, o)
                    if s[1][1]:
                        place_use(i, s[1])
                    else:
                        deff[i].add(s[1][0])
                elif s[0] == "sd":
                    place_use(i, s[1])
                elif s[0] in ("dead", "live"):
                    deff[i].add(s[1])
            t = b["t"]
            k = t["k"]
            if k == "switch":
                op(i, t["op"])
            elif k == "assert":
                op(i, t["cond"])
            elif k == "drop":
                place_use(i, t["p"])
            elif k in ("call", "tailcall"):
                op(i, t["f"])
                for a in t["args"]:
                    op(i, a)
                if k == "call":
                    if t["dst"][1]:
                        place_use(i, t["dst"])
            elif k == "ret":
                u(i, 0)
        live = [set() for _ in range(n)]
        preds = defaultdict(list)
        for i, b in enumerate(fn.blocks):
            if b["c"]:
                continue
            for s in fn.succs(i):
                preds[s].append(i)
        work = deque(range(n))
        while work:
            i = work.popleft()
            if fn.blocks[i]["c"]:
                continue
            o = set()
            for s in fn.succs(i):
                o |= live[s]
            t = fn.blocks[i]["t"]
            if t["k"] == "call" and not t["dst"][1]:
                o = o - {t["dst"][0]}
            nl = use[i] | (o - deff[i])
            if nl != live[i]:
                live[i] = nl
                work.extend(preds[i])
        self.live = [frozenset(x | self.addr) for x in live]
        self.preds = preds
        # loop heads: targets of retreating edges of a DFS
        self.heads = set()
        color = {}
        stack = [(0, iter(fn.succs(0)))]
        color[0] = 1
        while stack:
            i, it = stack[-1]
            for s in it:
                if fn.blocks[s]["c"]:
                    continue
                c = color.get(s, 0)
                if c == 1:
                    self.heads.add(s)
                elif c == 0:
                    color[s] = 1
                    stack.append((s, iter(fn.succs(s))))
                    break
            else:
                color[i] = 2
                stack.pop()

    def loop_body(self, head):
        """blocks that can reach `head` and are reachable from it"""
        fn = self.fn
        fwd = set()
        w = [head]
        while w:
            i = w.pop()
            for s in fn.succs(i):
                if s not in fwd and not fn.blocks[s]["c"]:
                    fwd.add(s)
                    w.append(s)
        bwd = {head}
        w = [head]
        while w:
            i = w.pop()
            for p in self.preds[i]:
                if p not in bwd:
                    bwd.add(p)
                    w.append(p)
        return (fwd & bwd) | {head}


def freeze_env(env):
    return frozenset(env.items())


class Engine:
    def __init__(self, facts, model, follow_crates):
        self.F = facts
        self.model = model
        self.follow_crates = follow_crates
        self.ctxs = {}
        self.bykey = defaultdict(list)
        self.infos = {}
        self.queue = deque()
        self.all = []
        self.steps = 0
        self.cache_const = {}
        self.maxctx = 1500
        self.tags = set(model.objects.values())
        self.pure_memo = {}

    # ------------------------------------------------------------ contexts
    def info(self, fn):
        i = self.infos.get(fn.key)
        if i is None:
            i = self.infos[fn.key] = BodyInfo(fn)
        return i

    def term(self, v, env, depth=0):
        """a value as a term, or None"""
        if isinstance(v, (str, int)):
            return str(int(v)) if isinstance(v, (bool, int)) else v
        if not isinstance(v, tuple) or depth > 8:
            return None
        if v[0] in ("ptr", "sref"):
            return self.term(self.deref_all(v, env), env, depth + 1)
        if v[0] == "s":
            return repr(v[1])
        if v[0] == "adt":
            fs = [self.term(x, env, depth + 1) for x in v[3]]
            a = self.F.adts[v[1]]
            n = a["variants"][v[2]]["name"] if v[2] is not None else "?"
            if len(fs) == 1 and a["path"] in WRAPPERS and n in ("Some", "Ok"):
                return fs[0]
            if len(fs) == 1 and a["kind"] != "enum":
                return fs[0]
            if any(x is None for x in fs):
                return None
            return n + ("(%s)" % ",".join(fs) if fs else "")
        if v[0] == "tup":
            fs = [self.term(x, env, depth + 1) for x in v[1]]
            return None if any(x is None for x in fs) else "(%s)" % ",".join(fs)
        return None

    def bin_term(self, op, a, b, env):
        x, y = self.term(a, env), self.term(b, env)
        if x is None or y is None:
            return None
        op = op.replace("WithOverflow", "").replace("Unchecked", "")
        if op == "Ne":
            r = self.bin_term("Eq", a, b, env) if x != y else 1
            return 1 - r if isinstance(r, int) else (None if r is None else "!" + r)
        if op in ("Gt", "Ge"):
            op, x, y = {"Gt": "Lt", "Ge": "Le"}[op], y, x
        if op == "Eq":
            if x == y:
                return 1
            x, y = sorted((x, y))
        r = "#%s(%s,%s)" % (op, x, y)
        return r if len(r) < MAX_TERM else None

    def get_ctx(self, fn, args, cells, g):
        k = (fn.key, args, cells, g)
        c = self.ctxs.get(k)
        if c is not None:
            return c
        grp = self.bykey[(fn.key, args, cells)]
        if grp and grp[-1].wide:
            c = grp[-1]
            ng = self.model.gjoin(c.g, g)
            self.ctxs[k] = c
            if ng != c.g:
                c.g = ng
                self.enqueue(c)
            return c
        c = Ctx(fn, args, cells, g, len(self.all))
        if len(grp) >= self.maxctx:
            c.wide = True
        grp.append(c)
        self.all.append(c)
        self.ctxs[k] = c
        # depth first: the callee's summary is complete before the caller goes
        # on, unless the callee is (transitively) the caller
        self.analyze(c)
        return c

    def enqueue(self, c):
        if not c.queued:
            c.queued = True
            self.queue.append(c)

    def solve(self, roots):
        while self.queue:
            # newest first: callees before their callers
            c = self.queue.pop()
            c.queued = False
            self.analyze(c)

    # ------------------------------------------------------------ values
    def const(self, unit, c):
        """c = [ty, val, from]"""
        return self.cval(c[1], unit, unit.types[c[0]])

    def cval(self, v, unit, ty=None):
        k = v[0]
        if k == "int":
            return v[1] if isinstance(v[1], int) else int(v[1])
        if k == "str":
            return ("sref", ("s", v[1]))
        if k == "bytes":
            return ("sref", ("arr", tuple(v[1])))
        if k == "fn":
            d = v[1]
            return ("fn", d["res"]["key"] if d.get("res") else d["key"], d["path"])
        if k == "adt":
            return ("adt", v[1], v[2], tuple(self.cval(x, unit) for x in v[3]))
        if k == "tuple":
            return ("tup", tuple(self.cval(x, unit) for x in v[1]))
        if k == "array":
            return ("arr", tuple(self.cval(x, unit) for x in v[1]))
        if k == "ref":
            return ("sref", self.cval(v[1], unit))
        if k == "closure":
            return ("cl", v[1], ())
        return None

    def typed_default(self, ty):
        """singleton objects"""
        t = ty
        n = 0
        while t is not None and t.k in ("ref", "ptr"):
            t = t.to
            n += 1
        if n and t is not None and t.k == "adt":
            tag = self.model.objects.get(self.F.adts[t.adt]["path"])
            if tag:
                return (tag,)
        return None

    def proj(self, v, path):
        for e in path:
            if v is None:
                return None
            if isinstance(v, str):
                v = "%s.%s" % (v, e) if self.model.symbolic and isinstance(e, int) and len(v) < MAX_TERM else None
                continue
            if isinstance(v, int):
                return None
            if v[0] in ("adt", "cl"):
                f = v[-1]
                v = f[e] if isinstance(e, int) and e < len(f) else None
            elif v[0] == "tup":
                if isinstance(e, tuple):
                    v = self.model.element(v, e)
                else:
                    v = v[1][e] if isinstance(e, int) and e < len(v[1]) else None
            elif v[0] == "arr":
                if isinstance(e, tuple) and e[0] == "i" and isinstance(e[1], int) and e[1] < len(v[1]):
                    v = v[1][e[1]]
                else:
                    v = None
            else:
                return None
        return v

    def put(self, v, path, new):
        if not path:
            return new
        e = path[0]
        if not isinstance(v, tuple):
            return None
        if v[0] in ("adt", "cl"):
            f = v[-1]
            if isinstance(e, int) and e < len(f):
                nf = f[:e] + (self.put(f[e], path[1:], new),) + f[e + 1:]
                return v[:-1] + (nf,)
            return None
        if v[0] == "tup":
            f = v[1]
            if isinstance(e, int) and e < len(f):
                return ("tup", f[:e] + (self.put(f[e], path[1:], new),) + f[e + 1:])
            return None
        if v[0] == "arr":
            f = v[1]
            if isinstance(e, tuple) and isinstance(e[1], int) and e[1] < len(f):
                e = e[1]
                return ("arr", f[:e] + (self.put(f[e], path[1:], new),) + f[e + 1:])
            return None
        return None

    def resolve(self, env, place, fn):
        """-> ('v', base, path) | ('k', value) | None"""
        base, path = place[0], ()
        cur = ("v", base, ())
        skip = False
        for i, e in enumerate(place[1]):
            if skip and e != "*" and e[0] == "f":
                skip = False
                continue        # the payload of a term that is an Option is the term
            skip = False
            if e != "*" and e[0] == "v" and self.model.symbolic:
                w = self.load(env, cur)
                if isinstance(w, str):
                    t = fn.place_ty((place[0], place[1][:i]))
                    a = self.F.adts[t.adt] if t is not None and t.k == "adt" else None
                    skip = a is not None and a["path"] in WRAPPERS and a["variants"][e[1]]["name"] in ("Some", "Ok")
                    if a is not None and not skip:
                        cur = ("k", "%s@%s" % (w, a["variants"][e[1]]["name"]))
                continue
            if e == "*":
                v = self.load(env, cur)
                if v is None:
                    return None
                if isinstance(v, tuple) and v[0] == "ptr":
                    cur = ("v", v[1], v[2])
                elif isinstance(v, tuple) and v[0] == "sref":
                    cur = ("k", v[1])
                elif isinstance(v, tuple) and len(v) == 1:
                    cur = ("k", v)
                elif isinstance(v, tuple) and v[0] == "box":
                    cur = ("k", v[1])
                elif isinstance(v, str) and self.model.symbolic:
                    cur = ("k", v)
                elif self.model.symbolic:
                    pass            # boxes and copied elements: the value itself
                else:
                    return None
            elif e[0] == "f":
                cur = self.ext_path(cur, e[1])
            elif e[0] == "v":
                continue
            elif e[0] == "i":
                cur = self.ext_path(cur, ("i", env.get(e[1])))
            elif e[0] == "ci":
                cur = self.ext_path(cur, ("i", e[1] if not e[2] else None))
            else:
                return None
            if cur is None:
                return None
        return cur

    def ext_path(self, cur, e):
        if cur[0] == "v":
            return ("v", cur[1], cur[2] + (e,))
        v = cur[1]
        if isinstance(v, tuple) and len(v) == 1:
            return None
        r = self.proj(v, (e,))
        return ("k", r) if r is not None else None

    def load(self, env, r):
        if r is None:
            return None
        if r[0] == "k":
            return r[1]
        return self.proj(env.get(r[1]), r[2])

    def read(self, env, place, fn):
        v = self.load(env, self.resolve(env, place, fn))
        if v is None:
            return self.typed_default(fn.place_ty(place))
        return v

    def operand(self, env, o, fn):
        if o[0] == "k":
            return self.const(fn.unit, o[1])
        return self.read(env, o[1], fn)

    def assign(self, env, place, val, fn):
        r = self.resolve(env, place, fn)
        if r is None or r[0] == "k":
            return env
        env = dict(env)
        self.store(env, r[1], r[2], val)
        return env

    def store(self, env, base, path, val):
        nv = self.put(env.get(base), path, val)
        if nv is None:
            env.pop(base, None)
        else:
            env[base] = nv

    def as_int(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        return None

    def discr(self, v):
        if isinstance(v, tuple) and v[0] == "adt" and v[2] is not None:
            a = self.F.adts[v[1]]
            if a["kind"] == "enum":
                return int(a["variants"][v[2]]["discr"])
            return 0
        return None

    def wrap(self, n, ty):
        if ty is None or ty.k != "int":
            return n
        b = ty["bits"]
        n &= (1 << b) - 1
        if ty["signed"] and n >> (b - 1):
            n -= 1 << b
        return n

    def binop(self, op, a, b, ty):
        a = self.as_int(a)
        b = self.as_int(b)
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if not self.model.arith and base in ("Add", "Sub", "Mul"):
            a = None
        if a is None or b is None:
            if base == "BitAnd" and (a == 0 or b == 0):
                return 0
            if op.endswith("WithOverflow"):
                return ("tup", (None, None))
            return None
        if base == "Eq":
            return int(a == b)
        if base == "Ne":
            return int(a != b)
        if base == "Lt":
            return int(a < b)
        if base == "Le":
            return int(a <= b)
        if base == "Gt":
            return int(a > b)
        if base == "Ge":
            return int(a >= b)
        try:
            if base == "Add":
                r = a + b
            elif base == "Sub":
                r = a - b
            elif base == "Mul":
                r = a * b
            elif base == "Div":
                r = int(a / b) if b else None
            elif base == "Rem":
                r = (abs(a) % abs(b)) * (1 if a >= 0 else -1) if b else None
            elif base == "BitAnd":
                r = a & b
            elif base == "BitOr":
                r = a | b
            elif base == "BitXor":
                r = a ^ b
            elif base == "Shl":
                bits = ty["bits"] if ty is not None and ty.k == "int" else 64
                if b < 0 or b >= bits:
                    if op.endswith("WithOverflow"):
                        return ("tup", (None, 1))
                    b %= bits
                r = a << b
            elif base == "Shr":
                bits = ty["bits"] if ty is not None and ty.k == "int" else 64
                if b < 0 or b >= bits:
                    if op.endswith("WithOverflow"):
                        return ("tup", (None, 1))
                    b %= bits
                r = a >> b
            else:
                return None
        except (ValueError, OverflowError):
            return None
        if r is None:
            return None
        w = self.wrap(r, ty)
        if op.endswith("WithOverflow"):
            return ("tup", (w, int(w != r)))
        return w

    def rvalue(self, env, g, r, fn, ctx, line, dst_ty):
        """-> (value, g)"""
        k = r[0]
        if k == "use":
            return self.operand(env, r[1], fn), g
        if k in ("ref", "ptr"):
            place = r[2]
            t = fn.place_ty(place)
            if t is not None and t.k == "adt":
                tag = self.model.objects.get(self.F.adts[t.adt]["path"])
                if tag:
                    return (tag,), g
            x = self.resolve(env, place, fn)
            if x is None:
                return self.typed_default(dst_ty), g
            if x[0] == "v":
                return ("ptr", x[1], x[2], bool(r[1])), g
            if isinstance(x[1], tuple) and len(x[1]) == 1:
                return x[1], g
            return ("sref", x[1]), g
        if k == "disc":
            v = self.read(env, r[1], fn)
            d = self.discr(v)
            if d is not None:
                return d, g
            x = self.resolve(env, r[1], fn)
            t = fn.place_ty(r[1])
            if x is not None and x[0] == "v" and t is not None and t.k == "adt" \
                    and (v is None or isinstance(v, str) and self.model.symbolic):
                return ("discof", x[1], x[2], t.adt), g
            if isinstance(v, str) and self.model.symbolic:
                return self.model.discriminant(self, v, t), g
            return None, g
        if k == "agg":
            vals = tuple(self.operand(env, o, fn) for o in r[2])
            kk = r[1]
            if isinstance(kk, list) and kk[0] == "adt":
                g = self.model.agg(self, ctx, g, fn, kk[1], kk[2], vals, line)
                return ("adt", kk[1], kk[2], vals), g
            if isinstance(kk, list) and kk[0] == "closure":
                return ("cl", kk[1], vals), g
            if kk == "tuple":
                return ("tup", vals), g
            if kk == "array":
                return ("arr", vals), g
            return None, g
        if k == "bin":
            a = self.operand(env, r[2], fn)
            b = self.operand(env, r[3], fn)
            hv = self.model.binop(self, r[1], a, b) if hasattr(self.model, "binop") else None
            if hv is not None:
                return hv, g
            if self.model.symbolic and (isinstance(a, str) or isinstance(b, str)):
                return self.bin_term(r[1], a, b, env), g
            return self.binop(r[1], a, b, fn.op_ty(r[2])), g
        if k == "un" and r[1] == "PtrMetadata":
            v = self.deref_all(self.operand(env, r[2], fn), env)
            if isinstance(v, tuple) and v[0] == "arr":
                return len(v[1]), g
            return self.model.metadata(v, g), g
        if k == "un":
            a = self.operand(env, r[2], fn)
            if isinstance(a, str) and self.model.symbolic and r[1] == "Not":
                return (a[1:] if a[0] == "!" else "!" + a), g
            a = self.as_int(a)
            if a is None:
                return None, g
            t = fn.op_ty(r[2])
            if r[1] == "Not":
                if t is not None and t.k == "bool":
                    return 1 - a, g
                return self.wrap(~a, t), g
            if r[1] == "Neg":
                return self.wrap(-a, t), g
            return None, g
        if k == "cast":
            v = self.operand(env, r[2], fn)
            kind = r[1]
            tt = fn.ty(r[3])
            if isinstance(v, str):
                return self.model.narrowed(self, v, tt, fn), g
            if kind.startswith("IntToInt"):
                i = self.as_int(v)
                if i is None:
                    i = self.discr(v)
                return (None if i is None else self.wrap(i, tt)), g
            if kind.startswith("Transmute"):
                i = self.as_int(v)
                if i is not None and tt.k == "adt":
                    a = self.F.adts[tt.adt]
                    for n, va in enumerate(a["variants"]):
                        if int(va["discr"]) == i:
                            return ("adt", tt.adt, n, ()), g
                return None, g
            if kind.startswith(("PointerCoercion", "PtrToPtr", "BoxDerefTransmute")):
                return v, g
            return None, g
        if k == "rep":
            v = self.operand(env, r[1], fn)
            if r[2] is not None and r[2] <= 64:
                return ("arr", (v,) * r[2]), g
            return None, g
        return None, g

    # ------------------------------------------------------------ calls
    def has_object(self, v):
        if not isinstance(v, tuple):
            return False
        if len(v) == 1:
            return v[0] in self.tags
        if v[0] in ("adt", "cl"):
            return any(self.has_object(x) for x in v[-1])
        if v[0] in ("tup", "arr"):
            return any(self.has_object(x) for x in v[1])
        if v[0] == "sref":
            return self.has_object(v[1])
        return False

    def map_out(self, v, table, rev, env, depth=0):
        """translate a caller value into callee cells"""
        if not isinstance(v, tuple):
            return v
        if v[0] == "ptr":
            base, path, mut = v[1], v[2], v[3]
            k = (base, path)
            if k not in table:
                if depth > MAX_DEPTH:
                    return None
                idx = len(rev)
                table[k] = idx
                rev.append([base, path, mut, None])
                inner = self.proj(env.get(base), path)
                rev[idx][3] = self.map_out(inner, table, rev, env, depth + 1)
            idx = table[k]
            if mut:
                rev[idx][2] = True
            return ("ptr", ("c", idx), (), mut)
        if v[0] in ("adt", "cl"):
            return v[:-1] + (tuple(self.map_out(x, table, rev, env, depth) for x in v[-1]),)
        if v[0] in ("tup", "arr"):
            return (v[0], tuple(self.map_out(x, table, rev, env, depth) for x in v[1]))
        if v[0] == "discof":
            return None
        return v

    def map_back(self, v, rev):
        if not isinstance(v, tuple):
            return v
        if v[0] == "ptr":
            b = v[1]
            if isinstance(b, tuple) and b[0] == "c" and b[1] < len(rev):
                return ("ptr", rev[b[1]][0], rev[b[1]][1] + v[2], v[3])
            return None
        if v[0] in ("adt", "cl"):
            return v[:-1] + (tuple(self.map_back(x, rev) for x in v[-1]),)
        if v[0] in ("tup", "arr"):
            return (v[0], tuple(self.map_back(x, rev) for x in v[1]))
        if v[0] == "discof":
            return None
        return v

    def havoc(self, env, args):
        """unknown callee: everything reachable through &mut is unknown"""
        env = dict(env)
        seen = set()

        def go(v, mut):
            if not isinstance(v, tuple):
                return
            if v[0] == "ptr":
                mut = mut and v[3]      # nothing changes behind a shared reference
                if (v[1], v[2], mut) in seen:
                    return
                seen.add((v[1], v[2], mut))
                go(self.proj(env.get(v[1]), v[2]), mut)
                if mut:
                    self.store(env, v[1], v[2], None)
            elif v[0] in ("adt", "cl"):
                for x in v[-1]:
                    go(x, mut)
            elif v[0] in ("tup", "arr"):
                for x in v[1]:
                    go(x, mut)
        for a in args:
            go(a, True)
        return env

    def invoke(self, env, g, body, args, ctx, fn, bi, term):
        """call `body` with caller values; -> list of (ret, g, env)"""
        table, rev = {}, []
        margs = tuple(self.map_out(a, table, rev, env) for a in args)
        # typed defaults for singleton parameters
        margs = tuple(
            (self.typed_default(body.local_ty(i + 1)) if a is None and i < body.argc else a)
            for i, a in enumerate(margs))
        cells = tuple(r[3] for r in rev)
        ng = self.model.enter(g, any(self.has_object(a) for a in margs) or any(self.has_object(a) for a in cells))
        c = self.get_ctx(body, margs, cells, ng)
        c.callers.add(ctx)
        ctx.edges.setdefault((bi, c), set()).add(self.model.gkey(g))
        res = []
        for (ret, couts, _gk), go in list(c.out.items()):
            e2 = dict(env)
            for i, r in enumerate(rev):
                if r[2]:
                    self.store(e2, r[0], r[1], self.map_back(couts[i], rev))
            res.append((self.map_back(ret, rev), self.model.leave(g, go), e2))
        return res

    def ctor(self, path, args):
        """the value built by calling a tuple struct / variant constructor"""
        t = getattr(self, "_ctors", None)
        if t is None:
            t = self._ctors = {}
            for k, a in self.F.adts.items():
                for i, v in enumerate(a["variants"]):
                    p = a["path"] if a["kind"] != "enum" else a["path"] + "::" + v["name"]
                    t[p] = (k, i, len(v["fields"]))
        c = t.get(path)
        if c is None or c[2] != len(args):
            return None
        return ("adt", c[0], c[1], tuple(args))

    def callable(self, v, env):
        """-> ('fn', key) / ('cl', key, fields) / None, following pointers"""
        n = 0
        while isinstance(v, tuple) and n < 5:
            if v[0] in ("fn", "cl"):
                return v
            if v[0] == "ptr":
                v = self.proj(env.get(v[1]), v[2])
            elif v[0] == "sref":
                v = v[1]
            else:
                return None
            n += 1
        return None

    def call_value(self, env, g, f, args, ctx, fn, bi, term):
        """call a callable value with a list of args"""
        c = self.callable(f, env)
        if c is None:
            return None
        if c[0] == "fn":
            body = self.F.body(c[1])
            if body is None:
                v = self.ctor(c[2], args)
                if v is not None:
                    g = self.model.agg(self, ctx, g, fn, v[1], v[2], v[3], term["line"])
                    return [(v, g, env)]
            if body is None or not self.can_follow(body):
                return None
            return self.do_call_key(env, g, c[1], None, args, ctx, fn, bi, term)
        body = self.F.body(c[1])
        if body is None or not self.can_follow(body):
            return None
        st = body.local_ty(1)
        if st.k == "ref":
            if isinstance(f, tuple) and f[0] == "cl":
                env = dict(env)
                tmp = ("tmp", bi)
                env[tmp] = f
                selfv = ("ptr", tmp, (), True)
            else:
                selfv = f
                # strip extra pointer levels
                while isinstance(selfv, tuple) and selfv[0] == "ptr":
                    inner = self.proj(env.get(selfv[1]), selfv[2])
                    if isinstance(inner, tuple) and inner[0] == "ptr":
                        selfv = inner
                    else:
                        break
        else:
            selfv = c
        outs = self.invoke(env, g, body, [selfv] + list(args), ctx, fn, bi, term)
        for (_r, _g, e) in outs:
            e.pop(("tmp", bi), None)
        return outs

    def can_follow(self, body):
        return body.ext or body.crate in self.follow_crates

    def do_call_key(self, env, g, key, callee, args, ctx, fn, bi, term):
        self.env = env
        self.bi = bi
        r = self.model.call(self, ctx, g, fn, callee, key, args, term)
        if r is not None:
            return [(x[0], x[1], x[2] if len(x) > 2 else env) for x in r]
        r = self.builtin(env, g, callee, args, fn)
        if r is not None:
            return r
        if callee is not None and callee.name == "next" and args and "ops::range::Range<" in callee.rpath:
            r = self.range_next(env, g, args[0], callee)
            if r is not None:
                return r
        if callee is not None and callee.crate == "core" and "slice::<impl [T]>::" in callee.rpath and args:
            v = self.deref_all(args[0], env)
            if isinstance(v, tuple) and v[0] == "arr":
                if callee.name == "len":
                    return [(len(v[1]), g, env)]
                if callee.name == "is_empty":
                    return [(int(not v[1]), g, env)]
                if callee.name == "contains" and len(args) == 2:
                    x = self.deref_all(args[1], env)
                    if self.ground(x) and all(self.ground(y) for y in v[1]):
                        return [(int(x in v[1]), g, env)]
        if callee is not None and callee.name in ("eq", "ne") and callee.trait == "core::cmp::PartialEq" and len(args) == 2:
            a = self.deref_all(args[0], env)
            b = self.deref_all(args[1], env)
            body = self.F.body(key)
            if body is None or body.derived or callee.name == "ne" or body.ext:
                if self.model.symbolic and (isinstance(a, str) or isinstance(b, str)):
                    v = self.bin_term("Eq", a, b, env)
                    if v is not None:
                        if callee.name == "ne":
                            v = 1 - v if isinstance(v, int) else "!" + v
                        return [(v, g, env)]
                if isinstance(a, int) and isinstance(b, int):
                    return [(int((a == b) == (callee.name == "eq")), g, env)]
                if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == "adt" and b[0] == "adt" and a[1] == b[1] \
                        and not a[3] and not b[3] and self.derived_eq(a[1]):
                    return [(int((a[2] == b[2]) == (callee.name == "eq")), g, env)]
        body = self.F.body(key)
        if body is not None and self.can_follow(body) and self.model.follow(self, fn, callee, body):
            return self.invoke(env, g, body, args, ctx, fn, bi, term)
        return None

    def call(self, env, g, t, ctx, fn, bi):
        """-> list of (ret, g, env)"""
        args = [self.operand(env, a, fn) for a in t["args"]]
        callee = fn.callee(t)
        r = None
        g = self.model.before(self, ctx, g, fn, callee, args, t)
        if callee is None:
            fv = self.operand(env, t["f"], fn)
            if fv is not None:
                r = self.call_value(env, g, fv, args, ctx, fn, bi, t)
        else:
            p = callee.path
            if p == DISCRIMINANT or callee.rpath == DISCRIMINANT:
                v = self.deref_all(args[0], env)
                return [(self.discr(v), g, env)]
            if callee.trait in FN_TRAITS and callee.name in ("call", "call_once", "call_mut"):
                tup = args[1] if len(args) > 1 else None
                if isinstance(tup, tuple) and tup[0] == "tup":
                    r = self.call_value(env, g, args[0], list(tup[1]), ctx, fn, bi, t)
            else:
                key = callee.rkey
                if callee.kind == "virtual":
                    self.env = env
                    self.bi = bi
                    r = self.model.call(self, ctx, g, fn, callee, key, args, t)
                    if r is not None:
                        r = [(x[0], x[1], x[2] if len(x) > 2 else env) for x in r]
                else:
                    r = self.do_call_key(env, g, key, callee, args, ctx, fn, bi, t)
        if r is not None:
            return r
        self.env = env
        self.bi = bi
        rr = self.model.unknown(self, ctx, g, fn, callee, callee.rkey if callee else None, args, t)
        e2 = self.havoc(env, args)
        if self.model.run_closures:
            res = []
            for x, g2 in rr:
                for g3, e3 in self.closures_any(e2, g2, args, ctx, fn, bi, t):
                    res.append((x, g3, e3))
            return res
        return [(x, g2, e2) for x, g2 in rr]

    def pure_term(self, fn, callee, args, env, term):
        """the term of a call to an unknown function"""
        if callee is None:
            return None
        ts = []
        for a, o in zip(args, term["args"]):
            ty = fn.op_ty(o)
            if ty is not None and ty.k == "ref" and ty.d.get("mut"):
                return None
            x = self.term(a, env)
            if x is None:
                return None
            ts.append(x)
        if not any("#" in x for x in ts):
            return None
        if callee.name in self.model.transparent:
            return ts[0] if "#" in ts[0] else None
        r = "#%s(%s)" % (callee.name, ",".join(ts))
        return r if len(r) < MAX_TERM else None

    def callables(self, v, env, depth=0, seen=None):
        """the closures and functions inside a value"""
        if seen is None:
            seen = set()
        if not isinstance(v, tuple) or depth > MAX_DEPTH:
            return []
        if v[0] == "cl":
            return [v]
        if v[0] == "fn":
            return [v]
        if v[0] == "ptr":
            if (v[1], v[2]) in seen:
                return []
            seen.add((v[1], v[2]))
            return self.callables(self.proj(env.get(v[1]), v[2]), env, depth + 1, seen)
        if v[0] == "sref":
            return self.callables(v[1], env, depth + 1, seen)
        r = []
        if v[0] == "adt":
            for x in v[3]:
                r += self.callables(x, env, depth + 1, seen)
        elif v[0] in ("tup", "arr"):
            for x in v[1]:
                r += self.callables(x, env, depth + 1, seen)
        return r

    def closures_any(self, env, g, args, ctx, fn, bi, term):
        """an unknown callee may call the closures it is given, any number of
        times; -> [(g, env)]"""
        fs = []
        for a in args:
            for c in self.callables(a, env):
                b = self.F.body(c[1])
                if b is not None and not b.ext and self.can_follow(b) and (c, b) not in fs:
                    fs.append((c, b))
        if not fs:
            return [(g, env)]
        # whatever the closures may assign through captured pointers is unknown
        env = self.havoc(env, [c for c, _ in fs])
        seen = {g}
        work = [g]
        while work:
            g1 = work.pop()
            for c, b in fs:
                n = b.argc - (1 if c[0] == "cl" else 0)
                for _r, g2, _e in self.call_value(env, g1, c, [None] * n, ctx, fn, bi, term) or ():
                    if g2 not in seen:
                        seen.add(g2)
                        work.append(g2)
        return [(x, env) for x in sorted(seen, key=repr)]

    def builtin(self, env, g, callee, args, fn):
        """std functions without an extracted body that only move values"""
        if callee is None or not args:
            return None
        p = callee.rpath
        if p in ("core::mem::replace", "core::mem::take", "core::option::Option::<T>::take",
                 "core::option::Option::<T>::replace", "core::option::Option::<T>::insert"):
            q = args[0]
            old = self.proj(env.get(q[1]), q[2]) if isinstance(q, tuple) and q[0] == "ptr" else None
            if not (isinstance(q, tuple) and q[0] == "ptr"):
                return None
            opt, od = self.option()
            if p.endswith("::take") and "Option" in p:
                new = ("adt", opt, od["None"], ())
            elif p.endswith("::replace") and "Option" in p:
                new = ("adt", opt, od["Some"], (args[1],))
            elif p.endswith("mem::replace"):
                new = args[1]
            elif p.endswith("mem::take"):
                new = None
            else:
                return None
            e2 = dict(env)
            self.store(e2, q[1], q[2], new)
            if old is None and "Option" in p:
                # the two possibilities, so that later matches agree
                return [(("adt", opt, od["None"], ()), g, e2), (("adt", opt, od["Some"], (None,)), g, e2)]
            return [(old, g, e2)]
        if p in ("core::option::Option::<T>::as_mut", "core::option::Option::<T>::as_deref_mut",
                 "core::option::Option::<T>::as_ref", "core::option::Option::<T>::as_deref"):
            q = args[0]
            if isinstance(q, tuple) and q[0] == "ptr":
                v = self.proj(env.get(q[1]), q[2])
                opt, od = self.option()
                if isinstance(v, tuple) and v[0] == "adt" and v[1] == opt:
                    if v[2] == od["None"]:
                        return [(v, g, env)]
                    if p.endswith(("as_mut", "as_ref")):
                        return [(("adt", opt, od["Some"], (("ptr", q[1], q[2] + (0,), p.endswith("as_mut")),)), g, env)]
        return None

    def deref_all(self, v, env):
        n = 0
        while isinstance(v, tuple) and n < 6:
            if v[0] == "ptr":
                v = self.proj(env.get(v[1]), v[2])
            elif v[0] == "sref":
                v = v[1]
            else:
                return v
            n += 1
        return v

    def range_next(self, env, g, p, callee):
        if not (isinstance(p, tuple) and p[0] == "ptr"):
            return None
        rv = self.proj(env.get(p[1]), p[2])
        if not (isinstance(rv, tuple) and rv[0] == "adt" and len(rv[3]) == 2):
            return None
        a, b = rv[3]
        opt, od = self.option()
        if not (isinstance(a, int) and isinstance(b, int)) or opt is None or b - a > 64:
            return None
        if a < b:
            e2 = dict(env)
            self.store(e2, p[1], p[2], rv[:-1] + ((a + 1, b),))
            return [(("adt", opt, od["Some"], (a,)), g, e2)]
        return [(("adt", opt, od["None"], ()), g, env)]

    def option(self):
        if not hasattr(self, "_opt"):
            k, a = self.F.adt_by_path("core::option::Option")
            self._opt = (k, {v["name"]: i for i, v in enumerate(a["variants"])} if a else {})
        return self._opt

    def ground(self, v):
        if isinstance(v, int):
            return True
        return isinstance(v, tuple) and v[0] == "adt" and not v[3] and self.derived_eq(v[1])

    def derived_eq(self, adt):
        """is PartialEq for this adt the derived one?"""
        r = self.pure_memo.get(("eq", adt))
        if r is None:
            r = False
            for f in self.F.fns.values():
                if f.name == "eq" and f.impl_trait == "core::cmp::PartialEq" and f.derived:
                    st = f.impl_self()
                    if st is not None and st.adt == adt:
                        r = True
            self.pure_memo[("eq", adt)] = r
        return r

    # ------------------------------------------------------------ one body
    def analyze(self, ctx):
        ctx.edges = {}
        fn = ctx.fn
        env = {}
        for i, a in enumerate(ctx.args):
            if a is not None:
                env[i + 1] = a
        for i, c in enumerate(ctx.cells):
            if c is not None:
                env[("c", i)] = c
        out = {}

        def on_ret(env, g):
            ret = env.get(0)
            if ret is None:
                ret = self.typed_default(fn.local_ty(0))
            ret = self.no_locals(ret)
            couts = tuple(self.no_locals(env.get(("c", i))) for i in range(len(ctx.cells)))
            k = (ret, couts, self.model.gkey(g))
            if k in out:
                out[k] = self.model.gjoin(out[k], g)
            else:
                out[k] = g

        ctx.blockin = self.run(ctx, fn, 0, [(env, ctx.g)], None, on_ret)
        if len(out) > self.model.max_out:
            # widen: forget return values
            o2 = {}
            for (ret, couts, gk), g in out.items():
                k = (None, tuple(None for _ in couts), gk)
                o2[k] = self.model.gjoin(o2[k], g) if k in o2 else g
            out = o2
        # monotone growth
        merged = dict(ctx.out)
        changed = False
        for k, g in out.items():
            if k not in merged:
                merged[k] = g
                changed = True
            else:
                j = self.model.gjoin(merged[k], g)
                if j != merged[k]:
                    merged[k] = j
                    changed = True
        if changed:
            ctx.out = merged
            for c in ctx.callers:
                self.enqueue(c)

    def no_locals(self, v):
        """drop pointers to callee locals from an escaping value"""
        if not isinstance(v, tuple):
            return v
        if v[0] == "ptr":
            return v if isinstance(v[1], tuple) and v[1][0] == "c" else None
        if v[0] in ("adt", "cl"):
            return v[:-1] + (tuple(self.no_locals(x) for x in v[-1]),)
        if v[0] in ("tup", "arr"):
            return (v[0], tuple(self.no_locals(x) for x in v[1]))
        if v[0] == "discof":
            return None
        return v

    def run(self, ctx, fn, start, states, restrict, on_ret, on_head=None):
        """worklist over (block, state).  `restrict`: only these blocks;
        `on_head(env_key, g)`: called on arrivals at `start` (not propagated)."""
        info = self.info(fn)
        ins = defaultdict(dict)
        work = deque()
        blockq = set()
        forget = set()

        def prune(b, env):
            live = info.live[b]
            r = {}
            for k, v in env.items():
                if isinstance(k, int):
                    if k in live and k not in forget:
                        r[k] = v
                elif k[0] in ("c", "?", "b"):
                    r[k] = v
            return r

        def arrive(b, env, g, first=False):
            if fn.blocks[b]["c"]:
                return
            env = prune(b, env)
            if not first:
                if restrict is not None and b not in restrict:
                    return
                if on_head is not None and b == start:
                    on_head(env, g)
                    return
            self.model.normalize(env) if hasattr(self.model, "normalize") else None
            d = ins[b]
            if len(d) > self.model.max_part:
                # widen ints
                vals = defaultdict(set)
                for (ek, _), (e, _g) in d.items():
                    for k, v in e.items():
                        if isinstance(k, int) and isinstance(v, int):
                            vals[k].add(v)
                for k, s in vals.items():
                    if len(s) > self.model.max_ints:
                        forget.add(k)
                env = prune(b, env)
                if len(d) > 3 * max(self.model.max_part, 800):
                    env = {}
            k = (freeze_env(env), self.model.gkey(g))
            old = d.get(k)
            if old is None:
                d[k] = (env, g)
            else:
                j = self.model.gjoin(old[1], g)
                if j == old[1]:
                    return
                d[k] = (env, j)
            work.append((b, k))

        for env, g in states:
            arrive(start, env, g, first=True)
        pend = set()
        while work:
            b, k = work.popleft()
            env, g = ins[b][k]
            self.steps += 1
            if self.steps > self.model.max_steps:
                raise Budget("%s" % fn.path)
            self.block(ctx, fn, b, env, g, arrive, on_ret)
        return ins

    def block(self, ctx, fn, b, env, g, arrive, on_ret):
        blk = fn.blocks[b]
        env = dict(env)
        for s in blk["s"]:
            k = s[0]
            if k == "=":
                pl = s[1]
                dty = fn.local_ty(pl[0]) if not pl[1] else None
                v, g = self.rvalue(env, g, s[2], fn, ctx, s[3], dty)
                if v is None and dty is not None:
                    v = self.typed_default(dty)
                env = self.assign(env, pl, v, fn)
            elif k == "dead" or k == "live":
                env.pop(s[1], None)
            elif k == "sd":
                x = self.resolve(env, s[1], fn)
                if x and x[0] == "v":
                    self.store(env, x[1], x[2], None)
        t = blk["t"]
        k = t["k"]
        if k == "goto":
            arrive(t["t"], env, g)
        elif k == "ret":
            on_ret(env, g)
        elif k == "switch":
            self.switch(ctx, fn, b, t, env, g, arrive)
        elif k == "assert":
            v = self.as_int(self.operand(env, t["cond"], fn))
            if v is None or bool(v) != t["exp"]:
                self.model.panic(self, ctx, g, fn, b, t, "assert " + t["msg"])
            if v is None or bool(v) == t["exp"]:
                arrive(t["t"], env, g)
        elif k == "drop":
            ty = fn.ty(t["ty"])
            v = self.read(env, t["p"], fn)
            if t["nd"]:
                g = self.model.drop(self, ctx, g, fn, b, t, v, ty)
            arrive(t["t"], env, g)
        elif k in ("call", "tailcall"):
            if k == "call" and t["t"] is None:
                c = fn.callee(t)
                self.model.panic(self, ctx, g, fn, b, t, c.rpath if c else "call")
                return
            for ret, g2, e2 in self.call(env, g, t, ctx, fn, b):
                if k == "tailcall":
                    e2 = dict(e2)
                    e2[0] = ret
                    on_ret(e2, g2)
                    continue
                dst = t["dst"]
                if ret is None and not dst[1]:
                    ret = self.typed_default(fn.local_ty(dst[0]))
                e3 = self.assign(e2, dst, ret, fn)
                if e3 is e2:
                    e3 = dict(e2)
                # a moved-out argument no longer holds its value
                arrive(t["t"], e3, g2)

    def switch(self, ctx, fn, b, t, env, g, arrive):
        op = t["op"]
        v = self.operand(env, op, fn)
        i = self.as_int(v)
        if i is not None:
            ty = fn.ty(t["ty"])
            bits = ty.d.get("bits", 128) if ty.k == "int" else 128
            iu = i & ((1 << bits) - 1)
            for val, tgt in t["vals"]:
                if int(val) == iu:
                    arrive(tgt, env, g)
                    return
            arrive(t["else"], env, g)
            return
        loc = op[1][0] if op[0] != "k" and not op[1][1] else None
        if isinstance(v, tuple) and v[0] == "discof":
            a = self.F.adts[v[3]]
            seen = set()
            for val, tgt in t["vals"]:
                e2 = dict(env)
                for n, va in enumerate(a["variants"]):
                    if int(va["discr"]) == int(val):
                        self.refine(e2, v, n, a)
                        seen.add(n)
                        break
                if loc is not None:
                    e2[loc] = int(val)
                arrive(tgt, e2, g)
            rest = [n for n in range(len(a["variants"])) if n not in seen]
            if rest or a["kind"] != "enum":
                e2 = dict(env)
                if len(rest) == 1:
                    self.refine(e2, v, rest[0], a)
                arrive(t["else"], e2, g)
            return
        ty = fn.ty(t["ty"])
        used = []
        tk, neg = None, False
        if isinstance(v, str) and self.model.symbolic and ty.k == "bool":
            tk, neg = (v[1:], True) if v[0] == "!" else (v, False)
            known = env.get(("?", tk))
            if known is not None:
                known = (1 - known) if neg else known
                for val, tgt in t["vals"]:
                    if int(val) == known:
                        arrive(tgt, env, g)
                        return
                arrive(t["else"], env, g)
                return

        def branch(tgt, val):
            e2 = dict(env)
            g2 = g
            if tk is not None and val is not None:
                w = (1 - val) if neg else val
                e2[("?", tk)] = w
                g2 = self.model.assume(self, g, tk, w)
                if g2 is False:
                    return
            elif isinstance(v, str) and self.model.symbolic and ty.k != "bool":
                g2 = self.model.choose(self, g, v, val, [int(x) for x, _ in t["vals"]])
                if g2 is False:
                    return
                if loc is not None and val is not None:
                    e2[loc] = val
            elif loc is not None and val is not None:
                e2[loc] = val
            arrive(tgt, e2, g2)
        for val, tgt in t["vals"]:
            used.append(int(val))
            branch(tgt, int(val))
        branch(t["else"], 1 if ty.k == "bool" and used == [0] else None)

    def refine(self, env, v, n, a):
        base, path = v[1], v[2]
        old = self.proj(env.get(base), path)
        if old is None or isinstance(old, str) and self.model.symbolic:
            nf = len(a["variants"][n]["fields"])
            fs = (None,) * nf
            if old is not None:
                if a["path"] in WRAPPERS and a["variants"][n]["name"] in ("Some", "Ok"):
                    fs = (old,)
                else:
                    fs = tuple("%s@%s.%d" % (old, a["variants"][n]["name"], i) for i in range(nf))
            val = ("adt", v[3], n, fs)
            if not path:
                env[base] = val
            else:
                cur = env.get(base)
                nv = self.put(cur, path, val)
                if nv is not None:
                    env[base] = nv
