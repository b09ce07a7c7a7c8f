"""Event models: the abstract interpreter with a finite automaton as its state.

A rule states what the calls to *external* API (channels, the request queue,
salsa, std) mean; everything in the workspace is followed, so it does not
matter how the code between those calls is divided into functions."""
from .interp import Engine, Model

STD_OPTION = "core::option::Option"
STD_RESULT = "core::result::Result"


class EventModel(Model):
    run_closures = True
    max_part = 30
    max_ints = 5

    def __init__(self, F):
        self.F = F
        self.prims = []
        self.viol = {}
        self.seen = set()      # names of the primitives met
        self.fns = set()
        self.opt, o = F.adt_by_path(STD_OPTION)
        self.res, r = F.adt_by_path(STD_RESULT)
        self.vi = {}

    # ------------------------------------------------- values
    def variant(self, path, name, *fields):
        k = (path, name)
        if k not in self.vi:
            key, a = self.F.adt_by_path(path)
            if key is None:
                from .parser_model import Anchor
                raise Anchor(path)
            i = [v["name"] for v in a["variants"]].index(name)
            self.vi[k] = (key, i, len(a["variants"][i]["fields"]))
        key, i, n = self.vi[k]
        f = list(fields) + [None] * (n - len(fields))
        return ("adt", key, i, tuple(f))

    def some(self, v=None):
        return self.variant(STD_OPTION, "Some", v)

    def none(self):
        return self.variant(STD_OPTION, "None")

    def ok(self, v=None):
        return self.variant(STD_RESULT, "Ok", v)

    def err(self, v=None):
        return self.variant(STD_RESULT, "Err", v)

    def struct(self, path, **fields):
        key, a = self.F.adt_by_path(path)
        if key is None:
            from .parser_model import Anchor
            raise Anchor(path)
        fs = a["variants"][0]["fields"]
        names = [f["name"] for f in fs]
        for n in fields:
            if n not in names:
                from .parser_model import Anchor
                raise Anchor("%s.%s" % (path, n))
        return ("adt", key, 0, tuple(fields.get(n) for n in names))

    def get(self, v, path, field):
        """field of a struct value"""
        key, a = self.F.adt_by_path(path)
        if isinstance(v, tuple) and v[0] == "adt" and v[1] == key:
            names = [f["name"] for f in a["variants"][v[2]]["fields"]]
            if field in names:
                return v[3][names.index(field)]
        return None

    # ------------------------------------------------- hooks
    def on(self, name, pred, handler):
        """pred: a path string, a tuple of them, or a function of the callee"""
        if isinstance(pred, str):
            want = (pred,)
            p = lambda c: c.rpath in want or c.path in want
        elif isinstance(pred, tuple):
            want = pred
            p = lambda c: c.rpath in want or c.path in want
        else:
            p = pred
        self.prims.append((name, p, handler))

    def call(self, en, ctx, g, fn, callee, key, args, term):
        self.fns.add(fn.key)
        if callee is None:
            return None
        for name, pred, h in self.prims:
            if pred(callee):
                r = h(en, ctx, g, fn, callee, args, term)
                if r is not None:
                    self.seen.add(name)
                    return r
        return None

    def unknown(self, en, ctx, g, fn, callee, key, args, term):
        self.fns.add(fn.key)
        return [(None, g)]

    def report(self, key, fn, line, msg, ctx):
        if key not in self.viol:
            self.viol[key] = (fn, line, msg, ctx)

    def once(self, en, g, f, args, ctx, fn, term):
        """call a callable exactly once; None when it cannot be followed"""
        return en.call_value(en.env, g, f, args, ctx, fn, en.bi, term)


def run(F, model, root, args, cells, g, crates):
    en = Engine(F, model, crates)
    c = en.get_ctx(root, tuple(args), tuple(cells), g)
    en.solve([c])
    return en, c


def emit(R, model, chain):
    for key, (fn, line, msg, ctx) in sorted(model.viol.items()):
        R.violation(key, fn.loc(line), "%s: %s" % (fn.path, msg), chain(ctx) if ctx else [])


WORKSPACE = {"base_db", "ide", "ide_db", "ide_diagnostics", "move_language_server", "parser",
             "paths", "project_model", "stdx", "syntax", "vfs"}
SERVER = {"move_language_server", "stdx"}
