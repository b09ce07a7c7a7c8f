"""The main loop, interpreted from `main_loop` for every sequence of messages
and finished tasks.  Only calls into external crates have a given meaning."""
from collections import namedtuple

from ..events import SERVER, EventModel, emit, run
from ..interp import FN_TRAITS
from ..parser_model import Anchor
from .parsing import chain, guarded

MSG = "lsp_server::msg::Message"
REQ = "lsp_server::msg::Request"
RESP = "lsp_server::msg::Response"
RID = "lsp_server::msg::RequestId"
NOTE = "lsp_server::msg::Notification"
TASK = "move_language_server::main_loop::Task"
STATE = "move_language_server::global_state::GlobalState"
SNAP = "move_language_server::global_state::GlobalStateSnapshot"

G = namedtuple("G", "msg method R reg pend got sent spawned hand json tp down caught worker code out res err canc")
G0 = G(None, None, None, 0, 0, 0, 0, 0, 0, None, 0, 0, 0, 0, None, 0, None, (), 0)

INVALID_REQUEST, METHOD_NOT_FOUND, INVALID_PARAMS, INTERNAL, MODIFIED = -32600, -32601, -32602, -32603, -32801
LSP_ERROR = "move_language_server::LspError"
CANCELLED = "salsa::Cancelled"
CANCEL = ("lsp_types::notification::Cancel", "$/cancelRequest")
SHUTDOWN = "lsp_types::request::Shutdown"


def sat(n):
    return min(n + 1, 2)


def lsp_trait_arg(F, callee):
    """the lsp_types request / notification a generic call is instantiated with"""
    for a in callee.args():
        p = F.adt_path(a)
        if p and (p.startswith("lsp_types::request::") or p.startswith("lsp_types::notification::")
                  or p.startswith("move_language_server::lsp_ext::")):
            return p
    return None


class ServerModel(EventModel):
    def __init__(self, F):
        super().__init__(F)
        self.callbacks = set()
        self.handled = set()      # types of messages whose handler runs
        self.tasks = [v["name"] for v in F.adt_by_path(TASK)[1]["variants"]] if F.adt_by_path(TASK)[0] else []
        on = self.on
        on("recv", lambda c: c.crate == "crossbeam_channel" and c.name in ("recv", "try_recv", "recv_timeout", "recv_deadline"),
           self.recv)
        on("send", lambda c: c.crate == "crossbeam_channel" and c.name in ("send", "try_send"), self.send)
        on("register", lambda c: "req_queue::Incoming" in c.path and c.name == "register", self.register)
        on("complete", lambda c: "req_queue::Incoming" in c.path and c.name == "complete", self.complete)
        on("cancel", lambda c: "req_queue::Incoming" in c.path and c.name == "cancel", self.cancel)
        on("outgoing.complete", lambda c: "req_queue::Outgoing" in c.path and c.name == "complete", self.out_complete)
        on("outgoing.register", lambda c: "req_queue::Outgoing" in c.path and c.name == "register",
           self.out_register)
        on("new_err", "lsp_server::msg::Response::new_err", self.new_err)
        on("new_ok", "lsp_server::msg::Response::new_ok",
           lambda en, ctx, g, fn, c, a, t: [(self.struct(RESP, id=a[0], result=self.some(), error=self.none()), g)])
        on("clone id", lambda c: c.path == "core::clone::Clone::clone" and self.arg0(c, "lsp_server::msg::RequestId"),
           lambda en, ctx, g, fn, c, a, t: [(en.deref_all(a[0], en.env), g)])
        on("into message", lambda c: c.name in ("into", "from") and any(self.F.adt_path(x) in (MSG, RID) for x in c.args()),
           self.into_message)
        on("from_json", lambda c: c.crate == "serde_json" and c.name in ("from_value", "from_str", "from_slice"), self.from_json)
        on("eq", lambda c: c.trait == "core::cmp::PartialEq" and c.name in ("eq", "ne"), self.eq)
        on("execute", lambda c: c.crate == "threadpool" and c.name == "execute", self.execute)
        on("spawn", lambda c: c.rpath in ("std::thread::spawn", "std::thread::functions::spawn",
                                          "std::thread::builder::Builder::spawn"), self.execute)
        on("catch_unwind", lambda c: c.name == "catch_unwind" and c.crate in ("std", "core"), self.catch)
        on("extract", lambda c: c.crate == "lsp_server" and c.name == "extract", self.extract)
        on("downcast", lambda c: c.name in ("downcast", "downcast_ref", "downcast_mut", "is") and bool(c.args())
           and ("error::Error" in c.path or "any::Any" in c.path or "anyhow" in c.path), self.downcast)
        on("pending.remove", lambda c: c.name in ("remove", "take", "contains") and "hash::" in c.path
           and any(self.F.adt_path(x) == "lsp_server::msg::RequestId" for x in c.args()), self.pending)

    def arg0(self, c, path):
        a = c.args()
        return bool(a) and self.F.adt_path(a[0]) == path

    def request(self, id):
        return self.struct(REQ, id=id, method="#m")

    def response(self, id):
        return self.struct(RESP, id=id)

    # ------------------------------------------------- what starts a turn
    def end_of_turn(self, g, fn, line, ctx, what="the next event is received"):
        if g.msg is None:
            return
        v = lambda k, m: self.report("C09|" + k, fn, line, m, ctx)
        if g.got:
            v("lost", "a response was taken from the request queue and not sent when %s" % what)
        if g.tp:
            v("task", "the response of a finished task was not handed to the request queue when %s" % what)
        if g.msg == "request":
            m = " (%s)" % g.method if g.method else ""
            if g.reg != 1:
                v("register", "a request%s was registered %s when %s" % (m, "twice" if g.reg else "never", what))
            n = g.sent + g.spawned
            if n == 0:
                v("none", "a request%s got no response when %s" % (m, what))
            if n > 1:
                v("many", "a request%s got more than one response when %s" % (m, what))
            if g.json == "ok" and not g.down and g.hand == 0:
                v("handler", "no handler ran for a well-formed request%s" % m)
        if g.msg == "notification" and g.method in CANCEL and g.json == "ok" and not g.canc:
            v("cancel", "the client cancels a request and nothing is cancelled when %s" % what)
        if g.method == "exit" and what != "the server stops":
            self.report("C10|exit", fn, line, "the main loop goes on after the exit notification", ctx)

    def fresh(self, g, msg):
        return G0._replace(msg=msg, down=2 if g.down else 0)

    def recv(self, en, ctx, g, fn, callee, args, term):
        a = callee.args()
        t = self.F.adt_path(a[0]) if a else None
        line = term["line"]
        if t == MSG:
            self.end_of_turn(g, fn, line, ctx)
            res = [
                (self.ok(self.variant(MSG, "Request", self.request("#req"))), self.fresh(g, "request")),
                (self.ok(self.variant(MSG, "Notification", self.struct(NOTE, method="#m"))), self.fresh(g, "notification")),
                (self.ok(self.variant(MSG, "Response", self.response("#reply"))), self.fresh(g, "response")),
                (self.err(), self.fresh(g, "closed")),
            ]
            if callee.name == "try_recv":
                res.append((self.err(), g))
            return res
        if t == TASK:
            tries = callee.name != "recv"
            if tries:
                if g.tp:
                    self.report("C09|task", fn, line, "the response of a finished task is dropped when the next task is received", ctx)
                if g.got:
                    self.report("C09|lost", fn, line, "a response was taken from the request queue and not sent", ctx)
                base = g
            else:
                self.end_of_turn(g, fn, line, ctx)
                base = self.fresh(g, "task")
            res = []
            for n in self.tasks:
                if n == "Response":
                    res.append((self.ok(self.variant(TASK, n, self.response("#task"))), base._replace(tp=1, got=0)))
                else:
                    res.append((self.ok(self.variant(TASK, n)), base))
            if tries:
                res.append((self.err(), g))
            return res
        return None

    # ------------------------------------------------- the request queue
    def register(self, en, ctx, g, fn, callee, args, term):
        if args[1] != "#req":
            self.report("C09|register-id", fn, term["line"], "a request is registered under another id", ctx)
        return [(("tup", ()), g._replace(reg=sat(g.reg), pend=1), en.havoc(en.env, args))]

    def complete(self, en, ctx, g, fn, callee, args, term):
        i = args[1]
        if i == "#req":
            if g.pend:
                return [(self.some(), g._replace(pend=0, got=1))]
            return [(self.none(), g)]
        if i == "#task":
            # the request may have been cancelled meanwhile
            return [(self.some(), g._replace(tp=0, got=1)), (self.none(), g._replace(tp=0))]
        self.report("C09|id", fn, term["line"], "a request is completed under an id that the analysis cannot trace to a request", ctx)
        return [(self.some(), g._replace(got=1)), (self.none(), g)]

    def cancel(self, en, ctx, g, fn, callee, args, term):
        if g.method in CANCEL:
            if en.deref_all(args[1], en.env) not in ("#id:#number", "#id:#string"):
                self.report("C09|cancel-id", fn, term["line"], "a request is cancelled under an id that is not the one in the notification", ctx)
            g = g._replace(canc=1)
        return [(self.some(self.response("#cancel")), g._replace(got=1)), (self.none(), g)]

    def pending(self, en, ctx, g, fn, callee, args, term):
        if en.deref_all(args[1], en.env) == "#reply":
            return [(1, g._replace(out=1)), (0, g)] if callee.name != "take" else [(self.some(), g._replace(out=1)), (self.none(), g)]
        return None

    def out_register(self, en, ctx, g, fn, callee, args, term):
        h = en.callable(args[-1], en.env)
        if h is None:
            self.report("C25|callback", fn, term["line"], "the callback of a request to the client cannot be determined", ctx)
        else:
            self.callbacks.add(h)
        return [(self.request("#out"), g)]

    def out_complete(self, en, ctx, g, fn, callee, args, term):
        if not g.out:
            self.report("C25|outgoing", fn, term["line"],
                        "Outgoing::complete, which panics for an unknown id, is called for an id that was not checked", ctx)
        if not self.callbacks:
            return [(None, g)]
        return [(h, g) for h in sorted(self.callbacks, key=repr)]

    def extract(self, en, ctx, g, fn, callee, args, term):
        self.report("C25|extract", fn, term["line"],
                    "%s panics when the parameters of the message are malformed" % callee.path, ctx)
        return [(self.ok(), g), (self.err(), g)]

    # ------------------------------------------------- responses
    def new_err(self, en, ctx, g, fn, callee, args, term):
        code = args[1]
        e = self.struct("lsp_server::msg::ResponseError", code=code)
        return [(self.struct(RESP, id=args[0], result=self.none(), error=self.some(e)), g)]

    def into_message(self, en, ctx, g, fn, callee, args, term):
        v = args[0]
        if v in ("#number", "#string"):
            return [("#id:" + v, g)]
        for ty, name in ((RESP, "Response"), (REQ, "Request"), (NOTE, "Notification")):
            if any(self.F.adt_path(x) == ty for x in callee.args()):
                return [(self.variant(MSG, name, v), g)]
        return None

    def code_of(self, resp):
        e = self.get(resp, RESP, "error")
        if isinstance(e, tuple) and e[0] == "adt" and e[1] == self.opt:
            if not e[3]:
                return "ok"
            c = self.get(e[3][0], "lsp_server::msg::ResponseError", "code")
            return c if isinstance(c, int) else None
        return None

    def downcast(self, en, ctx, g, fn, callee, args, term):
        p = None
        for a in callee.args():
            q = self.F.adt_path(a)
            if q in (LSP_ERROR, CANCELLED):
                p = "lsp" if q == LSP_ERROR else "cancelled"
        if p is None:
            return None
        byval = callee.name == "downcast"
        if callee.name == "is":
            yes, no = 1, 0
        else:
            yes, no = (self.ok(), self.err()) if byval else (self.some(), self.none())
        if p in g.err:
            return [(yes, g)]
        if "not " + p in g.err:
            return [(no, g)]
        res = [(no, g._replace(err=tuple(sorted(g.err + ("not " + p,)))))]
        if not any(e in ("lsp", "cancelled") for e in g.err):
            res.append((yes, g._replace(err=tuple(sorted(g.err + (p,))))))
        return res

    def unknown(self, en, ctx, g, fn, callee, key, args, term):
        self.fns.add(fn.key)
        if self.handler_call(fn, callee, term):
            return [(self.ok(), g._replace(res="ok")), (self.err(), g._replace(res="err"))]
        return [(None, g)]

    def check_result(self, g, code, fn, line, ctx):
        """the outcome of a handler and the response made from it"""
        v = lambda k, m: self.report("C11|" + k, fn, line, m, ctx)
        if g.res == "ok" and code != "ok":
            v("ok", "the result of a handler that succeeded is answered with error %s" % (code,))
        elif g.res == "panic" and code != INTERNAL:
            v("panic", "a panic of a handler is answered with %s, not InternalError" % (code,))
        elif g.res == "err":
            if code == "ok":
                v("err-ok", "an error of a handler is answered as a success")
            elif "lsp" in g.err:
                if code is not None:
                    v("lsp", "the handler's own error code is replaced by %s" % (code,))
            elif "cancelled" in g.err:
                if code != MODIFIED:
                    v("cancelled", "a cancelled request is answered with %s, not ContentModified" % (code,))
            else:
                for p, n in (("lsp", "LspError"), ("cancelled", "Cancelled")):
                    if "not " + p not in g.err:
                        v("distinguish-" + p, "an error is answered without looking whether it is %s" % n)
                if code != INTERNAL:
                    v("other", "an internal error of a handler is answered with %s, not InternalError" % (code,))

    def check_code(self, g, resp, fn, line, ctx):
        if self.get(resp, RESP, "id") != "#req":
            return
        code = self.code_of(resp)
        if g.msg != "request":
            return
        if g.down == 2:
            if code != INVALID_REQUEST:
                self.report("C10|code", fn, line, "a request after shutdown is answered with %s, not InvalidRequest" % (code,), ctx)
        elif g.json == "err":
            if code != INVALID_PARAMS:
                self.report("C09|params", fn, line, "a request with malformed parameters is answered with %s, not InvalidParams" % (code,), ctx)
        elif g.method is None:
            if code != METHOD_NOT_FOUND:
                self.report("C09|unknown", fn, line, "an unknown request is answered with %s, not MethodNotFound" % (code,), ctx)
        elif g.json == "ok" and g.hand == 0:
            self.report("C09|early", fn, line, "a well-formed request is answered before its handler ran", ctx)
        if g.json == "ok" and g.down != 2:
            self.check_result(g, code, fn, line, ctx)

    def send(self, en, ctx, g, fn, callee, args, term):
        v = args[1]
        line = term["line"]
        a = callee.args()
        t = self.F.adt_path(a[0]) if a else None
        done = self.ok(("tup", ()))
        mk = self.F.adt_by_path(MSG)[0]
        tk = self.F.adt_by_path(TASK)[0]
        if isinstance(v, tuple) and v[0] == "adt" and v[1] == mk:
            name = self.F.adts[mk]["variants"][v[2]]["name"]
            if name == "Response":
                r = v[3][0]
                self.check_code(g, r, fn, line, ctx)
                if not g.got:
                    self.report("C09|unpaired", fn, line,
                                "a response is sent although its request was not pending (answered already, cancelled or never registered)", ctx)
                if g.worker:
                    self.report("C09|worker", fn, line, "a worker thread sends a response past the request queue", ctx)
                g = g._replace(got=0, sent=sat(g.sent) if self.get(r, RESP, "id") == "#req" else g.sent)
            return [(done, g)]
        if isinstance(v, tuple) and v[0] == "adt" and v[1] == tk:
            name = self.F.adts[tk]["variants"][v[2]]["name"]
            if name == "Response":
                r = v[3][0]
                self.check_code(g, r, fn, line, ctx)
                if self.get(r, RESP, "id") != "#req":
                    self.report("C09|task-id", fn, line, "a task responds under another id", ctx)
                g = g._replace(spawned=sat(g.spawned))
            return [(done, g)]
        if t == MSG:
            self.report("C09|opaque", fn, line, "the message sent here cannot be determined", ctx)
        return [(done, g)]

    def from_json(self, en, ctx, g, fn, callee, args, term):
        if g.down == 2 and g.msg == "request":
            self.report("C10|parse", fn, term["line"], "a request after shutdown is dispatched to a handler", ctx)
        bad = (self.err(), g._replace(json="err"))
        if g.msg == "notification" and g.method in CANCEL:
            g = g._replace(json="ok")
            return [(self.ok(self.struct("lsp_types::CancelParams", id=self.variant("lsp_types::NumberOrString", n, "#" + n.lower()))), g)
                    for n in ("Number", "String")] + [bad]
        return [(self.ok(), g._replace(json="ok")), bad]

    def eq(self, en, ctx, g, fn, callee, args, term):
        a = en.deref_all(args[0], en.env)
        b = en.deref_all(args[1], en.env)
        if a != "#m" and b != "#m":
            return None
        o = b if a == "#m" else a
        yes, no = (1, 0) if callee.name == "eq" else (0, 1)
        if isinstance(o, tuple) and o[0] == "s":
            name = o[1]
        else:
            name = g.R
        if g.method is not None:
            return [((yes if g.method == name else no), g)]
        return [(yes, g._replace(method=name)), (no, g)]

    # ------------------------------------------------- handlers and threads
    def handler_call(self, fn, callee, term):
        """a call that hands the server state and the parameters to a handler"""
        if callee is None:
            tys = [fn.op_ty(x) for x in term["args"]]
        elif callee.trait in FN_TRAITS and len(term["args"]) == 2:
            t = fn.op_ty(term["args"][1])
            tys = t.subtypes() if t is not None and t.k == "tuple" else []
        else:
            return False
        if len(tys) != 2 or tys[0] is None:
            return False
        p = self.F.adt_path(tys[0].peel())
        if p not in (STATE, SNAP):
            return False
        return tys[1] is None or self.F.adt_path(tys[1].peel()) not in (RESP, REQ, NOTE)

    def before(self, en, ctx, g, fn, callee, args, term):
        if callee is not None:
            r = lsp_trait_arg(self.F, callee)
            if r is not None and callee.crate == "move_language_server":
                g = g._replace(R=r)
        if self.handler_call(fn, callee, term):
            if g.method:
                self.handled.add(g.method)
            if g.json != "ok":
                self.report("C09|params-handler", fn, term["line"], "a handler runs without well-formed parameters", ctx)
            if g.msg == "request":
                if g.hand:
                    self.report("C09|twice", fn, term["line"], "two handlers run for one request", ctx)
                if g.down == 2:
                    self.report("C10|handler", fn, term["line"], "a handler runs for a request after shutdown", ctx)
            snap = [x for x in term["args"]]
            ty = fn.op_ty(snap[0]) if callee is None else None
            if ty is None and callee is not None:
                t = fn.op_ty(snap[1])
                ty = t.subtypes()[0]
            if self.F.adt_path(ty.peel()) == SNAP and not g.caught:
                self.report("C11|uncaught", fn, term["line"],
                            "a read-only request handler is called outside catch_unwind: its panic %s" %
                            ("loses the response" if g.worker else "ends the server"), ctx)
            g = g._replace(hand=sat(g.hand))
            if g.method == SHUTDOWN:
                g = g._replace(down=1)
        return g

    def execute(self, en, ctx, g, fn, callee, args, term):
        outs = None
        for a in args:
            if en.callable(a, en.env) is not None:
                outs = self.once(en, g._replace(worker=1), a, [], ctx, fn, term)
        if outs is None:
            self.report("C09|execute", fn, term["line"], "the job given to %s cannot be determined" % callee.path, ctx)
            return [(None, g)]
        return [(("tup", ()), g2._replace(worker=g.worker), e) for _r, g2, e in outs]

    def catch(self, en, ctx, g, fn, callee, args, term):
        outs = self.once(en, g._replace(caught=1), args[0], [], ctx, fn, term)
        if outs is None:
            return [(self.ok(), g), (self.err(), g)]
        res = []
        for r, g2, e in outs:
            g2 = g2._replace(caught=g.caught)
            res.append((self.ok(r), g2, e))
            res.append((self.err(), g2._replace(res="panic"), e))
        return res


_memo = {}


def interpret(F):
    if _memo.get("F") is F:
        return _memo["run"]
    root = F.fn("move_language_server::main_loop::main_loop")
    if root is None:
        raise Anchor("main_loop")
    args = [None] * root.argc
    callbacks = set()
    while True:
        M = ServerModel(F)
        M.callbacks |= callbacks
        en, c = run(F, M, root, args, [], G0, SERVER)
        if M.callbacks == callbacks:
            break
        callbacks = M.callbacks
    dispatchers(F, M)
    for need in ("recv", "send", "register", "complete", "from_json", "eq", "new_err"):
        if need not in M.seen:
            M.report("C09|anchor|" + need, root, root.line, "the analysis meets no call to %s" % need, None)
    for (ret, _c, _k), g in c.out.items():
        M.end_of_turn(g, root, root.line, c, "the server stops")
        v = None
        if isinstance(ret, tuple) and ret[0] == "adt":
            v = "Ok" if ret[2] == M.ok()[2] else "Err"
        if g.msg == "closed":
            if v != "Err":
                M.report("C10|closed", root, root.line, "a connection closed without exit is not reported as an error", c)
        elif g.method == "exit":
            if v != "Ok":
                M.report("C10|exit-error", root, root.line, "the exit notification makes the server fail", c)
        elif g.msg is not None:
            M.report("C25|stops|%s" % g.msg, root, root.line,
                     "the server stops (%s) after a %s%s" % (v, g.msg, " " + g.method if g.method else ""), c)
    if not c.out:
        M.report("C10|never", root, root.line, "the server never stops", c)
    _memo["F"] = F
    _memo["run"] = (en, M, c)
    return _memo["run"]


def dispatchers(F, M):
    """the dispatch methods that take a handler, one by one (today's main loop
    does not use all of them)"""
    M.generic = []
    disp = "move_language_server::dispatch::RequestDispatcher"
    for f in sorted(F.crate_fns("move_language_server"), key=lambda f: f.path):
        if f.kind != "AssocFn" or F.adt_path(f.impl_self()) != disp or f.argc != 2:
            continue
        if f.local_ty(2).k not in ("fnptr", "param"):
            continue
        me = M.struct(disp, req=M.some(M.struct(REQ, id="#req", method="#m")),
                      global_state=("ptr", ("c", 1), (), True))
        st = M.struct(STATE)
        g = G0._replace(msg="request", R="the request of " + f.name, reg=1, pend=1)
        en, c = run(F, M, f, [("ptr", ("c", 0), (), True), None], [me, st], g, SERVER)
        M.generic.append(f.path)
        for (ret, _c, _k), g in c.out.items():
            n = g.sent + g.spawned
            if g.got:
                M.report("C09|lost", f, f.line, "a response was taken from the request queue and not sent", c)
            if g.method is None and n:
                M.report("C09|generic-other", f, f.line, "a request for another handler is answered", c)
            if g.method is not None and n != 1:
                M.report("C09|generic-%d" % n, f, f.line, "a request gets %s response" % ("no" if n == 0 else "more than one"), c)
            if g.method is not None and g.json == "ok" and g.hand != 1:
                M.report("C09|generic-hand", f, f.line, "the handler of a well-formed request runs %d times" % g.hand, c)
    if not M.generic:
        raise Anchor("the methods of RequestDispatcher that take a handler")


def emit_for(F, R, M, pid, c):
    R.count("functions interpreted", len({x.fn.key for x in c.all}))
    R.count("calling contexts", len(c.all))
    R.count("abstract states", c.steps)
    for x in sorted(M.handled):
        R.sample("handled messages", x, 40)
    for key, (fn, line, msg, ctx) in sorted(M.viol.items()):
        if key.startswith(pid + "|"):
            R.violation(key, fn.loc(line), "%s: %s" % (fn.path, msg), chain(ctx) if ctx else [])
    R.assume("the request queue, channels, thread pool and serde behave as documented; each interpreted call of them "
             "has the meaning given in mls/rules/server.py")


@guarded
def responses(F, R):
    en, M, c = interpret(F)
    R.rule("Interpretation of the MIR of main_loop and everything it calls in the workspace, over every sequence of "
           "received messages and finished tasks, with an automaton that counts registrations, queue completions and "
           "sent responses: every request is registered once and answered once, only while it is pending; unknown "
           "methods get MethodNotFound and malformed parameters InvalidParams.")
    emit_for(F, R, M, "C09", en)
    for p in M.generic:
        R.sample("dispatch methods interpreted on their own", p)


@guarded
def shutdown(F, R):
    en, M, c = interpret(F)
    R.rule("The same interpretation: after a shutdown request was handled every request is answered with "
           "InvalidRequest and no handler runs; exit ends the loop with success at once, a closed connection with an error.")
    emit_for(F, R, M, "C10", en)


@guarded
def isolation(F, R):
    en, M, c = interpret(F)
    R.rule("The same interpretation, and each dispatch method on its own: read-only handlers run inside catch_unwind "
           "and the outcome (value, LspError, cancellation, other error, panic) decides the response's error code. "
           "Every query of the analysis API runs inside Cancelled::catch.")
    emit_for(F, R, M, "C11", en)
    for p in M.generic:
        R.sample("dispatch methods interpreted on their own", p)
    catches(F, R)


@guarded
def robust(F, R):
    en, M, c = interpret(F)
    R.rule("The same interpretation: no message other than exit ends the loop; functions that panic on a malformed or "
           "unexpected message (extract, Outgoing::complete of an unchecked id) are not reached.")
    emit_for(F, R, M, "C25", en)


def catches(F, R):
    """every public method of Analysis touches the database only inside Cancelled::catch"""
    A = "ide::Analysis"
    DB = "ide_db::RootDatabase"

    class M(EventModel):
        def __init__(self, F):
            super().__init__(F)
            self.on("catch", lambda c: c.name == "catch" and "Cancelled" in c.path, self.catch)

        def catch(self, en, ctx, g, fn, callee, args, term):
            outs = self.once(en, 1, args[0], [], ctx, fn, term)
            if outs is None:
                self.report("C11|catch-opaque", fn, term["line"], "the query given to Cancelled::catch cannot be determined", ctx)
                return [(None, g)]
            r = []
            for v, _g, e in outs:
                r += [(self.ok(v), g, e), (self.err(), g, e)]
            return r

        def before(self, en, ctx, g, fn, callee, args, term):
            if not g and callee is not None and callee.trait and query_trait(F, callee.trait):
                self.report("C11|query|" + callee.path, fn, term["line"],
                            "the query %s runs outside Cancelled::catch" % callee.path, ctx)
            return g

        def unknown(self, en, ctx, g, fn, callee, key, args, term):
            return [(None, g)]
    m = M(F)
    n = 0
    for f in sorted(F.crate_fns("ide"), key=lambda f: f.path):
        if f.kind == "AssocFn" and F.adt_path(f.impl_self()) == A and not f.derived and not f.impl_trait:
            if f.local_ty(0).k == "never" or f.argc < 2 or f.local_ty(2).k == "param":
                continue
            run(F, m, f, [None] * f.argc, [], 0, {"ide", "ide_db", "ide_diagnostics", "base_db"})
            n += 1
            R.sample("analysis API", f.path)
    if not n:
        raise Anchor("the methods of ide::Analysis")
    if "catch" not in m.seen:
        raise Anchor("Cancelled::catch")
    R.count("methods of the analysis API", n)
    for key, (fn, line, msg, ctx) in sorted(m.viol.items()):
        R.violation(key, fn.loc(line), "%s: %s" % (fn.path, msg), chain(ctx) if ctx else [])


def query_trait(F, trait):
    """a salsa query group of the workspace"""
    return trait in ("base_db::SourceDatabase", "ide_db::LineIndexDatabase") or trait.endswith("Database") \
        and trait.split("::")[0] in ("base_db", "ide_db", "ide")
