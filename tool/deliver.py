"""Exactly-once delivery of an outcome: a promise, a continuation's result, or a callback posted back.

The automaton counts deliveries on every path and remembers how the user's code ended (not run,
returned, threw), so that a value is only delivered after the code returned, and an exception only
after it threw (or when nothing is ready to be read)."""
from engine import *
from core import Broken
NS = "boost::asynchronous::"
STD = ("T", "std::exception", None); INT = ("T", "boost::thread_interrupted", None); ANY = ("T", "verif::any other type", None)

class DS(tuple):
    F = ("n", "outcome", "res", "valid", "notready", "extra")
    def __getattr__(self, n):
        try: return self[DS.F.index(n)]
        except ValueError: raise AttributeError(n)
    def set(self, **kw):
        l = list(self)
        for k, v in kw.items(): l[DS.F.index(k)] = v
        return DS(l)

def root(loc):
    while loc and loc[0] in ("F", "I", "D"):
        x = loc[1]
        if loc[0] == "D" and x and x[0] in ("V", "A", "moved"): x = x[1]
        if not isinstance(x, tuple): return loc
        if x and x[0] == "V": x = x[1]
        loc = x
    return loc

def exc_term(v):
    """what an exception_ptr argument was made of: 'current', ('made', x) or None"""
    for t in find_terms(v, lambda t: t and t[0] == "r" and len(t) > 2 and t[2] in ("current_exception", "make_exception_ptr", "copy_exception", "get_exception_ptr")):
        if t[2] == "current_exception": return "current"
        if t[2] == "get_exception_ptr": return "got"
        return ("made",) + t[3:]
    return None

class Deliver(Rule):
    """sinks: set_value / set_exception on a promise-like object; posts: posting a callback (when cb)"""
    max_inline = 8
    cb = False          # deliver by posting a callback instead
    user_get = True     # .get() of a result may throw the failure it holds
    def __init__(self, rep, user=None, excs=(STD, INT, ANY), handler=None):
        self.rep = rep; self.user = user; self.excs = excs; self.handlers = []; self.nsink = 0; self.nuser = 0; self.nref = 0
    def init(self): return DS((0, None, None, None, False, ()))
    # what is user code
    def is_user(self, eng, st, c):
        if self.user is not None:
            r = self.user(eng, st, c)
            if r is not None: return r
        if c.isctor: return False
        if c.nm == "operator()" and (c.callee is None or c.callee.file.startswith("/")) and c.oval is not None and eng.as_lambda(c.oval) is None: return True
        if c.nm == "get" and self.user_get and not c.args and c.o is not None and not c.qn.startswith(("std::shared_ptr", "std::unique_ptr", "std::__shared_ptr", "boost::shared_ptr", "boost::thread_specific_ptr")): return True
        return False
    def container(self, c):
        q = c.qn or ""
        t = ((c.node.get("o") or {}).get("t") or "")
        return "expected" in q or "expected<" in t
    def call(self, eng, st, c):
        rs = st.rs
        if c.isctor: return None
        if c.nm in ("set_value", "set_exception") and c.o is not None:
            kind = "v" if c.nm == "set_value" else "e"
            self.check_kind(st, c, kind)
            if self.cb and self.container(c):
                self.nsink += 1
                return [(eng.storeloc(st, c.o, ("exp", kind), c.line).ev(c.line, c.nm), ("c", None))]
            self.nsink += 1
            return [(self.sunk(eng, st, c, c.nm), ("c", None))]
        if c.nm == "on_done":
            self.handlers += [(a, st) for a in c.args]
            return [(self.sunk(eng, st, c, "handing over to the continuation"), ("c", None))]
        if c.nm in ("post", "interruptible_post") and self.cb and c.args:
            self.check_posted(eng, st, c)
            return [(self.sunk(eng, st, c, "posting the callback"), ("r", c.site, c.nm))]
        if c.nm == "is_valid" and not c.args and c.oval is not None:
            return [(st, ("r", c.site, "is_valid", trim(c.oval, 4)))]
        if c.nm == "lock" and not c.args and c.oval is not None and not (c.oval and c.oval[0] == "lk") and "mutex" not in c.qn:
            return [(st, ("r", c.site, "lock", trim(c.oval, 4)))]
        if self.is_user(eng, st, c):
            self.nuser += 1
            if rs.n and c.nm != "get": pass
            for x in self.excs:
                eng.throw_(st.cp(rs=rs.set(outcome="exc", res=x)).ev(c.line, "%s throws" % (c.nm if c.nm != "operator()" else "the task")), x)
            v = ("r", c.site, "result", c.nm)
            st = eng.fresh(st, v)
            return [(st.cp(rs=rs.set(outcome="ok", res=v)), v)]
        return None
    def sunk(self, eng, st, c, what):
        rs = st.rs
        if rs.n >= 1: self.rep("delivers its outcome twice on a path (%s)" % what, c.line, st)
        return st.cp(rs=rs.set(n=min(2, rs.n + 1))).ev(c.line, what)
    def check_kind(self, st, c, kind):
        rs = st.rs
        if kind == "v":
            if rs.outcome == "exc": self.rep("delivers a value although the task failed", c.line, st)
            elif rs.outcome is None: self.rep("delivers a value without having looked at the outcome", c.line, st)
            elif c.args and not any(mentions(a, rs.res) for a in c.args) : self.rep("delivers something else than what the task returned", c.line, st)
        else:
            e = exc_term(tuple(c.args))
            if rs.outcome == "ok": self.rep("delivers an exception although the task succeeded", c.line, st)
            elif rs.outcome == "exc":
                if e is None: self.rep("delivers something else than the exception of the task", c.line, st)
                elif e != "current" and e != "got" and rs.res == ANY: self.rep("replaces the exception of the task by another one", c.line, st)
                elif e[0] == "made" and rs.res == STD and not find_terms(e, lambda t: t and t[0] == "caught"): self.rep("replaces the exception of the task by another one", c.line, st)
            elif rs.outcome is None and not rs.notready and not self.none_ok(st, c): self.rep("delivers an exception of its own although a result may be available", c.line, st)
    def none_ok(self, st, c): return False
    def check_posted(self, eng, st, c):
        rs = st.rs
        exps = {t for t in find_terms(tuple(c.args), lambda t: t and t[0] == "exp")}
        kinds = {t[1] for t in exps}
        if rs.valid is not True: self.rep("posts the callback through a handle which was not found valid", c.line, st)
        if rs.outcome == "exc" and kinds != {"e"}: self.rep("posts a callback which does not carry the failure of the task", c.line, st)
        if rs.outcome == "ok" and "e" in kinds: self.rep("posts a callback which carries a failure although the task succeeded", c.line, st)
        if rs.outcome == "ok" and not kinds and not self.void(c): self.rep("posts a callback which does not carry the result of the task", c.line, st)
        if rs.outcome is None and not exps and not find_terms(tuple(c.args), lambda t: t and t[0] in ("p",) or t and t[0] == "V"): self.rep("posts a callback without outcome", c.line, st)
    def void(self, c):
        return bool(find_terms(tuple(c.args), lambda t: t and t[0] == "obj" and len(t) > 1 and isinstance(t[1], str) and t[1].split("::")[-1] == "expected" and len(t) == 2))
    def branch(self, eng, st, t, truth):
        rs = st.rs
        if t[0] == "r" and len(t) > 2:
            if t[2] == "is_valid": st = st.cp(rs=rs.set(valid=truth))
            elif t[2] in ("is_ready", "has_exception", "valid") and not truth: st = st.cp(rs=rs.set(notready=True))
        elif t[0] == "bin" and t[1] == "==" and not truth and "wait_for" in repr(t): st = st.cp(rs=rs.set(notready=True))
        return st
    def known(self, eng, st, t, truth): return self.branch(eng, st, t, truth)
    def inline(self, eng, fn, c):
        return fn.file == self.home or (fn.cls or "").startswith(self.root_cls) if False else not fn.file.startswith(("queue/", "diagnostics/", "scheduler/")) and fn.nm not in ("set_failed", "set_name", "get_continuations", "has_value", "has_exception", "valid", "wait_for")

class Reporter:
    def __init__(self, ctx, rule, fn, what):
        self.ctx = ctx; self.rule = rule; self.fn = fn; self.what = what
    def __call__(self, msg, line, st=None):
        self.ctx.bad(self.rule, self.fn.where(line or None), "%s: %s" % (self.what, msg), key="%s|%s|%s" % (self.rule, self.what, msg), trace=st.trace if st else ())

def outcomes(ctx, P, rule, fn, what, R=Deliver, expect_throw=False, empty_ok=None, st=None, **kw):
    """every exit of fn has delivered exactly once; nothing escapes. Handlers registered are checked the same way."""
    rep = Reporter(ctx, rule, fn, what)
    r = R(rep, **kw)
    eng = Engine(P, r, maxsteps=800000)
    outs = ctx.run_engine(eng, fn)
    finish(ctx, rule, fn, what, r, outs, rep, empty_ok)
    done = set()
    while r.handlers:
        h, st0 = r.handlers.pop()
        lam = eng.as_lambda(h)
        if lam is not None:
            if lam[1] in done: continue
            done.add(lam[1])
            r2 = R(Reporter(ctx, rule, fn, what + " done handler"), **kw); r2.user_get = True
            eng.rule = r2
            outs = eng.run_lambda(lam, State(rs=r2.init(), mem=dict(st0.mem)))
            finish(ctx, rule, fn, what + " done handler", r2, outs, r2.rep, empty_ok)
            ctx.count("done_handlers")
    return r

def finish(ctx, rule, fn, what, r, outs, rep, empty_ok):
    n0 = len(ctx.violations)
    for k, st, v in outs:
        if k == "t": rep("an exception escapes (%s)" % (v[1] if len(v) > 1 else "any"), None, st)
        elif st.rs.n == 0 and not (empty_ok and empty_ok(st)): rep("a path delivers nothing", None, st)
    if len(ctx.violations) == n0: ctx.ok(rule, fn.where(), "%s: one delivery on each of %d exits" % (what, len(outs)))
