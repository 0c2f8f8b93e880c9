"""Posting: C14, C15 (delivery automata), C13 (forwarding of job, name, priority), tasks with promises."""
from engine import *
from core import Broken
from deliver import *

def short(fn): return (fn.cls or fn.qn).replace(NS, "").replace("detail::", "")

def inst_or_pattern(P, pred):
    """functions satisfying pred: instantiations where there are any, else the template itself"""
    by = {}
    for f in P.fns:
        if f.b and pred(f): by.setdefault((f.p or f.id if f.kind != "pattern" else f.id, f.file, f.line), []).append(f)
    g = {}
    for f in P.fns:
        if f.b and pred(f): g.setdefault((f.file, f.line, f.qn), []).append(f)
    res = []
    for l in g.values():
        i = [f for f in l if f.kind != "pattern"]
        res += i or l
    return res

def check_promise_task(ctx, P, f, rule):
    r = outcomes(ctx, P, rule, f, short(f) + "::" + f.nm)
    if not r.nuser: raise Broken("no user call found in %s" % f)
    ctx.count("promise_tasks")
    return r


class Load(Deliver):
    """deserialising the answer of a remote execution: the payload says whether there is an exception"""
    def branch(self, eng, st, t, truth):
        f = find_terms(t, lambda x: x and x[0] == "F" and x[-1] == "m_has_exception")
        if f: return st.cp(rs=st.rs.set(outcome="exc" if truth else "ok", res=("F", f[0][1], "m_exception")))
        return Deliver.branch(self, eng, st, t, truth)
    def is_user(self, eng, st, c): return False
    def check_kind(self, st, c, kind):
        rs = st.rs
        if kind == "v":
            if rs.outcome != "ok": self.rep("delivers a value without the answer holding one", c.line, st)
        elif rs.outcome != "exc": self.rep("delivers an exception without the answer holding one", c.line, st)
        elif not find_terms(tuple(c.args), lambda x: x and x[0] == "F" and x[-1] == "m_exception"): self.rep("delivers another exception than the one of the answer", c.line, st)
    def check_posted(self, eng, st, c):
        if st.rs.valid is not True: self.rep("posts the callback through a handle which was not found valid", c.line, st)
        want = {"ok": "v", "exc": "e"}.get(st.rs.outcome)
        kinds = {t[1] for t in find_terms(tuple(c.args), lambda t: t and t[0] == "exp")}
        if kinds != {want}: self.rep("posts a callback which does not carry the answer", c.line, st)

def c14(ctx):
    import rules_fwd
    P = ctx.need(["post"]); R_ = "C14"
    ff = inst_or_pattern(P, lambda f: f.file.endswith("post.hpp") and "post_future_helper" in f.qn and f.nm == "operator()")
    for f in ff:
        mv = "promise_move_helper" in f.qn
        r = outcomes(ctx, P, R_, f, short(f) + "::" + f.nm)
        if not r.nuser: ctx.bad(R_, f.where(), "%s never looks at the outcome of the task" % short(f), key="C14|%s|no outcome" % short(f))
        ctx.count("handlers" if mv else "tasks")
    for f in inst_or_pattern(P, lambda f: f.file.endswith("post.hpp") and "post_future_helper" in f.qn and f.nm == "load"):
        if any("as_result" in repr(n) for n in [f.b]) : ctx.count("delegated_answers"); continue      # the task reads its own answer
        outcomes(ctx, P, R_, f, short(f) + "::load", R=Load)
        ctx.count("answers")
    for f in rules_fwd.post_fns(P):
        if f.nm.endswith("post_future"): rules_fwd.check_entry(ctx, P, f, None, R_)
    ctx.minimum("tasks", 10); ctx.minimum("handlers", 3); ctx.minimum("answers", 2); ctx.minimum("posting_functions", 12)
    return ("Delivery automaton over every task type of post_future (all instantiations) and every done handler of their continuations: user code may return, throw std::exception, thread_interrupted or any other type; on each exit the promise was fulfilled exactly once, with the value returned or the exception thrown "
            "(aborted for interruption), nothing escapes. Answers of remote executions are delivered once according to the payload. Every entry function posts exactly one task holding the promise whose future it returns.")

class Cb(Deliver):
    cb = True
    def check_posted(self, eng, st, c):
        Deliver.check_posted(self, eng, st, c)
        if not find_terms(c.oval if c.oval else (), lambda t: t and t[0] == "r" and len(t) > 3 and t[2] == "lock"): self.rep("posts the callback elsewhere than to the scheduler given", c.line, st)
    def none_ok(self, st, c): return False

class CbNames(Cb):
    """C13: the callback is posted with the name and the callback priority the task carries"""
    def check_kind(self, st, c, kind): pass
    def sunk(self, eng, st, c, what): return st.cp(rs=st.rs.set(n=min(2, st.rs.n + 1)))
    def call(self, eng, st, c):
        if c.nm == "set_name" and c.o is not None and len(c.args) == 1:
            return [(st.cp(rs=st.rs.set(extra=(c.args[0],))), ("c", None))]
        return Cb.call(self, eng, st, c)
    def check_posted(self, eng, st, c):
        src = lambda t: bool(find_terms(t, lambda x: x and x[0] in ("F", "p") or x and x[0] == "V"))
        self.nsink += 1
        if len(c.args) < 2 or not src(c.args[1]) or find_terms(c.args[1], lambda x: x and x[0] == "defarg"): self.rep("does not post the callback with the priority it was given", c.line, st)
        if not st.rs.extra or not src(st.rs.extra[0]): self.rep("does not give the callback its name", c.line, st)

def callback_names(ctx, P, rule):
    for f in inst_or_pattern(P, lambda f: f.file.endswith("post.hpp") and "post_callback_helper" in (f.cls or "") and f.nm == "operator()" and "callback_fct" not in f.cls):
        if f.kind == "pattern": continue
        outcomes(ctx, P, rule, f, short(f) + "::" + f.nm, R=CbNames, empty_ok=lambda st: True); ctx.count("callback_posts")
    for f in inst_or_pattern(P, lambda f: f.file.endswith("post.hpp") and "post_callback_helper" in (f.cls or "") and f.nm == "callback_ready"):
        outcomes(ctx, P, rule, f, short(f) + "::" + f.nm, R=CbNames, empty_ok=lambda st: True); ctx.count("callback_posts")

class CbFwd(Cb):
    """callback_ready: the outcome is its parameter"""
    def check_posted(self, eng, st, c):
        if st.rs.valid is not True: self.rep("posts the callback through a handle which was not found valid", c.line, st)
        if not find_terms(tuple(c.args), lambda t: t and t[0] == "p"): self.rep("posts a callback which does not carry the outcome it was given", c.line, st)

class CbRun(Deliver):
    """the posted callback itself: calls the user's callback once with the outcome it holds"""
    def is_user(self, eng, st, c): return False
    def call(self, eng, st, c):
        if not c.isctor and c.nm == "operator()" and (c.callee is None or c.callee.file.startswith("/")) and c.oval is not None and eng.as_lambda(c.oval) is None:
            if len(c.args) != 1 or not find_terms(c.args[0], lambda t: t and t[0] in ("F", "p") and t[-1] in ("m_fu", "result", "res", "ex") or t and t[0] == "F" and t[1] == ("D", ("this",))): self.rep("calls the callback with something else than the outcome it holds", c.line, st)
            return [(self.sunk(eng, st, c, "calling the callback"), ("r", c.site, "cb"))]
        return None

def c15(ctx):
    import rules_fwd
    P = ctx.need(["post"]); R_ = "C15"
    noval = lambda st: st.rs.valid is False
    isp = lambda nm, cls: inst_or_pattern(P, lambda f: f.file.endswith("post.hpp") and cls in (f.cls or "") and f.nm == nm)
    for f in isp("operator()", "post_callback_helper"):
        if "callback_fct" in f.cls:
            outcomes(ctx, P, R_, f, short(f) + "::" + f.nm, R=CbRun); ctx.count("callbacks"); continue
        if f.kind == "pattern": continue
        r = outcomes(ctx, P, R_, f, short(f) + "::" + f.nm, R=Cb, empty_ok=noval)
        if not r.nuser: ctx.bad(R_, f.where(), "%s never runs the task" % short(f), key="C15|%s|no task" % short(f))
        ctx.count("tasks")
    for f in isp("callback_ready", "post_callback_helper"): outcomes(ctx, P, R_, f, short(f) + "::" + f.nm, R=CbFwd, empty_ok=noval); ctx.count("answers")
    for f in isp("load", "post_callback_helper"): outcomes(ctx, P, R_, f, short(f) + "::" + f.nm, R=LoadCb, empty_ok=noval); ctx.count("answers")
    for f in rules_fwd.post_fns(P):
        if f.nm.endswith("post_callback"): rules_fwd.check_entry(ctx, P, f, None, R_)
    ctx.minimum("tasks", 10); ctx.minimum("callbacks", 4); ctx.minimum("done_handlers", 4); ctx.minimum("answers", 3); ctx.minimum("posting_functions", 12)
    return ("Delivery automaton over every task type of post_callback (all instantiations), the done handlers of their continuations and the answers of remote executions: whatever the task does, the callback is posted exactly once, to the scheduler locked from the weak handle, only after it was found valid, and carries the value or failure of the task; "
            "the posted callback calls the user's callback exactly once with the outcome it holds. The only paths without a post are those on which the scheduler is gone. Every entry function posts exactly one such task.")

class LoadCb(Load):
    cb = True
