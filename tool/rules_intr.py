"""C17: interruption reaches the task it is meant for, and nothing else."""
from engine import *
from core import Broken
from sym import *
from rules_notify import Rep
from rules_worker import thread_entries
STATE = "scheduler/detail/interrupt_state.hpp"; JOB = "scheduler/detail/interruptible_job.hpp"
MS = F("m_state")
TI = ("T", "boost::thread_interrupted", None); STD = ("T", "std::exception", None); OTHER = ("T", "verif::any other type", None)

def c17(ctx, thorough=False):
    P = ctx.need(["sched", "tcp"])
    R = Rep(ctx)
    codes = machine(ctx, P, R)
    wrapper(ctx, P, R)
    helper(ctx, P, R)
    posting(ctx, P, R)
    threads(ctx, P, R)
    ctx.assump += ["a task only ends with thread_interrupted when it was interrupted", "Boost.Thread: interrupt() leaves a request which the thread's next interruption point consumes, throwing thread_interrupted"]
    ctx.minimum("transitions", 12); ctx.minimum("task ends", 5); ctx.minimum("posting functions", 3); ctx.minimum("worker entries", 6)
    return RULE

RULE = ("The states of interrupt_state are followed through every method for every starting state: running is entered only if not interrupted; interrupt() reaches for the worker thread only in the running state, in one critical section of m_mutex with the change to interrupted, and tells the sub-tasks; completing ends the running state; every access is under m_mutex. "
        "The wrapper of an interruptible task, followed on all paths with a task which may return or throw anything: the task runs only if not interrupted after having been declared running, after the thread was published; every end but by thread_interrupted completes the state and consumes an interruption still pending, so that the next task of the thread does not get it; the thread's interruption state is set for the task and removed at every exit; the exception of a task leaves unchanged. "
        "Every interruptible_post creates one state and one promise, shared by the task it queues and the handle it returns, and does not touch the interruption state of the caller's thread. The thread a task publishes is read from a variable which every worker thread of every scheduler sets before its loop.")

# ---------------------------------------------------------------- the state machine
def machine(ctx, P, R):
    M = {f.nm: f for f in insts(P, lambda f: f.file.endswith(STATE) and (f.cls or "").endswith("interrupt_state"))}
    for n in ("interrupt", "run", "complete", "is_interrupted"):
        if n not in M: raise Broken("no %s in %s" % (n, STATE))
    ctor = [f for f in P.fns if f.file.endswith(STATE) and f.nm == "interrupt_state" and f.d.get("sp") not in ("cc", "mc")]
    def go(f, v, **kw):
        r = St(); e = Engine(P, r, maxsteps=100000)
        outs = ctx.run_engine(e, f, st=State(rs=(), mem={MS: v} if v is not None else {}))
        return [(k, s, x[0] if k == "r" and x else x) for k, s, x in outs]
    def after(f, v):
        vs = {s.mem.get(MS) for k, s, x in go(f, v) if k in ("n", "r")}
        return vs
    # the values of the four states, from the code itself
    init = None
    for f in ctor:
        for i in f.inits:
            if i.get("m") == "m_state":
                for e in walk(i["i"]):
                    if e and e.get("k") == "lit": init = ("c", e["v"])
    if init is None:
        for rec in P.rec_by_qn.get(NS + "detail::interrupt_state", []):
            for fd in rec["fields"]:
                if fd["n"] == "m_state":
                    for e in walk(fd.get("i") or {}):
                        if e and e.get("k") == "lit": init = ("c", e["v"])
    if init is None: raise Broken("initial state not found")
    done = after(M["complete"], init); run = after(M["run"], init)
    if len(done) != 1 or len(run) != 1: raise Broken("states not found")
    DONE, = done; RUN, = run
    def truth(f, v):
        return {x for k, s, x in go(f, v) if k == "r"}
    cand = [("c", i) for i in range(0, 8)]
    I = [v for v in cand if truth(M["is_interrupted"], v) == {("c", True)}]
    if len(I) != 1: raise Broken("interrupted state not found")
    INT = I[0]
    w = M["run"].where()
    if RUN in (init, INT, DONE): R.bad(M["run"], "states", "does not declare the task running")
    if DONE in (init, INT): R.bad(M["complete"], "states", "does not declare the task completed")
    n0 = R.n
    for nm in ("run", "complete", "interrupt") + tuple(n for n in M if n.startswith("is_") and not n.endswith("_int")):
        f = M[nm]
        for v, vn in ((init, "not started"), (RUN, "running"), (DONE, "completed"), (INT, "interrupted")):
            for k, s, x in go(f, v):
                ctx.count("transitions")
                post = s.mem.get(MS)
                acc = [(i, y) for i, y in enumerate(s.rs) if y[0] in ("load", "store")]
                for i, y in acc:
                    if not y[-1]: R.bad(f, "lock", "looks at or changes the state without its mutex", s.trace)
                if acc and k != "t":
                    i, j = acc[0][0], acc[-1][0]
                    if any(y[0] == "unlock" and y[1] in acc[0][1][-1] for y in s.rs[i:j]): R.bad(f, "lock", "gives the mutex back between looking at the state and changing it", s.trace)
                if nm.startswith("is_"):
                    if post != v: R.bad(f, "states", "changes the state", s.trace)
                if nm == "run" and k != "t":
                    if v == INT and post != INT: R.bad(f, "states", "forgets that the task was interrupted", s.trace)
                if nm == "complete" and k != "t" and post != DONE: R.bad(f, "states", "does not complete a task which was %s" % vn, s.trace)
                if nm == "interrupt" and k != "t":
                    thr = [y for y in s.rs if y[0] == "thread"]; wait = [y for y in s.rs if y[0] == "wait"]; subs = [y for y in s.rs if y[0] == "subs"]
                    if v != RUN and thr: R.bad(f, "thread", "interrupts the thread for a task which is %s" % vn, s.trace)
                    if v != RUN and wait: R.bad(f, "thread", "waits for the thread of a task which is %s" % vn, s.trace)
                    if v == RUN:
                        if len(thr) != 1: R.bad(f, "thread", "does not interrupt the thread of a running task exactly once", s.trace)
                        elif not [l for l in thr[0][2] if any(l in y[-1] for i, y in acc)]: R.bad(f, "thread", "interrupts the thread after having given up the mutex: the task may be over", s.trace)
                        if not find_terms(tuple(thr), lambda t: len(t) > 1 and t[0] == "p"): R.bad(f, "thread", "interrupts another thread than the worker's", s.trace)
                        if not any(y[0] == "subs" for k2, s2, x2 in go(f, v) for y in s2.rs): R.bad(f, "sub-tasks", "does not interrupt the sub-tasks", s.trace)
                    if v == DONE and not any(y[0] == "subs" for k2, s2, x2 in go(f, v) for y in s2.rs): R.bad(f, "sub-tasks", "does not interrupt the sub-tasks of a completed task", s.trace)
                    if v in (init, RUN, INT) and post != INT: R.bad(f, "states", "does not mark a task which is %s as interrupted" % vn, s.trace)
                    if v == DONE and post in (RUN, init): R.bad(f, "states", "revives a completed task", s.trace)
                    if any(y[0] == "subs" and any(l in y[1] for l in (F("m_interruptibles_mutex"),)) for y in s.rs): R.bad(f, "lock", "interrupts sub-tasks while holding the mutex of their list", s.trace)
    if R.n == n0: ctx.ok("states", w, "interrupt_state")
    return init, RUN, DONE, INT

class St(Rec):
    objd = 12
    def __init__(self): Rec.__init__(self, spec=self.sp, inl=lambda eng, fn, c: fn.file == eng.root.file, locks=True, ev=lambda c: False)
    def load(self, eng, st, loc, val, line):
        return st.cp(rs=st.rs + (("load", st.held),)) if loc == MS else None
    def store(self, eng, st, loc, val, line):
        return st.cp(rs=st.rs + (("store", val, st.held),)) if loc == MS else st
    def sp(self, rec, eng, st, c):
        if c.nm == "interrupt" and c.callee is None or c.nm == "interrupt" and not c.qn.endswith("interrupt_state::interrupt"):
            o = c.oval if c.oval is not None else c.o
            if find_terms((c.o, c.oval), lambda t: t and t[0] == "p") and not find_terms((c.o, c.oval), lambda t: len(t) == 3 and t[0] == "F" and t[2] == "m_interruptibles"): e = ("thread", strip((c.o, c.oval)), st.held)
            elif "thread" in c.qn and "any_interruptible" not in c.qn: e = ("thread", strip((c.o, c.oval)), st.held)
            else: e = ("subs", st.held)
            st = st.ev(c.line, "interrupts " + ("the thread" if e[0] == "thread" else "a sub-task"))
            return [(st if e in st.rs else st.cp(rs=st.rs + (e,)), ("c", None))]
        if c.nm in ("get", "wait") and "future" in c.qn:
            return [(st.cp(rs=st.rs + (("wait", st.held),)), ("got", strip(c.oval if c.oval is not None else c.o)))]
        if c.nm in ("operator++", "next", "advance") and c.oval is not None and isinstance(c.o, tuple) and c.o[0] == "L":
            nv = ("it", c.site, c.oval if c.oval[0] != "it" else c.oval[2])
            st = eng.fresh(st, nv); return [(eng.storeloc(st, c.o, nv, c.line), nv)]
        if c.nm == "for_each": return [(st.cp(rs=st.rs + (("subs", st.held),)), ("c", None))]
        return None

# ---------------------------------------------------------------- the wrapper
class Jb(Rec):
    """rs: ("tss", what), ("asked", n), ("published", term), ("state", run|complete), ("job",), ("point",), ("flag", v)"""
    objd = 20
    def __init__(self): Rec.__init__(self, spec=self.sp, inl=lambda eng, fn, c: fn.file == eng.root.file and fn.nm not in ("current",))
    def e(self, st, c, *e): return st.cp(rs=st.rs + (e,)).ev(c.line, " ".join(str(x) for x in e if isinstance(x, str)))
    def sp(self, rec, eng, st, c):
        if c.nm == "get_interrupt_state" and len(c.args) == 2 and strip(c.args[1]) == ("c", True):
            a = strip(c.args[0])
            own = bool(find_terms(a, lambda t: len(t) == 3 and t[0] == "F" and t[2] == "m_state")) or a == V(F("m_state"))
            return [(self.e(st, c, "tss", "own" if own else "none" if empty(a) else "other"), ("c", None))]
        if c.nm == "get_interrupt_state": return [(st, ("call", c.nm, None, ()))]
        if c.nm == "is_interrupted":
            n = sum(1 for x in st.rs if x[0] == "asked")
            return [(self.e(st, c, "asked", n), ("asked", n))]
        if c.nm in ("is_completed", "is_running"): return [(st, ("other", c.site))]
        if c.nm == "set_value": return [(self.e(st, c, "published"), ("c", None))]
        if c.nm in ("run", "complete", "interrupt") and "interrupt_state" in (c.qn or "interrupt_state"): return [(self.e(st, c, "state", c.nm), ("c", None))]
        if c.nm == "set_interrupted": return [(self.e(st, c, "flag", strip(c.args[0])), ("c", None))]
        if c.nm == "interruption_point":
            eng.throw_(self.e(st, c, "point"), TI)
            return [(self.e(st, c, "point"), ("c", None))]
        if c.nm == "operator()" and (c.o == F("m_job") or c.oval == V(F("m_job"))):
            s = self.e(st, c, "job")
            for x in (TI, STD, OTHER): eng.throw_(s.cp(rs=s.rs + (("ended", x[1]),)).ev(c.line, "the task throws " + x[1]), x)
            return [(s.cp(rs=s.rs + (("ended", "return"),)), ("c", None))]
        return None
def empty(a):
    return a in (("c", None), ("c", 0)) or (isinstance(a, tuple) and a and a[0] in ("ctor", "new", "obj", "call", "val", "o") and not find_terms(a, lambda t: t and t[0] in ("V", "p", "F"))) or not find_terms(a, lambda t: t and t[0] in ("V", "p", "F", "L"))

def wrapper(ctx, P, R):
    fs = insts(P, lambda f: f.file.endswith(JOB) and f.nm == "operator()" and (f.cls or "").split("<")[0].endswith("interruptible_job"))
    if not fs: raise Broken("no wrapper of interruptible tasks")
    for f in fs:
        n0 = R.n
        r = Jb(); e = Engine(P, r, maxsteps=200000)
        for k, s, v in ctx.run_engine(e, f):
            ev = s.rs; names = [x[:2] if x[0] in ("state", "tss") else x[0] for x in ev]
            def idx(x): return [i for i, y in enumerate(names) if y == x]
            ctx.count("task ends")
            jobs = idx("job"); end = next((x[1] for x in ev if x[0] == "ended"), None)
            tss = [x[1] for x in ev if x[0] == "tss"]
            if "other" in tss: R.bad(f, "thread state", "gives the thread the state of something else", s.trace)
            if tss and tss[-1] != "none": R.bad(f, "thread state", "leaves its interruption state in the thread for later tasks", s.trace)
            if jobs:
                j = jobs[0]
                if len(jobs) > 1: R.bad(f, "task", "runs the task twice", s.trace)
                before = [x[1] for x in ev[:j] if x[0] == "tss"]
                if not before or before[-1] != "own": R.bad(f, "thread state", "runs the task without its interruption state in the thread", s.trace)
                run = [i for i in idx(("state", "run")) if i < j]
                if not run: R.bad(f, "states", "runs the task without declaring it running", s.trace)
                pub = [i for i in idx("published") if i < j]
                if len(pub) != 1 or len(idx("published")) != 1: R.bad(f, "thread", "does not publish its thread once before the task", s.trace)
                elif run and pub[0] > run[0]: R.bad(f, "thread", "declares the task running before publishing its thread", s.trace)
                asked = [ev[i][1] for i in idx("asked") if run and run[-1] < i < j]
                if not any(s.facts.get(("asked", n)) is False for n in asked): R.bad(f, "task", "runs the task without knowing that it was not interrupted", s.trace)
                if any(s.facts.get(("asked", ev[i][1])) is True for i in idx("asked") if i < j): R.bad(f, "task", "runs an interrupted task", s.trace)
                comp = [i for i in idx(("state", "complete")) if i > j]
                if idx(("state", "complete")) and idx(("state", "complete"))[0] < j: R.bad(f, "states", "completes the task before running it", s.trace)
                flags = [x[1] for x in ev[j:] if x[0] == "flag"]
                if end != TI[1]:
                    if not comp: R.bad(f, "states", "does not complete a task which ended with %s" % end, s.trace)
                    elif not [i for i in idx("point") if i > comp[0]]: R.bad(f, "pending", "leaves an interruption which came too late for the next task of the thread", s.trace)
                    if not flags or flags[-1] != ("c", False): R.bad(f, "reported", "reports a task which ended with %s as interrupted" % end, s.trace)
                else:
                    if flags and flags[-1] != ("c", True): R.bad(f, "reported", "reports an interrupted task as not interrupted", s.trace)
                if end == "return":
                    if k == "t": R.bad(f, "exception", "ends with an exception though the task returned", s.trace)
                elif k != "t" or (v[1] if v and len(v) > 1 else None) != end: R.bad(f, "exception", "does not pass on the task's exception", s.trace)
            else:
                if k == "t": R.bad(f, "exception", "throws without having run the task", s.trace)
                if not any(s.facts.get(("asked", ev[i][1])) is True for i in idx("asked")): R.bad(f, "task", "does not run a task which was not interrupted", s.trace)
                if any(x == ("state", "run") for x in names) and not idx("point"): R.bad(f, "pending", "leaves an interruption which came too late for the next task of the thread", s.trace)
                if idx(("state", "complete")): R.bad(f, "states", "completes a task it did not run", s.trace)
        if R.n == n0: ctx.ok("task", f.where(), f.nm)
    # a new wrapper counts as interrupted until the task ended
    for f in insts(P, lambda f: f.file.endswith(JOB) and f.nm == "interruptible_job" and f.d.get("sp") not in ("cc", "mc") and len(pterms(f)) == 3):
        r = Jb(); e = Engine(P, r); n0 = R.n
        for k, s, v in ctx.run_engine(e, f):
            if [x for x in s.rs if x[0] == "flag"][-1:] != [("flag", ("c", True))]: R.bad(f, "reported", "does not count as interrupted before it has run", s.trace)
            for m, p in zip(("m_worker", "m_state"), ("worker_promise", "state")):
                ps = pterms(f); i = {"m_worker": 1, "m_state": 2}[m]
                if not mentions(s.mem.get(F(m)), ps[i]): R.bad(f, "handle", "does not keep the promise and the state it is given", s.trace)
        if R.n == n0: ctx.ok("reported", f.where(), f.nm)

# ---------------------------------------------------------------- the handle
def helper(ctx, P, R):
    fs = insts(P, lambda f: f.file.endswith(JOB) and f.nm == "interrupt" and (f.cls or "").endswith("interrupt_helper"))
    if not fs: raise Broken("no handle for interruption")
    for f in fs:
        n0 = R.n
        outs, r = paths(ctx, P, f)
        for k, s, v in outs:
            c = calls(s, "interrupt")
            if len(c) != 1 or not find_terms(c[0][2], lambda t: t == F("m_state")) or not find_terms(c[0][3], lambda t: t == F("m_worker")):
                R.bad(f, "handle", "does not interrupt its task through its state with its worker", s.trace)
        if R.n == n0: ctx.ok("handle", f.where(), f.nm)

# ---------------------------------------------------------------- posting
class Po(Rec):
    objd = 20
    def __init__(self): Rec.__init__(self, spec=self.sp, inl=lambda eng, fn, c: fn.file == eng.root.file)
    def sp(self, rec, eng, st, c):
        def e(*x): return st.cp(rs=st.rs + (x,)).ev(c.line, x[0])
        if c.nm == "get_interrupt_state": return [(e("tss", tuple(strip(a) for a in c.args)), ("c", None))]
        if c.nm == "make_shared":
            what = "state" if "interrupt_state" in c.node.get("t", "") else "promise" if "promise" in c.node.get("t", "") else None
            if what: return [(e("made", what, c.site), ("made", what, c.site))]
        if c.nm == "get_future": return [(st, ("future", strip(c.oval)))]
        if c.isctor and "interruptible_job" in c.qn and not c.node.get("cp") and not c.node.get("mv"): return [(e("job", tuple(strip(a) for a in c.args)), ("job",))]
        if c.isctor and "interrupt_helper" in c.qn and not c.node.get("cp") and not c.node.get("mv"): return [(e("helper", tuple(strip(a) for a in c.args)), ("helper",))]
        if c.nm in ("push", "post", "emplace", "push_back", "add", "dispatch", "defer") and any(find_terms(strip(a), lambda t: t == ("job",)) for a in c.args): return [(e("queued", c.nm), ("c", None))]
        return None

def posting(ctx, P, R):
    def makes(f): return any(e.get("k") in ("ctor",) and "interruptible_job" in e.get("cls", "") and not e.get("cp") and not e.get("mv") for e in fn_exprs(f))
    fs = insts(P, lambda f: not f.file.startswith("/") and not f.file.endswith(JOB) and makes(f))
    for f in fs:
        n0 = R.n; ctx.count("posting functions")
        r = Po(); e = Engine(P, r, maxsteps=200000)
        for k, s, v in ctx.run_engine(e, f):
            if k == "t": continue
            if any(x[0] == "tss" for x in s.rs): R.bad(f, "thread state", "changes the interruption state of the calling thread", s.trace)
            j = [x for x in s.rs if x[0] == "job"]; h = [x for x in s.rs if x[0] == "helper"]; q = [x for x in s.rs if x[0] == "queued"]
            if len(j) != 1 or len(q) != 1: R.bad(f, "handle", "does not queue exactly one task", s.trace); continue
            if len(h) != 1: R.bad(f, "handle", "does not return a handle", s.trace); continue
            js, hs = [{t for t in find_terms(x[1], lambda t: len(t) == 3 and t[0] == "made")} for x in (j[0], h[0])]
            if {t[1] for t in js} != {"state", "promise"} or js != hs: R.bad(f, "handle", "returns a handle for another state or thread than the task's", s.trace)
            if not find_terms(v, lambda t: t == ("helper",)): R.bad(f, "handle", "returns another handle", s.trace)
        if R.n == n0: ctx.ok("handle", f.where(), f.nm)

# ---------------------------------------------------------------- the thread's variable
def exprs(x):
    if isinstance(x, dict): yield from walk(x, True)
    elif isinstance(x, (list, tuple)):
        for y in x: yield from exprs(y)

def globs(P, f, x, depth=4, written=None):
    """variables of static storage reached from an expression, through calls"""
    res = set()
    for e in exprs(x):
        if e.get("k") == "ref" and e.get("dk") == "glob" and ("thread" in (e.get("t") or "")): res.add(e["qn"])
        if e.get("k") in ("call", "ctor") and depth:
            g = P.callee(f.tu, e)
            if g is not None and g.b: res |= globs(P, g, [g.b, [i["i"] for i in g.inits]], depth - 1)
    return res
def written(P, f, x, depth=4):
    res = set()
    for e in exprs(x):
        if e.get("k") == "asg": res |= globs(P, f, e["x"])
        if e.get("k") == "call" and e.get("nm") in ("reset", "operator=", "store", "exchange") and e.get("o"): res |= globs(P, f, e["o"])
        if e.get("k") in ("call", "ctor") and depth:
            g = P.callee(f.tu, e)
            if g is not None and g.b: res |= written(P, g, [g.b, [i["i"] for i in g.inits]], depth - 1)
    return res

def threads(ctx, P, R):
    read = {}
    for f in insts(P, lambda f: f.file.endswith(JOB) and f.nm == "operator()" and (f.cls or "").split("<")[0].endswith("interruptible_job")):
        for e in fn_exprs(f):
            if e.get("k") == "call" and e.get("nm") == "set_value":
                g = globs(P, f, e["a"])
                if g: read.setdefault(frozenset(g), f)
    if not read: raise Broken("the variable with the thread of a worker was not found")
    seen = set()
    for f in thread_entries(P):
        n0 = R.n
        if (f.file, f.line) not in seen: seen.add((f.file, f.line)); ctx.count("worker entries")
        pre = []
        for s in f.b[2]:
            if s[0] in ("while", "for", "do", "range"): break
            if s[0] == "try" and any(x and x[0] in ("while", "for", "do") for x in walk_s(s)): break
            pre.append(s)
        w = written(P, f, pre)
        for g, jf in read.items():
            if not g & w: R.bad(f, "thread", "runs interruptible tasks without setting the variable they take their thread from (%s)" % ", ".join(sorted(x.split("::", 2)[-1] for x in g)))
        if R.n == n0: ctx.ok("thread", f.where(), f.nm)
def walk_s(s):
    if isinstance(s, list):
        if s and isinstance(s[0], str): yield s
        for x in s: yield from walk_s(x)
