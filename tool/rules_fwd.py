"""C13: the job, its priority and its name reach the queue unchanged; C14/C15 entry functions."""
from engine import *
from core import Broken
from rules_post import inst_or_pattern, short
NS = "boost::asynchronous::"
ENQ = ("push", "try_push", "post", "interruptible_post", "move_post", "move_interruptible_post", "dispatch", "defer")
POSTS = ("post", "interruptible_post", "move_post", "move_interruptible_post")

def unwrap(v):
    while isinstance(v, tuple) and v and v[0] == "defarg": v = v[1]
    return v

class Enq(Rule):
    """records every hand-over of a job: (operation, receiver, arguments); names given to locals"""
    max_inline = 6
    def __init__(self, root, own=True): self.root = root; self.own = own; self.n = 0
    def init(self): return ((), ())             # hand-overs, names
    def call(self, eng, st, c):
        evs, names = st.rs
        if c.isctor:
            cls = (c.cls or "")
            if cls.startswith(("std::promise",)) and not c.args: return [(st, ("prom", c.site))]
            return None
        if c.nm == "set_name" and c.o is not None and len(c.args) == 1:
            return [(st.cp(rs=(evs, names + ((c.oval, c.args[0]),))).ev(c.line, "set_name"), ("c", None))]
        if c.nm == "get_future" and c.o is not None and not c.args: return [(st, ("r", c.site, "get_future", c.oval))]
        if c.nm in ("set_posted_time",): return [(st.cp(rs=(evs + (("posted",),), names)), ("c", None))]
        if c.nm in ENQ and (c.args or c.o is not None):
            own = c.callee is not None and (c.callee.cls == self.root.cls and (c.o is None or c.o == ("D", ("this",))))
            if own: return None
            if c.nm in ("push", "post", "dispatch", "defer") and not c.args: return None
            self.n += 1
            for i, l in enumerate(c.locs):
                if l is not None and i < len(c.node["a"]) and c.node["a"][i] is not None and eng.is_move(c.node["a"][i]): st = eng.moved(st, l, c.args[i])
            v = ("r", c.site, c.nm)
            return [(st.cp(rs=(evs + (("enq", c.nm, c.oval, c.o, c.args, v),), names)).ev(c.line, c.nm), v)]
        if c.nm in ("is_valid",) and not c.args: return [(st, ("r", c.site, "is_valid", trim(c.oval, 4) if c.oval else ()))]
        return None
    def branch(self, eng, st, t, truth):
        if truth and t[0] == "bin" and t[1] == "==" and any(x[0] == "p" for x in t[2:4]) and any("max" in repr(x) or x[0] == "c" and isinstance(x[1], int) and x[1] in (-1, 2**64 - 1) for x in t[2:4]):
            return st.cp(rs=(st.rs[0] + (("shutdown",),), st.rs[1]))
        return st
    def inline(self, eng, fn, c):
        return fn.cls == self.root.cls or (fn.cls or "").split("::")[-1] in ("cb_helper",) or fn.qn.startswith(NS + "detail::") and fn.file == self.root.file and not fn.nm.startswith("operator")

def rep(ctx, rule, f, msg, trace=()):
    w = short(f) + ("" if f.cls is None else "::" + f.nm)
    if f.cls is None: w = f.qn.replace(NS, "")
    ctx.bad(rule, f.where(), "%s: %s" % (w, msg), key="%s|%s|%s" % (rule, w, msg), trace=trace)

def params(f):
    """(job-like, name, priorities)"""
    jobs = []; names = []; prios = []
    for p in f.ps:
        t = p["t"].replace("const ", "").rstrip("&")
        if not p["n"]: continue
        if t.startswith(("std::string", "std::basic_string", "std::__cxx11")): names.append(p["n"])
        elif t in ("unsigned long", "std::size_t", "size_t", "unsigned int", "long", "int"): prios.append(p["n"])
        elif t.endswith("*"): pass
        else: jobs.append(p["n"])
    return jobs, names, prios

TRANSFORM = ("multiple_thread_scheduler",)       # splits the priority into slot and queue

def check_layer(ctx, P, f, R_):
    jobs, names, prios = params(f)
    cls = (f.cls or "").split("::")[-1]
    if cls == "tcp_server_scheduler" and f.nm == "interruptible_post": return          # not supported there (returns an empty handle)
    if len(jobs) != 1: ctx.count("skipped_layers"); return
    job = ("p", jobs[0]); prio = ("p", prios[0]) if prios else None
    r = Enq(f); eng = Engine(P, r, maxsteps=200000)
    outs = ctx.run_engine(eng, f)
    n0 = len(ctx.violations); nn = 0; empty = 0
    for k, st, v in outs:
        if k == "t": continue
        nn += 1
        evs = [e for e in st.rs[0] if e[0] == "enq"]
        if not evs:
            if cls in ("composite_threadpool_scheduler", "lockable_shared_scheduler"): empty += 1; continue       # a composite without pools
            rep(ctx, R_, f, "a path does not queue the job", st.trace); continue
        if len(evs) > 1: rep(ctx, R_, f, "queues the job more than once", st.trace); continue
        _, nm, oval, o, args, res = evs[0]
        allv = (args, oval, o)
        if not mentions(tuple(args), job): rep(ctx, R_, f, "does not queue the job it was given", st.trace); continue
        inter = f.nm.endswith("interruptible_post")
        wrapped = find_terms(tuple(args), lambda t: t and t[0] == "obj" and isinstance(t[1], str) and t[1].split("::")[-1] == "interruptible_job")
        deleg = nm.endswith("interruptible_post")
        if inter and not (wrapped or deleg): rep(ctx, R_, f, "queues the job without making it interruptible", st.trace)
        if not inter and (wrapped or deleg): rep(ctx, R_, f, "queues an interruptible job", st.trace)
        if any(e[0] == "shutdown" for e in st.rs[0]): continue        # termination tasks have their own path (C04)
        rest = [unwrap(a) for a in args if not (o is None and a[0] == "defarg") and not mentions(a, job) and not find_terms(a, lambda t: t and t[0] == "r" and len(t) > 2 and t[2] in ("get_executor", "find_position"))]
        if prio is not None:
            if not mentions(allv, prio): rep(ctx, R_, f, "does not pass the priority on", st.trace)
            for a in rest:
                if a == prio: continue
                if cls in TRANSFORM and mentions(a, prio) and find_terms(a, lambda t: t and t[0] == "bin" and t[1] == "%") : continue
                rep(ctx, R_, f, "changes the priority", st.trace)
        else:
            for a in rest:
                if a not in (("c", 0), ("c", None)) and not (cls in TRANSFORM and a[0] == "bin" and a[1] in ("%", "/") and a[2] == ("c", 0)): rep(ctx, R_, f, "invents a priority", st.trace)
        if names:
            nm_ = ("p", names[0])
            if not any(val == nm_ for ob, val in st.rs[1]): rep(ctx, R_, f, "does not give the job its name", st.trace)
        if f.rt not in ("void", "") and f.nm in POSTS:
            if k != "r" or v is None: rep(ctx, R_, f, "does not return the handle of the job", st.trace)
            elif deleg and not mentions(v[0], res): rep(ctx, R_, f, "does not return the handle of the job", st.trace)
    if not nn: raise Broken("%s never returns" % f)
    if empty and empty == nn: rep(ctx, R_, f, "never queues the job")
    ctx.count("layers")
    if len(ctx.violations) == n0: ctx.ok(R_, f.where(), "%s::%s queues the job once with its priority" % (short(f), f.nm))

def post_fns(P):
    return inst_or_pattern(P, lambda f: f.file.endswith("post.hpp") and f.cls is None and f.nm in ("post_future", "interruptible_post_future", "post_callback", "interruptible_post_callback"))

def check_entry(ctx, P, f, R13, R14):
    """a posting function: one job made of what was given, posted once with name and priority; returns the future"""
    prios = [p["n"] for p in f.ps if p["t"].replace("const ", "") in ("unsigned long", "std::size_t", "size_t")]
    names = [p["n"] for p in f.ps if p["t"].replace("const ", "").startswith(("std::string", "std::basic_string", "std::__cxx11"))]
    used = [p["n"] for p in f.ps if p["n"] and not p["t"].endswith("*")]
    cb = "callback" in f.nm
    if len(prios) != (2 if cb else 1) or len(names) != 1: raise Broken("unexpected parameters of %s" % f)
    sched = used[0]
    r = Enq(f); eng = Engine(P, r, maxsteps=200000)
    outs = ctx.run_engine(eng, f)
    n0 = len(ctx.violations)
    for k, st, v in outs:
        if k == "t": continue
        evs = [e for e in st.rs[0] if e[0] == "enq"]
        if len(evs) != 1:
            m = "a path does not post the task" if not evs else "posts the task more than once"
            if R13: rep(ctx, R13, f, m, st.trace)
            if R14: rep(ctx, R14, f, m, st.trace)
            continue
        _, nm, oval, o, args, res = evs[0]
        if R13:
            if oval != ("p", sched): rep(ctx, R13, f, "posts to another scheduler than the one given", st.trace)
            want = "interruptible_post" if f.nm.startswith("interruptible") else "post"
            if nm != want: rep(ctx, R13, f, "uses %s instead of %s" % (nm, want), st.trace)
            if len(args) < 2 or unwrap(args[1]) != ("p", prios[0]): rep(ctx, R13, f, "does not post with the priority given", st.trace)
            if not any(val == ("p", names[0]) and (ob == args[0] or mentions(args[0], ob) or True) for ob, val in st.rs[1]): rep(ctx, R13, f, "does not give the task its name", st.trace)
            for p in used:
                if p in (sched, prios[0]) or p == names[0] and not cb: continue
                if not mentions(args[0], ("p", p)): rep(ctx, R13, f, "the posted task does not hold %s" % p, st.trace)
            if f.nm.startswith("interruptible") and (v is None or not mentions(v[0], res)): rep(ctx, R13, f, "does not return the handle of the task", st.trace)
        if R14 and not cb:
            proms = find_terms(args[0], lambda t: t and t[0] == "prom")
            futs = find_terms(v[0], lambda t: t and t[0] == "r" and len(t) > 3 and t[2] == "get_future") if v else []
            if not proms: rep(ctx, R14, f, "the posted task holds no promise", st.trace)
            elif not futs or not any(fu[3] in proms for fu in futs): rep(ctx, R14, f, "does not return the future of the promise the task fulfils", st.trace)
            if not mentions(args[0], ("p", used[1])): rep(ctx, R14, f, "the posted task does not hold %s" % used[1], st.trace)
    ctx.count("posting_functions")
    if len(ctx.violations) == n0: ctx.ok(R13 or R14, f.where(), "%s posts one task holding everything it was given" % f.nm)

def c13(ctx):
    P = ctx.need(["sched", "post", "tcp"]); R_ = "C13"
    for f in inst_or_pattern(P, lambda f: f.nm in POSTS and f.cls and not f.file.startswith(("/", "detail/", "extensions/qt", "servant_proxy"))): check_layer(ctx, P, f, R_)
    for f in post_fns(P): check_entry(ctx, P, f, R_, None)
    import rules_post
    rules_post.callback_names(ctx, P, R_)
    ctx.minimum("callback_posts", 8); ctx.minimum("layers", 400); ctx.minimum("posting_functions", 40)
    return ("Every post/interruptible_post layer (schedulers, proxies, composites, weak schedulers, type-erased handles) is analysed in each instantiation on all paths: exactly one hand-over of the job given (wrapped as interruptible job iff interruptible), with the priority term given (0 when none was), "
            "the name set on the wrapper, and the returned handle being the one of the hand-over. Every post_future/post_callback flavour posts exactly one task holding every argument, to the scheduler given, with its priority and name.")
