"""C18-C21: servants (tracking, safe callbacks, identity) and their proxies."""
from engine import *
from core import Broken
from sym import *
from deliver import ANY
ALIVE = ("check_alive", "check_alive_before_exec")
WRAP = ("call_if_alive", "call_if_alive_exec")
TS = "trackable_servant.hpp"
OPQ = ALIVE + ("make_function", "move_bind", "post_future", "post_callback", "interruptible_post_future", "interruptible_post_callback", "make_shared", "post", "interruptible_post")
POSTERS = ("post_future", "post_callback", "interruptible_post_future", "interruptible_post_callback", "post", "interruptible_post")
THISM = lambda n: V(F(n))
def calls(st, nm=None): return [e for e in st.rs if len(e) > 2 and (nm is None or e[0] == nm)]

def short(f): return (f.cls or "").split("<")[0].split("::")[-1] + "::" + f.nm
class R:
    def __init__(self, ctx, rule): self.ctx = ctx; self.rule = rule; self.seen = set()
    def bad(self, f, msg, line=None, trace=()):
        k = "%s|%s|%s" % (self.rule, short(f), msg)
        if k in self.seen: return
        self.seen.add(k)
        self.ctx.bad(self.rule, f.where(line), "%s %s" % (short(f), msg), key=k, trace=trace)
    def ok(self, f, msg): self.ctx.ok(self.rule, f.where(), msg)

def functor(t):
    t = t.replace("const ", "").rstrip("&").strip()
    return t == "lambda" or t.startswith(("std::function<", "lambda")) or t in ("itask", "vtask", "ctask", "icb", "vcb") or t.startswith("$T") and False

class Own(Rec):
    """inlines what belongs to the analysed class; posting functions, wrappers and locks are opaque"""
    depth = 30; objd = 26
    def __init__(self, **kw): Rec.__init__(self, opq=OPQ, spec=self.same, **kw)
    def same(self, rec, eng, st, c):
        """make_function only changes the type of a callable"""
        if c.nm == "make_function" and len(c.args) == 1: return [(st, c.args[0])]
        if c.nm == "reset" and not c.args and isinstance(c.o, tuple): return [(eng.storeloc(st, c.o, ("c", None), c.line), ("c", None))]
        if c.nm == "exchange" and len(c.locs) == 2 and c.locs[0]: return [(eng.storeloc(st, c.locs[0], c.args[1], c.line), c.args[0])]
        if c.nm == "swap" and c.callee is None and len(c.locs) == 1 and c.locs[0] and isinstance(c.o, tuple):
            return [(eng.storeloc(eng.storeloc(st, c.o, c.args[0], c.line), c.locs[0], c.oval, c.line), ("c", None))]
        return None
    def inline(self, eng, fn, c):
        if c.nm in OPQ and not (fn.cls or "").endswith(("trackable_servant", "servant_proxy")): return False
        return fn.file == eng.root.file
    def branch(self, eng, st, t, truth):
        """also remember what was decided in terms of what the locals held at that point"""
        r = resolve(st, t)
        return st if r == t else st.setfact(r, truth)

def tracked(t):
    """a weak or shared handle on the servant's own tracking object"""
    return isinstance(t, tuple) and bool(find_terms(t, lambda x: x == THISM("m_tracking")))

def guards(t):
    """the guarded callable if t wraps one with the servant's tracking object"""
    if isinstance(t, tuple) and len(t) > 3 and t[0] == "call" and t[1] in ALIVE: return t[3][0] if len(t[3]) > 1 and tracked(t[3][1]) else None
    if isinstance(t, tuple) and len(t) > 3 and t[0] == "obj" and t[1].split("::")[-1] in WRAP: return t[2] if tracked(t[3]) else None
    return None

def unguarded(t, p):
    """does p occur in t outside of a guarded callable?"""
    if t == p: return True
    if not isinstance(t, tuple): return False
    g = guards(t)
    if g is not None: return any(unguarded(x, p) for x in (t[3][1:] if t[0] == "call" else t[3:]))
    return any(unguarded(x, p) for x in t if isinstance(x, tuple))

def alive_fact(st, term=None):
    """is the tracking object known to be alive / dead on this path? True, False or None"""
    for k, v in st.facts.items():
        if isinstance(k, tuple) and k[0] == "call" and k[1] == "expired" and tracked(k[2]): return not v
        if isinstance(k, tuple) and find_terms(k, lambda t: t and t[0] == "call" and t[1] == "lock" and tracked(t[2])): return v
    return None

def lambdas(t): return find_terms(t, lambda x: x and x[0] == "lam")

# --------------------------------------------------------------- C18
def wrappers(ctx, P, r):
    for f in insts(P, lambda f: f.file.endswith("checks.hpp") and (f.cls or "").split("<")[0].split("::")[-1] in WRAP and f.nm == "operator()"):
        ex = "exec" in f.cls.split("<")[0]; n0 = len(ctx.violations); nrun = ndead = 0
        for k, st, v in paths(ctx, P, f)[0]:
            runs = [e for e in calls(st, "operator()") if e[1] == F("m_wrapped")] + [e for e in calls(st) if e[0] == "invoke" and e[3] and e[3][0] == THISM("m_wrapped")]
            dead = None
            for t, b in st.facts.items():
                if t[0] == "call" and t[1] == "expired" and t[2] == THISM("m_tracked"): dead = b
                if t[0] == "call" and t[1] == "lock" and t[2] == THISM("m_tracked"): dead = not b
                if t[0] == "bin" and find_terms(t, lambda x: x and x[0] == "call" and x[1] == "use_count" and x[2] == THISM("m_tracked")): dead = (not b) if t[1] == "<" else b
                if t[0] == "call" and t[1] == "use_count" and t[2] == THISM("m_tracked"): dead = not b
            if runs and dead is not False: r.bad(f, "calls what it wraps without having found the servant alive", trace=st.trace); continue
            if dead:
                ndead += 1
                if ex and k != "t": r.bad(f, "does not report that the servant is gone", trace=st.trace)
                if ex and k == "t" and "task_aborted_exception" not in repr(v): r.bad(f, "reports something else than an aborted task when the servant is gone", trace=st.trace)
                if not ex and k == "t": r.bad(f, "throws when the servant is gone", trace=st.trace)
            else:
                if k == "t": continue
                nrun += 1
                if len(runs) != 1: r.bad(f, "calls what it wraps %s" % ("twice" if runs else "not at all although the servant is alive"), trace=st.trace); continue
                want = tuple(pterms(f))
                if strip(tuple(runs[0][3]))[-len(want):] != want if want else len(runs[0][3]) > 1: r.bad(f, "does not pass its arguments on", trace=st.trace)
                if k == "r" and v is not None and strip(v) != runs[0][2]: r.bad(f, "does not return the result of what it wraps", trace=st.trace)
        if not nrun or not ndead: r.bad(f, "does not distinguish dead and living servants")
        ctx.count("wrappers")
        if len(ctx.violations) == n0: r.ok(f, "%s runs what it wraps only while the servant lives" % short(f))
    for f in insts(P, lambda f: f.file.endswith("checks.hpp") and f.d.get("sp") == "ctor" and (f.cls or "").split("<")[0].split("::")[-1] in WRAP):
        for k, st, v in paths(ctx, P, f)[0]:
            mem = {l[2]: strip(x) for l, x in st.mem.items() if l[:2] == ("F", THIS)}
            ps = [("p", p["n"]) for p in f.ps]
            if not mentions(mem.get("m_wrapped", ()), ps[0]): r.bad(f, "does not keep what it wraps", trace=st.trace)
            if not mentions(mem.get("m_tracked", ()), ps[1]): r.bad(f, "does not keep the tracking object", trace=st.trace)
        ctx.count("wrapper_ctors")
    for f in insts(P, lambda f: f.file.endswith("checks.hpp") and f.cls is None and f.nm in ALIVE):
        for k, st, v in paths(ctx, P, f)[0]:
            if k == "t": continue
            w = find_terms(v, lambda t: t and t[0] == "obj" and len(t) > 3 and (t[1] == "?" or t[1].split("::")[-1] == ("call_if_alive_exec" if f.nm.endswith("exec") else "call_if_alive")))
            ps = [("p", p["n"]) for p in f.ps]
            if not w or not mentions(w[0][2], ps[0]) or not mentions(w[0][3], ps[1]): r.bad(f, "does not tie what it is given to the tracking object", trace=st.trace)
        ctx.count("wrap_functions")

def servant_fns(P):
    return insts(P, lambda f: f.file.endswith(TS) and (f.cls or "").split("<")[0].endswith("trackable_servant") and not f.d.get("sp") and f.nm != "operator=" and any(functor(p["t"]) for p in f.ps))

def exits(ctx, P, f):
    r = Own(); eng = Engine(P, r, maxsteps=400000); eng.root = f
    return eng, [(k, s, (v[0] if k == "r" and v else v)) for k, s, v in ctx.run_engine(eng, f)]

def uses(eng, st, v):
    """(event name, arguments, state) of everything a function hands its functors to"""
    for e in st.rs:
        if e[0] in ("lock", "unlock"): continue
        yield e

def c18(ctx):
    P = ctx.need(["servant"]); r = R(ctx, "C18")
    wrappers(ctx, P, r)
    for f in servant_fns(P):
        fs = [("p", p["n"]) for p in f.ps if functor(p["t"])]; n0 = len(ctx.violations)
        eng, outs = exits(ctx, P, f)
        for k, st, v in outs:
            scan(ctx, P, eng, f, r, st, fs, 0)
        ctx.count("servant_functions")
        if len(ctx.violations) == n0: r.ok(f, "%s: everything it was given to run is tied to the servant" % short(f))
    for f in insts(P, lambda f: f.file.endswith(TS) and f.nm == "make_check_alive_functor"):
        eng, outs = exits(ctx, P, f)
        for k, st, v in outs:
            l = lambdas(v) if v else []
            if not l: r.bad(f, "does not return a functor"); continue
            for k2, s2, v2 in eng.run_lambda(l[0], State(rs=(), mem=dict(st.mem))):
                good = v2 is not None and all(alive_fact(s3) == tr for tr, s3 in eng.truth(s2, strip(v2[0])))
                if not good: r.bad(f, "does not tell whether the servant is alive", trace=s2.trace)
        ctx.count("alive_functors")
    ctx.minimum("wrappers", 6); ctx.minimum("wrapper_ctors", 2); ctx.minimum("wrap_functions", 2); ctx.minimum("servant_functions", 25); ctx.minimum("alive_functors", 1)
    return ("call_if_alive/call_if_alive_exec: on every path the wrapped callable is called (once, with all arguments, its result returned) only where the tracking object was found alive; a dead servant gives task_aborted_exception for tasks and nothing for callbacks. check_alive/check_alive_before_exec tie what they are given to the object they are given. "
            "In every member of trackable_servant taking something to run (all instantiations, all paths, through helper members and the lambdas they create) the callable is handed on only inside such a wrapper made with this servant's m_tracking, or is called only where m_tracking was found alive.")

SAFE_SINKS = {"make_function", "make_shared", "move", "forward", "operator bool", "is_valid", "function"}
def scan(ctx, P, eng, f, r, st, fs, depth):
    todo = []
    for e in uses(eng, st, None):
        nm, o, t, args = e[:4]
        for p in fs:
            if nm in ALIVE:
                if mentions(args, p) and guards(t) is None: r.bad(f, "ties %s to something else than the servant" % p[1], e[4], st.trace)
                continue
            if nm == "operator()" and o is not None and (t[2] == p or not lambdas(t[2]) and unguarded(t[2], p)):
                if alive_fact(st) is not True: r.bad(f, "calls %s without having found the servant alive" % p[1], e[4], st.trace)
                continue
            if nm in SAFE_SINKS: continue
            for x in (t[2],) + tuple(strip(a) for a in args):
                if not isinstance(x, tuple) or not mentions(x, p): continue
                ls = [l for l in lambdas(x) if mentions(l, p)]
                if not ls and unguarded(x, p): r.bad(f, "hands %s on without tying it to the servant" % p[1], e[4], st.trace)
                todo += [l for l in ls if unguarded(x, p)]
    # closures returned or handed on: run their bodies
    if depth > 3: raise Broken("closures nested too deeply in %s" % f)
    out = []
    for l in todo:
        if l not in out: out.append(l)
    return [body(ctx, P, eng, f, r, l, st, fs, depth) for l in out]

def body(ctx, P, eng, f, r, lam, st0, fs, depth):
    ctx.count("closures")
    ran = eng.run_lambda(lam, State(rs=(), mem=dict(st0.mem)), tag="C%d" % depth)
    for k, st, v in ran: scan(ctx, P, eng, f, r, st, fs, depth + 1)

# --------------------------------------------------------------- C19
SCHED = lambda t: t == THISM("m_scheduler")
def own_lock(t): return isinstance(t, tuple) and len(t) > 2 and t[0] == "call" and t[1] == "lock" and SCHED(t[2])

def resolve(st, t, n=4):
    """follow locals to the values they hold"""
    if n == 0 or not isinstance(t, tuple): return t
    if t and t[0] == "L" and len(t) == 4:
        v = st.env.get((t[1], t[2]))
        return ("at", resolve(st, strip(v), n - 1)) if isinstance(v, tuple) and v[0] not in ("ref",) else t
    return tuple(resolve(st, x, n) if isinstance(x, tuple) else x for x in t)

def in_own_thread(st):
    """has this path established that the caller is the one thread of the servant's scheduler?"""
    same = single = False
    ids = lambda t: find_terms(t, lambda x: x and x[0] == "call" and x[1] == "thread_ids" and len(x) > 2 and own_lock(x[2]))
    for k, v in st.facts.items():
        k = resolve(st, k); size = lambda t: isinstance(t, tuple) and t and t[0] == "call" and t[1] == "size" and ids(t[2])
        if find_terms(k, lambda x: x and x[0] == "call" and x[1] == "get_id") and ids(k):
            eq = "operator!=" not in repr(k)
            if v == eq and not find_terms(k, lambda x: x and x[0] == "call" and x[1] in ("find", "find_if", "end", "count")): same = True
            if find_terms(k, lambda x: x and x[0] == "call" and x[1] in ("find", "end")) and v != eq: same = True
            if find_terms(k, lambda x: x and x[0] == "call" and x[1] == "count") and v: same = True
        if k[0] == "bin" and len(k) == 4:
            if k[1] == "==" and (size(k[2]) and k[3] == ("c", 1) or size(k[3]) and k[2] == ("c", 1)) and v: single = True
            if k[1] == "<" and size(k[2]) and k[3] == ("c", 2) and v: single = True
            if k[1] == "<" and size(k[3]) and k[2] == ("c", 1) and not v: single = True
    return same and single

def valid(st, t):
    for k, v in st.facts.items():
        if k[0] == "call" and k[1] == "is_valid" and k[2] == t: return v
    return None

def params(node): return [("p", "%s#%d" % (p["n"], i)) for i, p in enumerate(node["ps"])]

def runs_user(t, fs):
    """is this a call of the user's callable itself, or of a job made of it?"""
    return t[1] in ("operator()", "invoke") and any(mentions(t[2] if t[1] == "operator()" else t[3], p) for p in fs)

def inner_ok(ctx, eng, st0, lam, fs):
    """a closure handed over for execution: calls the user's callable once with its own arguments, in order"""
    node = eng.lams[lam[1]][0]; ps = params(node); good = True; n = 0
    for k, st, v in eng.run_lambda(lam, State(rs=(), mem=dict(st0.mem)), nargs_vals=ps, tag="I"):
        if k == "t": continue
        rs = [e for e in calls(st) if runs_user(e[2], fs)]
        n += 1
        if len(rs) != 1 or [strip(a) for a in rs[0][3]][-len(ps):] != ps and ps: good = False
    return good and n

def closure19(ctx, P, eng, f, r, lam, st0, fs, force, name, prio):
    ctx.count("safe_callbacks"); node = eng.lams[lam[1]][0]; ps = params(node)
    for k, st, v in eng.run_lambda(lam, State(rs=(), mem=dict(st0.mem)), nargs_vals=ps, tag="S"):
        if k == "t": continue
        runs = [e for e in calls(st) if runs_user(e[2], fs)]
        posts = [e for e in calls(st) if e[0] in POSTERS and any(mentions(e[2], p) for p in fs)]
        locks = [e[2] for e in calls(st, "lock") if own_lock(e[2])]
        vs = [valid(st, l) for l in locks]
        if not locks: r.bad(f, "makes a callback which does not look for the servant's scheduler", trace=st.trace); continue
        if vs[0] is None: r.bad(f, "makes a callback which does not check that the scheduler still exists", trace=st.trace); continue
        if vs[0] is False:
            if runs or posts: r.bad(f, "makes a callback which does something although the scheduler is gone", trace=st.trace)
            continue
        if len(runs) + len(posts) != 1: r.bad(f, "makes a callback which %s" % ("is lost" if not runs + posts else "is executed twice"), trace=st.trace); continue
        if runs:
            if force: r.bad(f, "makes a callback which is executed directly instead of being posted", trace=st.trace)
            if not in_own_thread(st): r.bad(f, "makes a callback which is executed directly outside of the servant's only thread", trace=st.trace)
            if any(not mentions(runs[0][2], p) for p in ps): r.bad(f, "makes a callback which drops arguments", trace=st.trace)
        for e in posts:
            a = [strip(x) for x in e[3]]
            if not own_lock(a[0]) and not (e[0] == "post" and own_lock(e[2][2])): r.bad(f, "makes a callback which is posted elsewhere than to the servant's scheduler", trace=st.trace)
            if name not in a: r.bad(f, "makes a callback which is posted without its name", trace=st.trace)
            if prio not in a: r.bad(f, "makes a callback which is posted without its priority", trace=st.trace)
        e = (runs + posts)[0]
        ls = [l for l in lambdas(e[2]) if any(mentions(l, p) for p in fs)]
        if not all(inner_ok(ctx, eng, st0, l, fs) for l in full(ls)): r.bad(f, "makes a callback which does not pass its arguments on", trace=st.trace)
        if ps:
            order = [t for t in flat_args(e[2], ps)]
            if order and order != ps: r.bad(f, "makes a callback which mixes its arguments up", trace=st.trace)

def full(ls): return [l for l in ls if ".." not in repr(l)]
def flat_args(t, ps):
    """the order in which move_bind receives the parameters"""
    for x in find_terms(t, lambda x: x and x[0] == "call" and x[1] == "move_bind"):
        return [a for a in x[3] if a in ps]
    return []

def c19(ctx):
    P = ctx.need(["servant"]); r = R(ctx, "C19")
    for f in servant_fns(P):
        fs = [("p", p["n"]) for p in f.ps if functor(p["t"])]; n0 = len(ctx.violations)
        names = [("p", p["n"]) for p in f.ps if "basic_string" in p["t"]]; prios = [("p", p["n"]) for p in f.ps if p["t"] in ("unsigned long", "std::size_t")]
        scheds = [("p", p["n"]) for p in f.ps if "any_shared_scheduler_proxy" in p["t"]]
        if f.nm.endswith("_helper"): continue             # analysed inlined in its callers
        eng, outs = exits(ctx, P, f); made = 0
        for k, st, v in outs:
            if k == "t": continue
            posts = [e for e in calls(st) if e[0] in POSTERS]
            cl = []
            for e in calls(st):
                if e[0] in POSTERS + ALIVE + ("make_function", "make_shared", "move_bind") or e[0] == "subscribe": continue
                for x in e[3]: cl += [l for l in lambdas(strip(x)) if any(mentions(l, p) for p in fs)]
            if v is not None and not posts: cl += [l for l in lambdas(v) if any(mentions(l, p) for p in fs)]
            if f.nm.startswith("subscribe"):
                for e in calls(st, "subscribe"):
                    if not own_lock(e[2][2]): r.bad(f, "subscribes somewhere else than in the servant's scheduler", trace=st.trace)
                    elif valid(st, e[2][2]) is not True: r.bad(f, "subscribes without having found the scheduler valid", trace=st.trace)
                if posts: r.bad(f, "posts while subscribing", trace=st.trace)
                ctx.count("subscriptions"); continue
            if f.nm.startswith(("make_safe", "async_wait", "safe_slot")):
                cl = full(cl); seen = []
                for l in cl:
                    if l in seen: continue
                    seen.append(l); closure19(ctx, P, eng, f, r, l, st, fs, f.nm == "make_safe_post_callback", names[0], prios[-1]); made += 1
                if not seen: r.bad(f, "does not make a safe callback", trace=st.trace)
                continue
            # posting interface
            lk = [e[2] for e in calls(st, "lock") if own_lock(e[2])]
            if "self" in f.nm and (not lk or valid(st, lk[0]) is not True):
                if posts: r.bad(f, "posts without having found the scheduler valid", trace=st.trace)
                elif not [e for e in calls(st, "set_exception") if "task_aborted_exception" in repr(e[3])]: r.bad(f, "does not report that the scheduler is gone", trace=st.trace)
                ctx.count("gone"); continue
            if len(posts) != 1: r.bad(f, "posts its task %s" % ("more than once" if posts else "nowhere"), trace=st.trace); continue
            e = posts[0]; a = [strip(x) for x in e[3]]; ctx.count("servant_posts")
            cb = "callback" in f.nm
            want = ("interruptible_" if f.nm.startswith("interruptible") else "") + ("post_callback" if cb else "post_future")
            if e[0] != want: r.bad(f, "uses %s" % e[0], trace=st.trace); continue
            if "self" in f.nm: good = own_lock(a[0])
            else: good = a[0] == (scheds[0] if scheds else THISM("m_worker"))
            if not good: r.bad(f, "posts its task to the wrong scheduler", trace=st.trace)
            if not mentions(a[1], fs[0]): r.bad(f, "does not post the task it was given", trace=st.trace)
            if cb:
                if not SCHED(a[2]): r.bad(f, "sends the callback elsewhere than to the servant's scheduler", trace=st.trace)
                if len(fs) < 2 or not mentions(a[3], fs[1]): r.bad(f, "does not hand over the callback it was given", trace=st.trace)
            rest = a[4:] if cb else a[2:]
            if rest[:1] != names or rest[1:1 + len(prios)] != prios: r.bad(f, "does not pass name and priorities on", trace=st.trace)
            if f.rt not in ("void", "") and (v is None or not mentions(strip(v), e[2])): r.bad(f, "does not return what posting returned", trace=st.trace)
        ctx.count("servant_functions")
        if len(ctx.violations) == n0: r.ok(f, "%s" % short(f))
    ctx.minimum("safe_callbacks", 8); ctx.minimum("servant_posts", 28); ctx.minimum("gone", 2); ctx.minimum("subscriptions", 8); ctx.minimum("servant_functions", 25)
    return ("Each member of trackable_servant, all instantiations and paths: postings go to the pool given (or the servant's own), exactly once, with name and priorities, and name m_scheduler as the scheduler of the callback; without scheduler post_self reports task_aborted. "
            "Closures made by make_safe_callback and friends are executed symbolically: they lock m_scheduler, do nothing when it is gone, and otherwise either post exactly once to it, or call directly where the path established that thread_ids() of that scheduler is a single id equal to the current thread; never directly for make_safe_post_callback; all arguments reach the user's function in order.")

# --------------------------------------------------------------- C20
def c20(ctx):
    P = ctx.need(["servant"]); r = R(ctx, "C20"); M = ("m_tracking", "m_scheduler", "m_worker")
    fresh = lambda t: isinstance(t, tuple) and bool(find_terms(t, lambda x: x and (x[0] == "call" and x[1] == "make_shared" or x[0] in ("new", "obj") and "track" in repr(x[1]))))
    for f in insts(P, lambda f: f.file.endswith(TS) and (f.cls or "").split("<")[0].endswith("trackable_servant")):
        sp = f.d.get("sp"); n0 = len(ctx.violations)
        if sp == "dtor": continue
        rhs = f.ps[0]["n"] if f.ps else None
        kind = {"cc": "copy", "mc": "move", "ca": "copy", "ma": "move", "ctor": "new", "dc": "new"}.get(sp)
        if kind in ("copy", "move") and not rhs: raise Broken("special member without parameter")
        of = lambda x: x[0] == "F" and repr(rhs) in repr(x[1])
        for k, st, v in exits(ctx, P, f)[1]:
            mem = {l[2]: x for l, x in st.mem.items() if l[:2] == ("F", THIS)}
            if kind is None:
                if "m_tracking" in mem: r.bad(f, "replaces the tracking object", trace=st.trace)
                continue
            if k == "t": continue
            if sp in ("ca", "ma") and not any(m in mem for m in M):
                if not any(find_terms(t, lambda x: x == ("this",)) for t in st.facts) and not any("this" in repr(t) for t in st.facts): r.bad(f, "does not assign", trace=st.trace)
                continue
            tr = mem.get("m_tracking")
            if kind in ("new", "copy"):
                if tr is None or not fresh(strip(tr)) or rhs and repr(rhs) in repr(tr): r.bad(f, "does not give the servant a tracking object of its own", trace=st.trace)
            else:
                if tr is None or not find_terms(strip(tr), lambda x: x and of(x) and x[2] == "m_tracking"): r.bad(f, "does not take the tracking object over", trace=st.trace)
                elif not any(of(l) and l[2] == "m_tracking" and (x[0] == "moved" or not of(x)) for l, x in st.mem.items() if l[0] == "F"): r.bad(f, "leaves the tracking object with the source as well", trace=st.trace)
            if kind in ("copy", "move"):
                for m in M[1:]:
                    if m not in mem or not find_terms(strip(mem[m]), lambda x: x and of(x) and x[2] == m): r.bad(f, "does not take %s over" % m, trace=st.trace)
        ctx.count("members" if kind is None else "special_members")
        if len(ctx.violations) == n0: r.ok(f, "%s %s" % (kind or "member", f.nm))
    # defaulted or missing special members would share the tracking object between copies
    have = {(f.d.get("sp"), f.nm == "operator=") for f in P.fns if f.file.endswith(TS) and (f.cls or "").split("<")[0].endswith("trackable_servant") and f.b}
    if ("cc", False) not in have: ctx.bad("C20", TS, "trackable_servant has no copy constructor of its own", key="C20|trackable_servant|copy constructor")
    if not any(x[1] for x in have): ctx.bad("C20", TS, "trackable_servant has no assignment of its own", key="C20|trackable_servant|assignment")
    ctx.minimum("special_members", 6); ctx.minimum("members", 25)
    return ("Field transfer of every constructor and assignment of trackable_servant on all paths: constructors and copies give m_tracking a freshly made object which is not the source's, moves take the source's over, scheduler and worker follow; no other member ever replaces m_tracking.")


# --------------------------------------------------------------- C21
SP = "servant_proxy.hpp"; MS = F("m_servant"); OFF = V(F("m_offset_id"))
MACRO = {"p_post": "BOOST_ASYNC_POST_MEMBER", "p_postlog": "BOOST_ASYNC_POST_MEMBER_LOG", "p_future": "BOOST_ASYNC_FUTURE_MEMBER", "p_futurelog": "BOOST_ASYNC_FUTURE_MEMBER_LOG",
         "p_unsafecb": "BOOST_ASYNC_MEMBER_UNSAFE_CALLBACK", "p_unsafecblog": "BOOST_ASYNC_MEMBER_UNSAFE_CALLBACK_LOG", "p_postcb": "BOOST_ASYNC_POST_CALLBACK_MEMBER", "p_unsafe": "BOOST_ASYNC_UNSAFE_MEMBER"}

class Prox(Own):
    """inlines the proxy; a call of the servant may throw"""
    fails = False
    def inline(self, eng, fn, c): return fn.file.endswith(SP) and (c.nm not in OPQ or (fn.cls or "").split("<")[0].endswith("servant_proxy"))
    def same(self, rec, eng, st, c):
        if self.fails == "servant" and c.nm in ("get", "put") and len(c.args) and c.oval is not None or self.fails == "creation" and c.nm == "make_shared" and c.args:
            t = trim(("call", c.nm, strip(c.oval) if c.oval is not None else None, tuple(strip(a) for a in c.args)), self.depth)
            s2 = st.cp(rs=st.rs + ((c.nm, c.o, t, c.args, c.line, st.held),)).ev(c.line, c.nm)
            eng.throw_(s2.cp(rs=s2.rs + (("threw", None, ("call", "threw", None, ()), (), c.line, s2.held),)), ANY)
            return [(s2, t)]
        return Own.same(self, rec, eng, st, c)

def lin(t):
    """a linear combination of terms"""
    t = strip(t)
    if t[0] == "c" and isinstance(t[1], int): return {1: t[1]} if t[1] else {}
    if t[0] == "bin" and t[1] == "+":
        d = dict(lin(t[2]))
        for k, n in lin(t[3]).items(): d[k] = d.get(k, 0) + n
        return {k: n for k, n in d.items() if n}
    if t[0] == "bin" and t[1] == "*":
        a, b = lin(t[2]), lin(t[3])
        if not a or not b: return {}
        if set(a) == {1}: return {k: n * a[1] for k, n in b.items()}
        if set(b) == {1}: return {k: n * b[1] for k, n in a.items()}
    return {t: 1}

def mentions_off(t): return bool(find_terms(t, lambda x: x and x[0] == "F" and x[2] == "m_offset_id"))

def proxy_members(ctx, P):
    for f in insts(P, lambda f: f.nm in ("get", "put") and (f.cls or "").split("<")[0].split("::")[-1].startswith("p_")):
        cl = f.cls.split("<")[0].split("::")[-1]; kind = cl.rstrip("123"); n = cl[len(kind):]; mac = MACRO[kind] + ("_" + n if n else "")
        log = "log" in kind; prio = 5 if n == ("3" if log else "2") else 0; n0 = len(ctx.violations)
        def bad(msg, st=None): ctx.bad("C21", SP, "%s %s" % (mac, msg), key="C21|%s|%s" % (mac, msg), trace=st.trace if st is not None else None)
        np = {"get": 2, "put": 1}[f.nm]
        ps = pterms(f); args = ps[-np:]
        rule = Prox(); eng = Engine(P, rule, maxsteps=400000); outs = ctx.run_engine(eng, f); normal = 0
        for k, st, v in outs:
            if k == "t": bad("throws", st); continue
            v = v[0] if k == "r" and v else None; normal += 1
            direct = [e for e in calls(st) if e[0] == f.nm and "m_servant" in repr(e[2][2])]
            if direct: bad("calls the servant in the calling thread", st); continue
            posts = [e for e in calls(st) if e[0] in POSTERS]
            if kind == "p_unsafe":
                if posts: bad("posts a task", st)
                job = v
            else:
                if len(posts) != 1: bad("posts its task %s" % ("more than once" if posts else "nowhere"), st); continue
                e = posts[0]; a = [strip(x) for x in e[3]]; want = {"p_future": "post_future", "p_futurelog": "post_future", "p_unsafecb": "post_future", "p_unsafecblog": "post_future", "p_postcb": "post_callback"}.get(kind, "post")
                if e[0] not in (want, "post"): bad("hands its task over with %s" % e[0], st); continue
                if e[0] == "post": a = [strip(e[2][2])] + a
                if a[0] != V(F("m_proxy")): bad("posts elsewhere than to the scheduler of the servant", st)
                w = {OFF: 100000}
                if prio: w[1] = prio
                pr = [x for x in a[2:] if lin(x) == w]
                if not pr: bad("does not post at its priority in the slot of its servant", st)
                if log and "('c', 't')" not in repr(a) + repr([x[2] for x in calls(st, "set_name")]): bad("does not name its task", st)
                if kind == "p_postcb":
                    if a[2] != ("p", "weak_cb_scheduler") or a[3] != ("p", "cb_func"): bad("does not send the callback where asked", st)
                    if a[-1] != ("p", "cb_prio"): bad("does not post the callback at its priority", st)
                if f.rt not in ("void", "") and (v is None or e[2] not in find_terms(strip(v), lambda x: x == e[2])): bad("does not return the future of its task", st)
                job = a[1]
            binds = [t for t in find_terms(job, lambda x: x and x[0] == "call" and x[1] == "move_bind")]
            ls = [l for l in (lambdas(binds[0][3][0]) if binds else lambdas(job))]
            if len(ls) != 1: raise Broken("no closure found in what %s posts" % mac)
            if binds and [x for x in binds[0][3][1:]] != args or not binds and any(not mentions(job, x) for x in args): bad("does not pass the arguments on in order", st)
            # the closure, when the proxy is long gone
            node = eng.lams[ls[0][1]][0]; cps = params(node); rule.fails = "servant" if kind.startswith("p_unsafecb") else False
            gone = State(rs=(), mem={MS: ("gone",), F("m_proxy"): ("gone",)})
            for k2, s2, v2 in eng.run_lambda(ls[0], gone, nargs_vals=cps, tag="J"):
                runs = [x for x in calls(s2) if x[0] == f.nm]
                if k2 == "t": bad("lets an exception through", s2); continue
                if len(runs) != 1: bad("makes a task which calls the servant %d times" % len(runs), s2); continue
                if "gone" in repr(runs[0][2][2]) or not find_terms(runs[0][2][2], lambda x: x == MS): bad("makes a task which does not keep the servant alive", s2); continue
                if binds and [strip(x) for x in runs[0][3]] != cps[-np:]: bad("makes a task which mixes its arguments up", s2)
                v2 = v2[0] if k2 == "r" and v2 else None
                if kind.startswith(("p_future", "p_postcb", "p_unsafe")) and not kind.startswith("p_unsafecb") and f.nm == "get" and not (v2 is not None and find_terms(strip(v2), lambda x: x == runs[0][2])): bad("makes a task which does not return what the servant returned", s2)
                if kind.startswith("p_unsafecb"):
                    cb = [x for x in calls(s2, "operator()") if mentions(x[2][2], ps[0])]
                    thrown = bool(calls(s2, "threw"))
                    if len(cb) != 1: bad("makes a task which calls its callback %d times" % len(cb), s2)
                    elif thrown and "current_exception" not in repr(cb[0][2]): bad("makes a task which does not report the failure of the servant", s2)
                    elif not thrown and "current_exception" in repr(cb[0][2]): bad("makes a task which reports a failure which did not happen", s2)
                    elif not thrown and f.nm == "get" and not find_terms(cb[0][2], lambda x: x == runs[0][2]): bad("makes a task which does not hand the result to its callback", s2)
                    else: ctx.count("callbacks_failed" if thrown else "callbacks_ok")
                ctx.count("task_paths")
            rule.fails = False
        ctx.count("proxy_members")
        if not normal: raise Broken("no path through %s" % mac)
        if len(ctx.violations) == n0: ctx.ok("C21", SP, "%s (%s)" % (mac, f.nm))

def same_thread(eng, st):
    """has this path found the current thread among those of the scheduler?"""
    for k, v in st.facts.items():
        gid = find_terms(k, lambda x: x and x[0] == "call" and x[1] == "get_id") or any("'get_id'" in repr(eng.lams[l[1]][0]["b"]) for l in lambdas(k))
        if not (find_terms(k, lambda x: x and x[0] == "call" and x[1] == "thread_ids") and gid): continue
        names = {x[1] for x in find_terms(k, lambda x: x and x[0] == "call")}
        if names & {"find", "find_if"} and names & {"end", "cend"}: return v == ("operator!=" in names)
        if names & {"count", "contains", "binary_search", "any_of", "count_if"}: return v
    return None

def c21(ctx):
    P = ctx.need(["servant"]); r = R(ctx, "C21")
    proxy_members(ctx, P)
    isp = lambda f: (f.cls or "").split("<")[0].endswith("servant_proxy") and f.file.endswith(SP)
    made = ("make_shared", "create", "make_unique", "new")
    for f in insts(P, isp):
        sp = f.d.get("sp"); n0 = len(ctx.violations); kind = None
        if sp == "ctor" and f.ps and ("any_shared_scheduler_proxy" in f.ps[0]["t"] and not any("future" in p["t"] for p in f.ps)):
            kind = "creation"; tup = "tuple" in f.ps[0]["t"]; seen = set()
            eng = Engine(P, Prox(), maxsteps=400000)
            for k, st, v in ctx.run_engine(eng, f):
                own = same_thread(eng, st); posts = calls(st, "post"); mem = {l[2]: x for l, x in st.mem.items() if l[:2] == ("F", THIS)}
                here = [e for e in calls(st) if e[0] in made and e[3] and "promise" not in repr(e[2])[:60] and any(find_terms(strip(x), lambda y: y and y[0] == "p" and y[1].startswith("args")) for x in e[3])]
                if own is None: r.bad(f, "creates a servant without having looked which thread it is in", trace=st.trace); continue
                off = strip(mem.get("m_offset_id", ("?",))); seen.add(own)
                if tup and not find_terms(off, lambda y: y == ("c", 1) or y and y[0] == "call" and "get" in y[1]) and "get" not in repr(off): r.bad(f, "does not remember the slot of its servant", trace=st.trace)
                if own:
                    if posts: r.bad(f, "waits for its own thread to create the servant", trace=st.trace)
                    if not here: r.bad(f, "does not create the servant", trace=st.trace)
                    continue
                if here: r.bad(f, "creates the servant in the calling thread", trace=st.trace); continue
                if len(posts) != 1: r.bad(f, "posts the creation %s" % ("more than once" if posts else "nowhere"), trace=st.trace); continue
                e = posts[0]; job = strip(e[3][0])
                if strip(e[2][2]) not in (strip(mem.get("m_proxy", ())), V(F("m_proxy"))): r.bad(f, "posts the creation to another scheduler", trace=st.trace)
                w = lin(("bin", "+", ("c", 3), ("bin", "*", ("c", 100000), off)))
                if lin(e[3][1]) != w: r.bad(f, "posts the creation without its priority or slot", trace=st.trace)
                if not any(strip(x[3][0]) == ("c", "c") or "('c', 'c')" in repr(x[3]) for x in calls(st, "set_name")): r.bad(f, "does not name the creation", trace=st.trace)
                ih = find_terms(job, lambda x: x and x[0] == "obj" and x[1].endswith("init_helper"))
                if not ih or not find_terms(job, lambda y: y and y[0] == "p" and y[1].startswith("args")): r.bad(f, "does not pass the arguments of the servant on", trace=st.trace)
                if k != "t":
                    ms = strip(mem.get("m_servant", ()))
                    prom = ih[0][2] if ih and len(ih[0]) > 2 else None
                    if not (find_terms(ms, lambda x: x and x[0] == "call" and x[1] == "get") and prom is not None and find_terms(ms, lambda x: x == prom)): r.bad(f, "does not keep the servant which was created", trace=st.trace)
            if seen != {True, False} and len(ctx.violations) == n0: raise Broken("servant_proxy constructor: paths missing")
        elif sp in ("dtor", "dt"):
            kind = "destruction"
            for k, st, v in ctx.run_engine(Engine(P, Prox(), maxsteps=400000), f):
                posts = calls(st, "post"); alive = None
                for t, b in st.facts.items():
                    if t == V(MS): alive = b
                if alive is False:
                    continue
                if len(posts) != 1: r.bad(f, "posts the destruction %s" % ("more than once" if posts else "nowhere"), trace=st.trace); continue
                e = posts[0]
                if strip(e[2][2]) != V(F("m_proxy")): r.bad(f, "posts the destruction to another scheduler", trace=st.trace)
                if lin(e[3][1]) != {1: 4, OFF: 100000}: r.bad(f, "posts the destruction without its priority or slot", trace=st.trace)
                if "('c', 'd')" not in repr([x[3] for x in calls(st, "set_name")]): r.bad(f, "does not name the destruction", trace=st.trace)
                if not any(x == V(MS) for l, x in st.mem.items() if l[0] == "F" and l[2] == "data") and not mentions(strip(e[3][0]), V(MS)): r.bad(f, "does not hand its servant over", trace=st.trace)
                if strip(st.mem.get(MS, V(MS))) == V(MS) and not (isinstance(st.mem.get(MS), tuple) and st.mem.get(MS)[0] == "moved"): r.bad(f, "keeps its servant beyond the hand-over", trace=st.trace)
        elif sp in ("ca", "ma"):
            kind = "assignment"
            for k, st, v in ctx.run_engine(Engine(P, Prox(), maxsteps=400000), f):
                if k == "t": continue
                rhs = f.ps[0]["n"]; mem = {l[2]: x for l, x in st.mem.items() if l[:2] == ("F", THIS)}; whole = st.mem.get(THIS)
                if any("this" in repr(t) and t[0] == "bin" and "==" == t[1] and rhs in repr(t) and b for t, b in st.facts.items()): continue
                if whole is None and not mem: r.bad(f, "does not assign", trace=st.trace); continue
                for m in ("m_proxy", "m_servant", "m_offset_id"):
                    x = strip(mem.get(m, whole if whole is not None else ()))
                    if rhs not in repr(x) and not copy_of(f, x, m, rhs): r.bad(f, "does not take %s over" % m, trace=st.trace)
                gone = any("m_servant" in repr(t) and not b for t, b in st.facts.items())
                posts = [e for e in calls(st, "post")]
                if not gone and not posts: r.bad(f, "drops its servant in the calling thread", trace=st.trace)
                ctx.count("assignments")
        elif sp == "ctor" and len(f.ps) == 2 and f.ps[1]["n"] == "":
            kind = "cast"
            for k, st, v in ctx.run_engine(Engine(P, Prox(), maxsteps=400000), f):
                mem = {l[2]: x for l, x in st.mem.items() if l[:2] == ("F", THIS)}
                for m in ("m_proxy", "m_servant", "m_offset_id"):
                    if not find_terms(strip(mem.get(m, ())), lambda x: x and x[0] == "F" and x[2] == m and x[1] != THIS): r.bad(f, "does not take %s over" % m, trace=st.trace)
        elif f.nm == "post":
            kind = "post"
            for k, st, v in ctx.run_engine(Engine(P, Prox(), maxsteps=400000), f):
                ps = [e for e in calls(st, "post")]
                if len(ps) != 1 or strip(ps[0][2][2]) != V(F("m_proxy")) or strip(ps[0][3][0]) != ("p", f.ps[0]["n"]): r.bad(f, "does not post its job once to its scheduler", trace=st.trace); continue
                if lin(ps[0][3][1]) != {("p", f.ps[1]["n"]): 1, OFF: 100000}: r.bad(f, "does not add the slot to the priority once", trace=st.trace)
        if kind:
            ctx.count(kind)
            if len(ctx.violations) == n0: r.ok(f, "servant_proxy %s" % kind)
    have = {f.d.get("sp") for f in P.fns if isp(f) and f.b}
    for x, w in (("ca", "copy"), ("ma", "move")):
        if x not in have: ctx.bad("C21", SP, "servant_proxy has no %s assignment of its own: the previous servant dies in the calling thread" % w, key="C21|servant_proxy|%s assignment" % w)
    for f in insts(P, lambda f: f.file.endswith(SP) and (f.cls or "").endswith("init_helper") and f.nm == "operator()"):
        rule = Prox(); n0 = len(ctx.violations); rule.fails = "creation"
        for k, st, v in ctx.run_engine(Engine(P, rule, maxsteps=400000), f):
            if k == "t": r.bad(f, "lets an exception through", trace=st.trace); continue
            threw = bool(calls(st, "threw")); ctx.count("creations_failed" if threw else "creations_ok")
            sv = calls(st, "set_value") + calls(st, "set_exception")
            if len(sv) != 1: r.bad(f, "fulfils the promise of the servant %d times" % len(sv), trace=st.trace); continue
            if threw != (sv[0][0] == "set_exception"): r.bad(f, "reports a failed creation as a success or the other way round", trace=st.trace); continue
            if sv[0][0] == "set_value" and not find_terms(strip(sv[0][3][0]), lambda x: x and x[0] == "call" and x[1] == "make_shared" and any(y[0] == "p" and y[1].startswith("as") for y in x[3] if isinstance(y, tuple) and y)): r.bad(f, "does not create the servant from its arguments", trace=st.trace)
        ctx.count("creators")
        if len(ctx.violations) == n0: r.ok(f, "init_helper")
    for f in insts(P, lambda f: f.file.endswith(SP) and (f.cls or "").endswith("servant_deleter") and f.nm == "operator()"):
        for k, st, v in ctx.run_engine(Engine(P, Prox(), maxsteps=400000), f):
            if st.mem.get(F("data")) != ("c", None): r.bad(f, "does not release the servant", trace=st.trace)
        ctx.count("deleters")
    ctx.minimum("proxy_members", 26); ctx.minimum("task_paths", 26); ctx.minimum("creation", 2); ctx.minimum("destruction", 1); ctx.minimum("assignment", 2); ctx.minimum("cast", 1); ctx.minimum("post", 1)
    ctx.minimum("creators", 1); ctx.minimum("creations_failed", 1); ctx.minimum("deleters", 1); ctx.minimum("callbacks_failed", 4)
    return ("Each posting macro expanded and instantiated: on every path exactly one hand-over to m_proxy at priority (given + 100000 * m_offset_id), no call of the servant in the caller, future returned; the posted closure, executed symbolically with the proxy gone, calls the servant it holds by value exactly once with the arguments in order and passes on the result or exception. "
            "Constructors: creation only in a thread found among those of the scheduler, else one posted creation with constructor name, priority and slot, whose promise fills m_servant; destructor: one posted deleter which took over m_servant; assignments hand the old servant to a posted deleter; casts keep scheduler, servant and slot.")
