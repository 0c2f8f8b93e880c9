"""C32: the remote job server, its connections and its workers."""
from engine import *
from core import Broken
from sym import *
from deliver import ANY, STD
U, W, C = F("m_unprocessed_jobs"), F("m_waiting_jobs"), F("m_waiting_connections")
ADD = ("insert", "emplace", "emplace_back", "push_back", "emplace_front", "push_front", "emplace_hint")
FIND = ("find", "lower_bound", "count", "contains", "equal_range")
DEL = ("erase", "extract", "pop_front", "pop_back", "clear", "resize", "swap", "operator=", "assign")
ASYNC = ("async_read", "async_write", "async_connect", "async_resolve", "async_accept", "async_read_some", "async_write_some", "async_wait")
DONE = ("on_done", "create_continuation", "create_continuation_job", "create_callback_continuation", "create_callback_continuation_job")
GET_JOB, JOB_RESULT, COM_ERROR = ("c", 1), ("c", 2), ("c", 3)

def value(eng, st, t, d=0):
    """t with the locals in it replaced by what they hold"""
    if not isinstance(t, tuple) or d > 40: return t
    if len(t) == 4 and t[0] == "L":
        v = eng.loadloc(st, t)
        return value(eng, st, v, d + 1) if v != ("V", t) else t
    if len(t) == 2 and t[0] == "V" and isinstance(t[1], tuple) and t[1] and t[1][0] == "L":
        v = eng.loadloc(st, t[1])
        return value(eng, st, v, d + 1) if v != t else t
    return tuple(value(eng, st, x, d + 1) for x in t)
def member(eng, st, l, n, d=0):
    """what member n of the object at l holds; copies are followed"""
    v = eng.loadloc(st, F(n, l))
    if strip(v) not in (("V", F(n, l)), F(n, l)) or d > 8: return value(eng, st, strip(v))
    w = strip(eng.loadloc(st, l))
    while len(w) == 2 and w[0] == "V": w = w[1]
    if w != l and len(w) == 4 and w[0] == "L": return member(eng, st, w, n, d + 1)
    return value(eng, st, strip(v))
def lams(t):
    """closures in t and whether they are wrapped into safe callbacks of this object"""
    out = []
    def w(t, safe):
        if not isinstance(t, tuple) or not t: return
        if t[0] == "call" and len(t) > 3 and t[1] == "make_safe_callback": safe = True
        if t[0] == "lam": out.append((t, safe)); return
        for x in t: w(x, safe)
    w(t, False)
    return out
def ft(t, p): return find_terms(t, lambda x: len(x) > 0 and p(x))
def fields(t, n): return ft(t, lambda x: len(x) == 3 and x[0] == "F" and x[2] == n)
def has(t, x): return mentions(t, x)

def truths(facts):
    """the facts, with comparisons to constants undone"""
    for t, v in facts.items():
        while t[0] == "bin" and t[1] in ("==", "!=") and isinstance(v, bool):
            c = [x for x in t[2:] if x in (("c", False), ("c", 0), ("c", True))]
            if len(c) != 1: break
            o = [x for x in t[2:] if x is not c[0]][0]
            if (t[1] == "==") == (c[0][1] in (False, 0)): v = not v
            t = o
            if not isinstance(t, tuple) or not t: break
        yield t, v

class E:
    __slots__ = ("nm", "o", "args", "line", "facts", "extra")
    def __init__(self, nm, o, args, line, facts, extra=None): self.nm = nm; self.o = o; self.args = args; self.line = line; self.facts = facts; self.extra = extra
    def key(self): return (self.nm, self.o, self.args, self.line, self.extra)
    def __eq__(self, x): return isinstance(x, E) and self.key() == x.key()
    def __hash__(self): return hash(self.key())
    def __getitem__(self, i): return self.key()[i]
    def __repr__(self): return repr(self.key())

class T(Rec):
    """every call which matters, with values instead of locals, and the facts known then; reading an archive and user tasks may throw"""
    depth = 60; objd = 40
    def __init__(self, names=None, thr=None):
        Rec.__init__(self, spec=self.sp, ev=lambda c: False); self.names = names; self.lam = {}; self.thr = thr
    def inline(self, eng, fn, c): return fn.file == eng.root.file and c.nm not in ("operator()",) and fn.kind != "macro"
    def closure(self, eng, st, lam): self.lam.setdefault(lam[1], []).append((lam, dict(st.mem)))
    def store(self, eng, st, loc, val, line):
        if isinstance(loc, tuple) and loc[0] == "F" and loc[2] in ("m_is_writing", "m_next_task_id") and loc[1] == THIS: st = st.cp(rs=st.rs + (E("=", loc, (val,), line, None),))
        for c in (U, W, C):
            if loc == c: st = st.cp(rs=st.rs + (E("operator=", loc, (val,), line, None),))
        return st
    def sp(self, rec, eng, st, c):
        if c.isctor or c.nm in ("new", "delete"): return None
        if c.nm == "operator-conv" and not c.args and c.o is not None and "error_code" in (c.cls or "") + (c.qn or ""): return [(st, strip(c.oval))]
        if c.callee is not None and c.callee.uid not in c.frame.stack and c.frame.depth < self.max_inline and self.inline(eng, c.callee, c): return None
        if c.nm == "operator()" and c.oval is not None and eng.as_lambda(c.oval) is not None: return None
        if c.nm in ("operator*", "operator->", "operator[]", "at", "operator bool", "operator-conv", "operator=") or c.nm == "get" and c.qn.startswith(SMART): return None
        if self.thr is not None and self.thr(c): eng.throw_(st.ev(c.line, c.nm + " throws"), STD if ioarch(c) else ANY)
        if len(st.rs) > 60: return None
        ex = None
        if c.nm in ADD and c.o == U: ex = (eng.loadloc(st, F("m_next_task_id")),)
        if c.nm == "operator()" and c.args:
            # fields of the message handed over
            l = c.locs[0] if c.locs else None
            if l is not None and l[0] == "L": ex = tuple((n, member(eng, st, l, n)) for n in ("m_cmd_id", "m_task_id", "m_load"))
        if c.nm == "make_shared" or self.names is not None and not self.names(c): return None
        e = E(c.nm, value(eng, st, strip(c.o)) if c.o not in (U, W, C) else c.o, tuple(value(eng, st, strip(a)) for a in c.args), c.line, dict(st.facts), ex)
        st = st.cp(rs=st.rs + (e,)).ev(c.line, c.nm)
        if c.nm in ("pop_front", "push_back", "emplace_back") and False: return None
        t = trim(("call", c.nm, strip(c.oval) if c.oval is not None else None, tuple(strip(a) for a in c.args)), self.depth)
        return [(st, t)]

class Rep:
    def __init__(self, ctx): self.ctx = ctx; self.n = 0; self.seen = set()
    def bad(self, f, w, msg, line=None, st=None):
        k = "C32|%s|%s" % (w, msg); self.n += 1
        if k in self.seen: return
        self.seen.add(k)
        self.ctx.bad("C32", f.where(line), "%s %s" % (w, msg), key=k, trace=st.trace if st is not None else ())
    def ok(self, f, w, n0):
        if self.n == n0: self.ctx.ok("C32", f.where(), w)

def short(f): return (f.cls or "").split("<")[0].split("::")[-1] + "::" + f.nm if f.cls else f.nm

def run(ctx, P, f, thr=None, names=None):
    """paths of f and of every closure made in it: [(name, closure or None, outcomes, engine)]"""
    r = T(names=names, thr=thr); eng = Engine(P, r, maxsteps=600000)
    res = [(short(f), None, ctx.run_engine(eng, f))]
    done = set()
    while True:
        todo = [k for k in r.lam if k not in done]
        if not todo: break
        for k in todo:
            done.add(k)
            l, mem = r.lam[k][-1]
            n = len(eng.lams[k][0]["ps"])
            res.append((short(f) + ", function called later", l, eng.run_lambda(l, State(rs=(), mem=dict(mem)), tag="H")))
            ctx.count("closures")
    return res, eng, r

# ---- the job server
def touches_this(outs):
    for k, st, v in outs:
        for e in st.rs:
            if e.o is not None and (e.o == ("this",) or ft(e.o, lambda t: t == ("D", ("this",)))): return True
    return False

def cmd_fact(e_or_facts, want):
    for t, v in e_or_facts.items():
        if v is True and t[0] == "bin" and t[1] == "==" and fields(t, "m_cmd_id") and want in t[2:]: return True
    return False
def isempty(facts, cont):
    for t, v in facts.items():
        if t[0] == "call" and t[1] == "empty" and has(t, cont): return v
        if t[0] == "bin" and t[1] == "==" and ("c", 0) in t[2:] and has(t, cont) and "size" in repr(t): return v
        if t[0] == "bin" and t[1] == "<" and t[2] == ("c", 0) and has(t[3], cont) and "size" in repr(t[3]): return not v
        if t[0] == "call" and t[1] == "size" and has(t, cont): return not v
        if t[0] == "call" and t[1] in ("operator==",) and has(t, cont) and "begin" in repr(t) and "end" in repr(t): return v
    return None
def found(facts):
    for t, v in facts.items():
        if t[0] in ("call", "bin") and t[1] in ("operator==", "==") and has(t, W):
            return not v
        if t[0] == "call" and t[1] in ("count", "contains") and has(t, W): return v
    return None

def server(ctx, P, rep):
    fs = insts(P, lambda f: f.file.endswith("tcp/detail/job_server.hpp") and (f.cls or "").endswith("::job_server") and f.nm not in ("job_server",))
    if not fs: raise Broken("job_server is gone")
    inl = set(); all_ = []
    for f in fs:
        res, eng, r = run(ctx, P, f)
        all_.append((f, res, eng)); inl |= {x for x in eng.inlined if x != f.uid}
    seen = {"new": 0, "sent": 0, "answer": 0, "back": 0}
    for f, res, eng in all_:
        by = {l[1]: o for w, l, o in res if l is not None}
        n0 = rep.n
        called = f.uid in inl
        for w, l, outs in res:
            if l is None and called: continue        # examined where it is called
            for k, st, v in outs:
                if k == "t": continue
                server_path(rep, f, w, st, by, eng, seen, l)
                ctx.count("server_paths")
        rep.ok(f, short(f), n0); ctx.count("server_functions")
    for k, n in seen.items():
        ctx.count("server_" + k, n)
    cmp_ = insts(P, lambda f: f.file.endswith("tcp/detail/job_server.hpp") and f.nm == "operator()" and len(f.ps) == 2 and "::job_server::" in (f.cls or ""))
    for f in cmp_:
        n0 = rep.n
        for k, st, v in paths(ctx, P, f)[0]:
            ids = [t for t in ft(v, lambda t: len(t) == 4 and t[0] == "bin" and t[1] in ("<", ">")) if len(fields(t, "m_task_id")) == 2]
            if not ids or len({repr(x[1]) for x in fields(ids[0], "m_task_id")}) != 2: rep.bad(f, "the order of registered jobs", "does not compare the ids of both jobs", None, st)
        rep.ok(f, "order of registered jobs", n0); ctx.count("orders")
    ctx.minimum("server_functions", 7); ctx.minimum("server_new", 1); ctx.minimum("server_sent", 2); ctx.minimum("server_answer", 1); ctx.minimum("server_back", 1); ctx.minimum("orders", 1)

def server_path(rep, f, w, st, by, eng, seen, lam):
    ev = st.rs
    B = lambda m, e=None: rep.bad(f, w, m, e.line if e is not None else None, st)
    uadd = [e for e in ev if e.o == U and e.nm in ADD]; udel = [e for e in ev if e.o == U and e.nm in DEL]
    wadd = [e for e in ev if e.o == W and e.nm in ADD]; wdel = [e for e in ev if e.o == W and e.nm in DEL]
    cadd = [e for e in ev if e.o == C and e.nm in ADD]; cdel = [e for e in ev if e.o == C and e.nm in DEL]
    sends = [e for e in ev if e.nm == "send" and e.o is not None]
    real = [e for e in sends if e.args and fields(e.args[0], "m_unprocessed_jobs")]
    deliver = [e for e in ev if e.nm == "serialize" and e.args and "iarchive" in repr(e.args[0])]
    for e in sends:
        if e not in real and not (e.args and len(e.args[0]) > 2 and e.args[0][0] == "obj" and e.args[0][2] == ("c", 0)): B("sends a response which is neither a job taken from the queue nor an empty one", e)
    # a job which leaves the queue
    for e in udel:
        if e.nm not in ("pop_front", "pop_back", "erase"): B("drops jobs nobody asked for (%s)" % e.nm, e)
    if not (len(udel) == len(real) == len(wadd)):
        if len(wadd) < len(real): B("sends a job without registering it for its result")
        elif len(udel) < len(real): B("sends a job which stays in the queue")
        elif len(real) < len(udel): B("removes a job from the queue without sending it")
        else: B("registers a job which was not sent")
    ends = {"pop_front": "front", "pop_back": "back", "erase": "begin"}
    for e in wadd:
        if not any(fields(a, "m_unprocessed_jobs") for a in e.args): B("registers something else than the job sent", e)
    for e in real + wadd:
        for d in udel:
            if d.nm in ends and not any(ends[d.nm] in repr(a) for a in e.args): B("removes another job than the one it sends", d)
    for i, e in enumerate(ev):
        if e.o == U and e.nm in ("front", "back"):
            if isempty(e.facts or {}, U) is not False and not any(x in uadd for x in ev[:i]): B("takes a job from a queue which may be empty", e)
            if any(x in udel for x in ev[:i]) and (e.nm in [ends[x.nm] for x in udel if x.nm in ends]) and not any(x in udel for x in ev[i:]): B("looks at the queue again after removing the job", e)
    for e in real:
        seen["sent"] += 1
        if not fields(e.args[0], "m_serialized"): B("does not send the serialized job", e)
        cb = [x for a in e.args[1:] for x in lams(a)]
        if not cb: B("sends a job without telling what to do when sending fails", e)
        for l, safe in cb:
            outs = by.get(l[1], [])
            if not safe: B("lets the connection's thread handle a failed sending", e)
            for k, s2, v in outs:
                if k != "t" and not any(x.o == W and x.nm in FIND for x in s2.rs) and not any(v2 is False and fields(t, "m_task_id") for t, v2 in truths(s2.facts)): B("does not look up a job whose sending failed", e)
            if outs and not any(any(x.o == U and x.nm in ADD for x in s.rs) for k, s, v in outs): B("forgets a job whose sending failed", e)
    # functions handed to other threads
    for e in ev:
        if e.nm in ("make_safe_callback", "post_callback") or e.o in (U, W, C): continue
        for a in e.args:
            for l, safe in lams(a):
                if not safe and touches_this(by.get(l[1], [])): B("hands a function using its own state to another thread", e)
    for e in ev:
        if e.nm == "post_callback":
            ls = lams(e.args[0])
            for l, safe in ls:
                if touches_this(by.get(l[1], [])): B("lets a task in the pool use its own state", e)
    # a job whose result or failure arrives
    fnd = [e for e in ev if e.o == W and e.nm in FIND]
    for e in fnd:
        if not any(fields(a, "m_task_id") for a in e.args): B("looks up a job by something else than its id", e)
    back = [e for e in uadd if any(has(a, W) for a in e.args)]
    new = [e for e in uadd if e not in back]
    ans = [e for e in deliver if has(e.o, W)]
    if len(ans) < len(deliver): B("gives a result to something else than the job registered for it")
    if back and ans: B("delivers a result and queues the job again")
    if len(back) > 1 or len(ans) > 1: B("handles one answer twice")
    for e in wdel:
        if e.nm not in ("erase", "extract") or not any(has(a, W) and "find" in repr(a) for a in e.args): B("forgets registered jobs which were not looked up", e)
        if found(e.facts or {}) is not True: B("removes a registered job without knowing that there is one", e)
    if (back or ans) and len(wdel) != 1: B("keeps a job registered after its result was delivered" if ans else "keeps a job registered which it queued again")
    if wdel and not (back or ans): B("drops a registered job without result")
    if fnd and not (back or ans) and found(st.facts) is True and not wdel: B("ignores the answer for a registered job")
    for e in back + ans:
        if found(e.facts or {}) is not True and not e.extra is None and False: B("", e)
    if ans:
        seen["answer"] += 1
        if not any(e.nm in ("operator<<", "operator&") and any(fields(a, "m_load") for a in e.args) for e in ev): B("delivers something else than the result received")
        if not cmd_fact(st.facts, JOB_RESULT): B("delivers a result nobody sent")
    if back: seen["back"] += 1
    # a new job
    if lam is not None and any(e.nm == "get_task_name" for e in ev) or new:
        seen["new"] += len(new)
        if len(new) != 1: B("queues a new job %d times" % len(new))
        for e in new:
            resp = ft(e.args, lambda t: len(t) > 3 and t[0] == "obj" and t[1].split("::")[-1] == "server_reponse")
            if not resp: B("queues a job without its serialized form", e); continue
            x = resp[0]
            if e.extra is None or x[2] != e.extra[0] or not any(y.nm == "=" and y.o == F("m_next_task_id") for y in ev): B("gives a new job an id which is not new", e)
            if "get" not in repr(x[3]) or not ft(x[3], lambda t: t[0] == "p"): B("queues something else than the serialized job", e)
            if "get_task_name" not in repr(x[4]): B("loses the name of the job", e)
        if isempty(st.facts, C) is not True and not (len(real) == 1 and len(cdel) == 1): B("lets a worker wait although there is a job")
    for e in real:
        if has(e.o, C) and not any(d.nm in ("pop_front", "erase", "pop_back") for d in cdel): B("keeps a connection waiting which it answered", e)
    # requests
    if cmd_fact(st.facts, GET_JOB):
        if len(sends) + len(cadd) != 1: B("answers a request for a job %d times" % (len(sends) + len(cadd)))
        if isempty(st.facts, U) is not True and not real: B("does not send the job it has")
    elif real and not new: B("sends a job nobody asked for")

# ---- connections and workers: the functions they are given are used exactly once
def pcap(l, p): return any(x[1] == p or isinstance(x[1], tuple) and ft(x[1], lambda t: t == p) for x in l[2])
def uses(st, p):
    """(calls of p, hand-overs of p to something which happens later)"""
    calls_ = [e for e in st.rs if e.nm == "operator()" and e.o is not None and (e.o == p or e.o[0] == "V" and e.o[1] == p or has(e.o, p) and e.o[0] != "call" or e.extra and False)]
    later = [e for e in st.rs if (e.nm in ASYNC or e.nm in DONE) and any(pcap(l, p) for a in e.args for l, s in lams(a))]
    return calls_, later
def ioarch(c): return c.nm in ("operator>>", "operator&") and ("archive" in (c.cls or "") or "archive" in repr(c.oval)) or c.nm == "operator>>" and "archive" in repr(c.node)[:600]

def funcpar(f):
    """name of the parameter which is a function"""
    l = [q["n"] for q in f.ps if q["n"] and "std::function" in q["t"]]
    return l[-1] if l else None
def resppar(f):
    l = [q["n"] for q in f.ps if q["n"] and "server_reponse" in q["t"]]
    return l[0] if l else None
def ofresp(f, t):
    n = resppar(f)
    return ft(t, lambda x: len(x) == 3 and x[0] == "F" and x[2] == "m_task_id" and ft((x[1],), lambda y: y == ("p", n) or len(y) == 4 and y[0] == "L" and y[3] == n))
def usertask(f):
    """reading the task, and using it"""
    w = funcpar(f); task = {q["n"] for q in f.ps if q["n"] not in (w, resppar(f))}
    def thr(c):
        if ioarch(c): return True
        if c.nm == "operator()" and c.oval is not None and any(("p", t) in (c.oval, strip(c.o) if c.o else None, ("p", c.o[3]) if c.o and c.o[0] == "L" and len(c.o) > 3 else None) for t in task): return True
        return c.nm == "get" and "get<" not in c.nm and c.o is not None and not c.args and "optional" not in repr(c.cls)
    return thr

def once(ctx, P, rep, file, fname, par, what, check=None, thr=None, cls=None, need=True, exc=True):
    fs = insts(P, lambda f: f.file.endswith(file) and f.nm == fname and funcpar(f) and (cls is None or (f.cls or "").endswith(cls)))
    fs = [f for f in fs if f.kind != "pattern"] or fs
    if not fs: raise Broken("%s of %s is gone" % (fname, file))
    for f in fs:
        n0 = rep.n
        res, eng, r = run(ctx, P, f, thr=thr(f) if thr is usertask else thr)
        p = ("p", funcpar(f))
        for w, l, outs in res:
            if l is not None and not pcap(l, p): continue
            for k, st, v in outs:
                cs, la = uses(st, p)
                ctx.count("callback_paths")
                if k == "t":
                    if exc and not cs and not la: rep.bad(f, w, "leaves by an exception without %s" % what, None, st)
                    continue
                if check is not None and check(rep, f, w, l, st, cs, la): continue
                if len(cs) + len(la) == 0: rep.bad(f, w, "has a path without %s" % what, None, st)
                elif len(cs) + len(la) > 1: rep.bad(f, w, "has a path with %s twice" % what, (cs + la)[-1].line, st)
        rep.ok(f, short(f), n0); ctx.count("once_functions")

def errors(t): return len(t) > 2 and t[0] == "obj" and t[1].endswith("client_request") and t[2] == COM_ERROR
def c32(ctx, thorough=False):
    P = ctx.need(["tcp"])
    rep = Rep(ctx)
    server(ctx, P, rep)
    # reading requests
    SC = "tcp/detail/server_connection.hpp"; CL = "tcp/simple_tcp_client.hpp"
    def read(rep, f, w, l, st, cs, la):
        if len(cs) == 1 and len(la) == 1 and not errors(cs[0].args[0]) and st.rs.index(cs[0]) < st.rs.index(la[0]): return True
        if len(cs) == 1 and not la and not errors(cs[0].args[0]): rep.bad(f, w, "stops reading after a request", cs[0].line, st); return True
        if not cs and any(e.nm in ("operator>>", "operator&") and "client_request" in repr(e.args) for e in st.rs): rep.bad(f, w, "drops a request it has read", None, st); return True
        return False
    once(ctx, P, rep, SC, "start", "callback", "reporting a request or an error", check=read, thr=ioarch, cls="server_connection", exc=True)
    def sent(rep, f, w, l, st, cs, la):
        if l is None: 
            for e in cs:
                if e.args and e.args[0] != ("p", resppar(f)) and not ofresp(f, e.args[0]): rep.bad(f, w, "reports a failure without the id of the job", e.line, st)
            return False
        ec = ("p", "ec")
        failed = any(v is True for t, v in truths(st.facts) if "error_code" in repr(t) or ft(t, lambda x: x[0] == "p"))
        if la: rep.bad(f, w, "sends again from the completion of a sending", la[0].line, st)
        if failed and len(cs) != 1: rep.bad(f, w, "reports a failed sending %d times" % len(cs), None, st)
        if not failed and cs: rep.bad(f, w, "reports a failure of a successful sending", cs[0].line, st)
        for e in cs:
            if not ofresp(f, e.args[0]) and e.args[0] != ("p", resppar(f)): rep.bad(f, w, "reports a failure without the id of the job", e.line, st)
        return True
    once(ctx, P, rep, SC, "send", "cb_if_failed", "sending the job or reporting a failure", check=sent, cls="server_connection")
    # the worker asks again and again
    for m, par in (("request_content", "cb"), ("handle_resolve", "cb"), ("handle_connect", "cb"), ("get_task", "cb"), ("handle_write_request", "callback")):
        once(ctx, P, rep, CL, m, par, "going on", thr=None, cls="simple_tcp_client")
    # jobs executed for a server answer once, with the id of the job
    def ids(rep, f, w, l, st, cs, la):
        for e in cs:
            d = dict(e.extra or ())
            t = d.get("m_task_id")
            if l is None and not (t is not None and ofresp(f, t)) and not any(ofresp(f, x) for loc, x in st.mem.items() if loc[0] == "F" and loc[2] == "m_task_id"): rep.bad(f, w, "answers without the id of the job", e.line, st)
        return False
    n = 0
    for f in sorted({f.nm for f in P.fns if f.b and f.file.endswith(CL) and f.nm.startswith("deserialize_and_call")}):
        n += 1
        once(ctx, P, rep, CL, f, "when_done", "answering", thr=usertask, check=ids)
    ctx.count("executors", n); ctx.minimum("executors", 5)
    executors(ctx, P, rep, CL)
    asking(ctx, P, rep, CL)
    writing(ctx, P, rep, CL)
    stolen(ctx, P, rep, CL)
    ctx.minimum("once_functions", 12); ctx.minimum("closures", 12)
    return "The job server's functions and everything it registers for later are followed on all paths: a job taken from the queue of unprocessed jobs is sent once, in its serialized form, registered once and removed once, only when the queue is known not to be empty; a failed sending is handled in the server's thread and puts the registered job back, a result is given once to the job registered under its id, and both end the registration; new jobs get a fresh id and are queued once, and a waiting worker gets them at once. Functions using the server's state only leave it as safe callbacks. Connections report each request or error once and go on reading; failed sendings are reported once with the id of the job. Workers go on asking on every path, answer each job exactly once with its id (exceptions of the task, its deserialization and its result included), and send answers which had to wait for the connection after every successful write."

def executors(ctx, P, rep, CL):
    """where the answer is prepared, its id is the one of the job"""
    for f in insts(P, lambda f: f.file.endswith(CL) and f.nm.startswith("deserialize_and_call")):
        n0 = rep.n
        r = T(); eng = Engine(P, r, maxsteps=600000); ctx.run_engine(eng, f)
        for k, l in r.lam.items():
            for lam, mem in l:
                if not pcap(lam, ("p", funcpar(f))): continue
                idl = [v for loc, v in mem.items() if loc[0] == "F" and loc[2] == "m_task_id"]
                if not any(ofresp(f, v) for v in idl): rep.bad(f, short(f), "answers later without the id of the job")
                ctx.count("later_answers")
        rep.ok(f, short(f) + ", id", n0)

def asking(ctx, P, rep, CL):
    for f in insts(P, lambda f: f.file.endswith(CL) and f.nm == "check_for_work"):
        n0 = rep.n
        res, eng, r = run(ctx, P, f)
        hit = 0
        for w, l, outs in res:
            if l is None: continue
            if len(eng.lams[l[1]][0]["ps"]) != 1 or not any(e.nm == "prepare_check_for_work" for k, s, v in outs for e in s.rs): continue
            hit += 1
            for k, st, v in outs:
                if k == "t": continue
                pc = [e for e in st.rs if e.nm == "prepare_check_for_work"]
                po = [e for e in st.rs if e.nm in ("post", "post_future", "post_callback")]
                if len(pc) != 1: rep.bad(f, w, "prepares the next request %d times" % len(pc), None, st)
                em = [v2 for t, v2 in st.facts.items() if "empty" in repr(t)[:30] or "size" in repr(t)[:30]]
                want = 0 if em and em[0] is True else 1
                if len(po) != want: rep.bad(f, w, "posts a received job %d times" % len(po) if want else "posts a job although none was received", None, st)
        if not hit: rep.bad(f, short(f), "never asks for work again")
        rep.ok(f, short(f), n0); ctx.count("asking")
    ctx.minimum("asking", 1)

def writing(ctx, P, rep, CL):
    WR = F("m_is_writing"); Q = F("m_waiting_requests")
    n = 0
    for f in insts(P, lambda f: f.file.endswith(CL) and (f.cls or "").endswith("simple_tcp_client") and f.nm in ("get_task", "send_task_result", "try_send_one_waiting_request")):
        n0 = rep.n
        res, eng, r = run(ctx, P, f)
        by = {l[1]: (w, l, o) for w, l, o in res if l is not None}
        for k, st, v in res[0][2]:
            if k == "t": continue
            wr = [e for e in st.rs if e.nm == "async_write"]
            if f.nm == "send_task_result":
                q = [e for e in st.rs if e.o == Q and e.nm in ADD]
                if len(wr) + len(q) != 1: rep.bad(f, short(f), "writes or queues an answer %d times" % (len(wr) + len(q)), None, st)
            if len(wr) and not any(e.nm == "=" and e.o == WR and e.args[0] == ("c", True) for e in st.rs): rep.bad(f, short(f), "writes without marking the connection as busy", wr[0].line, st)
            if f.nm == "try_send_one_waiting_request":
                pops = [e for e in st.rs if e.o == Q and e.nm in DEL]
                if len(pops) != len(wr) : rep.bad(f, short(f), "removes an answer it does not write" if len(pops) > len(wr) else "keeps an answer it has written", None, st)
            for e in wr:
                for a in e.args:
                    for l, s in lams(a):
                        if l[1] not in by: continue
                        w, l2, outs = by[l[1]]; n += 1
                        for k2, s2, v2 in outs:
                            if k2 == "t": continue
                            if not any(x.nm == "=" and x.o == WR and x.args[0] == ("c", False) for x in s2.rs): rep.bad(f, w, "leaves the connection marked as busy", None, s2); continue
                            asked = any(has(t, Q) for t in s2.facts)
                            err = any(v3 is True and (t[0] == "p" or t[0] == "V" and t[1][0] in ("p", "L")) or v3 is True and "error_code" in repr(t) for t, v3 in truths(s2.facts))
                            busy = any(x.nm == "async_write" for x in s2.rs)
                            if not asked and not err and not busy and not any(x.nm == "try_send_one_waiting_request" for x in s2.rs): rep.bad(f, w, "does not send the answers which had to wait", None, s2)
        rep.ok(f, short(f), n0); ctx.count("writers")
    ctx.count("write_handlers", n); ctx.minimum("writers", 3); ctx.minimum("write_handlers", 2)

def stolen(ctx, P, rep, CL):
    for f in insts(P, lambda f: f.file.endswith(CL) and (f.cls or "").endswith("stealable_job") and f.nm in ("load", "operator()")):
        n0 = rep.n
        r = T(); eng = Engine(P, r, maxsteps=600000)
        outs = ctx.run_engine(eng, f)
        for k, st, v in outs:
            if k == "t": continue
            calls_ = [e for e in st.rs if e.nm == "operator()" and e.o is not None]
            d = [e for e in calls_ if fields(e.o, "m_done")]; x = [e for e in calls_ if fields(e.o, "m_executor")]
            if f.nm == "load":
                if len(d) != 1: rep.bad(f, short(f), "answers %d times" % len(d), None, st)
                ids = [v for loc, v in st.mem.items() if loc[0] == "F" and loc[2] == "m_task_id"]
                if not any(fields(t, "m_response") for t in ids): rep.bad(f, short(f), "answers without the id of the job", None, st)
            else:
                em = [v2 for t, v2 in st.facts.items() if t[0] == "call" and t[1] == "empty" and fields(t, "m_task")]
                want = 0 if em and em[0] is True else 1
                if len(x) != want: rep.bad(f, short(f), "executes a received job %d times" % len(x), None, st)
        rep.ok(f, short(f), n0); ctx.count("stolen")
    ctx.minimum("stolen", 2)
