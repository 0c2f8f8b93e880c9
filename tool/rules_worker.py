"""Worker loops: C01 C02 C03 C04 C06 C08 C09 - typestate over every thread entry function."""
from engine import *
import os
from core import Broken

JT = "boost::asynchronous::job_traits::"
STD = ("sub", "std::exception"); INT = ("T", "boost::thread_interrupted", None); SHUT = ("T", "boost::asynchronous::detail::shutdown_exception", None)
NS = "boost::asynchronous::"

def is_fnref(e):
    if e and e["k"] == "un" and e["op"] == "&": e = e["e"]
    return e if e and e["k"] == "ref" and e.get("dk") == "fn" and "f" in e else None

def thread_entries(P, job=None):
    """functions handed to a thread: referenced by address in an argument of create_thread / a boost::thread constructor"""
    res = {}
    for f in P.fns:
        if f.kind == "pattern" or not f.b: continue
        if f.file.startswith("/"): continue
        for e in fn_exprs(f):
            if (e["k"] == "call" and e.get("nm") in ("create_thread",)) or (e["k"] == "ctor" and e["cls"] == "boost::thread") or (e["k"] == "new" and e["nt"].startswith("boost::thread")):
                for a in walk(e):
                    r = is_fnref(a)
                    if r is not None and a["k"] == "un":
                        g = P.callee(f.tu, r)
                        if g is not None and g.b: res.setdefault(g.uid, (g, []))[1].append((f, e, a))
            # bind objects kept in a variable first
        for e in fn_exprs(f):
            if e["k"] == "call" and e.get("nm") in ("bind",):
                for a in e["a"]:
                    r = is_fnref(a)
                    if r is not None:
                        g = P.callee(f.tu, r)
                        if g is not None and g.b and any(x["k"] == "call" and x.get("nm") == "create_thread" for x in fn_exprs(f)): res.setdefault(g.uid, (g, []))
    ps = {g.p for g, _ in res.values()}
    return [f for f in P.fns if f.p in ps and f.kind != "pattern" and f.b]

# token: (id, kind, executed, started, tid, current, running, finished, recorded, failed, outcome)
class Tok(tuple):
    F = ("id", "kind", "ex", "started", "tid", "cur", "fin", "rec", "failed", "out", "slot")
    def __getattr__(self, n):
        try: return self[Tok.F.index(n)]
        except ValueError: raise AttributeError(n)
    def set(self, **kw):
        l = list(self)
        for k, v in kw.items(): l[Tok.F.index(k)] = v
        return Tok(l)

class RS(tuple):
    F = ("toks", "sd", "last", "ownempty", "slots", "stop", "self_", "tss", "conts", "released", "curidx", "caught", "steps")
    def __getattr__(self, n):
        try: return self[RS.F.index(n)]
        except ValueError: raise AttributeError(n)
    def set(self, **kw):
        l = list(self)
        for k, v in kw.items(): l[RS.F.index(k)] = v
        return RS(l)

JOBTYPES = ("any_callable", "any_loggable", "any_serializable", "any_continuation")
def jobtype(t):
    t = t.replace("const ", "").rstrip("&")
    for j in JOBTYPES:
        if (NS + j) in t and not t.startswith("std::"): return j
    return None

class WorkerRule(Rule):
    max_inline = 8
    def __init__(self, ctx, root, want, logging, private_plain):
        self.ctx = ctx; self.root = root; self.want = want; self.logging = logging; self.private_plain = private_plain
        self.seen = {"pop": set(), "exec": set(), "steal": set(), "slot": set()}
    def init(self): return RS(((), False, "none", False, (), False, False, False, False, False, None, "", 0))
    def bad(self, rule, line, msg, st):
        if rule in self.want:
            self.ctx.bad(rule, self.root.where(line), msg + " (worker of %s)" % self.root.cls.split("::")[-1], key="%s|%s|%s" % (rule, self.root.cls.split("::")[-1], msg), trace=st.trace)
    # ---- tokens
    def tok(self, st, v):
        if isinstance(v, tuple) and v and v[0] == "job":
            for t in st.rs.toks:
                if t.id == v: return t
        return None
    def put(self, st, tok):
        toks = tuple(t for t in st.rs.toks if t.id != tok.id)
        done = tok.ex and (tok.kind == "private" or not self.logging or (tok.fin and tok.rec == 1 and tok.cur is None and (tok.out != "threw" or tok.failed) and (tok.out != "returned" or not tok.failed)))
        if not done: toks += (tok,)
        return st.cp(rs=st.rs.set(toks=toks))
    def settle(self, st, line, where):
        """all tokens must have been dealt with"""
        for t in st.rs.toks:
            if t.ex == 0:
                self.bad("C01", line, "a job taken from a queue is not executed before %s" % where, st)
            elif t.kind == "user" and self.logging and t.ex:
                intr = t.out == "interrupted"
                if not t.fin: self.bad("C03", line, "a job that ended (%s) gets no finish time before %s" % (t.out, where), st)
                if t.rec == 0: self.bad("C03", line, "a job that ended (%s) leaves no diagnostics record before %s" % (t.out, where), st)
                if t.cur: self.bad("C03", line, "a job that ended (%s) is still shown as current at %s" % (t.out, where), st)
                if t.out == "threw" and not t.failed: self.bad("C03", line, "a job that threw is not marked failed before %s" % where, st)
                if t.out == "returned" and t.failed: self.bad("C03", line, "a job that returned is marked failed", st)
        if st.rs.slots: self.bad("C09", line, "a slot is still taken at %s" % where, st)
        return st.cp(rs=st.rs.set(toks=()))
    def obtain(self, eng, st, c, steal):
        """split on the result of a queue operation"""
        argt = c.node["a"][0].get("t", "") if c.node["a"] else ""
        jt = jobtype(argt)
        private = self.private_plain and jt == "any_callable"
        kind = "private" if private else "user"
        self.seen["steal" if steal else "pop"].add((c.fn.qn, c.line, kind))
        dest = c.locs[0]
        st = st.ev(c.line, "%s(%s)" % (c.nm, pe(c.node["a"][0]) if c.node["a"] else ""))
        if self.logging or True:
            for t in st.rs.toks:
                if t.ex == 0: self.bad("C01", c.line, "a job that was taken and not yet executed is dropped for another queue access", st)
        if not private:
            idx = find_terms(c.o or (), lambda t: t and t[0] == "I")
            if steal:
                if not st.rs.ownempty: self.bad("C08", c.line, "steals from another queue without having found its own queue empty in this step", st)
            else:
                for t in idx:
                    ix = t[2]
                    if not (ix[0] == "p" or self.slotcls): self.bad("C08", c.line, "pops from a queue selected by something else than the worker's own index", st)
            if self.slotcls and not steal:
                base = [t for t in find_terms(c.o or (), lambda t: t and t[0] == "F" and t[2].startswith("m_queue"))]
                ok = any(b[1] in st.rs.slots for b in base)
                if not ok: self.bad("C09", c.line, "a job is popped from a slot this thread has not taken", st);
        st = self.settle(st, c.line, "the next queue access")if False else self.settle_done(st, c.line)
        v = ("job", c.site)
        # moved-from/old copies of the token of the same site
        got = eng.storeloc(st, dest, v, c.line) if dest is not None else st
        slot = None
        if self.slotcls and st.rs.slots: slot = st.rs.slots[0]
        got = self.put(got, Tok((v, kind, 0, False, False, None, False, 0, False, None, slot)))
        last = got.rs.last if private else "got"
        got = got.cp(rs=got.rs.set(last=last, ownempty=False if not private else got.rs.ownempty)).ev(c.line, "%s -> job obtained" % c.nm)
        no = st.cp(rs=st.rs.set(last=st.rs.last if private else "empty", ownempty=True if (not private and not steal) else st.rs.ownempty)).ev(c.line, "%s -> nothing" % c.nm)
        return [(got, ("c", True)), (no, ("c", False))]
    def settle_done(self, st, line):
        """tokens of earlier steps are checked and forgotten at the next queue access; not yet executed ones were reported"""
        slots = st.rs.slots
        st2 = st.cp(rs=st.rs.set(slots=() if not self.slotcls else slots))
        if self.slotcls:
            # own slot of this access stays taken
            st2 = st.cp(rs=st.rs.set(slots=()))
            st2 = self.settle(st2, line, "the next queue access")
            return st2.cp(rs=st2.rs.set(slots=slots))
        return self.settle(st2, line, "the next queue access")
    slotcls = False
    def call(self, eng, st, c):
        nm, qn = c.nm, c.qn
        if c.isctor: return None
        if nm in ("try_pop", "try_steal") and len(c.args) == 1: return self.obtain(eng, st, c, nm == "try_steal")
        if nm == "poll_one" or nm == "run_one":
            st = st.ev(c.line, nm)
            for x in (STD, INT): eng.throw_(st, x)
            eng.throw_(st.cp(rs=st.rs.set(last="empty")), SHUT)
            self.seen["exec"].add((c.fn.qn, c.line))
            return [(st, ("c", 1)), (st.cp(rs=st.rs.set(ownempty=True)), ("c", 0))]
        if nm == "operator()" and c.o is not None:
            ot = c.node["o"].get("t", "") if c.node.get("o") else ""
            jt = jobtype(ot)
            t = self.tok(st, c.oval)
            if t is not None: return self.execute(eng, st, c, t)
            if jt == "any_continuation":
                st = st.ev(c.line, "runs a ready continuation")
                for x in (STD, INT): eng.throw_(st, x)
                return [(st, ("c", None))]
            if jt is not None:
                v = c.oval
                vv = v[1] if v[0] == "moved" else v
                if v[0] == "moved" and self.tok(st, vv) is not None:
                    self.bad("C01", c.line, "executes a job object that was moved away", st)
                elif v[0] in ("uninit", "obj") or (v[0] == "V" and v[1][0] == "L" and v[1][1] == c.frame.id):
                    self.bad("C01", c.line, "executes a job object no job was obtained into", st)
                elif vv[0] == "job":
                    self.bad("C01", c.line, "executes a job a second time", st)
                st = st.ev(c.line, "runs a callable")
                for x in (STD, INT): eng.throw_(st, x)
                return [(st, ("c", None))]
            return None
        if qn.startswith(JT):
            return self.traits(eng, st, c)
        if nm in ("compare_exchange_strong", "compare_exchange_weak", "exchange", "test_and_set") and c.o is not None and c.o[0] == "F":
            return self.cas(eng, st, c)
        if c.o is not None and c.o[0] == "F" and c.o[2] == self.slotfield and nm in ("operator=", "store", "clear"):
            v = c.args[0] if c.args else ("c", False)
            return self.slot_store(eng, st, c, v)
        if nm == "interruption_point":
            eng.throw_(st.ev(c.line, nm), INT); return [(st, ("c", None))]
        if nm == "reset" and c.o is not None and "m_self_thread" in repr(c.o):
            return [(st.cp(rs=st.rs.set(self_=True, released=False)), ("c", None))]
        if nm == "release" and c.o is not None and "m_self_thread" in repr(c.o):
            return [(st.cp(rs=st.rs.set(released=True)), ("r", c.site, "release"))]
        if nm == "get_thread_scheduler" and len(c.args) >= 2:
            return [(st.cp(rs=st.rs.set(tss=True)), ("r", c.site, nm))]
        if nm == "get_continuations" and len(c.args) >= 2:
            return [(st.cp(rs=st.rs.set(conts=True)), ("LOC", ("G", "waiting")))]
        # job handed on (e.g. to a server): counts as execution by delegation
        for i, v in enumerate(c.args):
            t = self.tok(st, v)
            if t is not None and nm not in ("move", "forward") and not c.isctor and c.callee is not None and nm == "add_task" or (t is not None and nm in ("add_task", "post")):
                self.seen["exec"].add((c.fn.qn, c.line))
                if t.ex: self.bad("C01", c.line, "hands a job on a second time", st)
                st2 = self.put(st, t.set(ex=1, out="returned"))
                return [(st2.ev(c.line, "hands the job to " + nm), ("r", c.site, nm))]
        return None
    slotfield = None
    def inline(self, eng, fn, c):
        f = fn.file
        if "cpu_load" in f or f.startswith("queue/") or "job_traits" in f or "tss_scheduler" in f or "scheduler/detail/" in f and "policy" not in f: return "closer" in f
        if f.startswith(("any_", "scheduler_shared_proxy", "callable_any", "diagnostics/", "scheduler_diagnostics", "post", "detail/")): return False
        return True
    def may_throw(self, eng, st, c): return None
    def execute(self, eng, st, c, t):
        self.seen["exec"].add((c.fn.qn, c.line))
        if t.ex: self.bad("C01", c.line, "executes a job a second time", st)
        if t.kind == "user":
            if not (st.rs.self_ and st.rs.tss and st.rs.conts):
                miss = [n for n, v in (("its own thread handle", st.rs.self_), ("its scheduler", st.rs.tss), ("its continuation list", st.rs.conts)) if not v]
                self.bad("C06", c.line, "a job runs before the worker registered " + ", ".join(miss), st)
            if self.logging:
                if not t.started: self.bad("C03", c.line, "a job runs without its start time having been recorded", st)
                if not t.tid: self.bad("C03", c.line, "a job runs without its executing thread having been recorded", st)
                if t.cur is None: self.bad("C03", c.line, "a job runs without being shown as current", st)
                if t.fin or t.rec: self.bad("C03", c.line, "a job is recorded as finished before it runs", st)
            if self.slotcls:
                if not st.rs.slots: self.bad("C09", c.line, "a job of a slot runs while the slot is not taken", st)
        st = st.ev(c.line, "runs the job")
        outs = []
        if t.kind == "private":
            eng.throw_(self.put(st, t.set(ex=1, out="threw")), STD)
            eng.throw_(self.put(st, t.set(ex=1, out="interrupted")), INT)
            eng.throw_(self.put(st, t.set(ex=1, out="returned")), SHUT)
        else:
            eng.throw_(self.put(st, t.set(ex=1, out="threw")), STD)
            eng.throw_(self.put(st, t.set(ex=1, out="interrupted")), INT)
        return [(self.put(st, t.set(ex=1, out="returned")), ("c", None))]
    def traits(self, eng, st, c):
        nm = c.nm
        toks = [self.tok(st, v) for v in c.args]
        t = next((x for x in toks if x is not None), None)
        st = st.ev(c.line, nm)
        if nm == "reset_current_diagnostic":
            idx = c.args[0]
            for t in st.rs.toks:
                if t.cur is not None and t.cur == idx:
                    if t.ex == 0: self.bad("C03", c.line, "a job stops being shown as current before it ran", st)
                    st = self.put(st, t.set(cur=None))
            return [(st, ("c", None))]
        if t is None:
            if self.logging and any(isinstance(v, tuple) and v and (v[0] == "job" or v[0] == "moved" and v[1][0] == "job") for v in c.args):
                if nm == "add_diagnostic": self.bad("C03", c.line, "a second record is stored for one job", st)
                elif nm == "set_failed": self.bad("C03", c.line, "a job is marked failed after its record was stored", st)
                elif nm in ("add_current_diagnostic", "set_finished_time", "set_started_time"): self.bad("C03", c.line, "%s after the job's record was stored" % nm, st)
            return [(st, ("r", c.site, nm))]
        if nm == "set_started_time":
            if t.ex: self.bad("C03", c.line, "start time is recorded after the job ran", st)
            t = t.set(started=True)
        elif nm == "set_executing_thread_id": t = t.set(tid=True)
        elif nm == "add_current_diagnostic": t = t.set(cur=c.args[0])
        elif nm == "set_finished_time":
            if not t.ex and self.logging: self.bad("C03", c.line, "finish time is recorded before the job ran", st)
            t = t.set(fin=True)
        elif nm == "set_failed":
            if t.rec: self.bad("C03", c.line, "a job is marked failed after its record was stored", st)
            if t.out == "returned" or not t.ex: self.bad("C03", c.line, "a job that did not throw is marked failed", st)
            t = t.set(failed=True)
        elif nm == "add_diagnostic":
            if not t.ex: self.bad("C03", c.line, "a record is stored before the job ran", st)
            if not t.fin: self.bad("C03", c.line, "a record is stored before its finish time is set", st)
            if t.rec: self.bad("C03", c.line, "a second record is stored for one job", st)
            t = t.set(rec=t.rec + 1)
        st = self.put(st, t)
        return [(st, ("c", None))]
    # ---- slots
    def cas(self, eng, st, c):
        slot = c.o[1]; self.slotfield = c.o[2]
        self.seen["slot"].add((c.fn.qn, c.line))
        if c.nm.startswith("compare") and len(c.args) >= 2:
            if c.args[0] != ("c", False) or c.args[1] != ("c", True):
                self.bad("C09", c.line, "the slot flag is not switched from free to taken", st)
            got = st.cp(rs=st.rs.set(slots=st.rs.slots + (slot,)))
            if st.rs.slots: self.bad("C09", c.line, "a further slot is taken while one is still taken", st)
            no = st
            no = no.cp(rs=no.rs.set(last="empty"))     # another thread serves this slot and drains it itself
            if c.locs[0] is not None: no = eng.storeloc(no, c.locs[0], ("c", True), c.line)
            return [(got.ev(c.line, "slot taken"), ("c", True)), (no.ev(c.line, "slot busy"), ("c", False))]
        # exchange / test_and_set: old value tells
        if c.nm == "exchange" and c.args[:1] == (("c", True),) or c.nm == "test_and_set":
            got = st.cp(rs=st.rs.set(slots=st.rs.slots + (slot,)))
            return [(got, ("c", False)), (st, ("c", True))]
        return self.slot_store(eng, st, c, c.args[0])
    def slot_store(self, eng, st, c, v):
        if v == ("c", False):
            slot = c.o[1]
            if slot not in st.rs.slots: self.bad("C09", c.line, "a slot is released which this thread has not taken", st)
            for t in st.rs.toks:
                if t.ex == 0: self.bad("C09", c.line, "a slot is released before its job ran", st)
            st = st.cp(rs=st.rs.set(slots=tuple(s for s in st.rs.slots if s != slot))).ev(c.line, "slot released")
        else: self.bad("C09", c.line, "a slot is marked taken without checking that it is free", st)
        return [(st, v)]
    def branch(self, eng, st, term, truth):
        if self.slotcls and not truth and term[0] == "bin" and term[1] in ("<", "==", "!=") and ("c", 0) in term[2:4] and find_terms(term, lambda t: t and t[0] == "r" and len(t) > 2 and t[2] == "size"): st = st.cp(rs=st.rs.set(last="noslot"))
        if term[0] == "r" and term[2] == "operator()" and not truth: return st.cp(rs=st.rs.set(stop=True))
        if term[0] == "bin" and not truth:
            for t in find_terms(term, lambda t: t and t[0] == "r" and len(t) > 2 and t[2] == "operator()"): return st.cp(rs=st.rs.set(stop=True))
        return st

class WorkerEngine(Engine):
    """notes when the termination request has been thrown; a job's own exceptions are never the termination request"""
    def matches(self, exc, h):
        if exc == STD and (h.get("t") or "").endswith("shutdown_exception"): return None
        return super().matches(exc, h)
    def throw_(self, st, exc, line=None):
        if exc[0] == "T" and exc[1].endswith("shutdown_exception"): st = st.cp(rs=st.rs.set(sd=True, last="none"))
        super().throw_(st, exc, line)

POOLS = ("single_thread_scheduler", "threadpool_scheduler", "multiqueue_threadpool_scheduler", "stealing_threadpool_scheduler",
         "stealing_multiqueue_threadpool_scheduler", "multiple_thread_scheduler", "io_threadpool_scheduler")
STEALERS = ("multiqueue_threadpool_scheduler", "stealing_threadpool_scheduler", "stealing_multiqueue_threadpool_scheduler", "asio_scheduler", "tcp_server_scheduler")

def analyse(ctx, want):
    P = ctx.need(["sched", "tcp"])
    ents = thread_entries(P)
    byc = {}
    for g in ents:
        c = (g.cls or "").split("::")[-1]
        if c in POOLS:
            if "any_loggable" not in g.ct: continue
        elif c not in ("asio_scheduler", "tcp_server_scheduler"): continue
        byc.setdefault((c, g.qn), []).append(g)
    classes = {c for c, q in byc}
    missing = [c for c in POOLS + ("asio_scheduler", "tcp_server_scheduler") if c not in classes]
    if missing: raise Broken("no worker loop found for " + ", ".join(missing))
    pops = steals = execs = slots = 0
    for (c, q), l in sorted(byc.items()):
        for g in l:
            logging = c in POOLS
            r = WorkerRule(ctx, g, want, logging, c != "asio_scheduler")
            r.slotcls = c == "multiple_thread_scheduler"
            if r.slotcls: r.slotfield = "m_taken"
            eng = WorkerEngine(P, r, maxsteps=3000000)
            outs = ctx.run_engine(eng, g)
            if not r.seen["pop"] and c not in ("asio_scheduler",): raise Broken("no queue access found in worker %s" % g)
            if not r.seen["exec"]: raise Broken("no job execution found in worker %s" % g)
            ctx.count("workers"); ctx.count("queue_pops", len(r.seen["pop"])); ctx.count("queue_steals", len(r.seen["steal"])); ctx.count("job_executions", len(r.seen["exec"])); ctx.count("slot_takes", len(r.seen["slot"]))
            ctx.count("exit_states", len(outs))
            n0 = len(ctx.violations)
            for k, st, v in outs:
                if k == "t":
                    if v in (STD, INT) or v[0] == "any": r.bad("C02", None, "an exception (%s) leaves the worker" % v[1].split("::")[-1], st)
                    elif v[1].endswith("shutdown_exception"): r.bad("C04", None, "the termination request leaves the worker as an exception", st)
                    else: r.bad("C02", None, "an exception (%s) leaves the worker" % (v[1] if len(v) > 1 else v[0]), st)
                    continue
                line = st.trace[-1][0] if st.trace else None
                if not st.rs.sd and not st.rs.stop: r.bad("C02", line, "the worker ends without having been asked to", st)
                r.settle(st, line, "the end of the worker")
                if st.rs.sd:
                    if c in POOLS and st.rs.last not in ("empty", "noslot"): r.bad("C04", line, "the worker ends on shutdown although its last queue access still delivered a job (or none was made)", st)
                    if not st.rs.released and c != "tcp_server_scheduler" and not st.rs.stop: r.bad("C04", line, "the worker ends on shutdown without releasing its thread handle", st)
            if not any(st.rs.sd for k, st, v in outs if k != "t") and not any(st.rs.stop for k, st, v in outs):
                r.bad("C04", None, "the worker never ends after a termination request", State(rs=r.init()))
            if c not in STEALERS and r.seen["steal"]: r.bad("C08", sorted(r.seen["steal"])[0][1], "a pool which does not steal steals", State(rs=r.init()))
            for w in want:
                if len(ctx.violations) == n0:
                    for k in ("pop", "steal", "exec", "slot"):
                        for x in sorted(r.seen[k]): ctx.ok(w, g.where(x[1]), "%s of %s satisfies the automaton on all paths" % (k, g.qn.split("asynchronous::")[-1]))
                    ctx.ok(w, g.where(), "all %d exits of worker %s (%s)" % (len(outs), g.qn.split("asynchronous::")[-1], g.ct.split("<")[0].split("::")[-1]))
    ctx.minimum("workers", 10); ctx.minimum("queue_pops", 18); ctx.minimum("queue_steals", 6); ctx.minimum("job_executions", 18); ctx.minimum("slot_takes", 1)
