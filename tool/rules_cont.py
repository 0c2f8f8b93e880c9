"""C22: continuations complete exactly once, after all of their subtasks, with each result in its slot."""
import re
from engine import *
from core import Broken
from ir import walk_stmt, walk, fn_exprs
import deliver
from deliver import ANY, root
from sym import THIS, F, V, strip
FILE = "detail/continuation_impl.hpp"

# ------------------------------------------------------------------ linear forms over one counter
def lin(t):
    """coefficients of a term: {atom: n}, with the constant under None"""
    t = strip(t)
    if isinstance(t, tuple) and t:
        if t[0] == "c" and isinstance(t[1], int) and not isinstance(t[1], bool): return {None: t[1]}
        if t[0] == "bin" and t[1] in ("+", "-"):
            a, b = lin(t[2]), lin(t[3]); r = dict(a)
            for k, n in b.items(): r[k] = r.get(k, 0) + (n if t[1] == "+" else -n)
            return {k: n for k, n in r.items() if n}
        if t[0] == "cnt" and t[1] == "old": return {("cnt", "new"): 1, None: -1}
    return {t: 1}

class Count(Rule):
    """done()/on_done(): one increment, completion iff it was the last expected one"""
    max_inline = 4
    def __init__(self, rep, flds):
        self.rep = rep; self.flds = flds
    def init(self): return (0, 0, False, None)            # increments, completions, m_done stored, last increment was last
    def inline(self, eng, fn, c): return fn.file == FILE
    def is_cnt(self, l): return l is not None and l[0] == "F" and l[2] in self.flds["cnt"]
    def store(self, eng, st, loc, val, line):
        n, d, s, w = st.rs
        if loc[0] == "F" and loc[2] in self.flds["done"]:
            if n: self.rep("the completion handler is set after it was counted: a task finishing in between calls an empty one", line, st)
            return st.cp(rs=(n, d, True, w))
        if self.is_cnt(loc): self.rep("the number of finished tasks is overwritten instead of incremented", line, st)
        return st
    def call(self, eng, st, c):
        n, d, s, w = st.rs
        if c.isctor: return None
        if self.is_cnt(c.o):
            v = None
            if c.nm == "operator++": v = ("cnt", "old" if c.args else "new")
            elif c.nm == "fetch_add" and c.args and strip(c.args[0]) == ("c", 1): v = ("cnt", "old")
            elif c.nm == "operator+=" and c.args and strip(c.args[0]) == ("c", 1): v = ("cnt", "new")
            elif c.nm in ("operator-conv", "load"):
                return [(st, ("r", c.site, "load", V(c.o)))] if n else [(st, ("cnt", "now"))]
            elif c.nm in ("operator==", "operator!=", "operator>=", "operator<", "operator>", "operator<="):
                return [(st, ("bin", c.nm[8:], ("cnt", "now"), strip(c.args[0])))]
            elif c.nm not in ("operator=", "store"): return None
            if v is None:
                self.rep("the number of finished tasks is changed by something else than an increment by one (%s)" % c.nm, c.line, st); v = ("r", c.site, c.nm)
            return [(st.cp(rs=(n + 1, d, s, w)).ev(c.line, "counts a finished task"), v)]
        if c.nm in ("operator==", "operator!=", "operator>=", "operator<", "operator>", "operator<=") and c.oval is not None and len(c.args) == 1:
            return [(st, ("bin", c.nm[8:], strip(c.oval), strip(c.args[0])))]
        if c.nm == "size" and not c.args and c.o is not None: return [(st, ("size", strip(c.o)))]
        if c.nm == "operator()" and c.o is not None and c.o[0] == "F" and c.o[2] in self.flds["done"]:
            if w is not True: self.rep("the completion handler is called although not all tasks and the handler are known to be there", c.line, st)
            if d: self.rep("the completion handler is called twice", c.line, st)
            if not (c.args and any(find_terms(a, lambda t: t and t[0] == "F" and len(t) == 3 and t[2] in self.flds["fut"]) for a in c.args)):
                self.rep("the completion handler is not given the results", c.line, st)
            return [(st.cp(rs=(n, d + 1, s, w)).ev(c.line, "completes"), ("c", None))]
        return None
    def last(self, t, truth, cnt):
        """is the branch 'this was the last one' (True/False), or None when it is about something else"""
        if t[0] == "un" and t[1] == "!": return self.last(t[2], not truth, cnt)
        if t[0] == "bin" and t[1] in ("==", "!=", ">=", "<", ">", "<="):
            d = lin(("bin", "-", t[2], t[3]))
            k = d.pop(("cnt", cnt), 0)
            if k == 0: return None
            one = d.pop(None, 0)
            if k < 0: op = {">=": "<=", "<=": ">=", "<": ">", ">": "<"}.get(t[1], t[1]); k, one, d = -k, -one, {a: -b for a, b in d.items()}
            else: op = t[1]
            size = len(d) == 1 and list(d.values()) == [-1] and self.size_atom(next(iter(d)))
            if k != 1 or not size: return "wrong"
            if op in ("==", "!=", ">=", "<"): ok = one == -1
            else: ok = one == 0; 
            if not ok: return "wrong"
            return truth if op in ("==", ">=", ">") else not truth
        return None
    def size_atom(self, a):
        if a[0] == "size": return a[1][0] == "F" and a[1][2] in self.flds["fut"]
        if a[0] == "name": return "tuple_size<Tuple>" in a[1] or "tuple_size_v<Tuple>" in a[1]
        if a[0] == "V": return self.size_atom(a[1])
        return False
    def branch(self, eng, st, t, truth):
        n, d, s, w = st.rs
        r = self.last(strip(t), truth, "new")
        if r == "wrong":
            self.rep("the number of finished tasks is compared with something else than the number of tasks and the handler", None, st); r = True
        if r is not None: return st.cp(rs=(n, d, s, r))
        return st
    def known(self, eng, st, t, truth): return self.branch(eng, st, t, truth)

def fields(P, cls):
    r = {"cnt": set(), "done": set(), "fut": set()}
    rec = [x for x in P.rec_by_qn.get(cls, ()) if x.get("fields")]
    if not rec: raise Broken("record %s not found" % cls)
    for f in rec[0]["fields"]:
        t = f["t"]
        if "atomic" in t: r["cnt"].add(f["n"])
        elif "function" in t: r["done"].add(f["n"])
        else: r["fut"].add(f["n"])
    if not all(r.values()): raise Broken("fields of %s not recognised: %s" % (cls, rec[0]["fields"]))
    return r

def counters(ctx, P):
    cl = sorted({f.cls for f in P.fns if f.b and f.file == FILE and f.nm == "done" and (f.cls or "").endswith("subtask_finished")})
    for cls in cl:
        flds = fields(P, cls); what = cls.split("detail::")[-1]
        fs = {}
        for f in P.fns:
            if f.b and f.cls == cls and f.kind == "pattern" or f.b and f.cls == cls and f.kind == "ctor" : fs.setdefault(f.nm, f)
        for nm in ("done", "on_done"):
            f = fs.get(nm)
            if f is None: raise Broken("%s::%s not found" % (cls, nm))
            rep = deliver.Reporter(ctx, "count", f, what + "::" + nm)
            r = Count(rep, flds); outs = ctx.run_engine(Engine(P, r), f); n0 = len(ctx.violations)
            for k, st, v in outs:
                n, d, s, w = st.rs
                if n != 1: rep("a path counts %d times" % n, None, st)
                if nm == "on_done" and not s: rep("a path does not keep the completion handler", None, st)
                if w is None: rep("a path does not check whether it was the last", None, st)
                elif w and d != 1: rep("the last one to finish does not call the completion handler", None, st)
            if len(ctx.violations) == n0: ctx.ok("count", f.where(), "%s::%s: increment then complete iff last" % (what, nm))
            ctx.count("completion_counters")
        f = fs.get("is_ready")
        if f is not None:
            rep = deliver.Reporter(ctx, "count", f, what + "::is_ready")
            r = Count(rep, flds)
            for k, st, v in ctx.run_engine(Engine(P, r), f):
                v = v[0] if k == "r" and v and isinstance(v[0], tuple) else v
                x = r.last(strip(v), True, "now") if v else None
                if x is not True: rep("does not tell whether all tasks finished", None, st)
            ctx.count("ready_tests")
        # the counter starts at zero, and there is one slot per task
        ctors = [f for f in P.fns if f.cls == cls and f.nm == "subtask_finished" and f.inits]
        if not ctors: raise Broken("constructor of %s not found" % cls)
        for f in ctors[:1]:
            rep = deliver.Reporter(ctx, "count", f, what + " constructor")
            for m in f.inits:
                if m.get("m") in flds["cnt"]:
                    i = [a for a in walk(m["i"]) if a["k"] == "lit"]
                    if any(a.get("v") for a in i): rep("the number of finished tasks does not start at zero", f.line)
                if m.get("m") in flds["fut"]:
                    if not any(a["k"] == "ref" and a["n"] == f.ps[0]["n"] for a in walk(m["i"])): rep("the results are not made from the constructor's argument", f.line)
            ctx.count("counter_inits")

# ------------------------------------------------------------------ registration of subtasks
class Reg(Rule):
    """per task: done functor set once, then posted or run exactly once; failures of a direct run delivered"""
    max_inline = 5
    def __init__(self, rep): self.rep = rep; self.regs = {}; self.inter = set()
    # rs: (events, interrupted, in loop, exception state)
    def init(self): return ((), None, False)
    def inline(self, eng, fn, c): return fn.file == FILE and fn.nm not in ("done", "construct", "continuation_ctor_helper", "continuation_ctor_helper_tuple")
    def ev(self, st, *e): 
        es, i, l = st.rs
        if len(es) > 14: return st
        return st.cp(rs=(es + (e,), i, l))
    def call(self, eng, st, c):
        if c.isctor: return None
        nm = c.nm
        if nm == "get" and len(c.args) == 1 and c.o is None and c.node.get("ta") and c.locs[0] is not None:
            return [(st, ("LOC", ("I", c.locs[0], ("ta", c.node["ta"].replace(" ", "")))))]
        if nm in ("set_done_func", "on_done") and len(c.args) == 1 and c.o is not None and eng.as_lambda(c.args[0]) is not None:
            lam = eng.as_lambda(c.args[0]); self.regs[lam] = st
            return [(self.ev(st, "reg", c.o, lam, nm, c.line).ev(c.line, nm), ("c", None))]
        if (nm.startswith("post") or nm.startswith("interruptible_post")) and len(c.args) >= 2:
            for a, l in zip(c.args, c.locs):
                if l is not None and any(e[0] == "reg" and e[1] == l for e in st.rs[0]) or a and a[0] == "V" and any(e[0] == "reg" and e[1] == a[1] for e in st.rs[0]):
                    return [(self.ev(st, "post", l or a[1], nm, c.line).ev(c.line, nm), ("r", c.site, nm))]
            return [(self.ev(st, "post?", c.line), ("r", c.site, nm))]
        if nm == "operator()" and c.o is not None and eng.as_lambda(c.oval) is None and not c.args:
            st = self.ev(st, "exec", c.o, c.line).ev(c.line, "runs the task")
            eng.throw_(self.ev(st, "threw", c.line).ev(c.line, "the task throws"), ANY)
            return [(st, ("c", None))]
        if nm == "done" and c.o is not None: return [(self.ev(st, "done", c.line).ev(c.line, "done"), ("c", None))]
        if nm == "is_interrupted": return [(st, ("r", c.site, "is_interrupted"))]
        if nm == "set_exception" and c.o is not None: return [(eng.storeloc(st, c.o, ("exp", "e", deliver.exc_term(tuple(c.args))), c.line), ("c", None))]
        if nm in ("construct", "continuation_ctor_helper", "continuation_ctor_helper_tuple"):
            args = tuple(a for a in c.args)
            return [(self.ev(st, "sub", nm, (c.node.get("ta") or "").replace(" ", ""), c.node.get("q", "").replace(" ", ""), tuple(trim(strip(a), 6) for a in args), c.line), ("c", None))]
        return None
    def store(self, eng, st, loc, val, line):
        if loc[0] == "I" and loc[1] and loc[1][0] == "F" and loc[1][2] == "m_futures": return self.ev(st, "slot", loc[2], trim(strip(val), 6), line)
        if loc[0] == "L" and isinstance(val, tuple) and val[0] == "inc" and val[2] == "++" or loc[0] == "L" and isinstance(val, tuple) and val[:1] == ("upd",) and val[2:] == ("+=", ("c", 1)): return self.ev(st, "inc", loc, line)
        return st
    def branch(self, eng, st, t, truth):
        es, i, l = st.rs
        if t[0] == "r" and t[2] == "is_interrupted": return st.cp(rs=(es, truth, l))
        return st
    def known(self, eng, st, t, truth): return self.branch(eng, st, t, truth)
    def loop_head(self, eng, st, node):
        es, i, l = st.rs
        if any(e[0] in ("reg", "post", "exec", "sub", "post?") for e in es): self.check(eng, es, i, st, loop=True)
        incs = {}
        for e in es:
            if e[0] == "inc": incs[e[1][1:3]] = incs.get(e[1][1:3], 0) + 1
        env = dict(st.env)
        for k, v in st.env.items():
            loc = k
            if v == ("c", 0) or isinstance(v, tuple) and v[:1] == ("r",) and len(v) > 2 and v[2] in ("begin", "cbegin"): env[k] = ("iter",) + k
            elif isinstance(v, tuple) and v[0] == "iter": env[k] = ("c0",) + k      # not advanced
            elif isinstance(v, tuple) and v[0] in ("inc", "upd") and incs.get(loc) == 1: env[k] = ("iter",) + k
        return st.cp(env=env, rs=((), None, True))
    def loop_exit(self, eng, st, node):
        es, i, l = st.rs
        return st.cp(rs=(es, i, False))
    def jump(self, eng, st, kind, line):
        if kind == "b": self.rep("the loop over the tasks is left early", line, st)
        return st
    def final(self, eng, st):
        es, i, l = st.rs
        if l: self.rep("returns before all tasks are registered", None, st)
        if es: self.check(eng, es, i, st)
    def check(self, eng, es, inter, st, loop=False):
        rep = self.rep
        regs = [e for e in es if e[0] == "reg"]
        acts = [e for e in es if e[0] in ("post", "exec")]
        if any(e[0] == "post?" for e in es): rep("posts something which has no done functor yet", None, st)
        if len(regs) != 1:
            if len(regs) or acts: rep("a task gets %d done functors on a path" % len(regs), None, st)
            return
        reg = regs[0]; task = reg[1]
        slot = self.slot(eng, reg, st)
        if slot is not None and not self.same_slot(task, slot, loop): rep("the result of a task is stored into the slot of another one", reg[4], st)
        nested = reg[3] == "on_done"
        if nested:
            if acts: rep("a nested continuation is posted or run as a task", reg[4], st)
            return
        if any(es.index(a) < es.index(reg) for a in acts): rep("a task is started before its done functor is set", acts[0][-1], st)
        if any(a[1] != task for a in acts): rep("another task than the registered one is started", acts[0][-1], st)
        if len(acts) > 1: rep("a task is started twice", acts[1][-1], st)
        if not acts and inter is not True: rep("a task is neither posted nor run although nothing was interrupted", None, st)
        after = es[es.index(acts[0]) + 1:] if acts else ()
        threw = any(e[0] == "threw" for e in after)
        slots = [e for e in after if e[0] == "slot"]; dones = [e for e in after if e[0] == "done"]
        if threw:
            if len(dones) != 1: rep("the failure of a directly run task is counted %d times" % len(dones), None, st)
            elif not [e for e in slots if after.index(e) < after.index(dones[0])]: rep("the failure of a directly run task is not stored before it is counted", None, st)
            for e in slots:
                if slot is not None and e[1] != slot: rep("the failure of a directly run task is stored into the slot of another one", e[3], st)
                x = find_terms(e[2], lambda t: t and t[0] == "exp")
                if not x or x[0][2] != "current": rep("the exception of a directly run task is lost", e[3], st)
        elif slots or dones: rep("a task is counted by the registration although its done functor does it", None, st)
    def same_slot(self, task, slot, loop):
        if slot[0] == "ta":
            if task[0] == "I" and task[2][0] == "ta": return task[2] == slot
            return slot == ("ta", "I")
        if slot[0] == "iter":
            if task[0] == "I": return task[2][0] == "each" or task[2] == slot
            return task[0] == "D" and bool(find_terms(task, lambda t: t and t[0] == "iter"))
        return False
    def slot(self, eng, reg, st):
        lam = reg[2]; r = Lam(self.rep, reg[4])
        old = eng.rule; eng.rule = r
        outs = eng.run_lambda(lam, State(rs=((), None, False)))
        eng.rule = old
        res = None
        for k, s, v in outs:
            es = s.rs[0]
            sl = [e for e in es if e[0] == "slot"]; dn = [e for e in es if e[0] == "done"]
            if len(dn) != 1: self.rep("a done functor counts its task %d times on a path" % len(dn), reg[4], s); continue
            if len(sl) != 1 or es.index(sl[0]) > es.index(dn[0]): self.rep("a done functor does not store the result before counting it", reg[4], s); continue
            node = eng.lams[lam[1]][0]
            p = node["ps"][0]["n"]
            if not mentions(sl[0][2], ("p", p)) and not find_terms(sl[0][2], lambda t: t and t[0] == "L" and node["ps"][0]["id"] in t): self.rep("a done functor stores something else than the result it got", reg[4], s)
            if res is not None and res != sl[0][1]: self.rep("a done functor stores into different slots", reg[4], s)
            res = sl[0][1]
        return res

class Lam(Reg):
    def __init__(self, rep, line): self.rep = rep; self.regs = {}
    def inline(self, eng, fn, c): return fn.file == FILE and fn.nm != "done"

def registrations(ctx, P):
    names = ("construct", "continuation_ctor_helper", "continuation_ctor_helper_tuple")
    fs = [f for f in P.fns if f.b and f.file == FILE and f.kind == "pattern" and f.nm in names and "callback_continuation" in (f.cls or "")]
    for f in fs:
        what = "%s %s(%s)" % (f.cls.split("detail::")[-1], f.nm, ",".join(p["n"] for p in f.ps))
        rep = deliver.Reporter(ctx, "register", f, what)
        r = Reg(rep); eng = Engine(P, r); n0 = len(ctx.violations)
        outs = ctx.run_engine(eng, f)
        direct = any(x["k"] == "call" and x.get("nm") in ("set_done_func", "on_done") for x in fn_exprs(f)) or bool(r.regs)
        for k, st, v in outs:
            if k == "t": rep("an exception of a task escapes", None, st); continue
            es = st.rs[0]
            subs_ = [e for e in es if e[0] == "sub"]
            st2 = st.cp(rs=(tuple(e for e in es if e[0] != "sub"), st.rs[1], st.rs[2]))
            if direct: r.final(eng, st2)
            con = [e for e in subs_ if e[1] == "construct"]; rec = [e for e in subs_ if e[1] != "construct"]
            last = f.ps[-1]; pack = last.get("pack")
            if not direct:
                if len(con) != 1: rep("registers its first task %d times" % len(con), None, st)
                for e in con:
                    if not re.search(r"(^|::)task_type_selector<I,", e[3]): rep("registers its task under another index than its own (%s)" % e[3], e[5], st)
                    task = f.ps[-2]["n"] if pack else last["n"]
                    if not (e[4] and root_p(e[4][-1]) == task): rep("registers another task than its own", e[5], st)
                    if not pack and e[4][4:5] != (("c", True),) and False: pass
                    if e[4][4:5] == (("c", True),) and pack: rep("marks a task as the last one although others follow", e[5], st)
                    if mentions(e[4], ("p", "m_finished")): pass
            need = pack or (f.nm.endswith("_tuple") and not is_last(f))
            if need:
                if len(rec) != 1: rep("does not go on with the remaining tasks once", None, st)
                for e in rec:
                    if e[2].split(",")[0] not in ("I+1", "(I+1)", "1+I"): rep("goes on with another index than the next one (%s)" % e[2], e[5], st)
                    if not (e[4] and root_p(e[4][-1]) == last["n"]): rep("goes on with something else than the remaining tasks", e[5], st)
                    if con and es.index(con[0]) < 0: pass
            elif rec: rep("goes on after the last task", rec[0][5], st)
        if len(ctx.violations) == n0: ctx.ok("register", f.where(), "%s: %d exits" % (what, len(outs)))
        ctx.count("registrations")

def is_last(f): return not any(x["k"] == "call" and x.get("nm") == f.nm for x in fn_exprs(f)) 

def root_p(t):
    """name of the parameter a term comes from"""
    t = strip(t)
    x = find_terms(t, lambda t: t and t[0] == "p")
    return x[0][1] if x else None

# ------------------------------------------------------------------ constructors: every task is handed on once
class Ctor(Rule):
    max_inline = 3
    HELP = ("continuation_ctor_helper", "continuation_ctor_helper_tuple")
    def __init__(self, rep): self.rep = rep
    def init(self): return (0, None, None, 0, (), None)          # helper calls, empty, valid, on_done calls, what, anything valid
    def inline(self, eng, fn, c): return fn.file == FILE and fn.nm not in self.HELP + ("on_done", "done")
    def call(self, eng, st, c):
        n, e, v, d, w, a = st.rs
        if c.isctor: return None
        if c.nm in self.HELP:
            ta = (c.node.get("ta") or "").replace(" ", "")
            if ta and ta.split(",")[0] != "0": self.rep("starts with another index than the first (%s)" % ta, c.line, st)
            if v is not True: self.rep("hands the tasks to a scheduler not found valid", c.line, st)
            return [(st.cp(rs=(n + 1, e, v, d, w + (trim(strip(c.args[-1]), 6),), a)).ev(c.line, c.nm), ("c", None))]
        if c.nm == "on_done": return [(st.cp(rs=(n, e, v, d + 1, w + (("done", trim(strip(c.args), 6)),), a)).ev(c.line, c.nm), ("c", None))]
        if c.nm == "is_valid" and not c.args: return [(st, ("r", c.site, "is_valid", trim(c.oval or ("?",), 4)))]
        return None
    def branch(self, eng, st, t, truth):
        n, e, v, d, w, a = st.rs
        if t[0] == "r" and t[2] == "is_valid": return st.cp(rs=(n, e, truth, d, w, truth or a))
        return st
    def known(self, eng, st, t, truth): return self.branch(eng, st, t, truth)

def ctors(ctx, P):
    for f in P.fns:
        if not (f.b and f.file == FILE and f.kind in ("pattern", "ctor") and f.nm in ("continuation", "callback_continuation", "callback_continuation_as_seq")): continue
        if not any(i.get("m") == "m_timeout" for i in f.inits) or len(f.ps) < 3: continue
        what = "%s constructor %s" % (f.nm, ",".join(p["n"] for p in f.ps))
        rep = deliver.Reporter(ctx, "ctor", f, what); n0 = len(ctx.violations)
        tasks = f.ps[-1]["n"] if f.ps[-1].get("pack") or f.nm != "continuation" else None
        func = [p["n"] for p in f.ps if p["n"] == "f"]
        outs = ctx.run_engine(Engine(P, Ctor(rep)), f)
        some = 0
        for k, st, v in outs:
            n, e, va, d, w, a = st.rs
            if k == "t": rep("throws", None, st); continue
            if tasks is None:
                if n: rep("hands on tasks it does not have", None, st)
                continue
            if n > 1: rep("hands its tasks on %d times" % n, None, st)
            if a and n != 1: rep("a scheduler is there, yet the tasks are not handed on", None, st)
            some += n
            hs = [x for x in w if x[0] != "done"]
            for x in hs:
                if root_p(x) not in (tasks,) and not wraps(f, x, tasks): rep("hands on something else than its tasks (%s)" % (root_p(x),), None, st)
            if func:
                if d != 1: rep("the completion handler is set %d times" % d, None, st)
                elif root_p([x for x in w if x[0] == "done"][0]) not in func: rep("sets another completion handler than the one it got", None, st)
        if tasks and not some: rep("never hands its tasks on", None)
        # the shared state is made for as many results as there are tasks
        for m in f.inits:
            if m.get("m") in ("m_finished", "m_futures"):
                ps = {a["n"] for a in walk(m["i"]) if a["k"] == "ref" and a["dk"] == "parm"}
                want = "t" if any(p["n"] == "t" for p in f.ps) else tasks
                if want and want not in ps: rep("the results are not made from its argument", f.line)
        if len(ctx.violations) == n0: ctx.ok("ctor", f.where(), what)
        ctx.count("constructors")

def wraps(f, x, tasks):
    """the local vector of wrappers filled from the parameter: one wrapper per element"""
    for s in stmts(f.b):
        if s[0] == "range" and any(a["k"] == "ref" and a["n"] == tasks for a in walk(s[3])):
            n = [a for e in walk_stmt(s[4]) for a in [e] if a["k"] == "call" and a.get("nm") in ("emplace_back", "push_back")]
            if len(n) == 1 and any(a["k"] == "ref" and a["n"] == s[2]["n"] for a in walk(n[0])): return True
    return bool(find_terms(x, lambda t: t and t[0] == "r"))and not find_terms(x, lambda t: t and t[0] == "p")

def stmts(s):
    from ir import stmt_exprs
    if not s: return
    yield s
    for x in stmt_exprs(s)[1]: yield from stmts(x)

# ------------------------------------------------------------------ future based continuations
class Ready(Rule):
    """is_ready / check_ready: true only when every future is ready, the work was interrupted or the time is over"""
    max_inline = 3
    def __init__(self, rep): self.rep = rep
    def init(self): return ((), False, 0, ())       # facts, in the loop, iterations left early, increments/recursions
    def inline(self, eng, fn, c): return fn.file == FILE and fn.nm not in ("check_ready",)
    def call(self, eng, st, c):
        f, l, b, es = st.rs
        if c.isctor: return None
        if c.nm == "get" and len(c.args) == 1 and c.o is None and c.node.get("ta") and c.locs[0] is not None:
            return [(st, ("LOC", ("I", c.locs[0], ("ta", c.node["ta"].replace(" ", "")))))]
        if c.nm in ("operator==", "operator!=", "operator>=", "operator<", "operator>", "operator<=", "operator-", "operator+") and c.oval is not None and len(c.args) == 1:
            return [(st, ("bin", c.nm[8:], strip(c.oval), strip(c.args[0])))]
        if c.nm in ("operator==", "operator!=", "operator>=", "operator<", "operator>", "operator<=", "operator-") and len(c.args) == 2:
            return [(st, ("bin", c.nm[8:], strip(c.args[0]), strip(c.args[1])))]
        if c.nm in ("is_ready", "is_interrupted", "count", "now") : return [(st, ("r", c.site, c.nm, strip(c.oval) if c.oval is not None else None) + tuple(strip(a) for a in c.args))]
        if c.nm == "operator-conv" and c.oval is not None: return [(st, c.oval)]
        if c.nm == "check_ready":
            ta = (c.node.get("ta") or "").replace(" ", "")
            return [(st.cp(rs=(f, l, b, es + (("rec", ta, tuple(trim(strip(a), 5) for a in c.args)),))), ("c", None))]
        if c.nm == "set_interrupted": return [(st, ("c", None))]
        return None
    def store(self, eng, st, loc, val, line):
        f, l, b, es = st.rs
        if len(es) < 12 and (loc[0] != "L" or isinstance(val, tuple) and val[0] in ("inc", "c") ): return st.cp(rs=(f, l, b, es + (("st", loc, trim(strip(val), 5)),)))
        return st
    def branch(self, eng, st, t, truth):
        f, l, b, es = st.rs
        x = (trim(strip(t), 9), truth)
        return st if x in f or len(f) > 12 else st.cp(rs=(f + (x,), l, b, es))
    def known(self, eng, st, t, truth): return self.branch(eng, st, t, truth)
    def loop_head(self, eng, st, node):
        f, l, b, es = st.rs
        if l: self.one(f, es, st)
        env = dict(st.env)
        incs = {}
        for e in es:
            if e[0] == "st" and e[1][0] == "L" and e[2][0] == "inc": incs[e[1][1:3]] = incs.get(e[1][1:3], 0) + 1
        for k, v in st.env.items():
            if v == ("c", 0) or isinstance(v, tuple) and v[:1] == ("r",) and len(v) > 2 and v[2] in ("begin", "cbegin"): env[k] = ("iter",) + k
            elif isinstance(v, tuple) and v[0] == "iter": env[k] = ("c0",) + k
            elif isinstance(v, tuple) and v[0] == "inc" and incs.get(k) == 1: env[k] = ("iter",) + k
        return st.cp(env=env, mem={k: v for k, v in st.mem.items() if k[0] != "I"}, facts={k: v for k, v in st.facts.items() if not self.item(strip(k))}, rs=(tuple(x for x in f if not self.item(x[0])), True, b, ()))
    def loop_exit(self, eng, st, node):
        f, l, b, es = st.rs
        return st.cp(rs=(f, False, b, es))
    def jump(self, eng, st, kind, line):
        f, l, b, es = st.rs
        return st.cp(rs=(f, l, b + 1, es)) if kind == "b" else st
    def item(self, t):
        """a fact about one future"""
        return t[0] == "r" and t[2] == "is_ready" and len(t) > 4 or t[0] == "V" and t[1][0] == "I" or t[0] in ("V",) and "ready_futures" in repr(t)
    def one(self, f, es, st):
        ok = [x for x, tr in f if tr and self.item(x)]
        if not ok: self.rep("a future is passed over without having been found ready", None, st); return
        for x in ok:
            if find_terms(x, lambda t: t and t[0] in ("c0", "inc")): self.rep("the futures and their marks are not advanced together", None, st)

def timed_out(f):
    """the facts of a path say that there is a time limit, and that it has passed"""
    cnt = el = False
    for t, tr in f:
        if t[0] == "r" and t[2] == "count" and "m_timeout" in repr(t): cnt = cnt or tr; continue
        if t[0] != "bin": continue
        op, a, b = t[1], t[2], t[3]
        if op in ("==", "!=", ">", "<") and ("count" in repr(t) or "zero" in repr(t)) and "m_timeout" in repr(t) and "m_start" not in repr(t): cnt = cnt or tr == (op != "==")
        if op in ("<=", ">"): op, a, b = {"<=": ">=", ">": "<"}[op], b, a
        # now op is < or >=
        if "m_timeout" in repr(b) and since_start(a) and (op, tr) in (("<", False), (">=", True)): el = True
        if "m_timeout" in repr(a) and since_start(b) and (op, tr) in (("<", True), (">=", False)): el = True
    return cnt and el
def since_start(t):
    x = find_terms(t, lambda t: t and t[0] == "bin" and t[1] == "-" and len(t) == 4)
    return any("now" in repr(y[2]) and "m_start" in repr(y[3]) for y in x)

def readiness(ctx, P):
    for f in P.fns:
        if not (f.b and f.file == FILE and f.kind == "pattern" and f.nm in ("is_ready", "check_ready") and not (f.cls or "").endswith("subtask_finished") and f.cls): continue
        what = "%s::%s" % (f.cls.split("detail::")[-1], f.nm)
        rep = deliver.Reporter(ctx, "ready", f, what); n0 = len(ctx.violations)
        r = Ready(rep); outs = ctx.run_engine(Engine(P, r), f); kinds = set()
        for k, st, v in outs:
            fa, l, b, es = st.rs
            val = v[0] if k == "r" and v and isinstance(v[0], tuple) else v
            val = strip(val) if isinstance(val, tuple) else val
            inter = any(tr and t[0] == "r" and t[2] == "is_interrupted" for t, tr in fa)
            if f.nm == "check_ready":
                if not f.b[2]: continue
                rec = [e for e in es if e[0] == "rec"]; no = [e for e in es if e[0] == "st" and e[2] == ("c", False)]
                ok = [t for t, tr in fa if tr and r.item(t)]
                if ok:
                    if len(rec) != 1: rep("does not go on after a ready future", None, st)
                    for e in rec:
                        if e[1].split(",")[0] not in ("I+1", "1+I"): rep("goes on with another future than the next one (%s)" % e[1], None, st)
                        incs = [x for x in es[:es.index(e)] if x[0] == "st" and x[2][0] == "inc"]
                        if len(incs) != 1: rep("the futures and their marks are not advanced together", None, st)
                    if no: rep("tells not ready although the future was found ready", None, st)
                    for t in ok:
                        if t[0] == "r":
                            ta = find_terms(t, lambda t: t and t[0] == "ta")
                            if ta and ta[0] != ("ta", "I"): rep("looks at another future than its own", None, st)
                else:
                    if not no: rep("does not tell that a future is not ready", None, st)
                continue
            if val == ("c", True):
                if inter: kinds.add("interrupted"); continue
                if timed_out(fa): kinds.add("timeout"); continue
                if any(isinstance(e, tuple) and e[0] == "rec" for e in es): kinds.add("all"); continue
                looped = f.cls.endswith("continuation_as_seq") and not f.cls.endswith("callback_continuation_as_seq")
                if looped and not l and not b: kinds.add("all"); continue
                rep("tells ready although the futures are not known to be ready, nothing was interrupted and no time is over", None, st)
            elif val == ("c", False):
                if not any(not tr and t[0] == "r" and t[2] == "is_ready" for t, tr in fa): rep("tells not ready although no future was found not ready", None, st)
                kinds.add("not")
            elif val and val[0] == "r" and val[2] == "is_ready": kinds.add("asked")
            else: kinds.add("all")
        if f.nm == "is_ready" and not kinds & {"all", "asked"}: rep("never tells that all futures are ready", None)
        if f.nm == "is_ready" and "continuation" in f.cls and "timeout" not in kinds: rep("does not tell ready when the time is over", None)
        if len(ctx.violations) == n0: ctx.ok("ready", f.where(), "%s: %d exits" % (what, len(outs)))
        ctx.count("readiness")

class PostAll(Rule):
    """helpers of the future based continuation: the first task is posted once, the others are handed on"""
    max_inline = 3
    def __init__(self, rep): self.rep = rep
    def init(self): return ((), (), None)
    def inline(self, eng, fn, c): return fn.file == FILE and fn.nm != "continuation_ctor_helper"
    def call(self, eng, st, c):
        p, r, i = st.rs
        if c.isctor: return None
        if c.nm.startswith(("post", "interruptible_post")) and len(c.args) >= 2: return [(st.cp(rs=(p + (root_p(c.args[1]),), r, i)).ev(c.line, c.nm), ("r", c.site, c.nm))]
        if c.nm == "continuation_ctor_helper": return [(st.cp(rs=(p, r + (root_p(c.args[-1]),), i)), ("c", None))]
        if c.nm == "is_interrupted": return [(st, ("r", c.site, "is_interrupted"))]
        return None
    def branch(self, eng, st, t, truth):
        if t[0] == "r" and t[2] == "is_interrupted": return st.cp(rs=st.rs[:2] + (truth,))
        return st
    def known(self, eng, st, t, truth): return self.branch(eng, st, t, truth)

class Calls(Rule):
    """operator(): the completion handler gets the futures once"""
    max_inline = 3
    def __init__(self, rep): self.rep = rep
    def init(self): return ((), ())
    def inline(self, eng, fn, c): return fn.file == FILE
    def call(self, eng, st, c):
        n, s = st.rs
        if c.isctor: return None
        if c.nm == "operator()" and c.o is not None and c.o[0] == "F": return [(st.cp(rs=(n + ((c.o[2], trim(strip(c.args), 5)),), s)), ("c", None))]
        return None
    def store(self, eng, st, loc, val, line):
        if loc[0] == "F": return st.cp(rs=(st.rs[0], st.rs[1] + ((loc[2], trim(strip(val), 5)),)))
        return st

def future_based(ctx, P):
    for f in P.fns:
        if not (f.b and f.file == FILE and f.kind == "pattern" and (f.cls or "").split("::")[-1] in ("continuation", "continuation_as_seq")): continue
        what = "%s::%s" % (f.cls.split("detail::")[-1], f.nm); rep = deliver.Reporter(ctx, "futures", f, what + "(%s)" % ",".join(p["n"] for p in f.ps)); n0 = len(ctx.violations)
        if f.nm == "continuation_ctor_helper":
            pack = f.ps[-1].get("pack"); task = f.ps[-2]["n"] if pack else f.ps[-1]["n"]
            for k, st, v in ctx.run_engine(Engine(P, PostAll(rep)), f):
                p, r, i = st.rs
                if any(x != task for x in p): rep("posts something else than its task", None, st)
                if len(p) > 1: rep("posts its task twice", None, st)
                if not p and i is not True: rep("does not post its task although nothing was interrupted", None, st)
                if pack and r != (f.ps[-1]["n"],) or not pack and r: rep("does not go on with the remaining tasks once", None, st)
        elif f.nm == "operator()":
            for k, st, v in ctx.run_engine(Engine(P, Calls(rep)), f):
                n, s = st.rs
                if [x for x, a in n] != ["m_done"] or not find_terms(n[0][1], lambda t: t and t[0] == "F" and len(t) == 3 and t[2] == "m_futures"): rep("does not give the futures to the completion handler once", None, st)
        elif f.nm == "on_done":
            for k, st, v in ctx.run_engine(Engine(P, Calls(rep)), f):
                n, s = st.rs
                if n or [x for x, a in s if x == "m_done"] != ["m_done"] or not all(root_p(a) == f.ps[0]["n"] for x, a in s if x == "m_done"): rep("does not keep the completion handler", None, st)
        else: continue
        if len(ctx.violations) == n0: ctx.ok("futures", f.where(), what)
        ctx.count("future_functions")

# ------------------------------------------------------------------ the functions creating continuations
class Create(Rule):
    max_inline = 4
    def __init__(self, rep): self.rep = rep
    def init(self): return ()
    def inline(self, eng, fn, c): return fn.file == "continuation_task.hpp" and fn.nm != "build"
    def call(self, eng, st, c):
        if c.nm == "on_done" and c.o is not None:
            if isinstance(c.oval, tuple) and c.oval[:1] == ("moved",): self.rep("sets the completion handler after the continuation was moved away", c.line, st)
            return [(st.cp(rs=st.rs + (("on_done", strip(c.o), trim(strip(c.args), 6)),)), ("c", None))]
        if not c.isctor and c.nm.startswith(("emplace", "push")) and c.oval is not None and "get_continuations" in repr(c.oval): return [(st.cp(rs=st.rs + (("reg", c.nm, trim(strip(c.args), 12)),)), ("c", None))]
        if c.nm == "get_interrupt_state": return [(st, ("state",))]
        return None
    def store(self, eng, st, loc, val, line):
        if loc[0] == "L" and isinstance(val, tuple) and val[:1] == ("obj",) and len(val) > 3 and strip(val[2]) == ("state",): return st.cp(rs=st.rs + (("cont", loc, trim(strip(val), 12)),))
        return st

def creators(ctx, P):
    for f in P.fns:
        if not (f.b and f.file == "continuation_task.hpp" and f.kind == "pattern" and not f.cls and "continuation" in f.nm and f.nm.startswith(("create_", "top_level_"))): continue
        what = "%s(%s)" % (f.nm, ",".join(p["n"] + ("..." if p.get("pack") else "") for p in f.ps)); n0 = len(ctx.violations)
        rep = deliver.Reporter(ctx, "create", f, what)
        names = [p["n"] for p in f.ps]; tasks = names[-1]; cb = "callback" in f.nm
        for k, st, v in ctx.run_engine(Engine(P, Create(rep)), f):
            ev = st.rs; val = v[0] if k == "r" and v and isinstance(v[0], tuple) else v
            conts = [e for e in ev if e[0] == "cont"]
            cont = conts[0][2] if conts else strip(val) if val and isinstance(val, tuple) and val[:1] == ("obj",) else None
            if cont is None: raise Broken("continuation object of %s not recognised" % what)
            if len({e[2] for e in conts}) > 1: rep("makes %d continuations" % len(conts), None, st)
            args = cont[2:]
            tup = [a for a in args if made(a)]; rest = [a for a in args if not made(a)]
            pr = lambda a: {t[1] for t in find_terms(a, lambda t: t and t[0] == "p" and len(t) == 2)}
            if "timeout" in f.nm:
                if sum(1 for a in rest if pr(a) == {"d"}) != 1: rep("does not pass its time limit", None, st)
            elif not any(a[:1] == ("obj",) and "duration" in a[1] and a[2:] == (("c", 0),) for a in rest): rep("sets a time limit nobody asked for", None, st)
            if f.nm.startswith("create_"):
                direct = sum(1 for a in rest if pr(a) == {"on_done"}); later = [e for e in ev if e[0] == "on_done"]
                if any(pr(e[2]) != {"on_done"} for e in later) or direct + len(later) != 1: rep("sets the completion handler %d times" % (direct + len(later)), None, st)
                regs = [e for e in ev if e[0] == "reg"]
                if not cb:
                    if len(regs) != 1: rep("registers the continuation %d times with the worker" % len(regs), None, st)
                    elif later and ev.index(later[0]) > ev.index(regs[0]): rep("sets the completion handler after the continuation was moved away", None, st)
                    for e in regs:
                        if not find_terms(e[2], lambda t: t == ("state",) ): rep("registers something else than the continuation", None, st)
                elif len(regs) > 1: rep("registers the continuation %d times with the worker" % len(regs), None, st)
            pt = {"p": tasks}
            intup = any(tasks in pr(a) for a in tup); direct = sum(1 for a in rest if pr(a) == {tasks})
            if not tup and not any("tuple" in n for n in names): # a sequence
                if direct != 1: rep("does not pass its tasks", None, st)
            elif not cb and any(a[2] == "make_tuple" and not futs(a) for a in [find_terms(x, lambda t: t and t[0] == "r" and len(t) > 2 and t[2].startswith("make_"))[0] for x in tup]):
                if not intup: rep("does not wait for the futures it got", None, st)
            else:
                if direct != 1: rep("passes its tasks %d times" % direct, None, st)
                if tup and not intup: rep("makes the results of something else than its tasks", None, st)
                if not tup and not any(pr(a) and "tuple" in next(iter(pr(a))) for a in rest): rep("does not pass its results", None, st)
            pol = [a for a in args if a[0] == "c" and isinstance(a[1], str) and "post_all" in a[1]]
            if cb and "as_seq" not in cont_type(f):
                want = "post_all" if "force_post" in f.nm else "post_all_but_one"
                if [a[1].split("::")[-1] for a in pol] != [want]: rep("uses another posting policy (%s)" % pol, None, st)
            if f.nm.startswith("top_level_"):
                back = strip(val) if isinstance(val, tuple) else None
                if not (back and find_terms(back, lambda t: t == ("state",))): rep("does not return the continuation", None, st)
        if len(ctx.violations) == n0: ctx.ok("create", f.where(), what)
        ctx.count("creators")

def made(a): return bool(find_terms(a, lambda t: t and t[0] == "r" and len(t) > 2 and isinstance(t[2], str) and t[2] in ("make_future_tuple", "make_expected_tuple", "make_tuple")))
def futs(a): return bool(find_terms(a, lambda t: t and t[0] == "r" and len(t) > 2 and t[2] == "get_future"))
def cont_type(f):
    return " ".join(d["t"] for s in stmts(f.b) if s[0] == "decl" for d in s[2])

# ------------------------------------------------------------------ workers: ready continuations run once, the others stay
class Waiting(Rule):
    max_inline = 2
    def __init__(self, rep, lp): self.rep = rep; self.lp = lp; self.n = 0
    def init(self): return (None, 0, 0, 0, False, None)     # ready?, erased, called, advanced, in loop, element
    def inline(self, eng, fn, c): return c.frame.depth < 2 and fn.file == eng.root.file and any(x["k"] == "call" and x.get("nm") in ("is_ready", "erase") for x in fn_exprs(fn))
    def cur(self, t): return bool(find_terms(t, lambda x: x and x[0] in ("iter", "elem", "next", "nextpp") or x and x[0] == "each"))
    def call(self, eng, st, c):
        rd, er, ca, ad, l, el = st.rs
        if c.isctor: return None
        if c.nm in ("operator*", "operator->") and c.oval is not None and find_terms(c.oval, lambda x: x and x[0] == "iter"):
            return [(st, ("LOC", ("D", ("iter",))) if c.nm == "operator*" else ("A", ("D", ("iter",))))]
        if c.nm == "is_ready" and c.o is not None and not c.args: return [(st, ("r", c.site, "is_ready", "cur" if self.cur(c.o) else "?"))]
        if c.nm == "erase" and l and len(c.args) == 1:
            if not self.cur(c.args[0]) or find_terms(c.args[0], lambda x: x and x[0] in ("next", "nextpp")): self.rep("erases another continuation than the one it looks at", c.line, st)
            if er: self.rep("erases a continuation twice", c.line, st)
            return [(st.cp(rs=(rd, er + 1, ca, ad, l, el)).ev(c.line, "erases it"), ("next",))]
        if c.nm == "operator++" and l and c.o is not None and c.oval is not None and self.cur(c.oval):
            if find_terms(c.oval, lambda x: x and x[0] in ("next", "nextpp")): self.rep("a continuation is skipped without being looked at", c.line, st)
            v = ("nextpp",); st2 = eng.storeloc(st.cp(rs=(rd, er, ca, ad + 1, l, el)), c.o, v, c.line)
            return [(st2, c.oval if c.args else v)]
        if c.nm == "operator()" and c.o is not None and l and not c.args:
            if find_terms(c.oval, lambda x: x and x[0] == "iter" or x == ("each",)) or self.cur(c.o):
                self.n += 1
                if rd is not True: self.rep("runs a continuation which is not ready", c.line, st)
                if not er: self.rep("runs a continuation before it is out of the list: were it to throw, it would run again", c.line, st)
                if ca: self.rep("runs a continuation twice", c.line, st)
                st = st.cp(rs=(rd, er, min(ca + 1, 2), ad, l, el)).ev(c.line, "runs the continuation")
                eng.throw_(st, ANY)
                return [(st, ("c", None))]
        return None
    def branch(self, eng, st, t, truth):
        rd, er, ca, ad, l, el = st.rs
        if t[0] == "r" and t[2] == "is_ready": return st.cp(rs=(truth, er, ca, ad, l, el)).ev(None, "ready" if truth else "not ready")
        return st
    def known(self, eng, st, t, truth): return self.branch(eng, st, t, truth)
    def mine(self, node):
        return any(x["k"] == "call" and x.get("nm") == "is_ready" for x in walk_stmt(node)) if isinstance(node[0], str) else False
    def step(self, st, leaving=False):
        rd, er, ca, ad, l, el = st.rs
        if rd is True:
            if not ca: self.rep("a ready continuation is not run", None, st)
            if not er: self.rep("a continuation which ran stays in the list", None, st)
        else:
            if er: self.rep("a continuation is dropped although it is not ready", None, st)
    def loop_head(self, eng, st, node):
        if not self.mine(node): return st
        rd, er, ca, ad, l, el = st.rs
        if l: self.step(st)
        env = {}
        for k, v in st.env.items():
            if isinstance(v, tuple) and (v[:1] in (("next",), ("nextpp",)) or v[:1] == ("r",) and len(v) > 2 and v[2] in ("begin", "cbegin")): v = ("iter",)
            env[k] = v
        return st.cp(env=env, rs=(None, 0, 0, 0, True, None), facts={k: v for k, v in st.facts.items() if "is_ready" not in repr(k)}, mem={k: v for k, v in st.mem.items() if k[0] != "D"})
    def loop_exit(self, eng, st, node):
        if not self.mine(node): return st
        rd, er, ca, ad, l, el = st.rs
        if rd is not None: self.step(st, True)
        return st.cp(rs=(None, 0, 0, 0, False, None))

def waiting(ctx, P):
    done = set()
    for f in P.fns:
        if not (f.b and f.file.startswith("scheduler/") and f.kind == "pattern"): continue
        if not any(x["k"] == "call" and x.get("nm") == "is_ready" and "any_continuation" in ((x.get("o") or {}).get("t") or "") for x in fn_exprs(f)): continue
        what = "%s::%s" % ((f.cls or "").split("::")[-1], f.nm); rep = deliver.Reporter(ctx, "waiting", f, what); n0 = len(ctx.violations)
        r = Waiting(rep, None); ctx.run_engine(Engine(P, r, maxsteps=800000), f)
        if not r.n: rep("never runs a ready continuation", None)
        if len(ctx.violations) == n0: ctx.ok("waiting", f.where(), what)
        ctx.count("waiting_lists"); ctx.count("continuation_runs", r.n)

def c22(ctx):
    P = ctx.need(["all"])
    counters(ctx, P); ctx.minimum("completion_counters", 4); ctx.minimum("ready_tests", 2); ctx.minimum("counter_inits", 2)
    registrations(ctx, P); ctx.minimum("registrations", 7)
    ctors(ctx, P); ctx.minimum("constructors", 7)
    readiness(ctx, P); ctx.minimum("readiness", 6)
    future_based(ctx, P); ctx.minimum("future_functions", 6)
    creators(ctx, P); ctx.minimum("creators", 20)
    waiting(ctx, P); ctx.minimum("waiting_lists", 7)
    return ("Completion counters: on each path of done()/on_done() one increment by one; the completion handler is called, with the results, exactly on the paths where the value of that increment equals the number of tasks plus one; the handler is stored before it is counted. "
            "Registration: each task gets one done functor, which stores what it receives into the slot of that task before counting it once, and is then posted or run exactly once (skipped only when interrupted); a directly run task which throws has its current exception stored in the same slot and counted once. "
            "Helpers and constructors start at index 0, go on with I+1 and the remaining tasks, through a valid scheduler. Future based continuations are ready only when all futures are, when interrupted, or when count()!=0 and the elapsed time reached the limit. "
            "Creating functions pass tasks, results, handler, time limit and posting policy on, and register what workers have to poll. Workers take a ready continuation out of their list before running it once, and keep the others.")
