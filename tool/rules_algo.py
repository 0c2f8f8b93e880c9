"""Parallel algorithms: what the task of an algorithm does with its result, its range, its function and
the results of its sub-tasks (C23-C27).  Works on the templates themselves, so for every instantiation."""
from engine import *
from core import Broken, extract
from sym import strip
NS = "boost::asynchronous::"
ANY = ("T", "verif::any type", None)

# does not throw, or only when memory runs out
NOTHROW = {"set_value", "set_exception", "get_name", "set_name", "begin", "end", "cbegin", "cend", "rbegin", "rend", "on_done", "emplace_front", "push_front", "get_continuations", "move", "forward",
           "ref", "cref", "make_shared", "make_unique", "make_pair", "make_tuple", "tie", "current_exception", "make_exception_ptr", "copy_exception", "asynchronous_create_exception", "size", "empty", "tie", "this_task_result", "has_exception",
           "has_value", "get_exception_ptr", "get_scheduler", "get_prio", "swap", "reserve", "emplace_back", "push_back", "emplace", "load", "store", "fetch_add", "fetch_sub", "reset", "count", "now", "declval", "clear", "move_where_possible", "test_and_set"}
REG = ("create_callback_continuation", "create_callback_continuation_job", "create_callback_continuation_job_timeout", "create_continuation", "create_continuation_job", "create_continuation_job_timeout", "create_continuation_timeout")

class AS(tuple):
    F = ("n", "exc", "chk", "vec", "passed")
    def __getattr__(self, k):
        try: return self[AS.F.index(k)]
        except ValueError: raise AttributeError(k)
    def set(self, **kw):
        l = list(self)
        for k, v in kw.items(): l[AS.F.index(k)] = v
        return AS(l)

def is_H(t): return bool(t) and t[0] == "r" and len(t) > 2 and t[2] == "this_task_result"
def has_H(v): return bool(find_terms(v, is_H))

KEEP = ("sub", "val", "lam", "failure", "res", "caught", "lk")
def matters(v):
    return has_H(v) or bool(find_terms(v, lambda t: t and t[0] in KEEP))

class CoarseEngine(Engine):
    """forgets all values but result objects, results of sub-tasks and lambdas"""
    def coarse(self, v): return v if v[0] in ("ref", "c", "A", "objat", "uninit") or matters(v) else ("any",)
    def storeloc(self, st, loc, val, line=None): return Engine.storeloc(self, st, loc, self.coarse(val), line)
    def decl1(self, d, st, fr):
        out = []
        for s in Engine.decl1(self, d, st, fr):
            k = (fr.id, d["id"]); v = s.env.get(k)
            if v is not None and self.coarse(v) != v: s = s.setenv(k, self.coarse(v))
            out.append(s)
        return out
    def truth(self, s, v):
        r = Engine.truth(self, s, v)
        for l in find_terms(v, lambda t: t and t[0] == "L" and len(t) > 2):
            x = s.env.get((l[1], l[2]))
            if x is not None and matters(x): r = [(b, s2.setfact(("depends", x), True)) for b, s2 in r]
        if matters(v): return r
        return [(b, s2.cp(facts={k: x for k, x in s2.facts.items() if k in s.facts or k[0] == 'depends'}) if s2.facts is not s.facts else s2) for b, s2 in r]

class Alg(Rule):
    max_inline = 9
    def __init__(self, rep, count=None, res=None, home=None, extra=None):
        self.rep = rep; self.handlers = []; self.count = count; self.res = res; self.home = home; self.subs = []; self.nsink = 0; self.extra = extra; self.hand = []
    def init(self): return AS((0, False, frozenset(), False, frozenset()))
    def throws_(self, eng, st, c, what):
        eng.throw_(st.cp(rs=st.rs.set(exc=True)).ev(c.line, "%s throws" % what), ANY)
    def sub_of(self, v):
        """index of the sub-task result a term stands for"""
        while v and v[0] == "moved": v = v[1]
        if v and v[0] == "sub": return v[1]
        return None
    def call(self, eng, st, c):
        rs = st.rs; nm = c.nm
        if c.isctor:
            if not c.args and (c.cls or "").startswith("$"): return None
            if not c.node.get("cp") and not c.node.get("mv") and c.cls and not c.cls.startswith(("std::", "boost::type_erasure")): self.throws_(eng, st, c, "constructing " + c.cls.split("::")[-1])
            return None
        if nm in ("set_value", "set_exception") and c.oval is not None and has_H(c.oval):
            self.nsink += 1
            if rs.n: self.rep("delivers its result twice on a path (%s)" % nm, c.line, st)
            if nm == "set_value" and not reports_failure(c.node): self.success(eng, st, c)
            else: self.failure(eng, st, c)
            return [(st.cp(rs=rs.set(n=min(2, rs.n + 1))).ev(c.line, nm), ("c", None))]
        if nm == "get" and not c.oval and len(c.args) == 1 and c.node.get("ta"):
            a = c.args[0]
            while a and a[0] == "moved": a = a[1]
            if a == ("res",): 
                return [(st, ("sub", c.node["ta"].rstrip("ULul")))]
            return None
        if nm == "get" and c.oval is not None and self.count == "vec" and not c.args and self.sub_of(c.oval) is None:
            self.throws_(eng, st, c, "the result of a sub-task")
            return [(st.cp(rs=rs.set(passed=rs.passed | {"elem"})).ev(c.line, "result of each sub-task read"), ("any",))]
        if c.oval is not None and self.sub_of(c.oval) is not None:
            i = self.sub_of(c.oval)
            if nm == "get":
                self.throws_(eng, st, c, "the result of sub-task %s" % (i,))
                return [(st.cp(rs=rs.set(chk=rs.chk | {i})).ev(c.line, "result %s read" % (i,)), ("val", i))]
            if nm in ("has_exception", "has_value"): return [(st, ("r", c.site, nm, ("sub", i)))]
            if nm == "get_exception_ptr": return [(st, ("failure", i))]
        hs = [a for a in c.args if has_H(a)]
        if hs and nm not in ("ref", "cref", "move", "forward"):
            if c.callee is not None and c.callee.b and c.callee.uid not in c.frame.stack and c.frame.depth < self.max_inline and nm not in REG and nm != "on_done" and nm != "operator()":
                return None
            if nm == "operator()" and c.oval is not None and eng.as_lambda(c.oval) is not None: return None
            if nm == "operator=": return None
            if c.node.get("c") and own_members(eng.P, c):
                self.nsink += 1     # a member of the same class, examined on its own
                if rs.n: self.rep("hands over a result which is already delivered (%s)" % nm, c.line, st)
                return [(st.cp(rs=rs.set(n=1)).ev(c.line, "handed over to " + nm), ("r", c.site, nm))]
            return self.handover(eng, st, c)
        if nm == "operator()" and c.oval is not None and eng.as_lambda(c.oval) is not None: return None
        if c.callee is not None and c.callee.b and c.callee.uid not in c.frame.stack and c.frame.depth < self.max_inline and self.inline(eng, c.callee, c): return None
        if nm in NOTHROW or (c.qn.startswith("std::") and nm not in ("get", "advance", "distance", "operator()", "at")): return None
        if nm in ("operator=", "operator*", "operator->", "operator[]", "operator==", "operator!=", "operator++"): 
            if not c.node.get("d"): return None
        self.throws_(eng, st, c, nm or "a call")
        return None
    def inline(self, eng, fn, c):
        if any(has_H(a) for a in c.args): return True
        if c.oval is not None and c.frame.fn is not None and c.oval == c.frame.this and fn.cls == c.frame.fn.cls: return True
        return False
    def handover(self, eng, st, c):
        """the result object is given to someone else, who delivers"""
        rs = st.rs
        if c.nm not in NOTHROW: self.throws_(eng, st, c, c.nm)
        if rs.n: self.rep("hands over a result which is already delivered (%s)" % c.nm, c.line, st)
        lams = []
        for a in c.args:
            l = eng.as_lambda(a)
            if l is not None and has_H(a): lams.append(l)
        n = None
        if c.nm in REG: n = self.ntasks(c, eng)
        elif c.nm == "on_done": n = 1
        for l in lams:
            ps = eng.lams[l[1]][0]["ps"]
            self.handlers.append((l, st, "vec" if n == 1 and ps and ps[0]["t"].startswith("std::vector<") and c.nm != "on_done" else n, c))
        if not lams: self.hand.append((c, st))
        self.nsink += 1
        return [(st.cp(rs=rs.set(n=1)).ev(c.line, "handed over to " + c.nm), ("r", c.site, c.nm))]
    def ntasks(self, c, eng):
        args = [a for a in c.node["a"]]
        if any(a["k"] == "pack" for a in args if a): return None
        skip = 1 + (1 if "timeout" in c.nm else 0)
        return len(args) - skip
    def success(self, eng, st, c):
        rs = st.rs
        if getattr(self.rep, "prop", "C24") != "C24": return
        if rs.exc: self.rep("reports success although something failed before", c.line, st)
        if self.count is None: return
        if self.count == "vec":
            if not rs.vec: self.rep("reports success without having looked at the results of all sub-tasks", c.line, st)
            return
        used = set(rs.chk) | {t[1] for t in find_terms(tuple(c.args), lambda t: t and t[0] == "sub")}
        if find_terms(tuple(c.args), lambda t: t == ("res",)): return
        miss = [i for i in range(self.count) if str(i) not in used]
        if miss and miss == list(range(miss[0], self.count)) and miss[0] > 0 and any(find_terms(t, lambda x: x and x[0] == "val") for t in st.facts):
            return      # the parts before decide, and have been looked at
        if miss: self.rep("reports success without having looked at the result of sub-task %s" % ", ".join(map(str, miss)), c.line, st)
    def failure(self, eng, st, c):
        pass
    # every element of a list of results has been looked at
    def loop_head(self, eng, st, node):
        if self.count != "vec" or not reads_results(node): return st
        rs = st.rs
        if "in" not in rs.passed: return st.cp(rs=rs.set(passed=frozenset({"in"}), vec=True))
        return st.cp(rs=rs.set(passed=frozenset({"in"}), vec=rs.vec and "elem" in rs.passed))
    def loop_exit(self, eng, st, node):
        return st
    def branch(self, eng, st, t, truth):
        if t[0] == "r" and len(t) == 4 and t[2] in ("has_exception", "has_value") and t[3] and t[3][0] == "sub":
            good = truth == (t[2] == "has_value")
            rs = st.rs
            st = st.cp(rs=rs.set(chk=rs.chk | {t[3][1]}) if good else rs.set(exc=True))
        return st
    def known(self, eng, st, t, truth): return self.branch(eng, st, t, truth)

def reports_failure(node):
    """a value which carries the current exception"""
    return any(e.get("k") == "call" and e.get("nm") == "current_exception" for a in node["a"] for e in exprs_in(a))

def reads_results(node):
    return any(e.get("k") == "call" and e.get("nm") == "get" and not e.get("a") and e.get("o") for e in exprs_in(node))

def exprs_in(x):
    if isinstance(x, dict):
        if "k" in x: yield x
        for v in x.values(): yield from exprs_in(v)
    elif isinstance(x, (list, tuple)):
        for v in x: yield from exprs_in(v)

def own_members(P, c):
    fs = [P.by_id.get((c.frame.tu, x[0])) for x in c.node["c"]]
    return all(f is not None and f.b and f.cls == c.frame.fn.cls and any(takes_H(p) for p in f.ps) for f in fs)

def takes_H(p): return p["t"].replace("const ", "").startswith(NS + "continuation_result")

def members_with_result(P):
    """members of the algorithms' tasks which get the result object from their caller"""
    out = []
    for f in P.fns:
        if f.b and f.kind == "pattern" and f.cls and "geometry" not in f.file and ("algorithm/" in f.file or "container/" in f.file) and any(takes_H(p) for p in f.ps): out.append(f)
    return out

def tasks(P):
    """functions of the algorithms which take their task's result object"""
    out = []
    for f in P.fns:
        if f.b and f.kind == "pattern" and "geometry" not in f.file and any(e["k"] == "call" and e.get("nm") == "this_task_result" for e in fn_exprs(f)) and f.nm != "this_task_result": out.append(f)
    return out

def what_of(f):
    return "%s:%s%s" % (f.file.split("/")[-1], (f.cls or "").replace(NS, "").replace("detail::", "") + "::", f.nm)

H0 = ("r", "param", "this_task_result")

class Rep:
    """reports what belongs to the property being decided"""
    def __init__(self, ctx, prop, f, what):
        from deliver import Reporter
        self.prop = prop; self.r = Reporter(ctx, prop, f, what)
    def __call__(self, msg, line, st):
        if (self.prop == "C24") == msg.startswith("reports success"): self.r(msg, line, st)

USER_OWNS = {"lambda_top_level_continuation_wrapper"}      # the user's function receives the result object and answers itself

def run_task(ctx, P, f, rule="C23", R=Alg, inl=None):
    what = what_of(f)
    rep = Rep(ctx, rule, f, what)
    r = R(rep, home=f)
    eng = CoarseEngine(P, r, maxsteps=800000)
    n0 = len(ctx.violations)
    outs = ctx.run_engine(eng, f, binds={p["n"]: H0 for p in f.ps if takes_H(p)})
    check_exits(r, outs, rep)
    rules = [r]; done = set(); todo = list(r.handlers); nh = 0
    while todo:
        l, st0, n, c = todo.pop()
        if (l, n) in done: continue
        done.add((l, n)); nh += 1
        if nh > 40: raise Broken("too many handlers in " + what)
        r2 = R(Rep(ctx, rule, f, what + ", done handler"), count=n, home=f)
        eng.rule = r2
        nps = len(eng.lams[l[1]][0]["ps"])
        outs = eng.run_lambda(l, State(rs=r2.init(), mem=dict(st0.mem)), nargs_vals=[("res",)] * nps, tag="H")
        check_exits(r2, outs, r2.rep)
        rules.append(r2); todo += r2.handlers
        ctx.count("done_handlers")
    if inl is not None: inl |= eng.inlined
    if len(ctx.violations) == n0: ctx.ok(rule, f.where(), "%s: one delivery on every exit, %d handlers" % (what, nh))
    return rules

def check_exits(r, outs, rep):
    for k, st, v in outs:
        if k == "t": rep("an exception escapes%s" % (" before the result is delivered" if not st.rs.n else ""), None, st)
        elif st.rs.n == 0: rep("a path delivers nothing", None, st)

# ---- all_of / any_of: several continuations share one result; a counter or flag decides who delivers
GATED = {"all_of_helper": ("last", "first"), "all_of_vector_helper": ("last", "first"), "any_of_helper": ("first", "last")}
def short(c): return (c or "").split("::")[-1]
def gates(P):
    return [f for f in P.fns if f.b and f.kind == "pattern" and short(f.cls) in GATED and f.nm != "operator()" and any(takes_H(p) for p in f.ps)]

def gate_of(t, b):
    """(kind, open) of a decided condition: did this continuation count down last / raise the flag first?"""
    if t[0] == "bin" and t[1] == "==" and t[2][0] == "c": t = ("bin", "==", t[3], t[2])
    if t[0] == "bin" and t[1] == "==" and t[3] == ("c", 0) and dec(t[2]): return ("last", b)
    if t[0] == "bin" and t[1] == "==" and t[3] == ("c", 1) and t[2][0] == "r" and t[2][2] == "fetch_sub": return ("last", b)
    if t[0] == "r" and t[2] == "fetch_sub": return ("last", b)      # decided as "== 1"
    if dec(t): return ("last", not b)
    if t[0] == "r" and t[2] == "test_and_set": return ("first", not b)
    if t[0] == "r" and t[2] == "exchange": return ("first", not b)
    if t[0] == "r" and t[2] == "set": return ("first", b)
    return None
def dec(t): return (t[0] == "inc" and t[2] == "--") or (t[0] == "r" and t[2] in ("store_exception", "operator--"))

class GateEngine(Engine):
    def x_asg(self, e, st, fr):
        r = Engine.x_asg(self, e, st, fr)
        if e["op"] == "=" and any(x.get("k") == "mem" and x.get("n") == "values" for x in exprs_in(e["x"])):
            r = [(s.cp(rs=s.rs.set(passed=s.rs.passed | {"stored"})), l, v) for s, l, v in r]
        return r
    def x_un(self, e, st, fr):
        r = Engine.x_un(self, e, st, fr)
        if e["op"] == "--": r = [(s.cp(rs=s.rs.set(passed=s.rs.passed | {"counted" if "counted" not in s.rs.passed else "twice"} | ({"early"} if "stored" not in s.rs.passed and not s.rs.exc else set()))), l, v) for s, l, v in r]
        return r

class GateRule(Alg):
    """the handler of one of the continuations"""
    def __init__(self, rep, kinds, home): Alg.__init__(self, rep, count=1, home=home); self.kinds = kinds
    def call(self, eng, st, c):
        nm = c.nm; rs = st.rs
        if nm in ("set_value", "set_exception") and c.oval is not None and has_H(c.oval):
            self.nsink += 1
            if rs.n: self.rep("delivers its result twice on a path", c.line, st)
            if nm == "set_value":
                self.success(eng, st, c)
                if self.home.file.endswith("all_of.hpp") and "stored" not in rs.passed: self.rep("delivers without having stored its value", c.line, st)
            self.gate(st, nm == "set_value", c.line, True)
            return [(st.cp(rs=rs.set(n=1, passed=rs.passed | {nm})).ev(c.line, nm), ("c", None))]
        if nm in ("store_exception", "set", "test_and_set", "fetch_sub", "operator--", "exchange"):
            x = {"counted" if "counted" not in rs.passed or nm in ("test_and_set", "exchange") else "twice"} if nm in ("store_exception", "fetch_sub", "operator--") else {"flag" if "flag" not in rs.passed else "twice"}
            if nm in ("fetch_sub", "operator--") and "stored" not in rs.passed and not rs.exc: x.add("early")
            return [(st.cp(rs=rs.set(passed=rs.passed | x)), ("r", c.site, nm))]
        return Alg.call(self, eng, st, c)
    def branch(self, eng, st, t, truth):
        g = gate_of(t, truth)
        if g: st = st.cp(rs=st.rs.set(passed=st.rs.passed | {g}))
        return Alg.branch(self, eng, st, t, truth)
    def gate(self, st, good, line, delivering):
        want = self.kinds[0 if good else 1]
        g = st.rs.passed
        if delivering:
            if (want, True) not in g: self.rep("delivers a %s without being the %s continuation" % ("value" if good else "failure", want), line, st)
        else:
            if (want, False) not in g: self.rep("a path delivers nothing although nobody else is known to deliver", line, st)
    def exits(self, outs):
        for k, st, v in outs:
            if k == "t": self.rep("an exception escapes", None, st); continue
            p = st.rs.passed
            if "twice" in p: self.rep("counts itself twice", None, st)
            if "early" in p: self.rep("counts down before its value is stored", None, st)
            if st.rs.n == 0: self.gate(st, not st.rs.exc, None, False)

def gated(ctx, P):
    todo = gates(P)
    for f in todo:
        what = what_of(f); kinds = GATED[short(f.cls)]; n0 = len(ctx.violations)
        calls = [e for e in fn_exprs(f) if e["k"] == "call"]
        if f.nm.startswith("dispatch_next"):
            step(ctx, P, f, calls, what)
        else:
            regs = [e for e in calls if e.get("nm") == "on_done"]
            r = Alg(Rep(ctx, ctx.prop, f, what), home=f)
            r.handover = lambda eng, st, c, r=r: gate_handover(r, eng, st, c)
            eng = GateEngine(P, r)
            outs = ctx.run_engine(eng, f, binds={p["n"]: H0 for p in f.ps if takes_H(p)})
            if not r.handlers: raise Broken("%s registers no handler" % what)
            loops = has_loop(f.b)
            for k, st, v in outs:
                if k != "t" and st.rs.n != 1 and not loops: r.rep("a continuation gets %d handlers" % st.rs.n, None, st)
            for l, st0 in r.handlers:
                r2 = GateRule(Rep(ctx, ctx.prop, f, what + ", done handler"), kinds, f)
                e2 = GateEngine(P, r2); e2.lams = eng.lams
                r2.exits(e2.run_lambda(l, State(rs=r2.init(), mem=dict(st0.mem)), nargs_vals=[("res",)]))
                if not r2.nsink: raise Broken("%s: the handler does not deliver" % what)
                ctx.count("gated_handlers")
            if loops: each_once(ctx, f, what)
        if len(ctx.violations) == n0: ctx.ok(ctx.prop, f.where(), "%s: exactly one continuation delivers" % what)
    for cls in GATED:
        if not any(short(f.cls) == cls for f in todo): raise Broken("anchor %s vanished" % cls)
    counters(ctx, P)

def has_loop(b):
    if isinstance(b, (list, tuple)):
        if b and b[0] in ("for", "while", "do", "range"): return True
        return any(has_loop(x) for x in b)
    if isinstance(b, dict) and b.get("k") != "lam": return any(has_loop(v) for v in b.values())
    return False

def gate_handover(r, eng, st, c):
    if c.nm not in NOTHROW: r.throws_(eng, st, c, c.nm)
    for a in c.args:
        l = eng.as_lambda(a)
        if l is not None: r.handlers.append((l, st))
    return [(st.cp(rs=st.rs.set(n=min(2, st.rs.n + 1))), ("r", c.site, c.nm))]

def step(ctx, P, f, calls, what):
    """recursion over the tuple: this index, then the one below, down to 0"""
    d = [e for e in calls if e.get("nm") == "dispatch"]; n = [e for e in calls if e.get("nm") == "dispatch_next"]
    rep = Rep(ctx, ctx.prop, f, what)
    if len(d) != 1 or (d[0].get("ta") or "").strip() != "Index": rep("does not treat its own continuation exactly once", f.line, None)
    if len(n) > 1: rep("goes on with the continuation below %d times" % len(n), f.line, None)
    for e in n:
        if (e.get("ta") or "").replace(" ", "") != "Index-1": rep("goes on with %s instead of the continuation below" % e.get("ta"), e["l"], None)
    ctx.steps = getattr(ctx, "steps", {}); ctx.steps.setdefault(f.cls, []).append(len(n))

def each_once(ctx, f, what):
    """a loop over all continuations: begin at 0, one at a time, up to the size"""
    for s in loops_in(f.b):
        if s[0] == "range": continue
        if s[0] != "for": raise Broken("%s: loop form not understood" % what)
        init, cond, inc = s[2], s[3], s[4]
        ok = init and init[0] == "decl" and lit(init[2][0].get("i")) == 0 and less(cond) and inc and inc["k"] == "un" and inc["op"] == "++" \
             and less(cond).get("k") == "call" and less(cond).get("nm") == "size"
        if not ok: Rep(ctx, ctx.prop, f, what)("the loop does not visit every continuation once", s[1], None)
def less(c):
    if c and c["k"] == "bin" and c["op"] in ("<", "!="): return c["y"]
    if c and c["k"] == "call" and c.get("nm") in ("operator<", "operator!="): return c["a"][-1]
    return None
def lit(i):
    while i and i.get("k") in ("plist", "cast", "ilist"): i = (i.get("a") or [i.get("e")])[0]
    return i.get("v") if i and i.get("k") == "lit" else None
def loops_in(b):
    if isinstance(b, (list, tuple)):
        if b and b[0] in ("for", "while", "do", "range"): yield b
        for x in b: yield from loops_in(x)
    elif isinstance(b, dict) and b.get("k") != "lam":
        for v in b.values(): yield from loops_in(v)

def counters(ctx, P):
    """the counters start at the number of continuations; flag and index go together"""
    for cls, mem, leaf in (("all_of_task_counter", "task_count", "value"), ("all_of_vector_task_counter", "task_count", "count"), ("any_of_task_counter", "failures_remaining", "count")):
        cs = [f for f in P.fns if f.kind == "pattern" and short(f.cls) == cls and f.nm == cls]
        if not cs: raise Broken("anchor %s vanished" % cls)
        for f in cs:
            i = [x for x in f.inits if x.get("m") == mem]
            es = [e for e in exprs_in(i[0]["i"])] if i else []
            if not es or any(e["k"] in ("bin", "un", "lit") for e in es) or not any(e.get("n") == leaf for e in es): Rep(ctx, ctx.prop, f, cls)("the counter does not start at the number of continuations", f.line, None)
            else: ctx.ok(ctx.prop, f.where(), "%s starts at the number of continuations" % cls)
            ctx.count("counters")
    for f in P.fns:
        if f.kind == "pattern" and f.b and short(f.cls) in GATED and f.nm == "operator()":
            rep = Rep(ctx, ctx.prop, f, what_of(f))
            for e in fn_exprs(f):
                if e["k"] != "call": continue
                if e.get("nm") == "dispatch_next" and (e.get("ta") or "").replace(" ", "") != "sizeof...(Continuations)-1": rep("starts with %s instead of the last continuation" % e.get("ta"), e["l"], None)
                if e.get("nm") == "make_shared" and e["a"]:
                    a = e["a"][0]
                    while a["k"] in ("cast", "plist"): a = a.get("e") or a["a"][0]
                    if not (a["k"] == "call" and a.get("nm") == "size"): rep("the counter does not start at the number of continuations", e["l"], None)
        if f.kind != "pattern" or not f.b or short(f.cls) != "any_of_task_counter" or f.nm not in ("set", "store_exception"): continue
        rep = Rep(ctx, ctx.prop, f, "any_of_task_counter::" + f.nm)
        r = CounterRule(rep); eng = Engine(P, r); n0 = len(ctx.violations)
        outs = ctx.run_engine(eng, f)
        for k, st, v in outs:
            if k == "t": continue
            if st.rs[0] != 1: rep("%d decisions on a path" % st.rs[0], None, st)
            elif f.nm == "set":
                first = st.rs[2]
                if not first or v is None or v[0] not in (("c", first[0]),): rep("does not return whether it was first", None, st)
                elif first[0] and "index" not in st.rs[1]: rep("does not store which continuation was first", None, st)
                elif not first[0] and st.rs[1]: rep("a later value overwrites the first", None, st)
            else:
                if v is None or not dec(v[0]): rep("does not return how many are left", None, st)
                if st.rs[1] != ("[]",): rep("the exception is not stored before counting down", None, st)
        if len(ctx.violations) == n0: ctx.ok(ctx.prop, f.where(), "any_of_task_counter::%s: flag and contents agree" % f.nm)
        ctx.count("counters")

class CounterRule(Rule):
    def __init__(self, rep): self.rep = rep
    def init(self): return (0, (), ())
    def branch(self, eng, st, t, truth):
        g = gate_of(t, truth)
        return st.cp(rs=st.rs[:2] + ((g[1],),)) if g and g[0] == "first" else st
    def call(self, eng, st, c):
        n, s, g = st.rs
        if c.nm in ("test_and_set", "exchange", "operator--", "fetch_sub"): return [(st.cp(rs=(min(2, n + 1), s, g)), ("r", c.site, c.nm))]
        if c.nm in ("index", "value"): return [(st.cp(rs=(n, s + (c.nm,) if len(s) < 6 else s, g)), ("r", c.site, c.nm))]
        if c.nm == "operator=" and n == 0 and c.line: return [(st.cp(rs=(n, ("[]",), g)), ("c", None))]
        return None

def deliveries(ctx):
    P = extract(["all"])
    gs = gates(P)
    inl = set(); hand = {}
    fs = tasks(P); cls = {f.cls for f in fs if f.nm == "operator()"}
    for f in fs:
        if short(f.cls) in USER_OWNS: continue
        ctx.count("tasks")
        for r in run_task(ctx, P, f, rule=ctx.prop, inl=inl):
            for c, st in r.hand: hand.setdefault(c.nm, set()).add(what_of(f))
    for f in members_with_result(P):
        if f in gs or f.uid in inl: continue
        ctx.count("members")
        for r in run_task(ctx, P, f, rule=ctx.prop, inl=inl):
            for c, st in r.hand: hand.setdefault(c.nm, set()).add(what_of(f))
    gated(ctx, P)
    if ctx.prop == "C23":
        for r in P.recs:
            if any("continuation_task" in str(b) for b in r["bases"]) and "geometry" not in r["file"]:
                if r["qn"] in cls: ctx.ok("C23", "%s:%d" % (r["file"], r["line"]), "%s answers through its result object" % r["qn"])
                else: ctx.bad("C23", "%s:%d" % (r["file"], r["line"]), "%s is a continuation task which never uses its result object" % r["qn"], key="C23|%s|never delivers" % r["qn"])
                ctx.count("task_classes")
    ctx.hand = hand
    ctx.minimum("tasks", 150); ctx.minimum("done_handlers", 230); ctx.minimum("gated_handlers", 8); ctx.minimum("counters", 6)

def c23(ctx):
    deliveries(ctx)
    ctx.minimum("task_classes", 130)
    return ("every path through operator() of every continuation task of the library (templates themselves) delivers its result object exactly once or hands it over exactly once (to sub-tasks with a done handler, to another continuation's on_done, to a member of its own), and no exception leaves before; "
            "every done handler it registers, at any depth, likewise.  User functions, iterators, copies of user types and reading the result of a sub-task may throw at every use.  all_of/any_of: exactly the continuation which counts down to zero, or raises the flag first, delivers; each counts itself once, after its value is stored; counters start at the number of continuations")

def c24(ctx):
    deliveries(ctx)
    return ("on every path on which a done handler reports a value, the result of every sub-task has been read before (which throws if it failed), asked with has_exception, or is itself what is reported; parts to the right need not be read when a branch on the parts before decides the result; "
            "no path reports a value after an exception was caught or a failed sub-task was seen, unless the value carries the current exception")
