"""Locks: which state is protected by which mutex, on every path (C11); what runs while a lock is held (C33)."""
from engine import *
from core import Broken
from sym import insts, THIS
NS = "boost::asynchronous::"
MUT = ("push_back", "push_front", "emplace_back", "emplace_front", "pop_back", "pop_front", "insert", "erase", "clear", "emplace", "resize", "assign", "swap", "set_capacity", "reset", "operator=", "push", "pop", "splice", "remove", "operator+=", "operator++", "operator--")
QAPI = ("push", "pop", "try_pop", "try_steal", "get_queue_size", "get_max_queue_size", "reset_max_queue_size")
SYNC = ("mutex", "condition_variable", "std::atomic", "condition")
# protected state that was confirmed by reading: at least so many fields per class, keyed by name
EXPECT = {"guarded_deque": 2, "circular_queue": 2, "threadsafe_list": 2, "interrupt_state": 2, "bucket_type": 1, "current_type": 1, "internal_data": 4}

def norm(t):
    """an object, whatever the index"""
    if not isinstance(t, tuple): return t
    if t and t[0] == "I": return ("I", norm(t[1]), "*")
    if t and t[0] == "r" and len(t) > 3 and t[2] in ("begin", "cbegin", "operator*"): return norm(t[3])
    return tuple(norm(x) for x in t)

def islock(t): return bool(t) and any(w in t for w in ("unique_lock", "lock_guard", "scoped_lock", "shared_lock"))

class Classes:
    def __init__(self, P):
        self.P = P; self.cls = {}; self.byfield = {}
        for qn, l in P.rec_by_qn.items():
            for r in l:
                if r["file"].startswith("/"): continue
                mx = [f["n"] for f in r["fields"] if "mutex" in f["t"]]
                if not mx: continue
                short = qn.split("::")[-1]
                data = [f["n"] for f in r["fields"] if not any(w in f["t"] for w in SYNC) and not f["t"].startswith("const ") and not f["t"].endswith("&")]
                self.cls[qn] = dict(short=short, file=r["file"], line=r["line"], mx=set(mx), cv={f["n"] for f in r["fields"] if "condition" in f["t"]}, data=set(data))
                for d in data: self.byfield.setdefault((r["file"], d), set()).add(qn)
        self.files = {c["file"] for c in self.cls.values()}
    def owner(self, file, O, fld, fn):
        """the class a field access belongs to"""
        c = self.byfield.get((file, fld))
        if not c: return None
        if len(c) == 1: return next(iter(c))
        if fn.cls in c and O == THIS: return fn.cls
        for q in c:       # several structs of the file with a field of that name: told apart by the container
            if self.hint(q) and find_terms(O, lambda t: t and t[0] == "F" and t[2] in self.hint(q)): return q
        return None
    def hint(self, q):
        if not hasattr(self, "_h"): self._h = {}
        if q not in self._h:
            s = q.split("::")[-1]
            self._h[q] = {f["n"] for l in self.P.rec_by_qn.values() for r in l for f in r["fields"] if s in f["t"]}
        return self._h[q]

class LRule(Rule):
    """rs: (locks whose owner lives in a local container, sequence of (what, ...) for condition variables)"""
    max_inline = 6; track_dtors = False
    def __init__(self, C, fn, out): self.C = C; self.fn = fn; self.out = out; self.lams = {}; self.preds = []
    def init(self): return ((), None, ())        # (collected locks, notified), the last change: (field, object, mutexes held), mutexes acquired since
    def inline(self, eng, fn, c): return fn.file == self.fn.file and not fn.nm.startswith("operator<<") or fn.file in self.C.files
    def fld(self, eng, loc):
        if loc[0] != "F": return None
        q = self.C.owner(self.fn.file, norm(loc[1]), loc[2], self.fn) or next((x for f in self.C.files if f != self.fn.file for x in (self.C.owner(f, norm(loc[1]), loc[2], self.fn),) if x and self.C.cls[x]["file"] == self.file_of(eng)), None)
        return q
    def file_of(self, eng): return self.fn.file
    def mutexes(self, st, O):
        O = norm(O)
        return frozenset(l[2] for l in map(norm, st.held) if l[0] == "F" and l[1] == O) | (frozenset(["*"]) if "collected" in st.rs[0] else frozenset())
    def loop_exit(self, eng, st, node):
        if any(e["k"] == "call" and e.get("nm") in ("push_back", "emplace_back") and isinstance(e.get("o"), dict) and islock(e["o"].get("t", "")) for e in walk_stmt(node)) and "collected" not in st.rs[0]:
            st = st.cp(rs=(st.rs[0] + ("collected",),) + st.rs[1:])
        return st
    def access(self, eng, st, loc, line, write):
        q = self.fld(eng, loc)
        if q is None: return
        self.out.acc.setdefault((q, loc[2]), {}).setdefault((self.fn.uid, line), []).append((self.mutexes(st, loc[1]), write, self.fn, line, st.trace, norm(loc[1])))
    def load(self, eng, st, loc, val, line):
        if loc[0] == "F": self.access(eng, st, loc, line, False)
    def store(self, eng, st, loc, val, line):
        l = loc
        while l[0] == "I": l = l[1]
        if l[0] == "F" and self.fld(eng, l):
            self.access(eng, st, l, line, True)
            if val[0] != "moved": st = self.changed(st, l)
        return st
    def changed(self, st, loc, ins=False):
        return st.cp(rs=(st.rs[0], (loc[2], norm(loc[1]), self.mutexes(st, loc[1]), ins), ()))
    def lock(self, eng, st, l, line, acq):
        l = norm(l)
        if acq:
            if l[0] == "F" and st.rs[1] is not None and st.rs[1][3]: self.out.after.setdefault((st.rs[1][0], l[2]), (self.fn, line, st.trace))
            if l in [norm(h) for h in st.held] and "*" not in repr(l): self.out.again.append((self.fn, line, l, st.trace))
            for h in st.held: self.out.edge(norm(h), l, self.fn, line)
            if l[0] == "F": st = st.cp(rs=(st.rs[0], st.rs[1], tuple(sorted(set(st.rs[2]) | {l[2]}))))
        return st.ev(line, ("acquires " if acq else "releases ") + (l[2] if l[0] == "F" else str(l[0])))
    def call(self, eng, st, c):
        o = c.o
        self.out.calls += 1
        if c.isctor: return None
        # locks kept in a container
        ot = (c.node.get("o") or {}).get("t", "") if isinstance(c.node.get("o"), dict) else ""
        if c.nm in ("push_back", "emplace_back") and islock(ot):
            for a, l in zip(c.args, c.locs):
                m = l if l is not None and l[0] == "F" else None
                for t in ([m] if m else find_terms(a, lambda t: t and t[0] == "F" and any(t[2] in k["mx"] for k in self.C.cls.values()))):
                    st = st.cp(held=tuple(sorted(st.held + (t,), key=repr))) if t not in st.held else st
                    self.out.kept.setdefault(self.fn.uid, (self.fn, set()))[1].add(norm(t))
            return [(st, ("c", None))]
        if o is not None and o[0] == "F":
            for k in self.C.cls.values():
                if k["file"] != self.fn.file: continue
                if o[2] in k["cv"]:
                    if c.nm.startswith("wait"):
                        npred = {"wait": 2, "wait_for": 3, "wait_until": 3}.get(c.nm, 2)
                        self.out.waits.append((self.fn, c.line, o, self.mutexes(st, o[1]), len(c.args) >= npred, st.trace, c))
                        st = st.cp(rs=(st.rs[0], None, ()))
                        for a in c.args[1:]:
                            lam = eng.as_lambda(a)
                            if lam is not None: self.preds.append((lam, st))
                        if True: return [(st.ev(c.line, "waits"), ("r", c.site, "waited"))]
                    elif c.nm.startswith("notify"):
                        self.out.notifies.append((self.fn, c.line, o, st.rs, st.trace))
                        st = st.ev(c.line, "notifies")
                        if self.fn.nm == "push": st = st.cp(rs=(st.rs[0] + ("notified",), st.rs[1], st.rs[2]))
                        return [(st, ("c", None))]
            if c.nm in MUT and self.fld(eng, o):
                self.access(eng, st, o, c.line, True); st = self.changed(st, o, c.nm in ("insert", "emplace", "push_back", "emplace_back", "push", "push_front", "emplace_front"))
                return [(st, ("r", c.site, c.nm))] if c.callee is None else None
        if st.held:
            user = c.callee is not None and c.callee.file.startswith("/")
            if c.nm == "operator()" and c.callee is None and eng.as_lambda(c.oval if c.oval is not None else ("?",)) is None: user = True
            if c.callee is None and not c.isctor and c.node.get("o") is None and c.qn == "" and c.node.get("fx") is not None: user = True
            if user: self.out.user.append((self.fn, c.line, c.nm, st.held, st.trace))
            if c.nm in ("join", "join_all", "timed_join", "try_join_for"): self.out.joins.append((self.fn, c.line, st.held, st.trace))
            if "future" in c.qn and c.nm in ("get", "wait") : self.out.blocks.append((self.fn, c.line, dict(st.facts), st.trace, st.held))
            self.out.under += 1
        for a in c.args:
            lam = eng.as_lambda(a)
            if lam is not None and not c.qn.startswith(IMMEDIATE) and c.nm not in ("wait", "wait_for", "wait_until", "for_each", "accumulate"): self.lams[lam[1]] = lam
        return None

class Out:
    def __init__(self): self.acc = {}; self.edges = {}; self.waits = []; self.notifies = []; self.user = []; self.kept = {}; self.calls = 0; self.after = {}; self.again = []; self.joins = []; self.blocks = []; self.under = 0; self.left = []; self.entries = 0; self.quiet = []; self.locks = 0
    def edge(self, a, b, fn, line):
        self.edges.setdefault((a, b), (fn, line))

def entries(P, C, files):
    """functions callable from outside their class"""
    called = {}
    for f in P.fns:
        if not f.b: continue
        for e in fn_exprs(f):
            if e["k"] in ("call",):
                g = P.callee(f.tu, e)
                if g is not None: called.setdefault((g.cls, g.nm), set()).add(f.cls)
                elif e.get("nm") and (e.get("o") is None or e["o"]["k"] == "this"): called.setdefault((f.cls, e["nm"]), set()).add(f.cls)
            elif e["k"] == "ref" and e.get("dk") == "fn" and "::" in e.get("qn", ""): called.setdefault((e["qn"].rsplit("::", 1)[0], e["n"]), set()).add(f.cls)
            elif e["k"] == "mem": called.setdefault((f.cls, e["n"]), set()).add(f.cls) if (e.get("o") or {}).get("k") == "this" else None
    res = []
    for f in insts(P, lambda f: f.file in files and f.kind != "lambda"):
        by = called.get((f.cls, f.nm), set())
        if f.nm in QAPI or not by or by - {f.cls}: res.append(f)
    return res

_memo = {}
def analyse(ctx):
    P = ctx.need(["queue", "sched"])
    if id(P) in _memo: return (P,) + _memo[id(P)]
    C = Classes(P); out = Out()
    lockf = set(C.files)
    for f in P.fns:
        if f.b and not f.file.startswith("/") and f.file not in lockf:
            for s in walk_decl(f.b):
                if islock(s.get("t", "")): lockf.add(f.file)
    for f in entries(P, C, lockf):
        r = LRule(C, f, out); eng = Engine(P, r, maxsteps=600000)
        init = f.d.get("sp") in ("ctor", "cc", "mc", "dc") or f.nm.startswith("~")
        mark = {k: {u: len(v) for u, v in d.items()} for k, d in out.acc.items()} if init else None
        outs = ctx.run_engine(eng, f); out.entries += 1
        for lam, st in r.preds: eng.run_lambda(lam, st)
        todo = list(r.lams.items()); done = set()
        while todo:
            k, lam = todo.pop()
            if k in done: continue
            done.add(k); before = set(r.lams)
            outs += eng.run_lambda(lam, State(rs=r.init()))
            todo += [(x, r.lams[x]) for x in r.lams if x not in before]
        if not init:
            for k, st, v in outs:
                h = [l for l in st.held if f.uid not in out.kept or norm(l) not in out.kept[f.uid][1]]
                if h and not (k == "r" and v and v[0] and v[0][0] == "lk"): out.left.append((f, h, st.trace))
                if f.nm == "push" and k != "t" and any(c["cv"] for q, c in C.cls.items() if q == f.cls) and "notified" not in st.rs[0]: out.quiet.append((f, st.trace))
    _memo.clear(); _memo[id(P)] = (C, out)
    return P, C, out

def walk_decl(s):
    if not isinstance(s, list): return
    if s and s[0] == "decl": yield from (d for d in s[2])
    for x in s:
        if isinstance(x, list): yield from walk_decl(x)

def rep(ctx, R_, f, msg, trace=(), line=None):
    what = "%s::%s" % ((f.cls or "").split("::")[-1], f.nm)
    ctx.bad(R_, f.where(line), "%s: %s" % (what, msg), key="%s|%s|%s" % (R_, what, msg), trace=trace)

def initial(C, q, fn): return fn.d.get("sp") in ("ctor", "cc", "mc", "dc") or fn.nm.startswith("~") or fn.nm == "constructor_done"

def guards(C, out):
    """field -> the mutex protecting it: the one held at most accesses, for fields changed after construction"""
    G = {}
    for (q, fld), d in out.acc.items():
        l = [a for x in d.values() for a in x if not initial(C, q, a[2])]
        if not any(a[1] for a in l): continue
        cnt = {}
        for ms in (m for a in l for m in a[0] if m != "*"): cnt[ms] = cnt.get(ms, 0) + 1
        if cnt: G[(q, fld)] = max(sorted(cnt), key=lambda m: cnt[m])
    return G

def c11(ctx):
    P, C, out = analyse(ctx)
    G = guards(C, out)
    n = {}
    for (q, fld), m in sorted(G.items()):
        k = C.cls[q]; n[k["short"]] = n.get(k["short"], 0) + 1
        bad = False
        for (u, line), l in out.acc[(q, fld)].items():
            for ms, w, fn, ln, tr, O in l:
                if m in ms or initial(C, q, fn): continue
                if "*" in ms and ("F", O, m) in out.kept.get(fn.uid, (0, ()))[1]: continue
                bad = True; rep(ctx, "C11", fn, "%s %s.%s without holding %s" % ("changes" if w else "reads", k["short"], fld, m), tr, ln); break
        ctx.count("accesses", sum(len(l) for l in out.acc[(q, fld)].values())); ctx.count("protected_fields")
        if not bad: ctx.ok("C11", "%s:%s" % (k["file"], k["line"]), "%s.%s by %s" % (k["short"], fld, m))
    for s, want in EXPECT.items():
        qs = [q for q, c in C.cls.items() if c["short"] == s]
        if not qs: continue          # the class may have been renamed or lost its mutex: the totals below tell
        if n.get(s, 0) < want:
            k = C.cls[qs[0]]
            ctx.bad("C11", "%s:%s" % (k["file"], k["line"]), "%s: state which was protected by a mutex no longer is (%d of %d fields)" % (s, n.get(s, 0), want), key="C11|unprotected|" + s)
    for f, h, tr in out.left: rep(ctx, "C11", f, "returns with %s locked" % ", ".join(sorted(l[2] if l[0] == "F" else "a lock" for l in h)), tr)
    # locks kept in a container must cover what is accessed under them
    import rules_pool
    for uid, (f, ms) in out.kept.items():
        def event(fr, eng, st, c):
            if c.isctor: return None
            ot = (c.node.get("o") or {}).get("t", "") if isinstance(c.node.get("o"), dict) else ""
            if c.nm in ("push_back", "emplace_back") and islock(ot): return ("lock", None, None)
            return None
        res, r = rules_pool.fan(ctx, P, f, event)
        names = {t[2] for m in ms for t in find_terms(m, lambda t: t and t[0] == "F")}
        ok = bool(res)
        for rs, st, v in res:
            lps = [l for l in rs.loops if any(any(e[0] == "lock" for e in x) for x in l[0])]
            for it, s, b, br in lps:
                if br or b is None or any(not any(e[0] == "lock" for e in x) for x in it) or not rules_pool.over_all(b, s, names): ok = False
        ctx.count("collected_locks")
        if not ok: rep(ctx, "C11", f, "does not lock all the elements it accesses")
        else: ctx.ok("C11", f.where(), "locks every element")
    # waiting
    wm = {}
    for fn, line, o, ms, pred, tr, c in out.waits:
        k = (norm(o), fn.cls); ctx.count("waits")
        if not ms: rep(ctx, "C11", fn, "waits without holding a lock", tr, line); continue
        lk = c.args[0] if c.args else None
        wm.setdefault((fn.cls, o[2]), set()).update(ms)
        if not pred and not waits_in_loop(fn, c.node): rep(ctx, "C11", fn, "does not check its condition again after waiting", tr, line)
        else: ctx.ok("C11", fn.where(line), "waits with its condition checked under the lock")
    for fn, line, o, rs, tr in out.notifies:
        ctx.count("notifications")
        ms = wm.get((fn.cls, o[2]), set())
        if not ms: continue
        ch = rs[1]
        if ch is not None and not (ch[2] & ms) and not (set(rs[2]) & ms):
            rep(ctx, "C11", fn, "notifies waiters which may have checked their condition before the change and not wait yet: neither the change nor anything between it and the notification holds %s" % "/".join(sorted(ms)), tr, line)
        else: ctx.ok("C11", fn.where(line), "change and notification are ordered by the waiters' lock")
    for f, tr in out.quiet: rep(ctx, "C11", f, "does not wake a waiting consumer", tr)
    ctx.count("entries", out.entries); ctx.count("edges", len(out.edges))
    ctx.minimum("protected_fields", 12); ctx.minimum("accesses", 60); ctx.minimum("waits", 3); ctx.minimum("notifications", 6); ctx.minimum("collected_locks", 2)
    return ("Lockset analysis on all paths of every function callable from outside, library helpers inlined: for each field of a class with mutexes which is changed after construction, the mutex protecting it is held at each access (on the same object; element locks collected in a container must be collected for all elements). "
            "No path returns with a lock held. Condition variables: a wait re-checks its condition under the lock, changes are made under the waiters' lock or are followed by a critical section of it before the notification, and every push notifies.")

def waits_in_loop(f, node):
    hit = []
    def go(s, inl):
        if not s: return
        es, ss = stmt_exprs(s)
        for e in es:
            for x in walk(e, True):
                if x is node and inl: hit.append(1)
        for x in ss: go(x, inl or s[0] in ("while", "do", "for"))
    go(f.b, False)
    return bool(hit)

def c33(ctx):
    P, C, out = analyse(ctx)
    from sym import Rec, paths, calls, strip, F, V
    seen = set()
    for fn, line, nm, held, tr in out.user:
        rep(ctx, "C33", fn, "calls user code (%s) while %s is locked" % (nm, ", ".join(sorted({l[2] if l[0] == "F" else "a lock" for l in held}))), tr, line)
    for fn, line, l, tr in out.again: rep(ctx, "C33", fn, "locks %s, which it already holds" % (l[2] if l[0] == "F" else "a mutex"), tr, line)
    # order: by class of mutex
    def cls(l, fn):
        if l[0] != "F": return ("?", repr(l)[:60])
        for q, c in C.cls.items():
            if l[2] in c["mx"] and c["file"] == fn.file and (len(c["mx"]) and (q == fn.cls or not any(l[2] in c2["mx"] and q2 == fn.cls for q2, c2 in C.cls.items()))): return (c["short"], l[2])
        for q, c in C.cls.items():
            if l[2] in c["mx"]: return (c["short"], l[2])
        return ("?", l[2])
    g = {}
    for (a, b), (fn, line) in out.edges.items():
        x, y = cls(a, fn), cls(b, fn)
        if x == y and (a != b or "*" in repr(a)): continue        # elements of one container, locked in order
        g.setdefault(x, {}).setdefault(y, (fn, line))
    def reach(x, t, vis):
        if x == t: return True
        vis.add(x)
        return any(reach(y, t, vis) for y in g.get(x, {}) if y not in vis)
    for x in g:
        for y, (fn, line) in g[x].items():
            ctx.count("lock_pairs")
            if reach(y, x, set()): rep(ctx, "C33", fn, "locks %s after %s, elsewhere they are locked in the opposite order" % (y[1], x[1]), (), line)
            else: ctx.ok("C33", fn.where(line), "%s before %s" % (x[1], y[1]))
    GU = guards(C, out)
    # joining threads under a lock: what they still have to do must not need it
    for fn, line, held, tr in out.joins:
        ctx.count("joins_under_lock"); bad = False
        for l in held:
            if l[0] != "F": continue
            for q, c in C.cls.items():
                if l[2] not in c["mx"] or c["file"] != fn.file: continue
                for fld in c["data"]:
                    if GU.get((q, fld)) in (None, l[2]): continue
                    a = out.after.get((fld, l[2]))
                    if a and fn.cls == a[0].cls: bad = True; rep(ctx, "C33", a[0], "needs %s after having announced itself in %s, whose members %s waits for with that lock held" % (l[2], fld, fn.nm), a[2], a[1])
        if not bad: ctx.ok("C33", fn.where(line), "only waits for threads which need the lock no more")
    # waiting for a value under a lock: only when it is known to be there
    runs = insts(P, lambda f: f.cls == NS + "detail::interrupt_state" and f.nm == "run")
    consts = set()
    for f in runs:
        outs, r = paths(ctx, P, f)
        for k, st, v in outs:
            x = st.mem.get(F("m_state"))
            if x is not None and x[0] == "c": consts.add(x[1])
    for fn, line, facts, tr, held in out.blocks:
        ctx.count("waits_under_lock")
        ok = len(consts) == 1 and any(b and t[0] == "bin" and t[1] == "==" and V(F("m_state")) in t[2:4] and ("c", next(iter(consts))) in t[2:4] for t, b in facts.items())
        if not ok: rep(ctx, "C33", fn, "waits for a value which may never come while holding a lock", tr, line)
        else: ctx.ok("C33", fn.where(line), "the value is there when the task runs")
    n = 0
    for f in insts(P, lambda f: not f.file.startswith("/") and any(e["k"] == "call" and e.get("nm") == "run" and isinstance(e.get("o"), dict) and "m_state" in repr(e["o"]) for e in fn_exprs(f))):
        outs, r = paths(ctx, P, f, inl=lambda e, fn, c: False)
        n0 = len(ctx.violations)
        for k, st, v in outs:
            seq = [e[0] for e in calls(st) if e[0] in ("set_value",) or e[0] == "run"]
            if "run" in seq and "set_value" not in seq[:seq.index("run")]: rep(ctx, "C33", f, "says it runs before it said where", st.trace)
        n += 1
        if len(ctx.violations) == n0: ctx.ok("C33", f.where(), "the worker is known before the task counts as running")
    if out.blocks and not n: raise Broken("no task found which announces it runs")
    ctx.count("calls_under_lock", out.under); ctx.count("entries", out.entries)
    ctx.minimum("calls_under_lock", 100); ctx.minimum("entries", 100)
    return ("On all paths of every function of the files using locks (helpers and local lambdas inlined, lock ownership handed over included): no functor and no code of the user is called with a lock held; the graph of locks taken while others are held has no cycle and no lock is taken twice. "
            "Joins under a lock only concern threads which need that lock no more once listed; waiting for a future under a lock only happens in the state which is entered after the value was set.")
