"""C31: delivering events while subscriptions change."""
from engine import *
from core import Broken
from sym import *
LSF = "notification/local_subscription.hpp"
ADD = ("insert", "insert_or_assign", "emplace", "try_emplace", "emplace_back", "push_back", "operator[]", "emplace_hint")
DEL = ("erase", "clear", "pop_back", "extract", "swap", "assign", "resize", "operator=", "remove_if", "erase_if", "remove", "stable_partition", "partition", "sort", "stable_sort", "rotate", "exchange")
FIND = ("find", "find_if", "begin", "lower_bound", "equal_range")
INT, SCH, PEND = TABLES = ("m_internal_subscribers", "m_scheduler_subscribers", "m_deleted_scheduler_subscribers")
CNT = F("m_publish_counter")
PENDING = ("G", "answer"); STORE = ("G", "store"); OTHERS = ("G", "others"); WAITING = ("G", "waiting")

def tname(t):
    t = (t or "").replace("const ", "").rstrip("& ").strip()
    if t == "bool": return "<removed>"
    if t.startswith("std::function") or "subscriber_t" in t: return "<subscriber>"
    if "uuid" in t: return "<scheduler>"
    if t.startswith("std::optional"): return "<topic?>"
    return "<topic>"

def ff(t, name=None): return find_terms(t, lambda x: len(x) == 3 and x[0] == "F" and (name is None or x[2] == name))

class Notif(Rec):
    """what is done to the tables: ("mut", table, add|del, op, counter, args, facts), ("find", table, result), ("mark", element, value, facts),
       ("deliver", subscriber, counter, args, facts), ("store", method, args) for calls on the table of this thread, ("other", element, args, facts)"""
    depth = 40; objd = 30
    def __init__(self, opq=(), inl=None):
        Rec.__init__(self, spec=self.sp, opq=opq, ev=lambda c: False, inl=inl); self.n = 0; self.lam = []; self.guarded = []
    def folds(self, l): return l == CNT
    def loop_head(self, eng, st, node):
        if st.mem.get(PENDING) == ("c", True): st = (self.add(st, node[1], "kept") if unasked(st) else st).setmem(PENDING, ("c", False))
        w = ("walk",)
        if SCH in repr(node[3] if node[0] == "range" else node[2:5] if node[0] == "for" else node[2]) and not ("endwalk" in [x[0] for x in st.rs[-1:]]):
            return st if w in st.rs else st.cp(rs=st.rs + (w,))
        return st
    def loop_exit(self, eng, st, node): return st.cp(rs=st.rs + (("endwalk",),)) if ("walk",) in st.rs and ("endwalk",) not in st.rs else st
    def closure(self, eng, st, lam): self.lam.append((lam, st))
    def table(self, o, v):
        for m in TABLES:
            if o == F(m) or v == V(F(m)): return m
        return None
    def fx(self, st, el=None):
        """the facts which matter for el"""
        while el is not None and el[0] in ("F", "D") and len(el) > 1 and isinstance(el[1], tuple) and ff(el): el = el[1] if el[0] == "D" or el[2] in ("second", "first") or el[2][0] == "<" else None
        r = [x for x in st.facts.items() if el is None or mentions(x[0], el)]
        r += [(("V", l), v[1]) for l, v in st.mem.items() if l[0] == "F" and l[2] == "<removed>" and v[0] == "c" and (el is None or mentions(l, el))]
        return tuple(sorted(r, key=repr))
    def add(self, st, line, *e):
        st = st.ev(line, " ".join(x for x in e if isinstance(x, str)))
        return st if e in st.rs else st.cp(rs=st.rs + (e,))
    def store(self, eng, st, loc, val, line):
        if isinstance(loc, tuple) and loc[0] == "F" and loc[2] == "<removed>": st = self.add(st, line, "mark", loc[1], val, self.fx(st, loc[1])).setmem(PENDING, ("c", False))
        m = self.table(loc, None)
        if m: st = self.add(st, line, "mut", m, "del", "operator=", eng.loadloc(st, CNT), (strip(val),), self.fx(st))
        if isinstance(loc, tuple) and ff(loc) == [] and loc[0] == "D":
            # *it = ...: replaces an element of the table the iterator came from
            for m in TABLES:
                if ff(loc[1], m): st = self.add(st, line, "mut", m, "add", "replace", eng.loadloc(st, CNT), (strip(val),), self.fx(st)); break
        elif isinstance(loc, tuple) and loc[0] == "D" :
            for m in TABLES:
                if ff(loc[1], m): st = self.add(st, line, "mut", m, "add", "replace", eng.loadloc(st, CNT), (strip(val),), self.fx(st)); break
        return st
    def sp(self, rec, eng, st, c):
        st0 = st
        if c.nm in ("check_alive", "check_alive_before_exec"): self.guarded += [eng.as_lambda(a) for a in c.args if eng.as_lambda(a) is not None]
        if c.nm == "get" and len(c.args) == 1 and c.o is None:
            return [(st, ("LOC", ("F", c.locs[0] or ("T", c.args[0]), tname(c.node.get("t")))))]
        if c.nm == "get_waiting_subscribes": return [(st, ("LOC", WAITING))]
        if c.nm == "get_other_schedulers_": return [(st, ("LOC", OTHERS))]
        if c.nm == "get_local_subscription_store_": return [(st, ("LOC", STORE))]
        m = self.table(c.o, c.oval) if c.o is not None else None
        if m is None and c.o is None and c.nm in DEL + FIND + ("back_inserter",):
            for l in c.locs: m = m or (self.table(l, None) if l else None)
            for a in c.args:
                for m2 in TABLES:
                    if m is None and ff(a, m2): m = m2
        if m and c.nm in ADD + DEL and not (c.nm == "operator[]" and m != INT):
            st = self.add(st, c.line, "mut", m, "add" if c.nm in ADD else "del", c.nm, eng.loadloc(st, CNT), tuple(strip(a) for a in c.args), self.fx(st, strip(c.args[0]) if m == INT and c.nm == "erase" and c.args and c.args[0][0] != "p" else None))
            if c.nm in ("erase", "extract") and c.o is not None: self.n += 1; return [(st, ("it", c.site, V(F(m))))]
        elif m and c.nm in FIND and c.nm != "begin": st = self.add(st, c.line, "find", m, tuple(strip(a) for a in c.args))
        if c.o == WAITING and c.nm in ADD + DEL: st = self.add(st, c.line, "wait", "add" if c.nm in ADD else "del", c.nm, tuple(strip(a) for a in c.args))
        if c.nm in ("operator++", "next", "advance") and c.oval is not None and isinstance(c.o, tuple) and c.o[0] == "L":
            if unasked(st): st = self.add(st, c.line, "kept")
            st = st.setmem(PENDING, ("c", False))
            nv = ("it", c.site, c.oval if c.oval[0] != "it" else c.oval[2])
            st = eng.fresh(st, nv); return [(eng.storeloc(st, c.o, nv, c.line), nv)]
        if c.o == STORE:
            st = self.add(st, c.line, "store", c.nm, tuple(c.args), self.fx(st))
            return [(st, ("stored", c.nm))]
        if c.nm == "operator()" and c.oval is not None and eng.as_lambda(c.oval) is None:
            v = ff((c.o, c.oval), "<subscriber>")
            if v:
                st = self.add(st, c.line, "deliver", v[0], eng.loadloc(st, CNT), tuple(strip(a) for a in c.args), self.fx(st, v[0][1]))
                eng.throw_(st.ev(c.line, "the subscriber throws"), ("any",))
                return [(st.setmem(PENDING, ("c", True)), ("handled", v[0]))]
            if find_terms((c.o, c.oval), lambda t: t == OTHERS):
                return [(self.add(st, c.line, "other", c.oval, tuple(c.args), self.fx(st)), ("c", None))]
        if st is not st0: return [(st, trim(("call", c.nm, strip(c.oval) if c.oval is not None else None, tuple(strip(a) for a in c.args)), self.depth))]
        return None

def unasked(st):
    """the last subscriber called is kept although nothing is known about its answer"""
    return st.mem.get(PENDING) == ("c", True) and not any(b is True and t[0] != "handled" and not (t[0] == "V" and t[1][0] != "D") and not (t[0] in ("call", "r") and ("has_value" in t or "operator bool" in t)) and find_terms(t, lambda y: y and y[0] == "handled") for t, b in st.facts.items())

class Rep:
    def __init__(self, ctx): self.ctx = ctx; self.n = 0
    def bad(self, f, rule, msg, trace=()):
        w = ((f.cls or "").split("<")[0].split("::")[-1] + "::" if f.cls else "") + f.nm
        self.n += 1
        self.ctx.bad(rule, f.where(), "%s %s" % (w, msg), key="%s|%s|%s" % (rule, w, msg), trace=trace)
    def ok(self, f, rule, n0):
        if self.n == n0: self.ctx.ok(rule, f.where(), f.nm)

def fact(fx, pred, val):
    return any(v is val and pred(t) for t, v in fx)
def eqs(t, *names):
    """t is an equality between something holding each of names"""
    return (t[0] == "bin" and t[1] == "==" or t[0] == "call" and t[1] == "operator==") and all(n(t) for n in names)
def has(x): return lambda t: mentions(t, x)
def hasf(n): return lambda t: bool(ff(t, n))

def c31(ctx, thorough=False):
    P = ctx.need(["servant"])
    R = Rep(ctx)
    def methods(nm): 
        l = insts(P, lambda f: f.file.endswith(LSF) and f.nm == nm and (f.cls or "").split("<")[0].endswith("local_subscription"))
        if not l: raise Broken("no " + nm + " in " + LSF)
        return l
    def run(f, n, this_tables=True, **kw):
        r = Notif(**kw); e = Engine(P, r, maxsteps=600000)
        outs = ctx.run_engine(e, f, st=State(rs=(), mem={CNT: ("c", n)}))
        if not outs: raise Broken("no path through %s" % f)
        return outs, r, e
    def muts(s, m, kind=None): return [x for x in s.rs if x[0] == "mut" and x[1] == m and (kind is None or x[2] == kind)]
    # -- delivery
    for f in methods("publish_internal"):
        n0 = R.n; ev, tp = pterms(f)
        for n in (0, 1, 2):
            outs, r, e = run(f, n)
            seen = 0
            for k, s, v in outs:
                if s.mem.get(CNT) != ("c", n): R.bad(f, "delivery depth", "leaves the delivery depth changed when %s" % ("a subscriber throws" if k == "t" else "it returns"), s.trace)
                for x in s.rs:
                    if x[0] == "deliver":
                        seen += 1; ctx.count("deliveries"); el = x[1][1]
                        if not (x[2][0] == "c" and x[2][1] > 0): R.bad(f, "delivery depth", "calls a subscriber while no delivery is recorded", s.trace)
                        if not fact(x[4], lambda t: t == V(("F", el, "<removed>")), False): R.bad(f, "cancelled", "calls a subscription which was cancelled", s.trace)
                        if not fact(x[4], lambda t: t[0] in ("call", "r") and "matches" in t and mentions(t, ("F", el, "<topic>")) and mentions(t, tp), True): R.bad(f, "topic", "calls a subscriber without its topic matching", s.trace)
                        if not (len(x[3]) == 2 and mentions(x[3][0], ev) and mentions(x[3][1], tp)): R.bad(f, "delivery", "hands on something else than the event and its topic", s.trace)
                    if x[0] == "mark":
                        if x[2] != ("c", True): R.bad(f, "cancelled", "revives a cancelled subscription", s.trace)
                        h = [t for t, b in x[3] if b is False and find_terms(t, lambda y: y and y[0] == "handled" and y[1][1] == x[1])]
                        if not h: R.bad(f, "cancelled", "cancels a subscription whose subscriber handled the event", s.trace)
                for x in muts(s, INT):
                    if x[2] == "del": drop(R, f, x, s)
                no = [t for t, b in s.facts.items() if b is False and find_terms(t, lambda y: y and y[0] == "handled")]
                if any(x[0] == "kept" for x in s.rs) or k != "t" and unasked(s): R.bad(f, "cancelled", "keeps a subscription without having looked at the subscriber's answer", s.trace)
                if k != "t" and no and not any(x[0] == "mark" for x in s.rs): R.bad(f, "cancelled", "keeps a subscription whose subscriber did not handle the event", s.trace)
                if k in ("r", "n"):
                    hs = any(b and find_terms(t, lambda y: y and y[0] == "handled") and t[0] in ("call", "r") and t[1] in ("value", "operator*", "get") or b and t[0] in ("V",) and find_terms(t, lambda y: y and y[0] == "handled") for t, b in s.facts.items())
                    if v and v[0] == ("c", False) and n == 0 and hs and not any(x[0] == "deliver" for x in s.rs[[i for i, y in enumerate(s.rs) if y[0] == "deliver"][0] + 1:]):
                        R.bad(f, "delivery", "reports an event as not handled although it was", s.trace)
            if not seen: raise Broken("no delivery found in %s" % f)
        R.ok(f, "delivery", n0)
    for f in methods("publish"):
        n0 = R.n; ev, tp = pterms(f)
        for n in (0, 1):
            outs, r, e = run(f, n, opq=("publish_internal",), inl=lambda eng, fn, c: fn.file == eng.root.file and c.nm != "publish_internal")
            seen = 0
            class Own(Notif): pass
            for k, s, v in outs:
                last = max([i for i, x in enumerate(s.rs) if x[0] == "deliver"] or [-1])
                for i, x in enumerate(s.rs):
                    if x[0] == "deliver":
                        seen += 1; el = x[1][1]
                        if not fact(x[4], lambda t: t[0] in ("call", "r") and "matches" in t and mentions(t, ("F", el, "<topic>")) and mentions(t, tp), True): R.bad(f, "topic", "passes the event on to a scheduler whose topic does not match", s.trace)
                        if not (len(x[3]) == 2 and mentions(x[3][0], ev) and mentions(x[3][1], tp)): R.bad(f, "delivery", "hands on something else than the event and its topic", s.trace)
                if ("walk",) in s.rs:
                    i = s.rs.index(("walk",)); j = s.rs.index(("endwalk",)) if ("endwalk",) in s.rs else len(s.rs)
                    if any(y[0] == "mut" and y[1] == SCH for y in s.rs[i:j]): R.bad(f, "walked table", "changes the table of schedulers while walking it", s.trace)
            if not seen: raise Broken("no delivery to other schedulers found in %s" % f)
        R.ok(f, "passing on", n0)
    # -- changes to the own subscriptions
    for f in methods("unsubscribe"):
        n0 = R.n; tok, tp = pterms(f)
        for n in (0, 1):
            outs, r, e = run(f, n); done = 0
            for k, s, v in outs:
                ours = lambda fx: fact(fx, lambda t: eqs(t, lambda y: find_terms(y, lambda z: len(z) > 1 and z[0] == "call" and z[1] == "find" and mentions(z, tok)), lambda y: not ff(y, "<topic>")), False) and \
                    fact(fx, lambda t: eqs(t, hasf("<topic>"), has(tp)), True)
                for x in s.rs:
                    if x[0] == "mut" and x[1] == INT and x[2] == "del":
                        done += 1
                        if n: R.bad(f, "walked table", "removes a subscription while events are being delivered", s.trace)
                        if not ours(x[6]): R.bad(f, "own entry", "removes a subscription other than the one asked for", s.trace)
                        if not any(y[0] == "wait" and y[1] == "del" and mentions(y[3], tok) for y in s.rs): R.bad(f, "waiting", "removes a subscription but leaves it waiting for new schedulers", s.trace)
                    if x[0] == "mut" and x[1] == INT and x[2] == "add": R.bad(f, "own entry", "adds a subscription", s.trace)
                    if x[0] == "mark":
                        done += 1
                        if x[2] != ("c", True): R.bad(f, "cancelled", "revives a cancelled subscription", s.trace)
                        if not ours(x[3]): R.bad(f, "own entry", "cancels a subscription other than the one asked for", s.trace)
                if ours(tuple(s.facts.items())) and not any(x[0] == "mark" or x[0] == "mut" and x[1] == INT for x in s.rs): R.bad(f, "own entry", "does not cancel the subscription it found", s.trace)
            if not done: R.bad(f, "own entry", "cancels nothing", outs[0][1].trace)
            ctx.count("unsubscribe paths", len(outs))
        R.ok(f, "own entry", n0)
    for f in methods("cleanup_subscriber"):
        n0 = R.n
        outs, r, e = run(f, 0)
        k = 0
        for kk, s, v in outs:
            for x in muts(s, INT, "del"): k += 1; drop(R, f, x, s)
        R.ok(f, "cleanup", n0)
    for f in methods("subscribe"):
        n0 = R.n; sub, tok, tp = pterms(f)
        for n in (0, 1):
            outs, r, e = run(f, n)
            for k, s, v in outs:
                a = muts(s, INT, "add")
                if muts(s, INT, "del"): R.bad(f, "walked table", "removes subscriptions", s.trace)
                if len(a) != 1: R.bad(f, "subscribe", "does not add exactly one subscription", s.trace); continue
                x = a[0]
                if not (mentions(x[5], sub) and mentions(x[5], tok) and mentions(x[5], tp) and not mentions(x[5], ("c", True))): R.bad(f, "subscribe", "does not store the subscriber, its topic and its token", s.trace)
                if mentions(x[5][0], sub): R.bad(f, "subscribe", "does not store the subscription under its token", s.trace)
        R.ok(f, "subscribe", n0)
    # -- entries of other schedulers
    for f in methods("subscribe_scheduler"):
        n0 = R.n; sub, sid, tp = pterms(f)
        outs, r, e = run(f, 0); rep = add = 0
        for k, s, v in outs:
            a = [i for i, x in enumerate(s.rs) if x[0] == "mut" and x[1] == SCH and x[2] == "add"]
            if len(a) != 1: R.bad(f, "other schedulers", "does not store exactly one entry", s.trace); continue
            x = s.rs[a[0]]
            if x[3] == "replace": rep += 1
            else: add += 1
            if not (mentions(x[5], sub) and mentions(x[5], sid) and mentions(x[5], tp)): R.bad(f, "other schedulers", "does not store the scheduler, its topic and its callback", s.trace)
            pend = [i for i, y in enumerate(s.rs) if y[0] == "mut" and y[1] == PEND and y[2] == "del"]
            dele = [i for i, y in enumerate(s.rs) if y[0] == "mut" and y[1] == SCH and y[2] == "del"]
            fnd = [i for i, y in enumerate(s.rs) if y[0] == "find" and y[1] == SCH]
            if not pend: R.bad(f, "pending removals", "adds a scheduler which a removal requested earlier still removes later", s.trace)
            elif any(s.rs[i][3] == "clear" for i in pend) and not dele: R.bad(f, "pending removals", "forgets removals requested earlier", s.trace)
            elif dele and fnd and max(dele) > min(i for i in fnd if True) and x[3] == "replace" and max(dele) > max(i for i in fnd): R.bad(f, "walked table", "uses an entry found before removing entries", s.trace)
        if not rep: R.bad(f, "other schedulers", "never replaces the entry a scheduler has for this topic", outs[0][1].trace)
        R.ok(f, "other schedulers", n0)
    for nm in ("unsubscribe_scheduler", "unsubscribe_scheduler_all_topics"):
        for f in methods(nm):
            n0 = R.n; ps = pterms(f)
            outs, r, e = run(f, 1)
            for k, s, v in outs:
                if muts(s, SCH) or muts(s, INT): R.bad(f, "walked table", "changes a table which may be walked at this moment", s.trace)
                a = muts(s, PEND, "add")
                if len(a) != 1 or not all(mentions(a[0][5], p) for p in ps): R.bad(f, "pending removals", "does not remember exactly the removal asked for", s.trace)
                elif len(ps) == 1 and find_terms(a[0][5], lambda t: t and t[0] == "p" and t not in ps): R.bad(f, "pending removals", "does not remember exactly the removal asked for", s.trace)
            R.ok(f, "pending removals", n0)
    for f in methods("cleanup_deleted_schedulers"):
        n0 = R.n
        outs, r, e = run(f, 0)
        for k, s, v in outs:
            d = [i for i, x in enumerate(s.rs) if x[0] == "mut" and x[1] == SCH and x[2] == "del"]
            p = [i for i, x in enumerate(s.rs) if x[0] == "mut" and x[1] == PEND and x[2] == "del"]
            if p and not d and not any(find_terms(t, lambda y: y and y[0] == "call" and y[1] in ("empty", "size")) or ff(t, PEND) or ff(t, SCH) for t in s.facts): R.bad(f, "pending removals", "forgets removals requested earlier", s.trace)
            if d and not p: R.bad(f, "pending removals", "keeps removals it has done, which then remove later subscriptions", s.trace)
            if d and p and min(p) < min(d): R.bad(f, "pending removals", "forgets removals before doing them", s.trace)
        pred(ctx, R, P, f, r, e)
        R.ok(f, "pending removals", n0)
    frees(ctx, R, P); walked(ctx, R, P)
    ctx.assump += ["a scheduler delivers the closures it is handed in its own thread (C03-C06)", "std::map keeps iterators to other elements on insert and erase"]
    ctx.minimum("deliveries", 6); ctx.minimum("predicates", 1); ctx.minimum("thread tables", 3); ctx.minimum("hand-overs", 3); ctx.minimum("forwarders", 1)
    return RULE

RULE = ("Each function of local_subscription is followed on all paths, with a subscriber which may throw, for delivery depths 0, 1 and 2: the depth is the same at every exit; subscribers are called only while the depth is positive, "
        "if not marked as removed and if their topic matches, with the event and its topic; entries of the table of own subscriptions are erased only at depth 0 and only if marked; marking never revives and hits only what was asked for or what did not handle the event. "
        "The table of schedulers is not changed while publish walks it nor by the forwarders it calls there (they only request removals); requested removals are applied before they are forgotten, forgotten once applied, designate by scheduler and topic, and are settled before the same scheduler subscribes again. "
        "The tables are thread_local, and other threads' tables are reached only from closures handed to the other scheduler, which hold no references to this thread's variables; subscribing and the last unsubscribing are told to every other scheduler; a forwarder does not depend on one servant being alive.")
def drop(R, f, x, s):
    """an entry may leave the table of own subscriptions only outside of any delivery, and only if it is marked"""
    if x[4] != ("c", 0): R.bad(f, "walked table", "removes a subscription while events are being delivered", s.trace); return
    if x[3] in ("erase_if", "remove_if"): return
    if x[3] != "erase" or not x[5]: R.bad(f, "cleanup", "drops subscriptions which were not cancelled", s.trace); return
    it = x[5][0]
    if not fact(x[6], lambda t: bool(ff(t, "<removed>")) and mentions(strip(t), it), True): R.bad(f, "cleanup", "drops subscriptions which were not cancelled", s.trace)

def pred(ctx, R, P, f, r, e):
    """which entries a pending removal designates: same scheduler and, if it names a topic, same topic"""
    good = 0; todo = list(r.lam); seen = set()
    while todo:
        lam, st = todo.pop()
        if lam[1] in seen: continue
        seen.add(lam[1])
        r2 = Notif(); e.rule = r2
        outs = [(k, s, v[0] if k == "r" and v else v) for k, s, v in e.run_lambda(lam, State(rs=()), None, "P")]
        todo += r2.lam
        res = []
        for k, s, v in outs:
            if k != "r": continue
            for b, s2 in ([(bool(v[1]), s)] if v[0] == "c" else e.truth(s, v)): res.append((b, s2))
        for b, s in res:
            for t, x in s.facts.items():
                for q, want in (("find_if", False), ("any_of", True), ("none_of", False)):
                    if find_terms(t, lambda y: len(y) > 1 and y[0] == "call" and y[1] == q) and ff(t, PEND) and not (b is (x is want)):
                        R.bad(f, "pending removals", "removes the entries whose removal was not asked for", s.trace)
        if not any(eqs(t, hasf("<scheduler>")) and not find_terms(t, lambda y: y and y[0] == "lam") for b, s in res for t in s.facts): continue
        good += 1; ctx.count("predicates")
        for b, s in res:
            fx = list(s.facts.items())
            same = fact(fx, lambda t: eqs(t, hasf("<scheduler>")), True); diff = fact(fx, lambda t: eqs(t, hasf("<scheduler>")), False)
            anyt = fact(fx, lambda t: not eqs(t) and bool(ff(t, "<topic?>")) and not eqs(t), False); tsame = fact(fx, lambda t: eqs(t, hasf("<topic?>")), True); tdiff = fact(fx, lambda t: eqs(t, hasf("<topic?>")), False)
            if b and not (same and (anyt or tsame)): R.bad(f, "pending removals", "removes the entry of another scheduler or topic", s.trace)
            if not b and not (diff or tdiff): R.bad(f, "pending removals", "keeps an entry whose removal was asked for", s.trace)
    e.rule = r
    if not good: ctx.notes.append("predicate of %s not found" % f.nm)

def runlam(P, e, lam, tag="X"):
    r = Notif(); e.rule = r
    return [(k, s, v) for k, s, v in e.run_lambda(lam, State(rs=()), None, tag)], r

def refs(t): return find_terms(t, lambda x: len(x) == 2 and x[0] == "ref")

def frees(ctx, R, P):
    # tables belong to a thread
    n = 0
    for f in insts(P, lambda f: f.file.startswith("notification/")):
        for d in statics(f.b):
            n += 1
            if not d.get("tl"): R.bad(f, "thread", "keeps its table in a variable all threads share (%s)" % d["n"])
            else: ctx.ok("thread", f.where(), d["n"])
    ctx.count("thread tables", n)
    fs = insts(P, lambda f: f.file.endswith(LSF) and not f.cls and f.nm in ("subscribe", "unsubscribe"))
    for f in fs:
        n0 = R.n; ps = pterms(f)
        r = Notif(inl=lambda eng, fn, c: fn.file == eng.root.file and not (fn.cls or "").split("<")[0].endswith("local_subscription")); e = Engine(P, r, maxsteps=400000)
        outs = ctx.run_engine(e, f)
        want = {"subscribe": "subscribe_scheduler", "unsubscribe": "unsubscribe_scheduler"}[f.nm]
        others = 0
        for k, s, v in outs:
            own = [x for x in s.rs if x[0] == "store"]
            if [x[1] for x in own] != [f.nm]: R.bad(f, "own table", "does not %s exactly once in the table of this thread" % f.nm, s.trace)
            for x in s.rs:
                if x[0] == "wait" and x[1] == "add": ctx.count("waiting")
                if x[0] != "other": continue
                others += 1; ctx.count("hand-overs")
                if f.nm == "unsubscribe" and not fact(x[3], lambda t: t == ("stored", "unsubscribe"), True): R.bad(f, "hand-over", "takes a scheduler off which still has subscribers", s.trace)
                lams = [e.as_lambda(a) for a in x[2]]
                for a in x[2]:
                    if e.as_lambda(a) is None: continue
                    handed(ctx, R, P, f, e, r, e.as_lambda(a), want, ps, s)
            if not any(x[0] == "other" for x in s.rs) and (f.nm == "subscribe" or s.facts.get(("stored", "unsubscribe")) is True) and any(mentions(t, OTHERS) and x is True for t, x in s.facts.items()):
                R.bad(f, "hand-over", "does not tell the other schedulers", s.trace)
        if not others: R.bad(f, "hand-over", "does not tell the other schedulers", outs[0][1].trace)
        for lam, st in list(r.lam):              # what is kept for schedulers which join later
            r2 = Notif(); e.rule = r2
            for k, s, v in e.run_lambda(lam, State(rs=()), None, "W"):
                for x in s.rs:
                    if x[0] == "other":
                        ctx.count("hand-overs")
                        for a in x[2]:
                            if e.as_lambda(a) is not None: handed(ctx, R, P, f, e, r2, e.as_lambda(a), want, ps, s)
            e.rule = r
        R.ok(f, "hand-over", n0)
    if not fs: raise Broken("no subscribe / unsubscribe")

def walked(ctx, R, P):
    """what the forwarders do which are called while the table of schedulers is walked"""
    for f in insts(P, lambda f: f.file == "trackable_servant.hpp" and "get_local_subscription_store_" in repr(f.b)):
        n0 = R.n; r = Notif(inl=lambda eng, fn, c: False); e = Engine(P, r, maxsteps=400000)
        ctx.run_engine(e, f); seen = set(); todo = list(r.lam); n = 0
        while todo:
            lam, st = todo.pop()
            if lam[1] in seen: continue
            seen.add(lam[1])
            r2 = Notif(inl=lambda eng, fn, c: False); e.rule = r2
            for k, s, v in e.run_lambda(lam, State(rs=()), None, "W"):
                for x in s.rs:
                    if x[0] == "store":
                        n += 1; ctx.count("forwarders")
                        if x[1] not in ("unsubscribe_scheduler", "unsubscribe_scheduler_all_topics"): R.bad(f, "walked table", "changes the tables of a thread while that thread walks them (%s)" % x[1], s.trace)
            todo += r2.lam
            for a in r2.guarded:
                if "publish_internal" in repr(e.lams[a[1]][0].get("b")): R.bad(f, "forwarder", "passes events on to the other servants of the thread only while one of them is alive")
        if n: R.ok(f, "walked table", n0)

def handed(ctx, R, P, f, e, r, lam, want, ps, s):
    if refs(lam[2]): R.bad(f, "thread", "hands references to its own variables to another thread", s.trace)
    if find_terms(lam, lambda t: t and t[0] == "G"): R.bad(f, "thread", "hands the tables of this thread to another one", s.trace)
    outs, r2 = runlam(P, e, lam); e.rule = r
    for k, s2, v in outs:
        calls = [x for x in s2.rs if x[0] == "store"]
        if [x[1] for x in calls] != [want]: R.bad(f, "hand-over", "does not call %s once in the other thread" % want, s2.trace); continue
        got = [strip(a) for a in calls[0][2]]
        need = [p for p in ps if p[1] in ("internal", "scheduler_id", "topic")]
        if not all(any(mentions(g, p) for g in got) for p in need): R.bad(f, "hand-over", "tells the other thread about something else than this subscription", s2.trace)

def statics(b):
    if isinstance(b, dict):
        if b.get("st") and b.get("n"): yield b
        for x in b.values(): yield from statics(x)
    elif isinstance(b, (list, tuple)):
        for x in b: yield from statics(x)
