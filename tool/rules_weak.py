"""C16: a scheduler obtained from a weak handle is used only where it was found to be alive."""
from engine import *
from core import Broken
from sym import *
LOCKS = ("mutex", "lock_guard", "unique_lock", "scoped_lock", "spinlock", "lockable<")
FREE = ("is_valid", "operator bool", "operator-conv", "operator!", "operator=", "operator==", "operator!=", "reset", "swap", "use_count", "expired", "get", "move", "forward", "owner_before")
HANDLE = ("any_shared_scheduler", "any_shared_scheduler_ptr", "any_shared_scheduler_proxy", "scheduler_shared_proxy", "shared_ptr", "weak_ptr", "optional", "pair", "tuple")

def lkd(t): return isinstance(t, tuple) and bool(t) and t[0] == "lkd"
def core(t):
    """the locked handle a value is, if it is one"""
    while isinstance(t, tuple) and t:
        if t[0] == "lkd": return t
        if t[0] in ("moved", "defarg") and len(t) > 1: t = t[1]; continue
        if t[0] == "obj" and len(t) == 3 and str(t[1]).split("<")[0].split("::")[-1] in HANDLE: t = t[2]; continue
        if t[0] in ("ref", "V") and len(t) == 2: t = t[1]; continue
        if t[0] in ("D", "T") and len(t) >= 2: t = t[1]; continue
        return None
    return None

class Weak(Rule):
    max_inline = 4; objd = 14
    def __init__(self): self.sites = {}; self.bad = {}; self.uses = 0; self.born = {}
    def inline(self, eng, fn, c): return fn.file == eng.root.file and c.nm not in ("lock", "is_valid")
    def may_throw(self, eng, st, c): return [("any",)] if not c.isctor and c.nm not in FREE + ("lock",) else None
    def alive(self, st, t): return st.fact(("valid", t)) is True or st.fact(t) is True
    def use(self, eng, st, t, line, how):
        self.uses += 1
        if not self.alive(st, t):
            self.bad.setdefault((t[1], how), (line, st.trace))
    def closure(self, eng, st, lam):
        v = {k: x for k, x in st.facts.items() if lkd(k) or k[0] == "valid"}
        o = self.born.get(lam[1])
        self.born[lam[1]] = (lam, v) if o is None else (lam, {k: x for k, x in o[1].items() if v.get(k) == x})
    def call(self, eng, st, c):
        if c.isctor or c.nm in ("new", "delete"):
            cls = str(c.cls or "").split("<")[0].split("::")[-1]
            return None
        if c.nm == "lock" and not c.args and c.o is not None:
            q = (c.qn or "") + " " + str((c.node.get("o") or {}).get("t", ""))
            if any(x in q for x in LOCKS): return None
            if isinstance(c.oval, tuple) and c.oval and c.oval[0] == "lk": return None
            self.sites[(eng.root.file, c.line)] = eng.root
            return [(st.ev(c.line, "lock()"), ("lkd", c.site, c.line))]
        t = core(c.oval) or core(c.o)
        if c.nm == "is_valid" and not c.args: return [(st, ("valid", t))] if t is not None else None
        if t is not None and c.nm not in FREE: self.use(eng, st, t, c.line, c.nm)
        if c.nm in ("move", "forward"): return None
        for a in c.args:
            t = core(a)
            if t is not None and c.callee is None and c.nm not in FREE or t is not None and c.callee is not None and not self.inline(eng, c.callee, c) and c.nm not in FREE:
                self.use(eng, st, t, c.line, c.nm)
        return None
    def load(self, eng, st, loc, val, line):
        if isinstance(loc, tuple) and loc and loc[0] == "F":
            t = core(loc[1])
            if t is not None and loc[1][0] == "D": self.use(eng, st, t, line, "->" + str(loc[2]))
        return None

def has_lock(b):
    if isinstance(b, dict):
        if b.get("nm") == "lock" and b.get("k") == "call" and not b.get("a") and not any(x in str((b.get("o") or {}).get("t", "")) + (b.get("qn") or "") for x in LOCKS): return True
        return any(has_lock(x) for x in b.values())
    return isinstance(b, (list, tuple)) and any(has_lock(x) for x in b)

def handle_rules(ctx, P):
    """what lock() hands out is valid only while its target lives, and is_valid() says so"""
    for f in insts(P, lambda f: f.nm == "is_valid" and f.cls and not f.ps and not f.file.startswith(("/", "detail/"))):
        outs, r = paths(ctx, P, f, inl=lambda *a: False)
        w = (f.cls or "").split("::")[-1] + "::is_valid"; key = "valid|" + w
        yes = 0; ok = True
        for k, s, v in outs:
            if k == "t": continue
            if k != "r": ok = False; continue
            # a validity the path learnt: own handle set / delegate valid
            def known(b): return [t for t, x in s.facts.items() if x is b and find_terms(t, lambda y: len(y) == 3 and y[0] == "F" and y[1] in (THIS, ("T", V(THIS))))]
            if v == ("c", True):
                yes += 1
                if not known(True) and not [t for t in s.facts if t[0] == "call" and t[1] == "empty" and s.facts[t] is False]: ok = False
                if [t for t in known(False) if not (t[0] == "call" and t[1] in ("empty", "operator==", "operator!="))]: ok = False
            elif v == ("c", False):
                if not known(False) and not [t for t in s.facts if t[0] == "call" and t[1] == "empty" and s.facts[t] is True]: ok = False
            elif find_terms(v, lambda y: len(y) == 3 and y[0] == "F" and y[1] in (THIS, ("T", V(THIS)))): yes += 1
            else: ok = False
        ctx.count("is_valid functions")
        if ok and yes: ctx.ok("is_valid", f.where(), w)
        else: ctx.bad("is_valid", f.where(), "%s does not tell whether its handle has a live target" % w, key=key)
    for f in insts(P, lambda f: f.nm == "lock" and f.cls and not f.ps and not f.file.startswith(("/", "detail/")) and "any_shared_scheduler" in (f.d.get("rt") or "")):
        outs, r = paths(ctx, P, f, inl=lambda *a: False)
        w = (f.cls or "").split("::")[-1] + "::lock"
        rets = [(s, v) for k, s, v in outs if k == "r"]
        ctx.count("lock functions")
        def promoted(v): return bool(find_terms(v, lambda t: len(t) > 1 and t[0] == "call" and t[1] == "lock")) or bool(find_terms(v, lambda t: len(t) > 1 and t[0] == "obj" and t[1].endswith("shared_ptr") and find_terms(t, lambda y: y and y[0] == "F")))
        def empty(v): return v[0] == "obj" and len(v) == 2
        built = [(s, v) for s, v in rets if not promoted(v) and not empty(v)]
        if not rets: ctx.bad("lock promotes", f.where(), "%s returns nothing" % w, key="lock|%s|nothing" % w); continue
        good = True
        for s, v in built:
            # a handle made of what was collected: something must have been collected
            if not any(empty(v2) and any(t in s.facts and s.facts[t] is not x for t, x in s2.facts.items()
                                         if not find_terms(t, lambda y: len(y) == 3 and y[0] == "F" and y[1] == THIS)) for s2, v2 in rets): good = False
        if good and (built or any(promoted(v) for s, v in rets)): ctx.ok("lock promotes", f.where(), w)
        else: ctx.bad("lock promotes", f.where(), "%s hands out a valid handle although no scheduler is left behind it" % w, key="lock|%s|empty" % w)

def c16(ctx, thorough=False):
    P = ctx.need(["all", "post", "sched", "servant"])
    for f in insts(P, lambda f: not f.file.startswith("/") and has_lock(f.b)):
        r = Weak(); eng = Engine(P, r, maxsteps=400000)
        ctx.run_engine(eng, f)
        seen = set(); todo = list(r.born.items())
        while todo:
            k, (lam, facts) = todo.pop()
            if k in seen: continue
            seen.add(k)
            try: eng.run_lambda(lam, State(rs=(), facts=dict(facts)), None, "L")
            except Budget: raise Broken("analysis budget exhausted in %s" % f)
            todo += [(k2, v) for k2, v in r.born.items() if k2 not in seen]
        if not r.sites: continue
        for (s, how), (line, tr) in sorted(r.bad.items(), key=repr):
            w = (f.cls or "").split("<")[0].split("::")[-1] + "::" + f.nm
            ctx.bad("promoted handle is checked", f.where(line), "%s uses a scheduler obtained from a weak handle (%s) without having found it alive" % (w, how),
                    key="weak|%s|%s" % (w, how), trace=tr)
        ctx.count("functions promoting a weak handle"); ctx.count("lock sites", len(r.sites)); ctx.count("uses of the promoted handle", r.uses)
        ctx.ok("promoted handle is checked", f.where(), "%s: %d sites, %d uses" % (f.nm, len(r.sites), r.uses))
    handle_rules(ctx, P)
    ctx.minimum("functions promoting a weak handle", 25); ctx.minimum("is_valid functions", 4); ctx.minimum("lock functions", 3)
    ctx.assump += ["a promoted handle keeps the scheduler it designates (std::weak_ptr::lock)", "code of the user which promotes handles itself is not judged"]
    return ("In every function and closure of the library which promotes a weak handle (lock()), the result is a distinct value; each member call on it, each dereference and each "
            "hand-over to other code must lie on a path where is_valid() (or the truth of the pointer) was found true of this very value; closures start from what was known of their captures. "
            "lock() of a weak handle returns what promoting its target gave, or, when it assembles a handle, an empty one if nothing was left; is_valid() is true exactly where the held pointer is set.")
