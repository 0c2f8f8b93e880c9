"""Pool management: C04 (termination tasks), C05 (joining), C06 (ids), C07 (requests to all workers).

FanRule segments the execution of a function by loop iterations: for each loop it finds the set of
event lists an iteration can produce, the start value of the counter and the bound at which the loop
is left, on all paths."""
from engine import *
from core import Broken
import rules_worker as W
NS = "boost::asynchronous::"

class FS(tuple):
    F = ("pend", "loops", "cur", "iters", "start", "bound", "broken", "pre", "up")
    def __getattr__(self, n):
        try: return self[FS.F.index(n)]
        except ValueError: raise AttributeError(n)
    def set(self, **kw):
        l = list(self)
        for k, v in kw.items(): l[FS.F.index(k)] = v
        return FS(l)

def strip_sites(t):
    """forget call sites inside a term (pure accessors)"""
    if not isinstance(t, tuple): return t
    if t and t[0] == "r" and len(t) > 2 and t[2] in ("size", "begin", "end", "cbegin", "cend", "length"):
        return (t[2].replace("cbegin", "begin").replace("cend", "end"),) + tuple(strip_sites(x) for x in t[3:])
    if t and t[0] == "objat": return ("objat",)
    return tuple(strip_sites(x) for x in t)

def isidx(v): return v[0] == "c" and isinstance(v[1], int) and not isinstance(v[1], bool) or v[0] == "inc"

class FanRule(Rule):
    """event(c) -> (label, payload) or None decides what is counted"""
    max_inline = 5
    flat = False
    def __init__(self, event, noinline=()):
        self.flatev = {}; self.event = event; self.noinline = set(noinline); self.nevents = 0
    def init(self): return FS(((), (), None, frozenset(), None, None, False, (), None))
    def call(self, eng, st, c):
        r = self.event(self, eng, st, c)
        if r is None: return None
        label, payload, value = r
        self.nevents += 1
        if self.flat:
            self.flatev.setdefault((label, payload), c.line)
            return [(st, value if value is not None else ("r", c.site, c.nm))]
        pend = st.rs.pend + ((label, payload),)
        if len(pend) > 12: pend = pend[:12]
        return [(st.cp(rs=st.rs.set(pend=pend)).ev(c.line, label), value if value is not None else ("r", c.site, c.nm))]
    def inline(self, eng, fn, c): return fn.nm not in self.noinline and not fn.file.startswith(("queue/", "diagnostics/"))
    def loop_head(self, eng, st, node):
        if self.flat: return st
        rs = st.rs; me = id(node)
        if rs.cur == me:
            return st.cp(rs=rs.set(iters=rs.iters | {rs.pend}, pend=(), bound=rs.bound if rs.bound and rs.bound[0] == "range" else None))
        up = (rs.cur, rs.iters, rs.start, rs.bound, rs.broken, rs.pend, rs.up) if rs.cur is not None else None
        rng = node[0] == "range"
        rs = rs.set(cur=me, iters=frozenset(), start=None, bound=None, broken=False, pre=rs.pre if up else rs.pre + rs.pend, pend=(), up=up)
        if rng: rs = rs.set(start=("range",), bound=("range", eng.range_over))
        return st.cp(rs=rs)
    def loop_exit(self, eng, st, node):
        if self.flat or st.rs.cur != id(node): return st
        return st.cp(rs=self.close1(st.rs))
    def close1(self, rs):
        lp = (rs.iters, rs.start, rs.bound, rs.broken)
        if rs.up is None:
            return rs.set(loops=rs.loops + (lp,), cur=None, iters=frozenset(), start=None, bound=None, pre=rs.pre + rs.pend, pend=(), broken=False)
        # an inner loop counts as one event of the iteration around it, followed by what a cut off iteration did
        cur, it, s, b, br, pend, up = rs.up
        return rs.set(cur=cur, iters=it, start=s, bound=b, broken=br, pend=(pend + (("loop", lp),) + rs.pend)[:12], up=up)
    def close(self, rs):
        while rs.cur is not None: rs = self.close1(rs)
        return rs.set(pre=rs.pre + rs.pend, pend=())
    def branch(self, eng, st, term, truth):
        rs = st.rs
        if self.flat or rs.cur is None: return st
        t = term
        if t[0] == "r" and len(t) > 2 and t[2] in ("size", "length") and rs.start is None and not rs.pend:     # B != 0, for a counter which starts at 0
            st = st.cp(rs=rs.set(start=("c", 0), bound=rs.bound if truth else ("<", strip_sites(t))))
        if t[0] == "bin" and t[1] in ("<", "=="):
            a, b = t[2], t[3]
            if t[1] == "==" and isidx(b) and not isidx(a): a, b = b, a
            if isidx(a) and not isidx(b):         # idx < B  /  idx == B
                if rs.start is None and a[0] == "c": rs = rs.set(start=a)
                if (t[1] == "<" and not truth) or (t[1] == "==" and truth): rs = rs.set(bound=("<", strip_sites(b)))
                st = st.cp(rs=rs)
            elif isidx(b) and t[1] == "<":         # B < idx
                if rs.start is None and b[0] == "c": rs = rs.set(start=b)
                if truth: rs = rs.set(bound=("<=", strip_sites(a)))
                st = st.cp(rs=rs)
            elif t[1] == "==" and any(x and x[0] == "end" for x in (strip_sites(a), strip_sites(b)) if isinstance(x, tuple)):
                e = strip_sites(a) if strip_sites(a)[0] == "end" else strip_sites(b)
                o = b if strip_sites(a)[0] == "end" else a
                if rs.start is None: rs = rs.set(start=("begin",) if strip_sites(o)[0] == "begin" else ("?",))
                if truth: rs = rs.set(bound=("it", e[1:]))
                st = st.cp(rs=rs)
        return st
    def known(self, eng, st, term, truth): return self.branch(eng, st, term, truth)
    def jump(self, eng, st, kind, line):
        return st.cp(rs=st.rs.set(broken=True)) if kind == "b" and not self.flat else st

def fan(ctx, P, fn, event, noinline=(), rule=FanRule, **kw):
    """[(FS with everything closed, state)] over all normal exits"""
    r = rule(event, noinline)
    eng = Engine(P, r, maxsteps=600000)
    outs = ctx.run_engine(eng, fn, **kw)
    res = []
    for k, st, v in outs:
        if k == "t": continue
        val = v[0] if (k == "r" and v) else None
        res.append((r.close(st.rs), st, val))
    return res, r

def contloc(o):
    """container and index of an element location, through smart pointers"""
    while True:
        if o[0] == "D":
            v = o[1]
            if v[0] in ("V",): o = v[1]; continue
            if v[0] == "A": o = v[1]; continue
            return None, None
        if o[0] == "I": return o[1], o[2]
        if o[0] == "T":
            v = o[1]
            if v[0] == "V": o = v[1]; continue
            return None, None
        if o[0] == "F": return o, None
        return None, None

def fieldname(loc):
    return loc[2] if loc and loc[0] == "F" else None

def has_obj(t, cls):
    return find_terms(t, lambda x: x and x[0] == "obj" and len(x) > 1 and isinstance(x[1], str) and x[1].split("::")[-1] == cls)

# ------------------------------------------------------------------------------------------------
def classes(ctx, P):
    """scheduler classes, keyed by name: entries (run functions), chosen instantiation prefix"""
    ents = W.thread_entries(P)
    res = {}
    for g in ents:
        c = (g.cls or "").split("::")[-1]
        res.setdefault(c, []).append(g)
    need = list(W.POOLS) + ["asio_scheduler", "tcp_server_scheduler"]
    miss = [c for c in need if c not in res]
    if miss: raise Broken("no worker found for " + ", ".join(miss))
    return {c: res[c] for c in need}

def members(P, g, nm):
    """functions named nm of the class instantiation of g"""
    l = [f for f in P.by_qn.get(g.cls + "::" + nm, ()) if f.b]
    r = [f for f in l if f.kind != "pattern" and f.ct == g.ct and f.tu == g.tu]
    if not r:
        # not part of the chosen instantiation: any other one, else the template itself (all differ in types only)
        seen = set()
        for f in sorted(l, key=lambda f: f.kind == "pattern"):
            if f.p in seen: continue
            seen.add(f.p); r.append(f)
        if any(f.kind != "pattern" for f in r): r = [f for f in r if f.kind != "pattern"]
    return r

def pick(P, l):
    """one instantiation of the scheduler class for which most members exist"""
    best = None
    for g in l:
        n = len([f for f in P.fns if f.cls == g.cls and f.ct == g.ct and f.tu == g.tu])
        if best is None or n > best[0]: best = (n, g)
    return best[1]

def ev_create(fr, eng, st, c):
    if c.nm == "create_thread" or (c.isctor and c.cls == "boost::thread" and c.args) or (c.nm == "new" and (c.cls or "").startswith("boost::thread") and c.args and not (c.cls or "").startswith("boost::thread_group")):
        if find_terms(tuple(c.args), lambda t: t and t[0] == "r" and len(t) == 3 and t[2] == "create_thread"): return None
        qs = find_terms(tuple(c.args), lambda t: t and t[0] in ("V",) and t[1][0] in ("I", "F") and "private_queue" in repr(t[1][1:3]) or (t and t[0] == "V" and t[1][0] == "I" and "m_ioservices" in repr(t[1][1])))
        locs = sorted({(contloc(t[1])) for t in qs}, key=repr)
        return ("create", (tuple(strip_sites(locs)), tuple(x[1].split("::")[-1] for x in find_terms(tuple(c.args), lambda t: t and t[0] == "fn")), strip_sites(contloc(c.o)[0] or c.o) if c.o is not None and c.nm == "create_thread" else None), ("r", c.site, "create_thread"))
    if c.nm == "reset" and c.o is not None and c.o[0] == "F" and find_terms(tuple(c.args), lambda t: t and t[0] == "r" and len(t) == 3 and t[2] == "create_thread"):
        return ("hold", c.o, None)
    if c.nm in ("push_back", "insert", "emplace_back", "emplace") and c.o is not None and "m_thread_ids" in repr(c.o[1:3]):
        return ("id", bool(find_terms(tuple(c.args), lambda t: t and t[0] == "r" and len(t) > 2 and t[2] == "get_id")), None)
    if c.nm in ("push_back", "emplace_back") and c.o is not None and c.o[0] == "F" and fieldname(c.o) in ("m_private_queues", "m_ioservices"):
        return ("fill", fieldname(c.o), None)
    return None

def ev_push(fr, eng, st, c):
    if c.isctor: return None
    if c.nm in ("push", "try_push", "push_back") and c.o is not None and len(c.args) in (1, 2):
        cont, idx = contloc(c.o)
        if fieldname(cont) in ("m_private_queues", "m_private_queue"):
            return ("push", (fieldname(cont), strip_sites(idx) if idx is not None else None, task_of(c.args[0]), guard(st, idx)), None)
    if c.nm in ("emplace_back", "push_back") and c.o is not None and c.o[0] == "L" and c.args:
        f = find_terms(c.args[0], lambda t: t and t[0] == "r" and len(t) > 2 and t[2] == "get_future")
        if f: return ("future", None, None)
    if c.nm == "post" and fr.asio and c.o is not None and len(c.args) == 2 and (c.o == ("D", ("this",)) or c.o[0] == "D" and c.oval == ("this",)):
        return ("push", ("m_ioservices", strip_sites(c.args[1]), task_of(c.args[0]), guard(st, c.args[1])), None)
    return None

def task_of(v):
    for n in ("default_termination_task", "set_name_task", "processor_bind_task", "execute_in_all_threads_task"):
        o = has_obj(v, n)
        if o: return (n, strip_sites(o[0]))
    return (None, None)

def guard(st, idx):
    """bounds known for the index at this point: (relation, bound)"""
    if idx is None: return None
    r = []
    for t, v in st.facts.items():
        if t[0] != "bin": continue
        if t[1] == "<" and t[2] == idx and v: r.append(("<", strip_sites(t[3])))
        if t[1] == "<" and t[3] == idx and not v: r.append(("<=", strip_sites(t[2])))
        if t[1] == "==" and idx in t[2:4] and not v: r.append(("<", strip_sites(t[3] if t[2] == idx else t[2])))
    return tuple(sorted(r, key=repr))

def nset(ctx, P, g, cname):
    """bounds which all denote the number of workers of this class, and the creation summary"""
    N = set(); created = None
    fns = [f for f in P.fns if f.cls == g.cls and f.ct == g.ct and f.tu == g.tu and f.b and f.kind != "pattern"]
    fills = []
    for f in fns:
        if not any(x["k"] in ("call", "new", "ctor") and (x.get("nm") == "create_thread" or x["k"] == "new" and x["nt"].startswith("boost::thread") and not x["nt"].startswith("boost::thread_group")) for x in fn_exprs(f)):
            continue
        res, r = fan(ctx, P, f, ev_create)
        for rs, st, val in res:
            evs = [e for it, s, b, br in rs.loops for x in it for e in x] + list(rs.pre)
            if not any(e[0] == "create" for e in evs): continue
            loops = [(it, s, b, br) for it, s, b, br in rs.loops if any(e[0] == "create" for x in it for e in x)]
            once = [e for e in rs.pre if e[0] == "create"]
            entry = {e[1][1] for e in evs if e[0] == "create"}
            created = created or []
            created.append((f, loops, once, rs, st))
            for it, s, b, br in rs.loops:
                if it and all([e[0] for e in x] == ["fill"] for x in it) and b: fills.append((f, s, b, next(iter(it))[0][1]))
    for f in fns:
        if f.sp not in ("ctor",) : continue
        res, r = fan(ctx, P, f, ev_create, noinline=("set_name",))
        for rs, st, val in res:
            for it, s, b, br in rs.loops:
                if it and all([e[0] for e in x] == ["fill"] for x in it) and b: fills.append((f, s, b, next(iter(it))[0][1]))
            for l, v in st.mem.items():
                if l[0] == "F" and l[1] == ("D", ("this",)) and v[0] == "p": fills.append((f, None, ("=", ("V", l)), v))
    return created, fills

class Pools:
    def __init__(self, ctx):
        self.ctx = ctx; P = self.P = ctx.need(["sched", "tcp"])
        self.cl = {c: pick(P, [g for g in l if "any_loggable" in g.ct or c in ("asio_scheduler", "tcp_server_scheduler")] or l) for c, l in classes(ctx, P).items()}
        self.N = {}; self.created = {}
        for c, g in self.cl.items():
            created, fills = nset(ctx, P, g, c)
            if not created: raise Broken("no thread creation found in " + c)
            self.created[c] = created
            N = set()
            for f, loops, once, rs, st in created:
                for it, s, b, br in loops:
                    if b: N.add(self.norm(b, s))
            # parameters of the creating function, handed in by members of the class
            ch = True
            while ch:
                ch = False
                for f, s, b, cont in list(fills):
                    if b[0] == "=":
                        same = {b[1], cont}      # member initialised from a constructor parameter
                        if (same & N) and not same <= N: N |= same; ch = True
                    else:
                        n = self.norm(b, s)
                        sz = ("size", ("V", ("F", ("D", ("this",)), cont)))
                        if n in N and sz not in N: N.add(sz); ch = True
                        if sz in N and n not in N: N.add(n); ch = True
                for f, loops, once, rs, st in created:
                    for i, p in enumerate(f.ps):
                        if ("p", p["n"]) in N:
                            for t in self.args_at(g, f, i):
                                if t not in N: N.add(t); ch = True
            self.N[c] = N
    def norm(self, b, s):
        """number of iterations of a loop left at bound b when started at s"""
        if b[0] == "<" and s == ("c", 0): return b[1]
        if b[0] == "<=" and s == ("c", 1): return b[1]
        if b[0] == "it" and s == ("begin",): return ("size",) + tuple(b[1])
        if b[0] == "range": return ("size", ("V", b[1])) if b[1] is not None else ("?",)
        return ("offset", b, s)
    def args_at(self, g, f, i):
        r = set()
        for h in [x for x in self.P.fns if x.cls == g.cls and x.ct == g.ct and x.tu == g.tu and x.b and x.kind != "pattern" and x is not f]:
            for e in fn_exprs(h):
                if e["k"] == "call" and e.get("f") == f.id and i < len(e["a"]):
                    a = e["a"][i]
                    if a["k"] == "mem" and a.get("o", {}).get("k") == "this": r.add(("V", ("F", ("D", ("this",)), a["n"])))
                    elif a["k"] == "ref" and a["dk"] == "parm": r.add(("p", a["n"]))
        return r

def report(ctx, rule, fn, msg, cname):
    ctx.bad(rule, fn.where(), "%s: %s (%s)" % (fn.nm, msg, cname), key="%s|%s|%s|%s" % (rule, cname, fn.nm, msg))

def check_bind(ctx, pools, c, nm, task, rule):
    """requests for the first n workers, n given by the caller: worker after worker, none beyond the last, none twice"""
    g = pools.cl[c]; P = pools.P; asio = c == "asio_scheduler"
    fs = members(P, g, nm)
    if not fs: raise Broken("%s::%s is not instantiated" % (c, nm))
    for f in fs:
        r = FanRule(ev_push); r.asio = asio; r.flat = True
        eng = Engine(P, r, maxsteps=400000)
        outs = ctx.run_engine(eng, f)
        n0 = len(ctx.violations)
        evs = [e[1] for e in r.flatev if e[0] == "push"]
        if not evs: report(ctx, rule, f, "queues no request at all", c); continue
        for cont, idx, (tn, tt), gd in evs:
            if tn != task: report(ctx, rule, f, "queues something else than a %s" % task, c)
            check_index(ctx, pools, c, f, rule, idx, gd, True, asio, False, None, None)
        idxs = {e[1] for e in evs}
        if not any(i and i[0] == "inc" for i in idxs): report(ctx, rule, f, "does not go on to the next worker", c)
        if not any(i and i[0] == "c" for i in idxs): report(ctx, rule, f, "does not start with the first worker", c)
        ctx.count("fan_outs")
        if len(ctx.violations) == n0: ctx.ok(rule, f.where(), "%s: %s" % (c, nm))

def check_fan(ctx, pools, c, nm, task, rule, futures=False, maximum=False, partial=False):
    g = pools.cl[c]; P = pools.P
    fs = members(P, g, nm)
    if not fs: raise Broken("%s::%s is not instantiated" % (c, nm))
    single = c in ("single_thread_scheduler", "tcp_server_scheduler")
    if partial and not single: return check_bind(ctx, pools, c, nm, task, rule)
    asio = c == "asio_scheduler"
    for f in fs:
        def event(fr, eng, st, cc):
            return ev_push(fr, eng, st, cc)
        r = FanRule(event); r.asio = asio
        eng = Engine(P, r, maxsteps=600000)
        outs = ctx.run_engine(eng, f)
        n0 = len(ctx.violations); nexit = 0
        for k, st, v in outs:
            if k == "t": continue
            nexit += 1
            rs = r.close(st.rs)
            pushes_out = [e for e in rs.pre if e[0] == "push"]
            allev = pushes_out + [e for it, s, b, br in rs.loops for x in it for e in x if e[0] == "push"]
            for e in allev:
                cont, idx, (tn, tt), gd = e[1]
                if tn != task: report(ctx, rule, f, "queues something else than a %s" % task, c)
            if single:
                n = len(pushes_out)
                fl = [e for e in rs.pre if e[0] == "future"]
                if any(any(e[0] == "push" for e in x) for it, s, b, br in rs.loops for x in it) : report(ctx, rule, f, "queues the request repeatedly to the only worker", c)
                elif n != 1: report(ctx, rule, f, "queues %s requests to the only worker" % ("no" if n == 0 else "several"), c)
                if futures and len(fl) != 1: report(ctx, rule, f, "does not return exactly one future for the only worker", c)
                continue
            if pushes_out: report(ctx, rule, f, "queues a request outside of the loop over the workers", c)
            lps = [l for l in rs.loops if any(any(e[0] == "push" for e in x) for x in l[0])]
            bounds_ok = False
            for it, s, b, br in rs.loops:
                for x in it:
                    np_ = [e for e in x if e[0] == "push"]; nf = [e for e in x if e[0] == "future"]
                    if partial:
                        if len(np_) > 1: report(ctx, rule, f, "queues several requests in one step", c)
                    elif lps and (it, s, b, br) in lps:
                        if len(np_) != 1: report(ctx, rule, f, "some iteration queues %d requests" % len(np_), c)
                        if futures and len(nf) != 1: report(ctx, rule, f, "some iteration yields %d futures for %d requests" % (len(nf), len(np_)), c)
                    for e in np_:
                        cont, idx, tk, gd = e[1]
                        check_index(ctx, pools, c, f, rule, idx, gd, partial, asio, maximum, s, b)
            if partial:
                if not lps and any(l[0] for l in rs.loops) is None: pass
                continue
            if len(lps) > 1: report(ctx, rule, f, "queues requests in two loops", c)
            if lps:
                it, s, b, br = lps[0]
                if br: report(ctx, rule, f, "the loop over the workers can be left early", c)
                elif b is None: report(ctx, rule, f, "the loop over the workers is not left at the number of workers", c)
                else:
                    n = pools.norm(b, s)
                    if n not in pools.N[c]: report(ctx, rule, f, "the loop does not run over exactly the workers (bound %s)" % show(n), c)
            else:
                # no iteration happened on this path: it must be the path with zero workers
                if not rs.loops or all(l[2] is None for l in rs.loops): report(ctx, rule, f, "a path queues no request", c)
        if not r.nevents: report(ctx, rule, f, "queues no request at all", c)
        ctx.count("fan_outs"); ctx.count("request_exits", nexit)
        if len(ctx.violations) == n0: ctx.ok(rule, f.where(), "%s: %s" % (c, nm))

def show(n):
    if n[0] == "p": return n[1]
    if n[0] == "V": return show(n[1])
    if n[0] == "F": return n[2]
    if n[0] == "size": return "size of " + show(n[1]) if isinstance(n[1], tuple) else "size"
    if n[0] == "offset": return "from %s to %s" % (show(n[2]) if n[2] else "?", show(n[1][1]) if len(n[1]) > 1 else "?")
    if n[0] == "c": return str(n[1])
    if n[0] in ("bin",): return "%s%s%s" % (show(n[2]), n[1], show(n[3]))
    return n[0]

def check_index(ctx, pools, c, f, rule, idx, gd, partial, asio, maximum, s, b):
    base = 1 if asio else 0
    if asio and maximum:
        # termination requests of the asio scheduler take the next io service each
        if idx is None or not find_terms(idx, lambda t: t and t[0] == "r" and len(t) > 2 and t[2] == "max") and idx[0] != "c": report(ctx, rule, f, "termination request not sent with the reserved priority", c)
        return
    if idx is None: report(ctx, rule, f, "request not queued to an indexed worker", c); return
    if idx[0] == "each": return
    if idx[0] == "c" and idx[1] != base: report(ctx, rule, f, "the first worker addressed is not worker %d" % base, c); return
    if idx[0] not in ("c", "inc") or idx[0] == "inc" and idx[2] != "++": report(ctx, rule, f, "workers are not addressed one after the other", c); return
    rel = "<=" if asio else "<"
    if partial or not asio:
        oth = [n for r_, n in (gd or ()) if r_ == rel and n in pools.N[c]]
        if not oth: report(ctx, rule, f, "the worker index is not kept below the number of workers", c)
    if partial and asio is False and [1 for r_, n in (gd or ()) if r_ == "<=" and n in pools.N[c]]: report(ctx, rule, f, "the worker index may equal the number of workers", c)

# ------------------------------------------------------------------------------------------------ forwarding
class FwdRule(Rule):
    """records calls of the named operations; everything else opaque"""
    max_inline = 4
    def __init__(self, names, inl=None): self.names = set(names); self.inl = inl; self.n = 0
    def init(self): return ()
    def call(self, eng, st, c):
        if c.isctor or c.nm not in self.names: return None
        if c.callee is not None and c.callee.uid == eng.root.uid: return None
        if c.callee is not None and c.o is not None and c.o == ("D", ("this",)) : return None     # own overload: inlined
        self.n += 1
        # the same overload set of a base or of itself
        for i, l in enumerate(c.locs):
            if l is not None and i < len(c.node["a"]) and c.node["a"][i] is not None and eng.is_move(c.node["a"][i]): st = eng.moved(st, l, c.args[i])
        v = ("r", c.site, c.nm)
        return [(st.cp(rs=(st.rs + ((c.nm, c.args, v, c.o),))[:6]).ev(c.line, c.nm), v)]
    def inline(self, eng, fn, c): return (fn.cls == eng.root.cls) if self.inl is None else self.inl(eng, fn, c)

def fwd_param(v, name):
    """v is (a possibly wrapped or defaulted form of) parameter name"""
    if v == ("p", name) : return True
    return bool(find_terms(v, lambda t: t == ("p", name)))

def check_forward(ctx, P, f, names, rule, returns=True, exact=True, extra=None, inl=None):
    """every normal exit made exactly one call of names with all parameters unchanged, and returns its result"""
    r = FwdRule(names, inl)
    eng = Engine(P, r, maxsteps=300000)
    outs = ctx.run_engine(eng, f)
    cname = (f.cls or "").split("::")[-1]
    n0 = len(ctx.violations); n = 0
    for k, st, v in outs:
        if k == "t": continue
        n += 1
        if len(st.rs) != 1:
            report(ctx, rule, f, "passes the request on %s" % ("not at all" if not st.rs else "more than once"), cname); continue
        nm, args, res, o = st.rs[0]
        ps_ = [p["n"] for p in f.ps if p["n"]]
        for i, p in enumerate(ps_):
            if not any(a == ("p", p) if exact else fwd_param(a, p) for a in args): report(ctx, rule, f, "does not pass on its argument %s unchanged" % p, cname)
        pos = [i for p in ps_ for i, a in enumerate(args) if fwd_param(a, p)]
        if pos != sorted(pos): report(ctx, rule, f, "passes its arguments on in a different order", cname)
        if returns and f.rt not in ("void", ""):
            if k != "r" or v is None or not mentions(v[0], res): report(ctx, rule, f, "does not return the result", cname)
    if not n: report(ctx, rule, f, "never returns normally", cname)
    ctx.count("forwarders")
    if len(ctx.violations) == n0: ctx.ok(rule, f.where(), "%s::%s passes on to %s" % (cname, f.nm, "/".join(sorted(names))))

def layer_fns(P, cls, nm):
    l = [f for f in P.by_qn.get(NS + cls + "::" + nm, ()) if f.b]
    seen = set(); r = []
    for f in sorted(l, key=lambda f: f.kind == "pattern"):
        if f.p in seen: continue
        seen.add(f.p); r.append(f)
    return r

# ------------------------------------------------------------------------------------------------ C05
def c05(ctx):
    pools = Pools(ctx); P = pools.P; R_ = "C05"
    # 1. the last proxy: stop, then join
    ds = layer_fns(P, "detail::scheduler_shared_proxy_impl", "~scheduler_shared_proxy_impl")
    if not ds: raise Broken("scheduler_shared_proxy_impl has no destructor")
    class D(Rule):
        max_inline = 4
        def init(self): return (None, False, False)      # worker value, scheduler released, joined
        def call(self, eng, st, c):
            w, rel, j = st.rs
            if c.nm == "get_worker" and c.oval is not None and "m_scheduler" in repr(c.o) + repr(c.oval):
                if rel: report(ctx, R_, f, "asks the scheduler for its workers after releasing it", "proxy")
                v = ("r", c.site, "get_worker")
                return [(st.cp(rs=(v, rel, j)), v)]
            if c.nm in ("reset", "operator=") and c.o is not None and c.o == ("F", ("D", ("this",)), "m_scheduler"):
                return [(eng.storeloc(st.cp(rs=(w, True, j)), c.o, ("c", 0)), ("c", 0))]
            if c.nm in ("join", "join_all", "timed_join", "try_join_for", "try_join_until", "detach"):
                if c.nm not in ("join", "join_all"): report(ctx, R_, f, "does not wait for the workers without limit", "proxy")
                if not rel: report(ctx, R_, f, "joins the workers before the scheduler was told to stop (released)", "proxy")
                if w is None or not mentions(c.oval or (), w): report(ctx, R_, f, "joins something else than the scheduler's workers", "proxy")
                if not any(isinstance(v, tuple) and v[:2] == ("obj", "boost::this_thread::disable_interruption") for k_, v in st.env.items()): report(ctx, R_, f, "joining can be interrupted", "proxy")
                ctx.count("joins")
                return [(st.cp(rs=(w, rel, True)), ("c", None))]
            if c.isctor and c.cls == "boost::this_thread::restore_interruption": report(ctx, R_, f, "joining can be interrupted", "proxy")
            return None
    for f in ds:
        n0 = len(ctx.violations)
        outs = ctx.run_engine(Engine(P, D(), maxsteps=100000), f)
        for k, st, v in outs:
            if k == "t": report(ctx, R_, f, "an exception prevents joining", "proxy"); continue
            if not st.rs[2]: report(ctx, R_, f, "a path does not join the workers", "proxy")
            if not st.rs[1]: report(ctx, R_, f, "a path does not release the scheduler", "proxy")
        ctx.count("proxy_destructors")
        if len(ctx.violations) == n0: ctx.ok(R_, f.where(), "released, then joined, on all %d exits" % len(outs))
    # 2. the joinable really joins
    ws = [f for f in P.by_qn.get(NS + "detail::worker_wrap::join", ()) if f.b and f.kind != "pattern"]
    if not ws: raise Broken("worker_wrap::join is not instantiated")
    for f in ws:
        class J(Rule):
            def init(self): return 0
            def call(self, eng, st, c):
                if c.qn in ("boost::thread::join", "boost::thread_group::join_all") or c.nm in ("join", "join_all") and (c.callee is None):
                    ctx.count("thread_joins")
                    if "m_group" not in repr(c.o): report(ctx, R_, f, "joins something else than the threads it holds", "worker_wrap")
                    return [(st.cp(rs=st.rs + 1), ("c", None))]
        n0 = len(ctx.violations)
        for k, st, v in ctx.run_engine(Engine(P, J(), maxsteps=50000), f):
            if k != "t" and st.rs < 1: report(ctx, R_, f, "a path joins no thread", "worker_wrap " + f.ct.split("<")[-1].strip(">"))
        if len(ctx.violations) == n0: ctx.ok(R_, f.where(), "joins the threads it holds: " + f.ct)
    # 3. what is joined are the threads the scheduler created
    for c, g in pools.cl.items():
        holders = set()
        for f, loops, once, rs, st in pools.created[c]:
            evs = [e for it, s, b, br in loops for x in it for e in x] + list(once)
            for e in evs:
                if e[0] == "create" and len(e[1]) > 2 and e[1][2]: holders.add(e[1][2])
            holders |= {e[1] for e in rs.pre if e[0] == "hold"}
            for l, v in st.mem.items():
                if l[0] == "F" and find_terms(v, lambda t: t and t[0] == "r" and len(t) == 3 and t[2] == "create_thread"): holders.add(l)
        holders = {strip_sites(h) for h in holders if h[0] == "F"}
        if not holders: raise Broken("where %s keeps its threads is not found" % c)
        fs = members(P, g, "get_worker")
        if not fs: raise Broken("no get_worker in " + c)
        for f in fs:
            class G(Rule):
                def init(self): return ()
                def inline(self, eng, fn, cc): return fn.cls == f.cls
            n0 = len(ctx.violations)
            for k, st, v in ctx.run_engine(Engine(P, G(), maxsteps=50000), f):
                if k != "r": continue
                vals = {strip_sites(t[1]) for t in find_terms(v[0], lambda t: t and t[0] == "V")}
                if not (vals & holders): report(ctx, R_, f, "does not hand out the threads the scheduler created", c)
            ctx.count("get_workers")
            if len(ctx.violations) == n0: ctx.ok(R_, f.where(), "%s hands out %s" % (c, sorted(h[2] for h in holders)))
    # 4. nobody else waits for worker threads
    for f in P.fns:
        if f.file.startswith("/") or not f.b: continue
        for e in fn_exprs(f):
            if e["k"] == "call" and (e.get("nm") in ("join", "join_all", "timed_join", "try_join_for") ) and (e.get("qn", "").startswith("boost::thread") or "any_joinable" in (e.get("o") or {}).get("t", "") or e.get("d")):
                ok = f.qn.startswith((NS + "detail::worker_wrap::", NS + "detail::thread_join_helper::", NS + "detail::scheduler_shared_proxy_impl::~", NS + "io_threadpool_scheduler", NS + "boost_type_erasure_impl", NS + "detail::scheduler_shared_proxy_impl::~"))
                if "type_erasure" in f.qn or f.qn.startswith("boost::type_erasure"): ok = True
                ctx.count("join_calls")
                if not ok: ctx.bad(R_, f.where(e.get("l")), "threads are joined outside of the last proxy's destructor", key="C05|join|%s" % f.qn)
    # 5. all copies of a proxy share one implementation object: only the last one runs the destructor above
    ctx.minimum("proxy_destructors", 1); ctx.minimum("joins", 1); ctx.minimum("thread_joins", 2); ctx.minimum("get_workers", 9); ctx.minimum("join_calls", 3)
    return ("On every path of the destructor of the proxies' shared implementation: get_worker, then release of the scheduler, then join of exactly that value while an object disabling interruption lives; "
            "worker_wrap::join reaches thread::join / thread_group::join_all for both thread holders; each scheduler's get_worker hands out the member its threads were created into; join is called from nowhere else (so never by a worker holding a promoted scheduler).")

# ------------------------------------------------------------------------------------------------ C06 (ids)
def ids(ctx, pools, R_="C06"):
    P = pools.P
    for c, g in pools.cl.items():
        single = c in ("single_thread_scheduler", "tcp_server_scheduler")
        n0 = len(ctx.violations)
        for f, loops, once, rs, st in pools.created[c]:
            seqs = [x for it, s, b, br in loops for x in it] + ([tuple(e for e in rs.pre if e[0] in ("create", "id"))] if once else [])
            for x in seqs:
                if single: continue
                nc = sum(1 for e in x if e[0] == "create"); ni = [e for e in x if e[0] == "id"]
                if nc and (len(ni) != nc or not all(e[1] for e in ni)): report(ctx, R_, f, "does not note the id of every thread it creates exactly once", c)
        for f in members(P, g, "thread_ids"):
            class G(Rule):
                def init(self): return ()
                def call(self, eng, st, cc):
                    if cc.nm in ("push_back", "emplace_back", "insert") and cc.o is not None: return [(st.cp(rs=st.rs + (strip_sites(cc.args[-1]) if not find_terms(tuple(cc.args), lambda t: t and t[0] == "r" and len(t) > 2 and t[2] == "get_id") else "get_id",)), ("r", cc.site, cc.nm))]
            for k, st, v in ctx.run_engine(Engine(P, G(), maxsteps=50000), f):
                if k != "r": continue
                if single:
                    if st.rs != ("get_id",): report(ctx, R_, f, "does not report exactly the id of the worker", c)
                else:
                    if not find_terms(v[0], lambda t: t and t[0] == "F" and t[2] == "m_thread_ids"): report(ctx, R_, f, "does not report the ids of the threads created", c)
            ctx.count("thread_ids")
        if len(ctx.violations) == n0: ctx.ok(R_, g.where(), c + ": one id per worker, all reported")
    ctx.minimum("thread_ids", 9)

# ------------------------------------------------------------------------------------------------ C07
def c07(ctx):
    pools = Pools(ctx); P = pools.P; R_ = "C07"
    for c in pools.cl:
        check_fan(ctx, pools, c, "set_name", "set_name_task", R_)
        check_fan(ctx, pools, c, "processor_bind", "processor_bind_task", R_, partial=True)
        check_fan(ctx, pools, c, "execute_in_all_threads", "execute_in_all_threads_task", R_, futures=True)
    # each worker reads the queue with its own index, created in the same order
    for c, g in pools.cl.items():
        for f, loops, once, rs, st in pools.created[c]:
            for e in [e for it, s, b, br in loops for x in it for e in x] + list(once):
                if e[0] == "create" and not e[1][0]: report(ctx, R_, f, "starts a worker without a queue of its own", c)
            for it, s, b, br in loops:
                if br: report(ctx, R_, f, "may stop before having created all workers", c)
                n = {e[1][0][0][1] for x in it for e in x if e[0] == "create" and e[1][0]}
                if any(i is None or i[0] not in ("c", "inc", "each") for i in n) or (any(i[0] == "c" and i[1] != 0 for i in n)): report(ctx, R_, f, "workers do not each get the queue of their own index", c)
        ctx.ok(R_, g.where(), c + ": every worker reads its own queue")
    # the request itself: promise fulfilled exactly once with the outcome of the callable
    for f in [f for f in P.by_qn.get(NS + "detail::execute_in_all_threads_task::operator()", ()) if f.b]:
        import rules_post
        rules_post.check_promise_task(ctx, P, f, R_)
    # proxies and composites
    for cls in ("detail::scheduler_shared_proxy_impl", "scheduler_shared_proxy", "any_shared_scheduler_proxy"):
        for nm in ("set_name", "processor_bind", "execute_in_all_threads"):
            for f in layer_fns(P, cls, nm): check_forward(ctx, P, f, {nm}, R_)
    composite_each(ctx, P, "set_name", R_); composite_each(ctx, P, "execute_in_all_threads", R_, collect=True)
    ctx.minimum("fan_outs", 24); ctx.minimum("forwarders", 6); ctx.minimum("composite_loops", 2); ctx.minimum("promise_tasks", 1)
    return ("Each fan-out (set_name, processor_bind, execute_in_all_threads of nine schedulers) is segmented by loop iterations on all paths: every iteration queues exactly one request task to the private queue of its own index, indices start at the first worker, advance by one, "
            "and the loop is left exactly at a bound that equals the bound of the loop creating the workers; one future per request. execute_in_all_threads_task fulfils its promise exactly once on every path; proxies pass the call on once with all arguments; composites call every sub-pool.")

def composite_each(ctx, P, nm, rule, collect=False, fns=None, op=None, names=("m_subpools", "m_schedulers"), args=True, chosen=False):
    fs = fns or layer_fns(P, "composite_threadpool_scheduler", nm)
    if not fs: raise Broken("composite_threadpool_scheduler::%s not found" % nm)
    op = op or nm
    for f in fs:
        def event(fr, eng, st, c):
            if c.isctor: return None
            if c.nm == op and c.o is not None and c.o != ("D", ("this",)):
                return ("sub", tuple(strip_sites(a) for a in c.args), ("r", c.site, "sub"))
            if collect and (c.nm in ("insert", "push_back", "emplace_back", "merge", "push_front") or c.nm in ("move", "copy", "transform") and len(c.args) >= 3): return ("collect", None, None)
            return None
        res, r = fan(ctx, P, f, event)
        cname = (f.cls or "").split("::")[-1]
        n0 = len(ctx.violations)
        for rs, st, v in res:
            lps = [l for l in rs.loops if any(any(e[0] == "sub" for e in x) for x in l[0])]
            if any(e[0] == "sub" for e in rs.pre) and not lps and not chosen: report(ctx, rule, f, "does not address all sub-pools", cname)
            for it, s, b, br in lps:
                if any(sum(1 for e in x if e[0] == "sub") != 1 for x in it): report(ctx, rule, f, "does not address every sub-pool exactly once", cname)
                if br or b is None: report(ctx, rule, f, "can stop before the last sub-pool", cname)
                elif not over_all(b, s, names): report(ctx, rule, f, "does not go over all sub-pools", cname)
                if collect and any(any(e[0] == "sub" for e in x) and not collected(x) for x in it): report(ctx, rule, f, "drops what a sub-pool returned", cname)
                for x in it:
                    for e in x:
                        if e[0] == "sub" and args:
                            for p in f.ps:
                                if p["n"] and not (chosen and p["n"]) and not any(a == ("p", p["n"]) for a in e[1]): report(ctx, rule, f, "does not pass on its argument %s" % p["n"], cname)
        if not r.nevents: report(ctx, rule, f, "addresses no sub-pool", cname)
        ctx.count("composite_loops")
        if len(ctx.violations) == n0: ctx.ok(rule, f.where(), "%s::%s addresses every sub-pool once" % (cname, f.nm))

AGG = (("get_queue_size", True), ("get_max_queue_size", True), ("reset_max_queue_size", False), ("thread_ids", True), ("set_name", False), ("get_diagnostics", True), ("clear_diagnostics", False), ("get_queues", True), ("execute_in_all_threads", True))
COMPOSITES = ("composite_threadpool_scheduler", "composite_threadpool_scheduler::lockable_shared_scheduler")
def c34(ctx, thorough=False):
    import sym
    P = ctx.need(["sched", "all"])
    R_ = "delegation"
    cls = sorted({f.cls for f in P.fns if f.cls and f.b and f.file.endswith("composite_threadpool_scheduler.hpp")})
    comp = [c for c in cls if c.split("::")[-1] in ("composite_threadpool_scheduler", "lockable_shared_scheduler")]
    if len(comp) < 2: raise Broken("composite scheduler not found")
    def members(c, nm): return sym.insts(P, lambda f: f.cls == c and f.nm == nm)
    for c in comp:
        for nm, collect in AGG:
            fs = [f for f in members(c, nm)]
            if not fs:
                if nm in ("get_queues",): continue
                if nm in ("clear_diagnostics",) and not c.endswith("composite_threadpool_scheduler"): continue
                raise Broken("%s::%s not found" % (c, nm))
            for f in fs:
                composite_each(ctx, P, nm, R_, collect=collect, fns=[f], chosen=nm == "get_diagnostics")
        for nm in ("post", "interruptible_post", "get_diagnostics"):
            for f in members(c, nm): dispatch(ctx, P, f, nm, R_)
        for f in members(c, "is_valid"): all_valid(ctx, P, f, R_)
    for f in sym.insts(P, lambda f: (f.cls or "").endswith("composite_lockable_weak_scheduler") and f.nm in ("lock", "composite_lockable_weak_scheduler") and f.d.get("sp") not in ("cc", "mc")):
        if f.nm == "lock": weak_lock(ctx, P, f, R_)
        else: composite_each(ctx, P, f.nm, R_, collect=True, fns=[f], op="get_weak_scheduler", names=("schedulers", "m_subpools", "m_schedulers"), args=False)
    tells = sym.insts(P, lambda f: f.cls in comp and any(e.get("k") == "call" and e.get("nm") == "set_steal_from_queues" for e in fn_exprs(f)))
    if not tells: raise Broken("nobody tells the sub-pools of a composite what to steal from")
    for f in tells: stealing(ctx, P, f, R_)
    for f in sym.insts(P, lambda f: f.cls in comp and f.cls.endswith("composite_threadpool_scheduler") and f.nm == "composite_threadpool_scheduler" and f.ps and f.kind != "pattern" and "any_shared_scheduler_proxy" in f.ps[0]["t"]): composing(ctx, P, f, R_, {g.nm for g in tells} - {f.nm})
    for c in comp:
        for nm, kind in (("get_queue_size", "sum"), ("get_max_queue_size", "max")):
            for f in members(c, nm): folding(ctx, P, f, R_, kind)
    ctx.minimum("composite_loops", 14); ctx.minimum("dispatches", 6)
    return ("Every operation of the composite scheduler and of its promoted weak form is segmented by loop iterations on all paths: reports and broadcasts call every sub-pool exactly once, from the first to the last, with all arguments, and keep what each returned. "
            "Operations on one pool call the element of the pool list at find_position(queue number of the caller, number of pools), once, and only if there is a pool. A weak composite keeps and promotes every sub-pool; each sub-pool is told to steal from the queues of all others and not from its own.")

def dispatch(ctx, P, f, nm, R_):
    """the call goes to pools[find_position(prio, size)]"""
    import sym
    cname = (f.cls or "").split("::")[-1]; ok = True; n = 0
    ps = sym.pterms(f); num = [p for p, d in zip(ps, f.ps) if d["t"].replace("const ", "").rstrip("&") in ("std::size_t", "unsigned long", "size_t", "$T")]
    own = lambda e, fn, c: fn.file == f.file
    outs, r = sym.paths(ctx, P, f, inl=own, ev=lambda c: c.nm == nm or c.nm == "post")
    for k, s, v in outs:
        if k == "t": continue
        l = [e for e in s.rs if e[0] == nm and find_terms((e[1], e[2]), lambda t: t and t[0] == "call" and t[1] == "find_position")]
        other = [e for e in s.rs if e[0] == nm and e not in l]
        if f.kind == "pattern" and not l and len(other) == 1 and other[0][1] in (None, ("D", ("this",))): continue       # the overload for the wrapped job
        em = set()
        for t, b in s.facts.items():
            if t[0] == "call" and t[1] == "empty": em.add(b)
            elif t[0] == "call" and t[1] == "size": em.add(not b)
            elif t[0] == "bin" and find_terms(t, lambda x: x and x[0] == "call" and x[1] == "size"): em |= {not b if t[1] in ("!=", "<", ">") else b}
        empty = True in em
        zero = nm == "get_diagnostics" and (not num or any(b is True and t[0] == "bin" and t[1] == "==" and num[0] in t or b is False and (t == num[0] or t[0] == "bin" and t[1] == "!=" and num[0] in t) for t, b in s.facts.items()))
        def bad(m):
            report(ctx, R_, f, m, cname)
        if nm == "get_diagnostics" and zero: continue
        if not l and not other:
            if not empty: bad("passes the request to no sub-pool"); ok = False
            continue
        n += 1
        if other or len(l) != 1: bad("does not pass the request to the sub-pool designated by its number"); ok = False; continue
        fp = [t for t in find_terms((l[0][1], l[0][2]), lambda t: t and t[0] == "call" and t[1] == "find_position")][0]
        pos, size = fp[3][:2]
        if not (sym.strip(size)[:2] == ("call", "size") and find_terms(size, lambda t: len(t) == 3 and t[0] == "F" and t[2] in ("m_subpools", "m_schedulers"))): bad("chooses among another number of pools than it has"); ok = False
        want = num[0] if num else ("c", 0)
        if num and not any(sym.strip(a) == num[0] for a in l[0][3]): bad("does not pass on the queue number")
        if sym.strip(pos) != want: bad("chooses the sub-pool by something else than the caller's number"); ok = False
        if False not in em:
            bad("chooses a sub-pool without knowing that there is one"); ok = False
        if nm != "post" and not find_terms(v, lambda t: t and t[0] == "call" and t[1] == nm): bad("does not return what the sub-pool returned"); ok = False
    if n: ctx.count("dispatches")
    if ok: ctx.ok(R_, f.where(), "%s::%s" % (cname, nm))

class GuardFan(FanRule):
    """also keeps, per iteration, which of the values it asked for were true and which counters were found equal"""
    def branch(self, eng, st, t, truth):
        st = FanRule.branch(self, eng, st, t, truth)
        if st.rs.cur is None: return st
        e = None
        if t[0] == "r" and t[2:] == ("sub",): e = ("ok", truth)
        elif t[0] == "bin" and t[1] in ("==", "!=", "<", ">", "<=", ">=") and not find_terms(t, lambda x: x and x[0] == "r" and len(x) > 2 and x[2] in ("size", "end", "cend")):
            e = ("cmp", (t[1], isidx(t[2]) and isidx(t[3]), truth))
        if e is None or e in st.rs.pend: return st
        return st.cp(rs=st.rs.set(pend=(st.rs.pend + (e,))[:12]))

class CollectFan(GuardFan):
    """iterations are collected per loop, over all paths, instead of per path: for nested loops"""
    def loop_head(self, eng, st, node):
        if not hasattr(self, "got"): self.got = {}
        if st.rs.cur == id(node): self.got.setdefault(id(node), set()).add(st.rs.pend)
        st = GuardFan.loop_head(self, eng, st, node)
        return st.cp(rs=st.rs.set(iters=frozenset()))
    def close1(self, rs):
        return GuardFan.close1(self, rs.set(iters=rs.cur))
    def iters(self, me): return self.got.get(me, set())

def all_valid(ctx, P, f, R_):
    cname = (f.cls or "").split("::")[-1]
    def event(fr, eng, st, c):
        if c.isctor: return None
        if c.nm == "is_valid" and c.o is not None and c.o != ("D", ("this",)): return ("sub", (), ("r", c.site, "sub"))
        return None
    res, r = fan(ctx, P, f, event, rule=GuardFan); n0 = len(ctx.violations); found = False
    for rs, st, v in res:
        v = v[0] if isinstance(v, tuple) and v and isinstance(v[0], tuple) else v
        lps = [l for l in rs.loops if any(any(e[0] == "sub" for e in x) for x in l[0])]
        if v == ("c", True):
            if not lps and not rs.loops: report(ctx, R_, f, "is valid without looking at its sub-pools", cname)
            for it, s, b, br in lps:
                if br or b is None or not over_all(b, s, ("m_subpools", "m_schedulers")): report(ctx, R_, f, "is valid without looking at all sub-pools", cname)
                if any(("ok", False) in x or ("sub", ()) in x and ("ok", True) not in x for x in it): report(ctx, R_, f, "is valid though a sub-pool is not", cname)
                found = found or any(("ok", True) in x for x in it)
        elif v == ("c", False):
            # a loop which was left at its end found every sub-pool valid
            for it, s, b, br in lps:
                if not br and b is not None and b[0] != "range" and rs.pre == () and all(("ok", True) in x for x in it if x): report(ctx, R_, f, "is not valid though all sub-pools are", cname)
    if not r.nevents: report(ctx, R_, f, "is valid without looking at its sub-pools", cname)
    ctx.count("composite_loops")
    if len(ctx.violations) == n0: ctx.ok(R_, f.where(), "%s::is_valid" % cname)

def weak_lock(ctx, P, f, R_):
    n0 = len(ctx.violations)
    def event(fr, eng, st, c):
        if c.isctor: return None
        if c.nm == "lock" and c.o is not None and c.o != ("D", ("this",)): return ("sub", (), ("r", c.site, "sub"))
        if c.nm in ("push_back", "emplace_back"): return ("collect", None, None)
        return None
    res, r = fan(ctx, P, f, event); both = False
    for rs, st, v in res:
        for it, s, b, br in [l for l in rs.loops if any(any(e[0] == "sub" for e in x) for x in l[0])]:
            if br or b is None or not over_all(b, s, ("m_schedulers",)): report(ctx, R_, f, "does not promote all sub-pools", "weak")
            if any(sum(1 for e in x if e[0] == "sub") != 1 for x in it): report(ctx, R_, f, "does not promote every sub-pool once", "weak")
            both = both or any(any(e[0] == "collect" for e in x) for x in it)
    if not r.nevents: report(ctx, R_, f, "promotes no sub-pool", "weak")
    elif not both: report(ctx, R_, f, "drops the sub-pools it promoted", "weak")
    ctx.count("composite_loops")
    if len(ctx.violations) == n0: ctx.ok(R_, f.where(), "weak composite: lock")

def stealing(ctx, P, f, R_):
    """two nested loops: pool i gets the queues of every j != i"""
    n0 = len(ctx.violations)
    def event(fr, eng, st, c):
        if c.isctor: return None
        if c.nm == "set_steal_from_queues": return ("sub", (tuple(strip_sites(a) for a in c.args), tuple(sorted({t[2] for t in find_terms((c.o, c.oval), lambda t: t and t[0] == "I" and t[2][0] == "inc")}, key=repr))), None)
        if c.nm in ("insert", "push_back", "emplace_back"):
            ix = {contloc(t[1])[1] for t in find_terms(tuple(c.args), lambda t: t and t[0] == "V" and t[1][0] == "I")} | {t[2] for t in find_terms(tuple(c.args), lambda t: t and t[0] == "I")}
            return ("collect", tuple(sorted({x[1] for x in ix if x and x[0] == "inc"}, key=repr)), None)
        return None
    res, r = fan(ctx, P, f, event, rule=CollectFan); took = spared = other = False
    def bad(m): report(ctx, R_, f, m, "composite")
    seen = set()
    for rs, st, v in res:
        for me, s, b, br in rs.loops:
            it = r.iters(me)
            if (me, s, b, br) in seen or not any(any(e[0] == "sub" for e in x) for x in it): continue
            seen.add((me, s, b, br))
            if br or b is None or s not in (("c", 0), ("begin",), ("range",)): bad("does not tell every sub-pool what to steal from")
            if any(sum(1 for e in x if e[0] == "sub") != 1 for x in it): bad("does not tell every sub-pool once what to steal from")
            outer = {t[1] for x in it for e in x if e[0] == "sub" for t in e[1][1]}
            inner = []
            for l in {e[1] for x in it for e in x if e[0] == "loop"}:
                (me2, s2, b2, br2) = l
                if br2 or b2 is None or s2 not in (("c", 0), ("begin",), ("range",)): bad("leaves out queues a sub-pool may steal from")
                inner += [(i, l) for i in r.iters(me2)]
            for i, l in inner:
                cmps = [y[1] for y in i if y[0] == "cmp"]; other |= any(not k[1] for k in cmps)
                eq = [(c[0], c[2]) for c in cmps if c[1]]
                cl = [y for y in i if y[0] == "collect"] + [z for y in i if y[0] == "loop" and not y[1][3] and all(any(z[0] == "collect" for z in x) for x in r.iters(y[1][0])) for x in r.iters(y[1][0]) for z in x if z[0] == "collect"]
                c = bool(cl); took |= c
                same = any(o == "==" and t or o == "!=" and not t for o, t in eq)
                differ = any(o == "==" and not t or o == "!=" and t for o, t in eq)
                spared |= same and not c
                if c and same: bad("lets a sub-pool steal from its own queues")
                if not c and eq and not same: bad("leaves out queues a sub-pool may steal from")
                if c and differ and any(set(y[1]) & outer for y in cl): bad("takes the queues of another sub-pool than the one it looks at")
    if not r.nevents: bad("tells no sub-pool what to steal from")
    elif not took: bad("gives sub-pools nothing to steal from")
    elif not spared and not other: bad("lets a sub-pool steal from its own queues")
    ctx.count("composite_loops")
    if len(ctx.violations) == n0: ctx.ok(R_, f.where(), "queues to steal from")

def jobtype(t):
    t = t.replace("const ", "").rstrip("& ")
    return t[t.index("<") + 1:t.rindex(">")] if "<" in t else None

def composing(ctx, P, f, R_, stealers):
    """the constructor replayed on lists: one sub-pool per proxy of the job type, in order; the queues of sub-pool i at index i"""
    import sym
    def spec(rule, eng, st, c):
        if c.nm in ("size", "begin", "end", "cbegin", "cend") and c.o is not None and not c.args: return [(st, ("call", c.nm, ("A", c.o), ()))]
        return None
    own = lambda e, fn, c: fn.file == f.file and fn.nm not in stealers
    outs, r = sym.paths(ctx, P, f, inl=own, ev=lambda c: c.nm in ("push_back", "emplace_back", "insert") and not find_terms(tuple(c.args), lambda t: t and t[0] == "call" and t[1] in ("make_shared", "make_unique")) or c.nm == "set_steal_from_queues" or c.nm in stealers, spec=spec)
    ps = sym.pterms(f); job = jobtype(f.ct or ""); n0 = len(ctx.violations)
    mine = [p for p, d in zip(ps, f.ps) if jobtype(d["t"]) and (f.ct or "").split("composite_threadpool_scheduler<", 1)[-1].startswith(jobtype(d["t"]) + ",")]
    def bad(m): report(ctx, R_, f, m, "composite")
    for k, s, v in outs:
        if k == "t": continue
        lists = {}; known = True; told = False
        def num(t):
            if t[0] == "c": return t[1]
            if t[0] == "obj" and len(t) == 3: return num(t[2])
            if t[0] == "call" and t[1] in ("begin", "cbegin"): return 0
            if t[0] == "call" and t[1] in ("end", "cend", "size"): return len(lists.get(t[2][1], ()))
            if t[0] == "bin" and t[1] in ("+", "-"): a, b = num(t[2]), num(t[3])
            elif t[0] == "call" and t[1] in ("operator+", "operator-") and len(t[3]) == 2: a, b = num(t[3][0]), num(t[3][1])
            else: a = b = None
            if a is None or b is None: return None
            return a + b if (t[1][-1] == "+") else a - b
        for e in s.rs:
            if e[0] in ("push_back", "emplace_back"): lists.setdefault(e[1], []).append(e[2][3][0])
            elif e[0] == "insert" and len(e[2][3]) == 2:
                n = num(e[2][3][0])
                if n is None: known = False; break
                if not 0 <= n <= len(lists.get(e[1], ())): bad("inserts queues outside of their list"); known = False; break
                lists.setdefault(e[1], []).insert(n, e[2][3][1])
            elif e[0] == "insert": known = False; break
            else: told = True
        pools = [l for o, l in lists.items() if o[0] == "F" and o[2] == "m_subpools"]
        pools = pools[0] if pools else []
        if [sym.strip(x) for x in pools] != mine and known: bad("does not take every scheduler of its job type as a sub-pool, in order")
        if not told and known: bad("does not tell its sub-pools what to steal from")
        if not known: continue
        qs = [l for o, l in lists.items() if not (o[0] == "F" and o[2] == "m_subpools") and any(find_terms(x, lambda t: t and t[0] == "call" and t[1] == "get_queues") for x in l)]
        if not qs: continue
        for i, p in enumerate(mine):
            if i >= len(qs[0]) or not find_terms(qs[0][i], lambda t: t == p): bad("the queues of a sub-pool are not kept at its index"); break
        if len(qs[0]) != len(ps): bad("does not keep the queues of every scheduler")
        ctx.count("compositions")
    if len(ctx.violations) == n0: ctx.ok(R_, f.where(), "%d schedulers" % len(ps))

def folding(ctx, P, f, R_, kind):
    """accumulate over the sizes of a sub-pool: the sum, or the maximum"""
    n0 = len(ctx.violations)
    class FoldRule(FanRule):
        lam = None
        def call(self, eng, st, c):
            if c.nm == "accumulate":
                for a in c.args:
                    l = eng.as_lambda(a)
                    if l is not None: self.lams.add(l)
                return [(st, ("r", c.site, "accumulate"))]
            if c.nm in ("max", "min") and len(c.args) == 2: return [(st, ("call", c.nm) + tuple(c.args))]
            return None
    r = FoldRule(lambda *a: None); r.lams = set()
    eng = Engine(P, r, maxsteps=100000); ctx.run_engine(eng, f)
    for lam in r.lams:
        a, b = ("p", "x"), ("p", "y")
        for k, s, v in eng.run_lambda(lam, State(rs=r.init()), [a, b]):
            if k == "t": continue
            v = v[0] if v else None
            if kind == "sum":
                if not (v and v[0] in ("bin", "upd") and find_terms(v, lambda t: t == a) and find_terms(v, lambda t: t == b) and "+" in v[1:3] or v and v[0] == "upd"): report(ctx, R_, f, "does not sum up the queues of a sub-pool", "composite")
            else:
                if v and v[0] == "call" and v[1] == "max" and set(v[2:]) == {a, b}: continue
                gt = None        # is a > b on this path?
                for t, tr in s.facts.items():
                    if t[0] == "bin" and t[1] == "<" and set(t[2:4]) == {a, b}: gt = (t[2] == b) == tr
                if gt is None or v != (a if gt else b): report(ctx, R_, f, "does not report the longest queue of a sub-pool", "composite")
        ctx.count("folds")
    if len(ctx.violations) == n0 and r.lams: ctx.ok(R_, f.where(), "%s of the queues" % kind)

def collected(x):
    return any(e[0] == "collect" or e[0] == "loop" and not e[1][3] and all(any(y[0] == "collect" for y in i) for i in e[1][0]) for e in x)

def over_all(b, s, names):
    if b[0] == "range": return b[1] is not None and b[1][0] == "F" and b[1][2] in names
    if b[0] == "it": return s == ("begin",) and any(n in repr(b[1]) for n in names)
    if b[0] == "<" and b[1][0] == "end": return s == ("begin",) and any(n in repr(b[1]) for n in names)
    if b[0] == "<": return s == ("c", 0) and b[1][0] == "size" and any(n in repr(b[1]) for n in names)
    return False

def c04_fan(ctx):
    pools = Pools(ctx)
    for c in pools.cl: check_fan(ctx, pools, c, "~" + c, "default_termination_task", "C04", maximum=True)
    # the task itself ends the worker by exception on every path
    P = pools.P
    for f in [f for f in P.by_qn.get(NS + "detail::default_termination_task::operator()", ()) if f.b]:
        if f.kind == "pattern" and any(g.kind != "pattern" for g in P.by_qn[f.qn] if g.b): continue
        class T(Rule):
            def init(self): return ()
        outs = ctx.run_engine(Engine(P, T(), maxsteps=50000), f)
        bad = [o for o in outs if o[0] != "t" or not (len(o[2]) > 1 and str(o[2][1]).endswith("shutdown_exception"))]
        ctx.count("termination_tasks")
        if bad: report(ctx, "C04", f, "a termination task may end without asking the worker to end", "default_termination_task")
        else: ctx.ok("C04", f.where(), "throws shutdown_exception on every path")
    ctx.minimum("termination_tasks", 1); ctx.minimum("fan_outs", 9)

def c04(ctx):
    W.analyse(ctx, {"C04"}); c04_fan(ctx)
    return ("Worker loops are analysed on all paths: after shutdown_exception was caught the queue is polled until it had nothing before the loop is left. Each destructor's loop over termination tasks is segmented by iterations and compared with the loops creating the workers: one task per worker, to the private queue of its own index. "
            "The termination task throws shutdown_exception on every path.")
