"""Queues: conservation of elements (C10), lock discipline (C11), order (C12)."""
from engine import *
from core import Broken
from sym import Rec, paths, calls, insts, strip, THIS, F, V
import rules_pool
from rules_pool import contloc, strip_sites
NS = "boost::asynchronous::"
INS = {"push_back": "back", "emplace_back": "back", "push_front": "front", "emplace_front": "front"}
REM = {"pop_back": "back", "pop_front": "front"}
OTHER = ("erase", "clear", "resize", "assign", "swap", "insert", "emplace", "rerase", "rresize", "splice", "remove", "remove_if", "unlink", "extract", "merge", "reset", "consume_one", "consume_all", "rset_capacity")
LEAF = ("guarded_deque", "circular_queue", "threadsafe_list", "lockfree_queue", "lockfree_stack", "lockfree_spsc_queue")
ALL = LEAF + ("any_queue_container", "queue_converter")

def rep(ctx, R_, f, msg, trace=(), line=None):
    what = "%s::%s" % ((f.cls or "").split("::")[-1], f.nm)
    ctx.bad(R_, f.where(line), "%s: %s" % (what, msg), key="%s|%s|%s" % (R_, what, msg), trace=trace)

class QS(tuple):
    # ins: insertions (end), rem: removals (end or source), out: what the output was assigned, size: +/- counted, nonempty, free, cap
    N = ("ins", "insv", "rem", "out", "size", "nonempty", "free", "cap", "bad")
    def __getattr__(self, n):
        try: return self[QS.N.index(n)]
        except ValueError: raise AttributeError(n)
    def set(self, **kw):
        l = list(self)
        for k, v in kw.items(): l[QS.N.index(k)] = v
        return QS(l)

def kind_of(P, cls):
    for r in P.rec_by_qn.get(NS + cls, ()):
        for fd in r["fields"]:
            t = fd["t"]
            if t.startswith(("std::deque<", "std::list<")) : return "D", fd["n"]
            if t.startswith("boost::lockfree::"): return "L", fd["n"]
            if t.startswith("boost::circular_buffer<"): return "C", fd["n"]
        names = [fd["n"] for fd in r["fields"]]
        if "m_head" in names: return "N", "m_head"
        if "m_queues" in names or "m_from_queue" in names: return "Q", names[0]
    raise Broken("storage of %s not recognised" % cls)

class QRule(Rule):
    max_inline = 5
    def __init__(self, ctx, f, kind, cont):
        self.ctx = ctx; self.f = f; self.kind = kind; self.cont = F(cont)
        self.pid = f.ps[0]["id"] if f.ps else None; self.pname = f.ps[0]["n"] if f.ps else None
        self.ends = set(); self.counter = None; self.subs = set()
    def init(self): return QS(((), True, (), None, (), False, 0, None, ()))
    def inline(self, eng, fn, c): return fn.file == eng.root.file or fn.file.startswith("queue/") and self.kind != "Q" and fn.nm not in ("increase", "decrease", "size")
    def err(self, st, c, msg): rep(self.ctx, "C10", self.f, msg, st.trace, c.line)
    def rooted(self, loc): return loc[0] == "L" and self.pid is not None and loc[2] == self.pid
    def insert(self, eng, st, c, end, v):
        rs = st.rs; self.ends.add(("ins", end))
        if not mentions(v, ("p", self.pname)): self.err(st, c, "stores something else than the element given")
        if len(rs.ins) >= 1: self.err(st, c, "stores the element twice")
        return st.cp(rs=rs.set(ins=(rs.ins + (end,))[:3])).ev(c.line, "stores the element")
    def remove(self, eng, st, c, end):
        rs = st.rs; self.ends.add(("rem", end))
        if len(rs.rem) >= 1: self.err(st, c, "removes more than one element")
        return st.cp(rs=rs.set(rem=(rs.rem + (end,))[:3])).ev(c.line, "removes an element")
    def call(self, eng, st, c):
        rs = st.rs
        if c.isctor:
            if self.kind == "L" and (c.cls or "").startswith(SMART) and c.args and find_terms(c.args[0], lambda t: t and t[0] == "elem"): return [(st.cp(rs=rs.set(free=min(2, rs.free + 1))), ("obj", c.cls) + c.args)]
            return None
        if c.nm == "delete" and self.kind == "L" and find_terms(tuple(c.args), lambda t: t and t[0] == "elem"): return [(st.cp(rs=rs.set(free=min(2, rs.free + 1))).ev(c.line, "delete"), ("c", None))]
        if c.nm in ("wait", "wait_for", "wait_until") and len(c.args) >= 2 and "condition" in c.qn + repr((c.node.get("o") or {}).get("t", "")):
            pred = len(c.args) >= (2 if c.nm == "wait" else 3)
            if pred and c.nm == "wait": return [(st.cp(rs=rs.set(nonempty=True)), ("c", None))]
            return [(st.cp(rs=rs.set(nonempty=False)), ("r", c.site, "waited"))]
        if self.kind in ("D", "C") and c.o == self.cont:
            n = c.nm
            if n in INS:
                if self.kind == "C" and rs.cap is not True: self.err(st, c, "may store an element into a full buffer, overwriting another one")
                return [(self.insert(eng, st, c, INS[n], c.args), ("c", None))]
            if n in REM and self.kind == "D":
                if not rs.nonempty: self.err(st, c, "removes an element without having found the queue not empty")
                st = st.cp(rs=rs.set(nonempty=False))
                return [(self.remove(eng, st, c, REM[n]), ("c", None))]
            if n in ("front", "back"): return [(st, ("elem", n, len(rs.rem)))]
            if n in ("operator[]", "at"):
                return [(st, ("elem", strip_sites(c.args[0]), len(rs.rem)))] if self.kind == "D" else None
            if n == "set_capacity" and self.kind == "C":
                v = c.args[0]
                iscap = lambda t: t[0] == "r" and len(t) > 2 and t[2] == "capacity" or t[0] == "bin" and t[1] == "*" and any(iscap(a) and b[0] == "c" and isinstance(b[1], int) and b[1] > 1 for a, b in ((t[2], t[3]), (t[3], t[2])))
                sm = lambda t: sm(t[2]) + sm(t[3]) if t[0] == "bin" and t[1] == "+" else [t]
                if v[0] == "r" and v[2] == "max": big = any(any(iscap(y) for y in sm(x)) for x in v[3:])
                else: big = any(iscap(x) for x in sm(v)) and (len(sm(v)) > 1 or v[0] == "bin")
                return [(st.cp(rs=rs.set(cap=bool(big))), ("c", None))]
            if n in OTHER: self.err(st, c, "changes the stored elements otherwise (%s)" % n)
        if self.kind == "L" and c.o == self.cont:
            if c.nm in ("push", "bounded_push", "try_push", "unsynchronized_push"):
                if c.nm == "unsynchronized_push": self.err(st, c, "stores without synchronisation")
                t = self.insert(eng, st, c, "in", c.args)
                return [(t, ("c", True)), (st, ("c", False))]
            if c.nm in ("pop", "try_pop", "unsynchronized_pop") and c.locs and c.locs[0] is not None:
                if c.nm == "unsynchronized_pop": self.err(st, c, "removes without synchronisation")
                t = self.remove(eng, st, c, "out")
                t = eng.storeloc(t, c.locs[0], ("elem", "q", len(rs.rem)), c.line)
                return [(t, ("c", True)), (st, ("c", False))]
            if c.nm in OTHER: self.err(st, c, "changes the stored elements otherwise (%s)" % c.nm)
        if self.kind == "L" and c.nm in ("increase", "decrease") and not c.args:
            return [(st.cp(rs=rs.set(size=(rs.size + (c.nm,))[:3])), ("c", None))]
        if self.kind == "Q" and c.nm in ("push", "try_pop", "try_steal", "pop") and c.o is not None and c.oval != ("this",):
            self.subs.add(c.nm)
            if c.nm == "push": return [(self.insert(eng, st, c, "sub", c.args), ("c", None))]
            if c.nm == "pop": self.err(st, c, "waits for a single one of its queues"); return None
            if rs.rem: self.err(st, c, "goes on to another queue although an element was taken")
            t = self.remove(eng, st, c, c.nm)
            if c.locs and c.locs[0] is not None: t = eng.storeloc(t, c.locs[0], ("elem", "q", 0), c.line)
            return [(t, ("c", True)), (st, ("c", False))]
        return None
    def store(self, eng, st, loc, val, line):
        rs = st.rs
        if self.rooted(loc):
            if val[0] == "moved": return st
            return st.cp(rs=rs.set(out=strip(val)))
        if self.kind == "C" and loc[0] == "F" and loc[1] == THIS and val[0] in ("inc", "upd"):
            self.counter = loc
            d = val[2] if val[0] == "inc" else None
            if d == "++": return st.cp(rs=rs.set(size=(rs.size + ("++",))[:3]))
            if d == "--":
                if not rs.nonempty: rep(self.ctx, "C10", self.f, "removes an element without having found the queue not empty", st.trace, line)
                st = st.cp(rs=rs.set(size=(rs.size + ("--",))[:3], nonempty=False))
                class C_: pass
                C_.line = line
                return self.remove(eng, st, C_, strip_sites(val))
            rep(self.ctx, "C10", self.f, "does not count elements one by one", st.trace, line)
        if self.kind == "C" and loc[0] == "I" and loc[1] == self.cont and (not rs.rem or strip_sites(loc[2]) != rs.rem[0]): rep(self.ctx, "C10", self.f, "overwrites a stored element", st.trace, line)
        return st
    def branch(self, eng, st, t, truth):
        rs = st.rs
        if t[0] == "r" and len(t) > 2 and t[2] == "empty" and self.kind == "D": return st.cp(rs=rs.set(nonempty=not truth))
        if t[0] == "r" and len(t) > 2 and t[2] == "waited": return st.cp(rs=rs.set(nonempty=truth))
        if t[0] == "bin" and self.kind in ("D", "C"):
            cnt = lambda x: x[0] == "V" and x[1][0] == "F" and x[1][1] == THIS and x[1] != self.cont or x[0] == "r" and len(x) > 2 and x[2] == "size"
            zero = lambda x: x == ("c", 0)
            if t[1] == "<" and zero(t[2]) and cnt(t[3]): return st.cp(rs=rs.set(nonempty=truth))
            if t[1] == "==" and (zero(t[2]) and cnt(t[3]) or zero(t[3]) and cnt(t[2])): return st.cp(rs=rs.set(nonempty=not truth))
            if find_terms(t, lambda x: x and x[0] == "r" and len(x) > 2 and x[2] == "capacity"):
                a, b = t[2], t[3]
                if t[1] == "==": return st.cp(rs=rs.set(cap=not truth))
                if t[1] == "<" and cnt(a): return st.cp(rs=rs.set(cap=truth))
        if t[0] == "r" and len(t) > 2 and t[2] == "full" and self.kind == "C": return st.cp(rs=rs.set(cap=not truth))
        return st
    def known(self, eng, st, t, truth): return self.branch(eng, st, t, truth)

def analyse(ctx, P, cls, f):
    kind, cont = kind_of(P, cls)
    n0 = len(ctx.violations)
    if kind == "N": ends = list_fn(ctx, P, f)
    else:
        r = QRule(ctx, f, kind, cont); eng = Engine(P, r, maxsteps=200000)
        outs = ctx.run_engine(eng, f); ends = r.ends
        n = 0
        for k, st, v in outs:
            if k == "t": continue
            n += 1; rs = st.rs
            if f.nm == "push":
                if len(rs.ins) != 1: rep(ctx, "C10", f, "a path does not store the element", st.trace)
                if rs.rem: rep(ctx, "C10", f, "removes an element while storing one", st.trace)
                counted(ctx, f, kind, rs, st, "increase", "++")
                continue
            if rs.ins: rep(ctx, "C10", f, "stores an element while removing one", st.trace)
            val = v[0] if k == "r" and v else ("c", None)
            if f.nm == "pop":
                if len(rs.rem) != 1: rep(ctx, "C10", f, "a path does not remove exactly one element", st.trace); continue
                good(ctx, f, kind, rs, st, strip(val))
                counted(ctx, f, kind, rs, st, "decrease", "--")
                continue
            for tr, s2 in eng.truth(st, val):
                if tr:
                    if len(rs.rem) != 1: rep(ctx, "C10", f, "reports success without having removed exactly one element", st.trace); continue
                    good(ctx, f, kind, rs, st, rs.out)
                    counted(ctx, f, kind, rs, st, "decrease", "--")
                else:
                    if rs.rem: rep(ctx, "C10", f, "reports failure although an element was removed", st.trace)
                    if rs.out is not None: rep(ctx, "C10", f, "changes the output although nothing was removed", st.trace)
                    if kind in ("D", "C") and rs.nonempty: rep(ctx, "C10", f, "reports failure although the queue was found not empty", st.trace)
                    if rs.size: rep(ctx, "C10", f, "counts a removal which did not happen", st.trace)
        if not n: raise Broken("%s never returns" % f)
        if kind == "Q" and f.nm in ("try_pop", "try_steal") and r.subs and r.subs != {f.nm}: rep(ctx, "C10", f, "uses another operation of its queues")
    ctx.count("queue_operations")
    if len(ctx.violations) == n0: ctx.ok("C10", f.where(), "%s::%s" % (cls, f.nm))
    return ends

def counted(ctx, f, kind, rs, st, nm, op):
    if kind == "L" and rs.size != (nm,): rep(ctx, "C10", f, "does not %s the size exactly once" % nm, st.trace)
    if kind == "C" and rs.size != (op,): rep(ctx, "C10", f, "does not count the element exactly once", st.trace)

def good(ctx, f, kind, rs, st, got):
    """the element handed out is the one removed"""
    end = rs.rem[0]
    if got is None: rep(ctx, "C10", f, "removes an element without handing it out", st.trace); return
    if kind == "D" and not find_terms(got, lambda t: t == ("elem", end, 0)): rep(ctx, "C10", f, "hands out another element than it removes", st.trace)
    if kind == "C":
        el = find_terms(got, lambda t: t and t[0] == "V" and t[1][0] == "I")
        if not any(strip_sites(t[1][2]) == end for t in el): rep(ctx, "C10", f, "hands out another element than it removes", st.trace)
    if kind in ("L", "Q") and not find_terms(got, lambda t: t and t[0] == "elem" and t[2] == 0): rep(ctx, "C10", f, "hands out another element than it removes", st.trace)
    if kind == "L" and find_terms(got, lambda t: t and t[0] == "D") and rs.free != 1: rep(ctx, "C10", f, "does not free the storage of the element exactly once", st.trace)

def list_fn(ctx, P, f):
    """the linked list: elements go in at the tail and come out at the head"""
    tail, head = F("m_tail"), F("m_head")
    class LR(Rec):
        def branch(self, eng, st, t, truth):
            return st.cp(rs=st.rs + (("empty?", truth),)) if t[0] == "bin" and t[1] == "==" and "m_head" in repr(t) and "m_tail" in repr(t) else st
        known = branch
    outs, r = paths(ctx, P, f, rule=LR(inl=lambda e, fn, c: fn.file == f.file))
    pn = f.ps[0]["n"] if f.ps else None; ends = set()
    hv = V(head); first = lambda fld: ("F", ("D", hv), fld)
    for k, st, v in outs:
        if k == "t": continue
        mem = {strip(l): strip(x) for l, x in st.mem.items()}
        if f.nm == "push":
            t0 = ("D", V(tail))
            d = mem.get(("F", t0, "data")); nx = mem.get(("F", t0, "next")); nt = mem.get(tail)
            if head in mem: rep(ctx, "C10", f, "changes the front while adding at the back", st.trace)
            if d is None or not mentions(d, ("p", pn)): rep(ctx, "C10", f, "does not store the element given in the last node", st.trace)
            if nx is None or not find_terms(nx, lambda t: t and t[0] == "obj" and "new" in str(t[1])) and not find_terms(nx, lambda t: t and t[0] == "call" and t[1] == "make_unique"): rep(ctx, "C10", f, "does not link a new node", st.trace)
            if nt is None or nx is not None and not mentions(nt, nx) and not mentions(nt, nx[-1] if nx[0] == "obj" else nx): rep(ctx, "C10", f, "does not make the new node the last one", st.trace)
            ends.add(("ins", "tail"))
            continue
        out = None
        if f.ps:
            for (fr, i), x in st.env.items():
                if i == f.ps[0]["id"]: out = strip(x)
            if out == ("p", pn): out = None
        val = strip(v) if k == "r" and v is not None else None
        changed = mem.get(head)
        took = changed is not None and changed != hv
        if took and changed != V(first("next")) : rep(ctx, "C10", f, "does not continue with the second node", st.trace)
        if tail in mem: rep(ctx, "C10", f, "changes the back while removing at the front", st.trace)
        if f.nm == "pop":
            if not took: rep(ctx, "C10", f, "a path removes nothing", st.trace)
            elif not mentions(val, V(first("data"))): rep(ctx, "C10", f, "does not hand out the first element", st.trace)
            ends.add(("rem", "head")); continue
        res = truth_of(st, val)
        if took:
            if out is None or not mentions(out, V(first("data"))): rep(ctx, "C10", f, "does not hand out the first element", st.trace)
            if res is False and st.facts.get(hv) is not False: rep(ctx, "C10", f, "reports failure although an element was removed", st.trace)
            if ("empty?", False) not in st.rs or ("empty?", True) in st.rs: rep(ctx, "C10", f, "removes an element without having found the list not empty", st.trace)
            ends.add(("rem", "head"))
        else:
            if out is not None: rep(ctx, "C10", f, "changes the output although nothing was removed", st.trace)
            if res is True: rep(ctx, "C10", f, "reports success although nothing was removed", st.trace)
    return ends

def truth_of(st, v):
    if v is None: return None
    if v[0] == "c": return bool(v[1])
    return st.facts.get(v)

def sizes(ctx, P):
    # counting policies
    for f in insts(P, lambda f: f.file.endswith("lockfree_size.hpp") and f.nm in ("increase", "decrease", "size") and f.cls and not f.cls.endswith("no_lockfree_size")):
        n0 = len(ctx.violations)
        class R(Rule):
            def init(self): return ()
            def store(self, eng, st, loc, val, line):
                return st.cp(rs=(st.rs + (val[2] if val[0] == "inc" else "=",))[:4]) if loc == F("m_size") else st
            def call(self, eng, st, c):
                if c.isctor or c.o != F("m_size"): return None
                if c.nm in ("operator++", "operator--"): return [(st.cp(rs=(st.rs + (c.nm[-2:],))[:4]), ("r", c.site, c.nm))]
                if c.nm in ("fetch_add", "fetch_sub") and c.args and (c.args[0] == ("c", 1)): return [(st.cp(rs=(st.rs + ("++" if c.nm == "fetch_add" else "--",))[:4]), ("r", c.site, c.nm))]
                if c.nm in ("load", "operator-conv") or c.nm.startswith("operator ") or "__atomic_base::operator" in c.qn and not c.args: return [(st, V(c.o))]
                if c.nm in ("operator+=", "operator-=") and c.args == (("c", 1),): return [(st.cp(rs=(st.rs + ("++" if "+" in c.nm else "--",))[:4]), ("c", None))]
                if c.nm in ("store", "exchange", "operator=", "fetch_add", "fetch_sub", "operator+=", "operator-=", "compare_exchange_strong", "compare_exchange_weak"): return [(st.cp(rs=(st.rs + ("=",))[:4]), ("c", None))]
                return None
        for k, st, v in ctx.run_engine(Engine(P, R(), maxsteps=50000), f):
            if k == "t": continue
            want = {"increase": ("++",), "decrease": ("--",), "size": ()}[f.nm]
            if st.rs != want: rep(ctx, "C10", f, "does not change the size by exactly one" if f.nm != "size" else "changes the size", st.trace)
            if f.nm == "size" and not mentions(v[0], V(F("m_size"))): rep(ctx, "C10", f, "does not return the size", st.trace)
        ctx.count("size_policies")
        if len(ctx.violations) == n0: ctx.ok("C10", f.where(), f.qn)
    # reported sizes
    for cls in ALL:
        for f in insts(P, lambda f: f.cls == NS + cls and f.nm == "get_queue_size"):
            n0 = len(ctx.violations); kind, cont = kind_of(P, cls)
            if cls == "any_queue_container":
                rules_pool.composite_each(ctx, P, "get_queue_size", "C10", collect=True, fns=[f]) if False else each_queue(ctx, P, f, "get_queue_size", "C10", collect=True)
            else:
                outs, r = paths(ctx, P, f, inl=lambda e, fn, c: fn.file == f.file)
                for k, st, v in outs:
                    if k != "r": continue
                    pb = [c for c in calls(st) if c[0] in ("push_back", "emplace_back")]
                    if cls == "threadsafe_list": continue        # documented as not supported
                    if cls == "queue_converter":
                        if not (strip(v)[0] == "call" and v[1] == "get_queue_size" and "m_from_queue" in repr(v)): rep(ctx, "C10", f, "does not report the size of the queue behind it", st.trace)
                        continue
                    vals = [strip(c[3][0]) for c in pb] or list(find_terms(strip(v), lambda t: t and t[0] == "call" and t[1] == "size" or t == V(F("m_size"))))
                    okv = lambda x: x[0] == "call" and x[1] == "size" and (kind == "L" or x[2] == V(F(cont))) or kind == "C" and x == V(F("m_size"))
                    if len(vals) != 1 or not okv(vals[0]): rep(ctx, "C10", f, "does not report its size", st.trace)
            ctx.count("size_reports")
            if len(ctx.violations) == n0: ctx.ok("C10", f.where(), cls + "::get_queue_size")

def each_queue(ctx, P, f, op, R_, collect=False, stop=False):
    """a loop over all queues, first to last"""
    def event(fr, eng, st, c):
        if c.isctor: return None
        if c.nm == op and c.o is not None and c.oval != ("this",):
            if any(not b and find_terms(t, lambda x: x and x[0] == "F" and x[2] == "second") for t, b in st.facts.items()): rep(ctx, R_, f, "asks a queue which is disabled", st.trace)
            return ("sub", strip_sites(contloc(c.o)), ("r", c.site, "sub"))
        if collect and c.nm in ("push_back", "emplace_back", "insert"): return ("collect", None, None)
        return None
    class HR(rules_pool.FanRule):
        def branch(self, eng, st, t, truth):
            st = super().branch(eng, st, t, truth)
            if t[0] == "r" and len(t) > 2 and t[2] == "sub" and truth: st = st.cp(rs=st.rs.set(pend=st.rs.pend + (("hit", None),)))
            return st
    res, r = rules_pool.fan(ctx, P, f, event, rule=HR)
    if not r.nevents: rep(ctx, R_, f, "never asks its queues"); return
    for rs, st, v in res:
        def flat(lps):
            for l in lps:
                yield l
                for x in l[0]:
                    for e in x:
                        if e[0] == "loop": yield from flat([e[1]])
        got = stop and "'hit'" in repr((rs.pre, rs.loops))
        lps = [l for l in flat(rs.loops) if any(any(e[0] == "sub" for e in x) for x in l[0])]
        for it, s, b, br in lps:
            if any(sum(1 for e in x if e[0] == "sub") > 1 for x in it): rep(ctx, R_, f, "asks a queue twice", st.trace)
            if not (s in (("begin",), ("range",), ("c", 0))): rep(ctx, R_, f, "does not start with the first queue", st.trace)
            if got: continue
            if b is None or br: rep(ctx, R_, f, "can stop before the last queue", st.trace)
            elif not rules_pool.over_all(b, s, ("m_queues",)): rep(ctx, R_, f, "does not go over all its queues", st.trace)
            if not stop and any(not any(e[0] == "sub" for e in x) for x in it): rep(ctx, R_, f, "leaves queues out", st.trace)
            if collect and any(any(e[0] == "sub" for e in x) and not any(e[0] == "collect" for e in x) for x in it): rep(ctx, R_, f, "drops the size of a queue", st.trace)
    ctx.count("queue_loops")

def ops(P, cls): return insts(P, lambda f: f.cls == NS + cls and f.nm in ("push", "pop", "try_pop", "try_steal"))

UNSUPPORTED = {("queue_converter", "push"), ("queue_converter", "pop"), ("queue_converter", "try_pop"), ("lockfree_spsc_queue", "try_steal")}

def c10(ctx):
    P = ctx.need(["queue"])
    for cls in ALL:
        l = ops(P, cls)
        if len(l) < 4: raise Broken("operations of %s not found" % cls)
        for f in l:
            if (cls, f.nm) in UNSUPPORTED: continue
            if cls == "any_queue_container" and f.nm == "push" and len(f.ps) == 1:
                outs, r = paths(ctx, P, f, inl=lambda e, fn, c: False)
                for k, st, v in outs:
                    pu = calls(st, "push")
                    if k != "t" and (len(pu) != 1 or not mentions(strip(pu[0][3]), ("p", f.ps[0]["n"]))): rep(ctx, "C10", f, "does not store the element exactly once", st.trace)
                ctx.count("queue_operations"); continue
            analyse(ctx, P, cls, f)
    sizes(ctx, P)
    ctx.minimum("queue_operations", 40); ctx.minimum("size_policies", 6); ctx.minimum("size_reports", 8)
    return ("Conservation automaton over every operation of every queue: push stores the element given exactly once on every path (never into a full ring buffer), pop/try_pop/try_steal report success exactly when one element was removed, hand out the element they remove (read before removal, from the same end or slot), "
            "only remove after finding the queue not empty, leave output and storage alone on failure, count exactly one in- or decrement, and free the storage once. Reported sizes are those of the storage.")

# ------------------------------------------------------------------------------------------------ C12
def fpos(ctx, P, f):
    """user position 0: any queue; n: the n-th, at most the last"""
    u, q = ("p", f.ps[0]["n"]), ("p", f.ps[1]["n"])
    um1 = ("bin", "-", u, ("c", 1)); qm1 = ("bin", "-", q, ("c", 1))
    outs, r = paths(ctx, P, f, inl=lambda e, fn, c: fn.nm not in ("find_any_position",) and fn.cls == f.cls)
    n0 = len(ctx.violations); seen = set()
    for k, st, v in outs:
        if k != "r": continue
        v = strip(v)
        z = st.facts.get(("bin", "==", u, ("c", 0)))
        if z is None:
            g = st.facts.get(("bin", "<", ("c", 0), u)); z = None if g is None else not g
        if z is None: z = not st.facts[u] if u in st.facts else None
        if z is None: rep(ctx, "C12", f, "does not tell jobs without a queue from others", st.trace); continue
        seen.add(z)
        if z:
            if not (v[0] == "bin" and v[1] == "%" and v[3] == q): rep(ctx, "C12", f, "may choose a queue which does not exist", st.trace)
        else:
            ok = v[0] == "call" and v[1] == "min" and set(v[3]) == {um1, qm1}
            small = any(t in st.facts and st.facts[t] == b for t, b in ((("bin", "<", um1, qm1), True), (("bin", "<", qm1, um1), False), (("bin", "<", um1, q), True), (("bin", "<", q, u), False), (("bin", "<", u, q), True), (("bin", "<", q, um1), False) if False else (("bin", "<", q, u), False)))
            big = any(t in st.facts and st.facts[t] == b for t, b in ((("bin", "<", um1, qm1), False), (("bin", "<", qm1, um1), True), (("bin", "<", um1, q), False), (("bin", "<", q, u), True), (("bin", "<", u, q), False)))
            if v == um1 and small or v == qm1 and big: ok = True
            if not ok: rep(ctx, "C12", f, "does not choose the queue of the position given, limited to the last", st.trace)
    if seen != {True, False}: rep(ctx, "C12", f, "does not tell jobs without a queue from others")
    ctx.count("positions")
    if len(ctx.violations) == n0: ctx.ok("C12", f.where(), "position")

STORAGE = {"lockfree_queue": "boost::lockfree::queue<", "lockfree_stack": "boost::lockfree::stack<", "lockfree_spsc_queue": "boost::lockfree::spsc_queue<"}

def c12(ctx):
    P = ctx.need(["queue", "sched"])
    probe = type(ctx)("C12", ctx.tier)
    for cls in ("guarded_deque", "circular_queue", "threadsafe_list"):
        ins = set(); rem = {}
        fs = ops(P, cls)
        n0 = len(ctx.violations)
        for f in fs:
            e = analyse(probe, P, cls, f)
            ins |= {x[1] for x in e if x[0] == "ins"}
            if f.nm in ("pop", "try_pop"): rem.setdefault(f.nm, [f, set()])[1].update(x[1] for x in e if x[0] == "rem")
        if len(ins) != 1: rep(ctx, "C12", fs[0], "elements are added at different ends"); continue
        i = next(iter(ins))
        for nm, (f, ends) in rem.items():
            if cls == "guarded_deque": ok = ends == {"back" if i == "front" else "front"}
            elif cls == "circular_queue": ok = i == "front" and all(isinstance(x, tuple) and x[0] == "inc" and x[2] == "--" for x in ends) and ends
            else: ok = i == "tail" and ends == {"head"}
            if not ok: rep(ctx, "C12", f, "does not take the oldest element")
            ctx.count("fifo")
        if len(ctx.violations) == n0: ctx.ok("C12", fs[0].where(), cls + ": opposite ends")
    for cls, t in STORAGE.items():
        for r in P.rec_by_qn.get(NS + cls, ()):
            ts = [fd["t"] for fd in r["fields"] if fd["t"].startswith("boost::lockfree::")]
            if not ts or not all(x.startswith(t) for x in ts): ctx.bad("C12", "%s:%s" % (r["file"], r["line"]), "%s is not kept in a %s" % (cls, t[:-1]), key="C12|storage|" + cls)
            else: ctx.ok("C12", "%s:%s" % (r["file"], r["line"]), cls)
            ctx.count("storages")
    # several queues: highest priority first, each job into the queue of its priority
    C = NS + "any_queue_container"
    for nm in ("pop", "try_pop", "try_steal"):
        for f in insts(P, lambda f: f.cls == C and f.nm == nm):
            n0 = len(ctx.violations)
            each_queue(ctx, P, f, "try_steal" if nm == "try_steal" else "try_pop", "C12", stop=True)
            if len(ctx.violations) == n0: ctx.ok("C12", f.where(), "%s goes from the first queue to the last" % nm)
    MX = lambda t: t and t[0] in ("call", "r") and "max" in t[1:3]
    SIZE = ("call", "size", V(F("m_queues")), ())
    for f in insts(P, lambda f: f.cls == C and f.nm == "push" and len(f.ps) == 2):
        n0 = len(ctx.violations); pos = ("p", f.ps[1]["n"])
        outs, r = paths(ctx, P, f, inl=lambda e, fn, c: fn.cls == f.cls and fn.nm != "find_position")
        for k, st, v in outs:
            if k == "t": continue
            pu = [c for c in calls(st, "push")]
            if len(pu) != 1: rep(ctx, "C12", f, "does not store into exactly one queue", st.trace); continue
            t = find_terms(pu[0][1], lambda t: t and t[0] == "I"); cont, idx = (t[0][1], t[0][2]) if t else (None, None)
            if cont != F("m_queues"): rep(ctx, "C12", f, "does not store into one of its queues", st.trace); continue
            idx = strip(idx)
            last = [b for t, b in st.facts.items() if t[0] == "bin" and t[1] == "==" and pos in t[2:4] and find_terms(t, MX)]
            if True in last: ok = idx == ("bin", "-", SIZE, ("c", 1)) or idx[0] == "c" and idx[1] == "back"
            else: ok = idx[0] == "call" and idx[1] == "find_position" and idx[3] == (pos, SIZE)
            if not ok: rep(ctx, "C12", f, "does not store into the queue the priority designates", st.trace)
            if len(pu[0][3]) > 1 and strip(pu[0][3][1]) != pos: rep(ctx, "C12", f, "changes the priority", st.trace)
        ctx.count("pushes")
        if len(ctx.violations) == n0: ctx.ok("C12", f.where(), "push")
    for f in insts(P, lambda f: f.cls == C and f.nm == "push" and len(f.ps) == 1):
        outs, r = paths(ctx, P, f, inl=lambda e, fn, c: False)
        for k, st, v in outs:
            pu = calls(st, "push")
            if k != "t" and (len(pu) != 1 or len(pu[0][3]) != 2 or strip(pu[0][3][1]) != ("c", 0)): rep(ctx, "C12", f, "a job without priority is given one", st.trace)
    for f in insts(P, lambda f: f.cls == C and f.nm == "ctor_helper"):
        n0 = len(ctx.violations); fan_cfg(ctx, P, f)
        if len(ctx.violations) == n0: ctx.ok("C12", f.where(), "queues are kept in the order given")
    for f in insts(P, lambda f: f.nm == "find_position" and f.file.endswith("find_queue_position.hpp")): fpos(ctx, P, f)
    # schedulers choosing among their queues
    n = 0
    for f in insts(P, lambda f: f.file.startswith("scheduler/") and any(e["k"] == "call" and e.get("nm") == "find_position" for e in fn_exprs(f))):
        outs, r = paths(ctx, P, f, inl=lambda e, fn, c: fn.cls == f.cls and fn.nm != "find_position")
        n0 = len(ctx.violations)
        for k, st, v in outs:
            if k == "t": continue
            for c in calls(st):
                if c[0] in ("push", "try_push") and c[1] is not None:
                    cont, idx = contloc(c[1])
                    idx = strip(idx) if idx is not None else None
                    if idx is None or not find_terms(idx, lambda t: t and t[0] == "call" and t[1] == "find_position"): continue
                    fp = find_terms(idx, lambda t: t and t[0] == "call" and t[1] == "find_position")[0]
                    a = fp[3]
                    if __import__("os").environ.get("DBG"): print(idx, cont)
                    if idx != fp or len(a) != 2 or not (a[1][0] == "call" and a[1][1] == "size" and a[1][2] == V(cont)): rep(ctx, "C12", f, "does not choose among exactly the queues it has", st.trace)
                    if not (a and find_terms(a[0], lambda t: t and t[0] == "p")): rep(ctx, "C12", f, "does not choose the queue by priority", st.trace)
                    n += 1
        if len(ctx.violations) == n0: ctx.ok("C12", f.where(), "chooses the queue by find_position")
    ctx.count("choices", n)
    ctx.minimum("fifo", 6); ctx.minimum("storages", 3); ctx.minimum("queue_loops", 3); ctx.minimum("pushes", 1); ctx.minimum("positions", 1)
    return ("The ends used by push and pop/try_pop of the first-in first-out queues are opposite on every path, lock-free queue and stack are kept in the storage of that kind. The container's loops go from its first queue to its last; push indexes its queues by find_position(priority, number of queues), or the last queue for the lowest priority; "
            "find_position is compared with its specification on every path.")

def fan_cfg(ctx, P, f):
    def event(fr, eng, st, c):
        if c.isctor: return None
        if c.nm in ("push_back", "emplace_back"): return ("add", None, None)
        if c.nm in ("insert", "push_front", "emplace"): return ("other", None, None)
        if c.nm == "ctor_helper": return ("rest", None, ("c", None))
        return None
    res, r = rules_pool.fan(ctx, P, f, event)
    for rs, st, v in res:
        if any(e[0] == "other" for it, s, b, br in rs.loops for x in it for e in x): rep(ctx, "C12", f, "does not append the queues in order")
        for it, s, b, br in rs.loops:
            if br or any(sum(1 for e in x if e[0] == "add") != 1 for x in it): rep(ctx, "C12", f, "does not take over every queue once")
        if any(e[0] == "rest" for x in [rs.pre] for e in x) and rs.loops and False: pass
    ctx.count("config_loops")
