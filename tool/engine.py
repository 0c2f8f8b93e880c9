"""Structured, path-sensitive dataflow over the extractor's representation.

States hold: values of locals (reaching-value terms), values stored into other locations, branch
facts over those terms, held locks, live scope-exit actions and a rule-defined component.  Statements
map sets of states to outcomes (normal, return, break, continue, throw); loops run to a fixpoint of
the state set.  Library helpers and local lambdas are inlined; what to do at other calls is decided
by the rule (typestate event, may throw) or is opaque.  Nothing is executed and no solver is used:
branch feasibility is decided from constants and from earlier facts on the same term only.
"""
import sys
from ir import *
sys.setrecursionlimit(20000)

LOCK_TYPES = ("std::lock_guard", "std::unique_lock", "std::scoped_lock", "boost::unique_lock", "boost::lock_guard",
              "std::shared_lock", "boost::shared_lock", "boost::strict_lock")
SMART = ("std::shared_ptr", "std::unique_ptr", "std::__shared_ptr", "std::__shared_ptr_access", "boost::shared_ptr", "boost::scoped_ptr",
         "boost::intrusive_ptr", "boost::thread_specific_ptr", "boost::smart_ptr", "std::__exception_ptr::exception_ptr")
IMMEDIATE = ("std::for_each", "std::accumulate", "std::find_if", "std::any_of", "std::all_of", "std::none_of", "std::count_if", "std::transform",
             "std::sort", "std::remove_if", "std::generate", "std::copy_if", "std::invoke", "std::apply", "std::call_once",
             "std::condition_variable::wait", "boost::condition_variable::wait", "std::condition_variable::wait_for", "std::stable_sort")

# pass their arguments on to a constructor or store them: lvalue arguments are copied, not changed
FORWARDERS = ("make_shared", "make_unique", "bind", "make_pair", "make_tuple", "tie", "forward_as_tuple", "emplace", "emplace_back", "emplace_front", "try_emplace", "ref", "cref", "make_move_iterator")

_depth = {}
def depth(t):
    if not isinstance(t, tuple): return 0
    d = _depth.get(t)
    if d is None:
        d = 1 + max([depth(x) for x in t] or [0])
        if len(_depth) > 200000: _depth.clear()
        _depth[t] = d
    return d

def trim(t, n):
    if not isinstance(t, tuple): return t
    if depth(t) <= n: return t
    if n <= 1: return ("..",)
    return tuple(trim(x, n - 1) for x in t)

def mentions(t, sub):
    if t == sub: return True
    if isinstance(t, tuple):
        return any(mentions(x, sub) for x in t)
    return False

def find_terms(t, pred, out=None):
    if out is None: out = []
    if isinstance(t, tuple):
        if pred(t): out.append(t)
        for x in t: find_terms(x, pred, out)
    return out

_subs = {}
def subs(t):
    """call-result subterms of a term"""
    if not isinstance(t, tuple): return frozenset()
    r = _subs.get(t)
    if r is None:
        a = set()
        if t and t[0] in ("r", "inc", "upd", "old", "out"): a.add(t)
        for x in t:
            if isinstance(x, tuple): a |= subs(x)
        r = frozenset(a)
        if len(_subs) > 200000: _subs.clear()
        _subs[t] = r
    return r

class State:
    __slots__ = ("env", "mem", "facts", "held", "live", "exc", "rs", "trace", "_k")
    def __init__(self, env=None, mem=None, facts=None, held=(), live=(), exc=(), rs=None, trace=()):
        self.env = env or {}; self.mem = mem or {}; self.facts = facts or {}; self.held = held; self.live = live; self.exc = exc; self.rs = rs; self.trace = trace; self._k = None
    def key(self):
        if self._k is None:
            self._k = (frozenset(self.env.items()), frozenset(self.mem.items()), frozenset(self.facts.items()), self.held, self.live, self.exc, self.rs)
        return self._k
    def cp(self, **kw):
        s = State(self.env, self.mem, self.facts, self.held, self.live, self.exc, self.rs, self.trace)
        for k, v in kw.items(): setattr(s, k, v)
        return s
    def setenv(self, k, v):
        e = dict(self.env); e[k] = v; return self.cp(env=e)
    def setmem(self, k, v):
        e = dict(self.mem); e[k] = v; return self.cp(mem=e)
    def fact(self, t): return self.facts.get(t)
    def setfact(self, t, v):
        e = dict(self.facts); e[t] = v; return self.cp(facts=e)
    def ev(self, line, what):
        return self.cp(trace=(self.trace + ((line, what),))[-40:])

class Call:
    """what a rule sees at a call"""
    __slots__ = ("node", "nm", "qn", "o", "oval", "args", "locs", "site", "line", "fn", "callee", "frame", "isctor", "cls", "defs")
    def __init__(self, **kw):
        for k, v in kw.items(): setattr(self, k, v)
    def __repr__(self): return "<call %s o=%s args=%s line %s>" % (self.qn or self.nm, self.o, self.args, self.line)

class Budget(Exception): pass

class Rule:
    """base class: opaque calls, nothing throws"""
    max_inline = 6
    track_dtors = True
    def init(self): return ()
    def call(self, eng, st, c): return None          # None or [(state, value)] ; may call eng.throw_(state, exc)
    def may_throw(self, eng, st, c): return None     # None, or list of exception descriptors
    def branch(self, eng, st, term, truth): return st
    def known(self, eng, st, term, truth): return st  # a branch decided by an earlier one
    def inline(self, eng, fn, c): return True
    def store(self, eng, st, loc, val, line): return st
    def load(self, eng, st, loc, val, line): return None
    def throw(self, eng, st, node): return st
    def lock(self, eng, st, lockloc, line, acquire): return st
    def loop_head(self, eng, st, node): return st
    def loop_exit(self, eng, st, node): return st
    def jump(self, eng, st, kind, line): return st
    def closure(self, eng, st, lam): pass
    def folds(self, loc): return False

_intern = {}
def intern(pfx, t):
    r = _intern.get(t)
    if r is None: r = _intern[t] = pfx + str(len(_intern))
    return r

class Frame:
    __slots__ = ("id", "fn", "this", "tu", "caps", "depth", "stack")
    def __init__(self, id, fn, this, tu, caps=None, depth=0, stack=()):
        self.id = intern('f', id) if isinstance(id, tuple) else id; self.fn = fn; self.this = this; self.tu = tu; self.caps = caps or {}; self.depth = depth; self.stack = stack

MAXSTATES = 600

class Engine:
    def __init__(self, prog, rule, maxsteps=400000):
        self.P = prog; self.rule = rule; self.sinks = []; self.steps = 0; self.maxsteps = maxsteps
        self.objd = getattr(rule, "objd", 9)
        self.pseudo = {}; self.range_over = None; self.frames = {}; self.lams = {}; self.inlined = set(); self.widened = 0
    # ------------------------------------------------------------ entry
    def run(self, fn, st=None, this=("this",), binds=None):
        st = st or State(rs=self.rule.init())
        fr = Frame(("0",), fn, this, fn.tu)
        self.root = fn
        for p in fn.ps:
            n = p["n"] if sum(q["n"] == p["n"] for q in fn.ps) == 1 else "%s#%d" % (p["n"], fn.ps.index(p))
            v = (binds or {}).get(p["n"], ("p", n))
            st = st.setenv((fr.id, p["id"]), v)
        outs = []
        self.sinks.append(outs_t := [])
        sts = [st]
        if fn.d.get("sp") in ("ctor", "cc", "mc", "dc"):
            sts = self.ctor_inits(fn, fr, sts, ("D", this) if this[0] != "A" else this[1])
        res = self.exec_set(fn.b, sts, fr) if fn.b else [("n", s, None) for s in sts]
        self.sinks.pop()
        return res + [("t", s, x) for s, x in outs_t]
    def run_lambda(self, lamval, st, nargs_vals=None, tag="L"):
        """run a lambda value as an entry of its own"""
        node, caps, this, tu, fn = self.lams[lamval[1]]
        fr = Frame(("0", tag, lamval[1]), fn, this, tu, caps=dict(lamval[2]))
        self.frames[fr.id] = fr
        for i, p in enumerate(node["ps"]):
            v = nargs_vals[i] if nargs_vals and i < len(nargs_vals) else ("p", p["n"] or "#%d" % i)
            st = st.setenv((fr.id, p["id"]), v)
        self.sinks.append(ot := [])
        res = self.exec(node["b"], st, fr)
        self.sinks.pop()
        return res + [("t", s, x) for s, x in ot]
    # ------------------------------------------------------------ helpers
    def tick(self):
        self.steps += 1
        if self.steps > self.maxsteps: raise Budget()
    def gc(self, st, extra=None):
        """forget facts and stored values about call results nothing refers to any more"""
        live = set(extra or ())
        cf = [(t, subs(t)) for t in st.facts]
        cf = [(t, x) for t, x in cf if x]
        cm = [(l, subs(l)) for l in st.mem]
        cm = [(l, x) for l, x in cm if x]
        if not cf and not cm: return st
        for v in st.env.values(): live |= subs(v)
        for l, v in st.mem.items():
            if not subs(l): live |= subs(v)
        for l in st.held: live |= subs(l)
        for a in st.live: live |= subs(a)
        if isinstance(st.rs, tuple): live |= subs(tuple(st.rs))
        dead = {l for l, x in cm if not (x & live)}
        if dead:
            # keep those reachable from kept ones
            st = st.cp(mem={l: v for l, v in st.mem.items() if l not in dead})
        for l, x in cm:
            if l not in dead: live |= subs(st.mem[l])
        deadf = {t for t, x in cf if not (x <= live)}
        if deadf: st = st.cp(facts={t: v for t, v in st.facts.items() if t not in deadf})
        return st
    def throw_(self, st, exc, line=None):
        self.sinks[-1].append((st, exc))
    def dedupe(self, outs):
        seen = set(); r = []
        for k, s, v in outs:
            key = (k, s.key(), v)
            if key in seen: continue
            seen.add(key); r.append((k, s, v))
        return r
    def dedupe_s(self, sts):
        seen = set(); r = []
        for s in sts:
            k = s.key()
            if k in seen: continue
            seen.add(k); r.append(s)
        if len(r) > MAXSTATES:
            self.widened += 1
            # widen: keep one state per rule component / lock set, with the common part of the rest
            groups = {}
            for s in r: groups.setdefault((s.rs, s.held, s.live, s.exc), []).append(s)
            r = []
            for (rs, held, live, exc), l in groups.items():
                a = l[0]
                env = {k: v for k, v in a.env.items() if all(x.env.get(k) == v for x in l)}
                mem = {k: v for k, v in a.mem.items() if all(x.mem.get(k) == v for x in l)}
                facts = {k: v for k, v in a.facts.items() if all(x.facts.get(k) == v for x in l)}
                r.append(a.cp(env=env, mem=mem, facts=facts))
        return r
    # ------------------------------------------------------------ locations and values
    def vloc(self, fr, st, vid, name):
        k = (fr.id, vid)
        if k not in st.env and vid in fr.caps:
            v = fr.caps[vid]
            if v[0] == "ref": return v[1]
            return ("L", fr.id, vid, name)
        v = st.env.get(k)
        if v is not None and v[0] == "ref": return v[1]
        return ("L", fr.id, vid, name)
    def loadloc(self, st, loc, fr=None):
        if loc[0] == "L":
            v = st.env.get((loc[1], loc[2]))
            if v is None:
                f = self.frames.get(loc[1])
                if f is not None and loc[2] in f.caps:
                    v = f.caps[loc[2]]
            if v is None: return ("V", loc)
            if v[0] == "ref": return self.loadloc(st, v[1])
            return v
        v = st.mem.get(loc)
        if v is not None:
            if v[0] == "ref": return self.loadloc(st, v[1])
            return v
        if loc[0] == "T": return ("V", loc)
        # field of an object whose value is known
        return ("V", loc)
    def storeloc(self, st, loc, val, line=None):
        if loc[0] == "L": 
            st2 = st.setenv((loc[1], loc[2]), val)
        else: st2 = st.setmem(loc, val)
        # stores into a location invalidate what was known about its parts
        dead = [k for k in st2.mem if k != loc and loc in k]
        if dead:
            m = dict(st2.mem)
            for k in dead: m.pop(k)
            st2 = st2.cp(mem=m)
        st2 = self.kill_facts(st2, ("V", loc))
        return self.rule.store(self, st2, loc, val, line)
    def kill_facts(self, st, term):
        dead = [t for t in st.facts if mentions(t, term)]
        if not dead: return st
        f = {k: v for k, v in st.facts.items() if k not in dead}
        return st.cp(facts=f)
    def deref(self, v):
        if v[0] == "A": return v[1]
        return ("D", v)
    def fresh(self, st, term):
        """a call site yields a new value: facts about its previous value no longer apply"""
        dead = [t for t in st.facts if mentions(t, term)]
        if dead: st = st.cp(facts={k: v for k, v in st.facts.items() if k not in dead})
        dead = [t for t in st.mem if mentions(t, term)]
        if dead: st = st.cp(mem={k: v for k, v in st.mem.items() if k not in dead})
        old = ("old",) + term[1:3] if len(term) > 2 else ("old",)
        ch = [k for k, v in st.env.items() if v == term]
        if ch:
            e = dict(st.env)
            for k in ch: e[k] = ("old", term[0], term[1] if len(term) > 1 else "")
            st = st.cp(env=e)
        return st
    def site(self, fr, e): return intern("s", (fr.id, e.get("l", 0), id(e)))
    # ------------------------------------------------------------ expressions
    def ev(self, e, st, fr):
        """[(state, value)]"""
        return [(s, v) for s, l, v in self.evl(e, st, fr)]
    def evl(self, e, st, fr):
        """[(state, location or None, value)]"""
        self.tick()
        if e is None: return [(st, None, ("c", None))]
        k = e["k"]
        m = getattr(self, "x_" + k, None)
        if m: return m(e, st, fr)
        # generic: evaluate children
        res = [(st, ())]
        for c in kids(e):
            res = [(s2, vs + (v,)) for s, vs in res for s2, v in self.ev(c, s, fr)]
        return [(s, None, trim(("x", k, e.get("l", 0)) + vs, 8)) for s, vs in res]
    def x_lit(self, e, st, fr): return [(st, None, ("c", e["v"]))]
    def x_zero(self, e, st, fr): return [(st, None, ("c", 0))]
    def x_this(self, e, st, fr): return [(st, None, fr.this)]
    def x_sizeof(self, e, st, fr): return [(st, None, ("x", "sizeof", e.get("l", 0)))]
    def x_defarg(self, e, st, fr):
        return [(s, None, ("defarg", v)) for s, v in self.ev(e["e"], st, fr)]
    def x_pack(self, e, st, fr): return self.evl(e["e"], st, fr)
    def x_ref(self, e, st, fr):
        dk = e["dk"]
        if dk in ("var", "parm"):
            loc = self.vloc(fr, st, e["id"], e["n"])
            v = self.loadloc(st, loc)
            if loc[0] == "L" and (loc[1], loc[2]) not in st.env and loc[1] == fr.id and e["id"] in fr.caps:
                v = fr.caps[e["id"]]
            if loc[0] != "L":
                r = self.rule.load(self, st, loc, v, e.get("l"))
                if r is not None: st = r
            return [(st, loc, v)]
        if dk == "glob":
            loc = ("G", e.get("qn", e["n"])); return [(st, loc, self.loadloc(st, loc))]
        if dk == "enum": return [(st, None, ("c", e.get("qn", e["n"])))]
        if dk == "fn": return [(st, None, ("fn", e.get("qn", e["n"])))]
        return [(st, None, ("name", e.get("q", "") + e["n"]))]
    def objloc(self, o, st, fr, arrow):
        """location of the object a member is selected from"""
        r = []
        if o is None: return [(st, ("D", fr.this) if fr.this[0] != "A" else fr.this[1])]
        for s, loc, v in self.evl(o, st, fr):
            if o["k"] == "this": r.append((s, self.deref(v)))
            elif arrow: r.append((s, self.deref(v)))
            elif loc is not None: r.append((s, loc))
            else: r.append((s, ("T", trim(v, 6))))
        return r
    def x_mem(self, e, st, fr):
        if e.get("d") and e.get("q", "").startswith("std::"): return [(st, None, ("name", e["q"] + e["n"]))]     # std::trait<T>::value
        r = []
        for s, ol in self.objloc(e.get("o"), st, fr, e.get("ar") and e["o"]["k"] != "this"):
            loc = ("F", ol, e["n"])
            v0 = s.mem.get(loc)
            if v0 is not None and v0[0] == "ref": loc = v0[1]
            v = self.loadloc(s, loc)
            if v[0] == "V" and ol[0] == "T" and ol[1][0] == "obj" : v = ("fld", ol[1], e["n"])
            s2 = self.rule.load(self, s, loc, v, e.get("l"))
            r.append((s2 if s2 is not None else s, loc, v))
        return r
    def x_idx(self, e, st, fr):
        r = []
        for s, ol in self.objloc(e["o"], st, fr, False):
            for s2, i in self.ev(e["i"], s, fr):
                loc = ("I", ol, i); r.append((s2, loc, self.loadloc(s2, loc)))
        return r
    def x_cast(self, e, st, fr): return self.evl(e["e"], st, fr)
    def x_throw(self, e, st, fr):
        if e.get("e") is None:
            exc = st.exc[-1] if st.exc else ("any",)
            s = self.rule.throw(self, st, e)
            self.throw_(s.ev(e.get("l"), "rethrow"), exc)
            return []
        for s, v in self.ev(e["e"], st, fr):
            self.throw_(self.rule.throw(self, s, e).ev(e.get("l"), "throw"), ("T", e.get("tt", "?"), v))
        return []
    def x_lam(self, e, st, fr):
        # init captures
        caps = []
        sts = [(st, ())]
        for c in e["caps"]:
            if c.get("this"): continue
            if "id" not in c: continue
            if c.get("ic"):
                nx = []
                for s, acc in sts:
                    if c.get("ref"):
                        for s2, loc, v in self.evl(c["i"], s, fr): nx.append((s2, acc + ((c["id"], ("ref", loc) if loc else v),)))
                    else:
                        for s2, v in self.ev_val(c["i"], s, fr): nx.append((s2, acc + ((c["id"], v),)))
                sts = nx
            else:
                nx = []
                for s, acc in sts:
                    loc = self.vloc(fr, s, c["id"], c["n"])
                    if c.get("ref"): nx.append((s, acc + ((c["id"], ("ref", loc)),)))
                    else:
                        v = self.loadloc(s, loc)
                        if v == ("V", loc) and c["id"] in fr.caps and loc[1] == fr.id: v = fr.caps[c["id"]]
                        nx.append((s, acc + ((c["id"], v),)))
                sts = nx
        r = []
        for s, acc in sts:
            key = (fr.fn.uid if fr.fn else None, e.get("f"), e.get("l"), id(e))
            self.lams[key] = (e, None, fr.this, fr.tu, fr.fn)
            capt = acc + ((("this", fr.this),) if any(c.get("this") for c in e["caps"]) else ())
            lam = ("lam", key, tuple((i, trim(v, self.objd)) for i, v in acc)) + ((("this", fr.this),) if any(c.get("this") for c in e["caps"]) else ())
            self.rule.closure(self, s, lam)
            r.append((s, None, lam))
        return r
    def ev_val(self, e, st, fr):
        """value of an initialiser; a move out of a variable leaves it moved-from"""
        r = []
        for s, loc, v in self.evl(e, st, fr):
            r.append((s, v))
        return r
    def x_ctor(self, e, st, fr):
        a = e["a"]
        if (e.get("cp") or e.get("mv")) and len(a) >= 1:
            r = []
            for s, loc, v in self.evl(a[0], st, fr):
                if e.get("mv") and loc is not None and self.is_move(a[0]):
                    s = self.moved(s, loc, v)
                c = Call(node=e, nm=e["cls"].split("::")[-1], qn=e["cls"], o=None, oval=None, args=(v,), locs=(loc,), site=self.site(fr, e), line=e.get("l"), fn=fr.fn, callee=None, frame=fr, isctor=True, cls=e["cls"], defs=())
                o = self.rule.call(self, s, c)
                if o is not None: r += [(s2, None, v2) for s2, v2 in o]
                else: r.append((s, None, v))
            return r
        return self.do_args(e, st, fr, None, a, self.fin_ctor)
    def is_move(self, e):
        while e and (e["k"] == "cast" or e["k"] in ("plist", "ilist") and len(e["a"]) == 1): e = e["e"] if e["k"] == "cast" else e["a"][0]
        if e and e["k"] == "call" and e.get("nm") in ("move", "forward") and len(e["a"]) == 1: return True
        return False
    def moved(self, st, loc, v):
        if loc[0] == "L":
            return st.setenv((loc[1], loc[2]), ("moved", v) if v[0] != "moved" else v)
        if loc[0] in ("F", "I", "D"):
            return st.setmem(loc, ("moved", v) if v[0] != "moved" else v)
        return st
    def do_args(self, e, st, fr, obj, args, fin):
        res = [(st, (), ())]
        for x in args:
            nx = []
            for s, ls, vs in res:
                for s2, l, v in self.evl(x, s, fr): nx.append((s2, ls + (l,), vs + (v,)))
            res = nx
        out = []
        for s, ls, vs in res: out += fin(e, s, fr, obj, ls, vs)
        return out
    def fin_ctor(self, e, st, fr, obj, locs, vals):
        c = Call(node=e, nm=e["cls"].split("::")[-1], qn=e["cls"], o=None, oval=None, args=vals, locs=locs, site=self.site(fr, e), line=e.get("l"), fn=fr.fn, callee=None, frame=fr, isctor=True, cls=e["cls"], defs=tuple(i for i, x in enumerate(e["a"]) if x and x["k"] == "defarg"))
        st = self.consume_moves(e, e["a"], st, locs, vals)
        r = self.rule.call(self, st, c)
        if r is not None: return [(s, None, v) for s, v in r]
        self.throws(st, c)
        return [(st, None, trim(("obj", e["cls"]) + vals, self.objd))]
    def consume_moves(self, e, args, st, locs, vals):
        pm = e.get("pm", "")
        for i, x in enumerate(args):
            if locs[i] is not None and self.is_move(x):
                # moved into a by-value or rvalue-reference parameter
                st = self.moved(st, locs[i], vals[i])
        return st
    def throws(self, st, c):
        t = self.rule.may_throw(self, st, c)
        if t:
            for x in t: self.throw_(st.ev(c.line, "throws from " + (c.nm or "?")), x)
    def x_call(self, e, st, fr):
        nm = e.get("nm")
        if nm in ("move", "forward", "ref", "cref", "addressof", "as_const") and len(e["a"]) == 1 and not e.get("o"):
            r = self.evl(e["a"][0], st, fr)
            if nm == "addressof": r = [(s, None, ("A", l) if l else v) for s, l, v in r]
            return r
        o = e.get("o")
        if o is not None and not e.get("op") or (o is not None and nm in ("operator()", "operator=", "operator*", "operator->", "operator[]", "operator!", "operator++", "operator--", "operator==", "operator!=", "operator<<", "operator|=", "operator&=", "operator+=", "operator-=")):
            out = []
            for s, loc, v in self.evl(o, st, fr):
                if o["k"] == "this": loc, v = self.deref(v), v
                elif self.ptr_member(e, o) : loc = self.deref(v)
                elif loc is None: loc = ("T", trim(v, max(7, self.objd - 2)))
                out += self.do_args(e, s, fr, (loc, v), e["a"], self.fin_call)
            return out
        args = ([o] if o is not None else []) + e["a"]
        return self.do_args(e, st, fr, None, args, self.fin_call)
    def ptr_member(self, e, o):
        """member call through -> : the extractor gives the pointer expression as object"""
        if o["k"] == "call" and o.get("nm") == "operator->": return True
        t = o.get("t", "")
        return (t.endswith("*") and not e.get("op"))
    def fin_call(self, e, st, fr, obj, locs, vals):
        if e.get("nm") == "asynchronous_throw" and vals:
            v = vals[0]; tt = v[1] if v[0] == "obj" else "?"
            self.throw_(self.rule.throw(self, st, {"k": "throw", "l": e.get("l"), "tt": tt}).ev(e.get("l"), "throw"), ("T", tt, v))
            return []
        nm = e.get("nm"); qn = e.get("qn") or ""
        o, oval = obj if obj else (None, None)
        args = e["a"] if obj or e.get("o") is None else [e["o"]] + e["a"]
        line = e.get("l")
        if obj:
            if nm == "operator=" and len(vals) == 1:
                c = self.mkcall(e, st, fr, o, oval, locs, vals)
                r = self.rule.call(self, st, c)
                if r is not None: return [(s, o, v) for s, v in r]
                if self.is_move(args[0]) and locs[0] is not None: st = self.moved(st, locs[0], vals[0])
                if o[0] != "T": st = self.storeloc(st, o, vals[0], line)
                return [(st, o, vals[0])]
            if nm == "operator->" and (e.get("d") or not e.get("f")):
                return [(st, None, ("A", ("D", trim(oval, max(12, self.objd)))))]
            if nm == "operator*" and not vals and (e.get("d") or not e.get("f")):
                loc = self.deref(trim(oval, max(12, self.objd))) if oval[0] != "A" else oval[1]
                c = self.mkcall(e, st, fr, o, oval, locs, vals)
                r = self.rule.call(self, st, c)
                if r is not None: return [(s, loc, v) for s, v in r]
                return [(st, loc, self.loadloc(st, loc))]
            if nm in ("operator[]", "at", "front", "back") and (e.get("d") or not e.get("f")):
                loc = ("I", o, vals[0] if vals else ("c", nm))
                c = self.mkcall(e, st, fr, o, oval, locs, vals)
                r = self.rule.call(self, st, c)
                if r is not None: return [(s, loc, v) for s, v in r]
                return [(st, loc, self.loadloc(st, loc))]
            if nm == "operator-conv" and qn.startswith(SMART) and qn.endswith("operator bool"): return [(st, None, oval)]
            if qn.startswith(SMART) and nm == "get" and not vals:
                c = self.mkcall(e, st, fr, o, oval, locs, vals)
                r = self.rule.call(self, st, c)
                if r is not None: return [(s, None, v) for s, v in r]
                return [(st, None, ("A", ("D", trim(oval, max(12, self.objd)))))]
        c = self.mkcall(e, st, fr, o, oval, locs, vals)
        pre = st
        # locks
        lk = self.lock_op(st, c)
        if lk is not None: return lk
        r = self.rule.call(self, st, c)
        if r is not None:
            return [(self.consume_moves(e, args, s, locs, vals) if False else s, None, v) if not (isinstance(v, tuple) and v and v[0] == "LOC") else (s, v[1], self.loadloc(s, v[1])) for s, v in r]
        # lambda call
        if nm == "operator()" and oval is not None:
            lam = self.as_lambda(oval)
            if lam is not None and fr.depth < self.rule.max_inline:
                return self.inline_lambda(lam, c, st, fr, args)
        if c.callee is not None and fr.depth < self.rule.max_inline and c.callee.uid not in fr.stack and self.rule.inline(self, c.callee, c):
            return self.inline_fn(c, e, st, fr, args)
        # opaque
        if qn.startswith(IMMEDIATE) or (nm in ("wait", "for_each", "accumulate") and not e.get("f")):
            for v in vals:
                lam = self.as_lambda(v)
                if lam is not None and fr.depth < self.rule.max_inline:
                    node = self.lams[lam[1]][0]
                    if nm == "for_each" and len(vals) == 3 or nm == "transform" and len(vals) == 4 and qn.startswith("std::"): return self.each(e, c, lam, st, fr)
                    ps_ = [("r", c.site, "elem", i) for i in range(len(node["ps"]))]
                    outs = [st]
                    for s2, l2, v2 in self.inline_lambda(lam, c, st, fr, [None] * len(ps_), ps_): outs.append(s2)
                    res = []
                    for s2 in self.dedupe_s(outs): res += self.opaque(e, c, s2, fr, args)
                    return res
        return self.opaque(e, c, st, fr, args)
    def each(self, e, c, lam, st, fr):
        """std::for_each over a range: a loop over its elements"""
        b, en = c.args[0], c.args[1]
        cont = None
        if len(b) > 3 and len(en) > 3 and b[2:3] in (("begin",), ("cbegin",)) and en[2:3] in (("end",), ("cend",)) and b[3:] == en[3:] and b[3][0] == "V": cont = b[3][1]
        node = ["range", e.get("l"), None, None, None, id(e)]
        node = self.pseudo.setdefault(id(e), node)
        out = []; seen = set(); work = [st]; n = 0
        while work:
            nxt = []
            for x in self.dedupe_s(work):
                self.range_over = cont
                x = self.rule.loop_head(self, x, node)
                if x is None or x.key() in seen: continue
                seen.add(x.key()); out.append((self.rule.loop_exit(self, x, node), None, ("c", None)))
                eloc = ("I", cont if cont is not None else ("T", trim(b, 6)), ("each", e.get("l")))
                x = self.kill_facts(x, ("V", eloc))
                p0 = self.lams[lam[1]][0]["ps"]
                y = x
                for s2, l2, v2 in self.inline_each(lam, c, y, fr, eloc):
                    if c.nm == "transform":
                        k = Call(**{k: getattr(c, k) for k in Call.__slots__}); k.nm = "push_back"; k.args = (v2,); k.locs = (None,)
                        for s3, v3 in self.rule.call(self, s2, k) or [(s2, None)]: nxt.append(s3)
                    else: nxt.append(s2)
            work = [x for x in self.dedupe_s(nxt) if x.key() not in seen]; n += 1
            if n > 30: self.widened += 1; break
        return out
    def inline_each(self, lam, c, st, fr, eloc):
        c2 = Call(**{k: getattr(c, k) for k in Call.__slots__})
        c2.args = (("V", eloc),); c2.locs = (eloc,)
        return self.inline_lambda(lam, c2, st, fr, [None], None)
    def mkcall(self, e, st, fr, o, oval, locs, vals):
        callee = self.P.callee(fr.tu, e) if e.get("f") else self.resolve_dep(e, fr)
        return Call(node=e, nm=e.get("nm"), qn=e.get("qn") or "", o=o, oval=oval, args=vals, locs=locs, site=self.site(fr, e), line=e.get("l"), fn=fr.fn, callee=callee, frame=fr, isctor=False, cls=None,
                    defs=tuple(i for i, x in enumerate(e["a"]) if x and x["k"] == "defarg"))
    def resolve_dep(self, e, fr):
        """unresolved call in a template pattern: members of the same class, or a single viable candidate"""
        if not e.get("d"): return None
        n = len(e["a"])
        c = [x for x in e.get("c", ()) if x[3] <= n <= x[2] or x[2] >= 1 and False]
        if len(c) == 1:
            f = self.P.by_id.get((fr.tu, c[0][0]))
            return f if f and f.b else None
        o = e.get("o")
        if o is not None and o["k"] == "this" and fr.fn is not None and fr.fn.cls:
            l = [f for f in self.P.by_qn.get(fr.fn.cls + "::" + e.get("nm", ""), ()) if f.b and len(f.ps) == n and f.kind != "inst"]
            if len(l) == 1: return l[0]
        return None
    def as_lambda(self, v):
        for _ in range(6):
            if not isinstance(v, tuple) or not v: return None
            if v[0] == "lam": return v
            if v[0] == "obj" and len(v) == 3 and v[1].split("::")[-1] in ("function", "any_callable", "move_only_function"): v = v[2]; continue
            if v[0] == "A": return None
            return None
        return None
    def opaque(self, e, c, st, fr, args):
        self.throws(st, c)
        pm = e.get("pm", "")
        off = 0
        for i, l in enumerate(c.locs):
            if l is None: continue
            mode = pm[i - off] if 0 <= i - off < len(pm) else ""
            if self.is_move(args[i]) if i < len(args) and args[i] else False:
                st = self.moved(st, l, c.args[i])
            elif mode == "r" and c.nm not in FORWARDERS:
                st = self.storeloc(st, l, ("out", c.site, c.nm, i), c.line)
            elif args[i] is not None and args[i]["k"] == "un" and args[i]["op"] == "&":
                pass
        for i, v in enumerate(c.args):
            if v[0] == "A" and i < len(pm) and pm[i] == "P" and v[1][0] == "L":
                st = self.storeloc(st, v[1], ("out", c.site, c.nm, i), c.line)
        # non-const member call on a local: its content changes (values of smart pointers / plain copies do not)
        term = ("r", c.site, c.nm or "?") + ((trim(c.oval, 6),) if c.oval is not None else ()) + tuple(trim(a, 7) for a in c.args)
        if any(x[1] == c.site for y in term[3:] for x in subs(y) if len(x) > 1): term = ("r", c.site, c.nm or "?", ("self",))
        term = trim(term, 9)
        st = self.fresh(st, term)
        return [(st, None, term)]
    # ---- locks
    def lock_op(self, st, c):
        q = c.qn or ""
        if c.oval is not None and c.nm in ("lock", "unlock", "try_lock", "release") and isinstance(c.oval, tuple) and c.oval and c.oval[0] == "lk":
            l = c.oval[1]
            if c.nm == "lock": return [(self.acquire(st, l, c.line), None, ("c", None))]
            if c.nm == "unlock": return [(self.release(st, l, c.line), None, ("c", None))]
            return None
        if c.nm in ("lock", "unlock") and ("mutex" in q or "shared_mutex" in q or "lockable" in q) and c.o is not None:
            if c.nm == "lock": return [(self.acquire(st, c.o, c.line), None, ("c", None))]
            return [(self.release(st, c.o, c.line), None, ("c", None))]
        return None
    def acquire(self, st, l, line):
        st = self.rule.lock(self, st, l, line, True)
        return st.cp(held=tuple(sorted(st.held + (l,), key=repr)))
    def release(self, st, l, line):
        st = self.rule.lock(self, st, l, line, False)
        h = list(st.held)
        if l in h: h.remove(l)
        return st.cp(held=tuple(h))
    # ---- inlining
    def bind_params(self, ps, st, nf, locs, vals, args):
        n = len(ps)
        for i, p in enumerate(ps):
            if p.get("pack"):
                rest = tuple(vals[i:])
                st = st.setenv((nf.id, p["id"]), rest[0] if len(rest) == 1 else ("pack",) + rest)
                break
            if i < len(vals):
                t = p["t"]
                if t.endswith("&") and locs[i] is not None:
                    st = st.setenv((nf.id, p["id"]), ("ref", locs[i]))
                else:
                    if locs[i] is not None and i < len(args) and args[i] is not None and self.is_move(args[i]):
                        st = self.moved(st, locs[i], vals[i])
                    v = vals[i]
                    st = st.setenv((nf.id, p["id"]), v)
            else: st = st.setenv((nf.id, p["id"]), ("p", p["n"]))
        return st
    def inline_fn(self, c, e, st, fr, args):
        fn = c.callee
        self.inlined.add(fn.uid)
        static = fn.d.get("static")
        if c.o is not None and not static: this = ("A", c.o)
        else: this = fr.this if (e.get("o") is None and False) else ("none",)
        if c.o is not None and c.oval == fr.this and fr.this[0] != "A": this = fr.this
        nf = Frame((c.site, fn.id), fn, this, fn.tu, depth=fr.depth + 1, stack=fr.stack + (fn.uid,))
        self.frames[nf.id] = nf
        vals, locs = c.args, c.locs
        s0 = st
        st = self.bind_params(fn.ps, st, nf, locs, vals, args)
        mylive = len(st.live)
        self.sinks.append(sink := [])
        outs = self.exec(fn.b, st, nf)
        self.sinks.pop()
        return self.leave(outs, sink, nf)
    def inline_lambda(self, lam, c, st, fr, args, vals=None):
        node, _, this, tu, fn = self.lams[lam[1]]
        for x in lam[3:]:
            if x and x[0] == "this": this = x[1]
        nf = Frame((c.site, "lam", id(node) % 1000003), fn, this, tu, caps=dict(lam[2]), depth=fr.depth + 1, stack=fr.stack)
        self.frames[nf.id] = nf
        vals = c.args if vals is None else vals
        locs = c.locs if vals is c.args else (None,) * len(vals)
        args = list(args) + [None] * (len(vals) - len(args))
        st = self.bind_params(node["ps"], st, nf, locs, vals, args)
        self.sinks.append(sink := [])
        outs = self.exec(node["b"], st, nf)
        self.sinks.pop()
        return self.leave(outs, sink, nf)
    def leave(self, outs, sink, nf):
        def strip(s):
            dead = [k for k in s.env if k[0] == nf.id]
            if dead:
                e = dict(s.env)
                for k in dead: e.pop(k)
                s = s.cp(env=e)
            return s
        seen = set()
        for s, x in sink:
            s = strip(s); k = (s.key(), x)
            if k in seen: continue
            seen.add(k); self.throw_(s, x)
        r = []; seen = set()
        for k, s, v in outs:
            if k == "t": self.throw_(strip(s), v); continue
            val, loc = ("c", None), None
            if k == "r" and v is not None: val, loc = v
            if loc is not None and loc[0] == "L" and loc[1] == nf.id: loc = None
            s = strip(s); kk = (s.key(), val, loc)
            if kk in seen: continue
            seen.add(kk); r.append((s, loc, val))
        return r
    # ---- operators
    def x_bin(self, e, st, fr):
        op = e["op"]
        if op in ("&&", "||"):
            t, f = self.cond(e, st, fr)
            return [(s, None, ("c", True)) for s in t] + [(s, None, ("c", False)) for s in f]
        if op == ",":
            r = []
            for s, v in self.ev(e["x"], st, fr): r += self.evl(e["y"], s, fr)
            return r
        r = []
        for s, a in self.ev(e["x"], st, fr):
            for s2, b in self.ev(e["y"], s, fr):
                r.append((s2, None, self.fold(op, a, b)))
        return r
    def fold(self, op, a, b):
        if a[0] == "c" and b[0] == "c" and isinstance(a[1], (int, bool)) and isinstance(b[1], (int, bool)):
            x, y = a[1], b[1]
            try:
                return ("c", {"==": x == y, "!=": x != y, "<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y, "+": x + y, "-": x - y, "*": x * y, "&": x & y, "|": x | y}[op])
            except KeyError: pass
        return trim(("bin", op, a, b), 9)
    def x_un(self, e, st, fr):
        op = e["op"]
        if op == "!":
            t, f = self.cond(e["e"], st, fr)
            return [(s, None, ("c", False)) for s in t] + [(s, None, ("c", True)) for s in f]
        if op == "&":
            return [(s, None, ("A", l) if l is not None else v) for s, l, v in self.evl(e["e"], st, fr)]
        if op == "*":
            r = []
            for s, v in self.ev(e["e"], st, fr):
                loc = self.deref(v); r.append((s, loc, self.loadloc(s, loc)))
            return r
        if op in ("++", "--"):
            r = []
            for s, l, v in self.evl(e["e"], st, fr):
                nv = ("inc", self.site(fr, e), op)
                if v[0] == "c" and isinstance(v[1], int) and self.rule.folds(l): nv = ("c", v[1] + (1 if op == "++" else -1))
                if e.get("post") and v == nv: nv = nv + ("'",)     # the old value is still used: keep it apart from the new one
                s = self.fresh(s, nv)
                if l is not None: s = self.storeloc(s, l, nv, e.get("l"))
                r.append((s, l if not e.get("post") else None, v if e.get("post") else nv))
            return r
        r = []
        for s, v in self.ev(e["e"], st, fr):
            if op == "-" and v[0] == "c" and isinstance(v[1], int): r.append((s, None, ("c", -v[1])))
            else: r.append((s, None, ("un", op, v)))
        return r
    def x_asg(self, e, st, fr):
        r = []
        for s, v in self.ev(e["y"], st, fr):
            yl = None
            for s2, l, ov in self.evl(e["x"], s, fr):
                if e["op"] == "=" and v[0] != "c" and l is not None and ov != v and ov[0] in ("r", "inc", "upd", "bin") and mentions(v, ov):
                    nv = ("upd", self.site(fr, e), "="); s2 = self.fresh(s2, nv)
                elif e["op"] in ("+=", "-=") and v[0] == "c" and ov[0] == "c" and self.rule.folds(l): nv = ("c", ov[1] + v[1] if e["op"] == "+=" else ov[1] - v[1])
                elif e["op"] != "=": 
                    nv = ("upd", self.site(fr, e), e["op"], trim(v, 5)); s2 = self.fresh(s2, nv)
                else: nv = v
                if self.is_move(e["y"]) :
                    pass
                if l is not None: s2 = self.storeloc(s2, l, nv, e.get("l"))
                r.append((s2, l, nv))
        return r
    def x_cond(self, e, st, fr):
        t, f = self.cond(e["c"], st, fr)
        r = []
        for s in t: r += self.evl(e["x"], s, fr)
        for s in f: r += self.evl(e["y"], s, fr)
        return r
    def x_plist(self, e, st, fr):
        if len(e["a"]) == 1: return self.evl(e["a"][0], st, fr)
        return self.do_args(e, st, fr, None, e["a"], lambda e2, s, f2, o, ls, vs: [(s, None, trim(("obj", "?") + vs, self.objd))])
    def x_ilist(self, e, st, fr):
        if len(e["a"]) == 1: return self.evl(e["a"][0], st, fr)
        return self.do_args(e, st, fr, None, e["a"], lambda e2, s, f2, o, ls, vs: [(s, None, trim(("obj", "{}") + vs, self.objd))])
    def x_new(self, e, st, fr):
        args = ([e["e"]] if e.get("e") else []) + e.get("pl", [])
        def fin(e2, s, f2, o, ls, vs):
            c = Call(node=e, nm="new", qn="new", o=None, oval=None, args=vs, locs=ls, site=self.site(fr, e), line=e.get("l"), fn=fr.fn, callee=None, frame=fr, isctor=False, cls=e["nt"], defs=())
            r = self.rule.call(self, s, c)
            if r is not None: return [(s3, None, v) for s3, v in r]
            return [(s, None, trim(("obj", "new " + e["nt"]) + vs, self.objd))]
        return self.do_args(e, st, fr, None, args, fin)
    def x_del(self, e, st, fr):
        def fin(e2, s, f2, o, ls, vs):
            c = Call(node=e, nm="delete", qn="delete", o=None, oval=None, args=vs, locs=ls, site=self.site(fr, e), line=e.get("l"), fn=fr.fn, callee=None, frame=fr, isctor=False, cls=None, defs=())
            r = self.rule.call(self, s, c)
            if r is not None: return [(s3, None, v) for s3, v in r]
            return [(s, None, ("c", None))]
        return self.do_args(e, st, fr, None, [e["e"]], fin)
    # ------------------------------------------------------------ conditions
    def cond(self, e, st, fr):
        """(states where true, states where false)"""
        if e is None: return [st], []
        k = e["k"]
        if k == "un" and e["op"] == "!":
            t, f = self.cond(e["e"], st, fr); return f, t
        if k == "call" and e.get("nm") == "operator!" and e.get("op"):
            t, f = self.cond(e["o"], st, fr); return f, t
        if k == "bin" and e["op"] == "&&":
            t, f = self.cond(e["x"], st, fr); T = []; F = list(f)
            for s in self.dedupe_s(t):
                a, b = self.cond(e["y"], s, fr); T += a; F += b
            return T, F
        if k == "bin" and e["op"] == "||":
            t, f = self.cond(e["x"], st, fr); T = list(t); F = []
            for s in self.dedupe_s(f):
                a, b = self.cond(e["y"], s, fr); T += a; F += b
            return T, F
        if k == "cast": return self.cond(e["e"], st, fr)
        if k == "call" and e.get("nm") in ("operator-conv",) and e.get("o") and not e.get("f"): return self.cond(e["o"], st, fr)
        T = []; F = []
        for s, v in self.ev(e, st, fr):
            for tr, s2 in self.truth(s, v):
                (T if tr else F).append(s2)
        return T, F
    def truth(self, s, v):
        neg = False
        while True:
            if v[0] == "bin" and v[1] in ("==", "!="):
                a, b = v[2], v[3]
                if a[0] == "c": a, b = b, a
                if b[0] == "c" and (b[1] is True or b == ("c", False) or b == ("c", None)):
                    want = bool(b[1])
                    if v[1] == "!=": want = not want
                    if b == ("c", None) and a[0] in ("A", "this"): return [((not want) ^ neg, s)]
                    if not want: neg = not neg
                    v = a; continue
                if v[1] == "!=": neg = not neg; v = ("bin", "==", a, b); continue
                if b[0] != "c" and repr(a) > repr(b): v = ("bin", "==", b, a)
                break
            if v[0] == "bin" and v[1] in (">", ">="):
                v = ("bin", {">": "<", ">=": "<="}[v[1]], v[3], v[2]); continue
            if v[0] == "bin" and v[1] == "<=":
                neg = not neg; v = ("bin", "<", v[3], v[2]); continue
            if v[0] == "defarg": v = v[1]; continue
            if v[0] == "call" and len(v) == 4 and v[1] in ("operator==", "operator!=") and isinstance(v[3], tuple):
                ops = ((v[2],) if v[2] is not None else ()) + v[3]
                if len(ops) == 2:
                    if v[1] == "operator!=": neg = not neg
                    null = [x for x in ops if x == ("c", None)]
                    if len(null) == 1:                    # p == nullptr
                        v = ops[0] if ops[1] == ("c", None) else ops[1]
                        neg = not neg; continue
                    v = ("call", "operator==", v[2], v[3])
                break
            if v[0] == "r" and v[2] in ("operator==", "operator!="):
                # comparison of class objects: a pure function of its operands
                if len(v) == 5:
                    a, b = v[3], v[4]
                    if (a == ("c", None)) != (b == ("c", None)):
                        if v[2] == "operator==": neg = not neg
                        v = b if a == ("c", None) else a; continue
                    nv = ("bin", "==") + (tuple(sorted((a, b), key=repr)))
                    if v[2] == "operator!=": neg = not neg
                    v = nv
                break
            break
        if v[0] == "c":
            return [(bool(v[1]) ^ neg, s)]
        if v[0] in ("A", "this", "lam"): return [(True ^ neg, s)]
        if v[0] == "obj" and len(v) == 2 and v[1].startswith(SMART): return [(neg, s)]
        if v[0] == "r" and v[2] in ("make_shared", "make_unique", "current_exception", "make_exception_ptr"): return [(True ^ neg, s)]
        f = s.facts.get(v)
        if f is not None: return [(f ^ neg, self.rule.known(self, s, v, f))]
        out = []
        for val in (True, False):
            s2 = self.rule.branch(self, s.setfact(v, val), v, val)
            if s2 is not None: out.append((val ^ neg, s2))
        return out
    # ------------------------------------------------------------ statements
    def exec_set(self, b, sts, fr):
        outs = []
        for s in sts: outs += self.exec(b, s, fr)
        return self.dedupe(outs)
    def exec(self, s, st, fr):
        self.tick()
        if s is None: return [("n", st, None)]
        return getattr(self, "s_" + {"{": "block", "e": "expr", "if": "if", "while": "while", "do": "do", "for": "for", "range": "range", "ret": "ret", "break": "break", "continue": "continue", "decl": "decl", "try": "try", "switch": "switch", "case": "case", "default": "default", "label": "label"}.get(s[0], "other"))(s, st, fr)
    def s_other(self, s, st, fr): return [("n", st, None)]
    def s_label(self, s, st, fr): return self.exec(s[2], st, fr)
    def s_expr(self, s, st, fr):
        return [("n", s2, None) for s2, v in self.ev(s[2], st, fr)]
    def s_break(self, s, st, fr): return [("b", self.rule.jump(self, st, "b", s[1]), None)]
    def s_continue(self, s, st, fr): return [("c", self.rule.jump(self, st, "c", s[1]), None)]
    def s_ret(self, s, st, fr):
        if s[2] is None: return [("r", st.ev(s[1], "return"), None)]
        out = []
        for s2, l, v in self.evl(s[2], st, fr): out.append(("r", s2.ev(s[1], "return"), (v, l)))
        return out
    def s_block(self, s, st, fr):
        base = len(st.live)
        self.sinks.append(sink := [])
        cur = [st]; done = []
        for x in s[2]:
            nxt = []
            for c in cur:
                for k, s2, v in self.exec(x, c, fr):
                    if k == "n": nxt.append(s2)
                    else: done.append((k, s2, v))
            cur = self.dedupe_s(nxt)
            if not cur: break
        self.sinks.pop()
        outs = done + [("n", c, None) for c in cur] + [("t", s2, x) for s2, x in sink]
        # variables declared here
        ids = [d["id"] for x in s[2] if x and x[0] == "decl" for d in x[2] if not d.get("st")]
        res = []
        for k, s2, v in self.dedupe(outs):
            for s3 in self.unwind(s2, base, fr):
                if ids:
                    e = {kk: vv for kk, vv in s3.env.items() if not (kk[0] == fr.id and kk[1] in ids)}
                    if len(e) != len(s3.env): s3 = s3.cp(env=e)
                s3 = self.gc(s3, subs(v) if v is not None else None)
                if k == "t": self.throw_(s3, v)
                else:
                    if k == "r" and v is not None and v[1] is not None and v[1][0] == "L" and v[1][1] == fr.id and v[1][2] in ids: v = (v[0], None)
                    res.append((k, s3, v))
        return self.dedupe(res)
    def unwind(self, st, base, fr):
        """run scope-exit actions beyond base, innermost first"""
        sts = [st]
        while True:
            todo = [s for s in sts if len(s.live) > base]
            if not todo: return sts
            nx = [s for s in sts if len(s.live) <= base]
            for s in todo:
                act = s.live[-1]; s = s.cp(live=s.live[:-1])
                if act[0] == "lock":
                    v = s.env.get(act[1])
                    if v is not None and v[0] == "lk":
                        for l in v[1:]:
                            if l in s.held: s = self.release(s, l, None)
                    nx.append(s)
                else: nx += self.run_dtor(s, act, fr)
            sts = self.dedupe_s(nx)
    def run_dtor(self, st, act, fr):
        _, loc, uid = act
        fn = self.P.by_id.get(uid)
        if fn is None or not fn.b or fr.depth >= self.rule.max_inline: return [st]
        nf = Frame(("dtor", loc, fn.id), fn, ("A", loc), fn.tu, depth=fr.depth + 1, stack=fr.stack + (fn.uid,))
        self.frames[nf.id] = nf
        self.sinks.append(sink := [])
        outs = self.exec(fn.b, st, nf)
        self.sinks.pop()
        # destructors do not throw (a throw here terminates)
        return [s.cp() for k, s, v in outs if k != "t"] or [st]
    def s_decl(self, s, st, fr):
        sts = [st]
        for d in s[2]:
            nx = []
            for c in sts: nx += self.decl1(d, c, fr)
            sts = self.dedupe_s(nx)
        return [("n", c, None) for c in sts]
    def decl1(self, d, st, fr):
        key = (fr.id, d["id"]); t = d["t"]; i = d.get("i")
        base = t.split("<")[0].replace("const ", "").rstrip("&")
        if base in LOCK_TYPES or (t.startswith("$") and "lock" in t): 
            return self.lock_decl(d, st, fr)
        if d.get("tw", "").split("<")[0].endswith("lock") : return self.lock_decl(d, st, fr)
        out = []
        if i is None:
            return [st.setenv(key, ("uninit", d["id"]))]
        dt = self.user_dtor(t, fr, i) if self.rule.track_dtors and not t.endswith(("&", "*")) else None
        if dt is not None and i["k"] == "ctor" and not i.get("cp") and not i.get("mv"):
            loc = ("L", fr.id, d["id"], d["n"])
            for s2 in self.construct(i, loc, st, fr):
                out.append(s2.setenv(key, ("objat", i["cls"])).cp(live=s2.live + (("dtor", loc, dt.uid),)))
            return out
        if dt is not None and i["k"] == "ilist" and i["a"] and self.P.rec_by_qn.get(dt.cls):
            # aggregate
            loc = ("L", fr.id, d["id"], d["n"]); fl = self.P.rec_by_qn[dt.cls][0]["fields"]; sts = [st]
            for a, fd in zip(i["a"], fl):
                sts = [s2.setmem(("F", loc, fd["n"]), ("ref", l) if fd["t"].endswith("&") and l is not None else v) for s in sts for s2, l, v in self.evl(a, s, fr)]
            return [s2.setenv(key, ("objat", dt.cls)).cp(live=s2.live + (("dtor", loc, dt.uid),)) for s2 in sts]
        for s2, l, v in self.evl(i, st, fr):
            if t.endswith("&") and l is not None and not (l[0] == "L" and l[1] == fr.id and l[2] == d["id"]): s2 = s2.setenv(key, ("ref", l))
            else:
                if l is not None and self.is_move(i): s2 = self.moved(s2, l, v)
                s2 = self.kill_facts(s2, ("V", ("L", fr.id, d["id"], d["n"])))
                s2 = s2.setenv(key, v)
                s2 = self.rule.store(self, s2, ("L", fr.id, d["id"], d["n"]), v, d.get("l"))
            if dt is not None: s2 = s2.cp(live=s2.live + (("dtor", ("L", fr.id, d["id"], d["n"]), dt.uid),))
            out.append(s2)
        return out
    def user_dtor(self, t, fr, i):
        """destructor with a body written in the analysed sources for a local's class"""
        cls = t.replace("const ", "").split("<")[0]
        if i is not None and i["k"] == "ctor" and i.get("cls"): cls = i["cls"]
        if not self.dtor_ok(cls): return None
        short = cls.split("::")[-1]
        l = [f for f in self.P.by_qn.get(cls + "::~" + short, ()) if f.b and f.b[2] and f.tu == fr.tu]
        for f in l:
            if (f.kind == "inst") == (fr.fn.kind == "inst"): return f
        return l[0] if l else None
    def dtor_ok(self, cls): return True
    def construct(self, e, loc, st, fr):
        """run a constructor of the analysed sources on a local object"""
        fn = self.P.callee(fr.tu, e)
        res = [(st, (), ())]
        for x in e["a"]:
            res = [(s2, ls + (l,), vs + (v,)) for s, ls, vs in res for s2, l, v in self.evl(x, s, fr)]
        out = []
        for s, ls, vs in res:
            c = Call(node=e, nm=e["cls"].split("::")[-1], qn=e["cls"], o=loc, oval=None, args=vs, locs=ls, site=self.site(fr, e), line=e.get("l"), fn=fr.fn, callee=fn, frame=fr, isctor=True, cls=e["cls"], defs=())
            r = self.rule.call(self, s, c)
            if r is not None: out += [s2 for s2, v in r]; continue
            if fn is None or fr.depth >= self.rule.max_inline or fn.uid in fr.stack: out.append(s); continue
            nf = Frame((c.site, fn.id), fn, ("A", loc), fn.tu, depth=fr.depth + 1, stack=fr.stack + (fn.uid,))
            self.frames[nf.id] = nf
            s = self.bind_params(fn.ps, s, nf, ls, vs, e["a"])
            for s2 in self.ctor_inits(fn, nf, [s], loc):
                self.sinks.append(sink := [])
                o2 = self.exec(fn.b, s2, nf)
                self.sinks.pop()
                for s3, l3, v3 in self.leave(o2, sink, nf): out.append(s3)
        return out
    def ctor_inits(self, fn, fr, sts, loc):
        for i in fn.inits:
            if "m" not in i:
                nx = []
                for s in sts: nx += [s2 for s2, v in self.ev(i["i"], s, fr)]
                sts = nx
                continue
            nx = []
            ft = self.field_type(fn, i["m"])
            for s in sts:
                for s2, l, v in self.evl(i["i"], s, fr):
                    if ft.endswith("&") and l is not None: s2 = s2.setmem(("F", loc, i["m"]), ("ref", l))
                    else:
                        if l is not None and self.is_move(i["i"]): s2 = self.moved(s2, l, v)
                        s2 = s2.setmem(("F", loc, i["m"]), v)
                    nx.append(s2)
            sts = nx
        return sts
    def field_type(self, fn, name):
        for r in self.P.rec_by_qn.get(fn.cls or "", ()):
            for f in r["fields"]:
                if f["n"] == name: return f["t"]
        return ""
    def lock_decl(self, d, st, fr):
        i = d.get("i"); key = (fr.id, d["id"])
        if i is None: return [st.setenv(key, ("lk",))]
        args = i.get("a", []) if i["k"] == "ctor" else [i]
        out = []
        res = [(st, (), ())]
        for x in args:
            res = [(s2, ls + (l,), vs + (v,)) for s, ls, vs in res for s2, l, v in self.evl(x, s, fr)]
        for s, ls, vs in res:
            names = " ".join(repr(v) for v in vs)
            defer = any("defer_lock" in repr(v) for v in vs); adopt = any("adopt_lock" in repr(v) for v in vs)
            locks = [l for l, v in zip(ls, vs) if l is not None and not any(w in repr(v) + repr(l) for w in ("defer_lock", "adopt_lock", "try_to_lock")) ]
            if i.get("mv") or (vs and vs[0][0] == "lk"):
                # a lock handed over by a function: still held
                if vs and vs[0][0] == "lk":
                    for l in vs[0][1:]:
                        if l not in s.held: s = s.cp(held=tuple(sorted(s.held + (l,), key=repr)))
                s = s.setenv(key, vs[0] if vs else ("lk",)).cp(live=s.live + (("lock", key),)); out.append(s); continue
            s = s.setenv(key, ("lk",) + tuple(locks)).cp(live=s.live + (("lock", key),))
            if not defer and not adopt:
                for l in locks: s = self.acquire(s, l, d.get("l"))
            out.append(s)
        return out
    def s_if(self, s, st, fr):
        sts = [st]; ids = []
        if s[2]:
            sts = [x for k, x, v in self.exec(s[2], st, fr) if k == "n"]
        out = []
        for c in sts:
            t, f = self.cond(s[3], c, fr)
            for x in self.dedupe_s(t): out += self.exec(s[4], x, fr) if s[4] else [("n", x, None)]
            for x in self.dedupe_s(f): out += self.exec(s[5], x, fr) if s[5] else [("n", x, None)]
        return self.dedupe(out)
    def loop(self, node, st, fr, cond, body, inc, first_body=False):
        out = []
        seen = set(); work = [st]; n = 0
        if first_body:
            # do-while: body once, then condition
            pre = []
            for k, s2, v in self.exec(body, st, fr):
                if k in ("n", "c"): pre.append(s2)
                elif k == "b": out.append(("n", self.rule.loop_exit(self, s2, node), None))
                else: out.append((k, s2, v))
            work = pre
        while work:
            n += 1
            nxt = []
            for c in self.dedupe_s(work):
                c = self.rule.loop_head(self, self.gc(c), node)
                if c is None: continue
                if c.key() in seen: continue
                seen.add(c.key())
                t, f = self.cond(cond, c, fr)
                out += [("n", self.rule.loop_exit(self, x, node), None) for x in f]
                for x in self.dedupe_s(t):
                    for k, s2, v in self.exec(body, x, fr) if body else [("n", x, None)]:
                        if k in ("n", "c"):
                            if inc: nxt += [y for y, v2 in self.ev(inc, s2, fr)]
                            else: nxt.append(s2)
                        elif k == "b": out.append(("n", self.rule.loop_exit(self, s2, node), None))
                        else: out.append((k, s2, v))
            work = [x for x in self.dedupe_s(nxt) if x.key() not in seen]
            if n > 30 or len(seen) > 3000: self.widened += 1; break
        return self.dedupe(out)
    def s_while(self, s, st, fr): return self.loop(s, st, fr, s[2], s[3], None)
    def s_do(self, s, st, fr): return self.loop(s, st, fr, s[3], s[2], None, True)
    def s_for(self, s, st, fr):
        sts = [st]; ids = []
        if s[2]:
            sts = [x for k, x, v in self.exec(s[2], st, fr) if k == "n"]
            if s[2][0] == "decl": ids = [d["id"] for d in s[2][2]]
        out = []
        for c in sts: out += self.loop(s, c, fr, s[3], s[5], s[4])
        if ids:
            out = [(k, x.cp(env={kk: vv for kk, vv in x.env.items() if not (kk[0] == fr.id and kk[1] in ids)}), v) for k, x, v in out]
        return self.dedupe(out)
    def range_var(self, s, eloc, v): return ("ref", eloc) if s[2]["t"].endswith("&") else ("V", eloc)
    def s_range(self, s, st, fr):
        out = []
        for c, l, v in self.evl(s[3], st, fr):
            el = ("elem", trim(v, 7))
            eloc = ("I", l if l is not None else ("T", trim(v, 7)), ("each", s[1]))
            seen = set(); work = [c]; n = 0
            while work:
                nxt = []
                for x in self.dedupe_s(work):
                    self.range_over = l
                    x = self.rule.loop_head(self, x, s)
                    if x is None: continue
                    if x.key() in seen: continue
                    seen.add(x.key())
                    out.append(("n", self.rule.loop_exit(self, x, s), None))
                    x = self.kill_facts(x, ("V", eloc))
                    if eloc in x.mem: x = x.cp(mem={k: vv for k, vv in x.mem.items() if k != eloc})
                    y = x.setenv((fr.id, s[2]["id"]), self.range_var(s, eloc, v))
                    for k, s2, v2 in self.exec(s[4], y, fr):
                        e = {kk: vv for kk, vv in s2.env.items() if kk != (fr.id, s[2]["id"])}
                        s2 = s2.cp(env=e)
                        if k in ("n", "c"): nxt.append(s2)
                        elif k == "b": out.append(("n", self.rule.loop_exit(self, s2, s), None))
                        else: out.append((k, s2, v2))
                work = [x for x in self.dedupe_s(nxt) if x.key() not in seen]; n += 1
                if n > 30: self.widened += 1; break
        return self.dedupe(out)
    def matches(self, exc, h):
        """None no, 'maybe', 'yes'"""
        t = h.get("t")
        if t is None: return "yes"
        if exc[0] == "any": return "maybe"
        q = exc[1]
        t = t.replace("const ", "")
        if q == t: return "yes"
        bases = self.exc_bases(q)
        if t in bases: return "yes"
        if exc[0] == "sub" : return "maybe" if q in h.get("bases", ()) else None
        return None
    def exc_bases(self, q):
        if not hasattr(self, "_eb"): self._eb = {}
        if q in self._eb: return self._eb[q]
        r = set()
        for rec in self.P.rec_by_qn.get(q, ()):
            for b in rec["bases"]:
                r.add(b); r |= self.exc_bases(b)
        if q.startswith("std::") and q != "std::exception": r.add("std::exception")
        self._eb[q] = r
        return r
    def s_try(self, s, st, fr):
        base = len(st.live)
        self.sinks.append(sink := [])
        outs = self.exec(s[2], st, fr)
        self.sinks.pop()
        res = [o for o in outs]
        seen = set(); todo = []
        for s2, x in sink:
            k = (s2.key(), x)
            if k in seen: continue
            seen.add(k); todo.append((s2, x))
        for s2, x in todo:
            open_ = True
            for h in s[3]:
                m = self.matches(x, h)
                if m is None: continue
                s3 = s2.cp(exc=s2.exc + (x if m == "yes" or h.get("t") is None else ("T", h["t"].replace("const ", ""), None) if False else x,))
                if h.get("id"): s3 = s3.setenv((fr.id, h["id"]), ("caught", x[0], x[1] if len(x) > 1 else ""))
                s3 = s3.ev(h["l"], "catch " + h.get("t", "..."))
                self.sinks.append(sk := [])
                hs = self.exec(h["b"], s3, fr)
                self.sinks.pop()
                for k, s4, v in hs: res.append((k, s4.cp(exc=s4.exc[:-1] if s4.exc else ()), v))
                for s4, x2 in sk: self.throw_(s4.cp(exc=s4.exc[:len(s2.exc)]), x2)
                if m == "yes": open_ = False; break
            if open_: self.throw_(s2, x)
        return self.dedupe(res)
    def s_switch(self, s, st, fr):
        out = []
        for c, v in self.ev(s[2], st, fr):
            body = s[3][2] if s[3] and s[3][0] == "{" else [s[3]]
            starts = [i for i, x in enumerate(body) if x and x[0] in ("case", "default")]
            def labels(x):
                ls = []
                while x and x[0] in ("case", "default"): ls.append(x[2] if x[0] == "case" else None); x = x[-1]
                return ls
            def run(i, c):
                cur = [c]
                for x in body[i:]:
                    nx = []
                    for y in cur:
                        for k, s2, vv in self.exec(x, y, fr):
                            if k == "n": nx.append(s2)
                            elif k == "b": out.append(("n", s2, None))
                            else: out.append((k, s2, vv))
                    cur = self.dedupe_s(nx)
                out.extend([("n", y, None) for y in cur])
            rest = [c]; dflt = None
            for i in starts:
                for l in labels(body[i]):
                    if l is None: dflt = i; continue
                    nrest = []
                    for y in rest:
                        for y2, cv in self.ev(l, y, fr):
                            if v[0] == "c" and cv[0] == "c": ts = [(v == cv, y2)]
                            else: ts = self.truth(y2, ("bin", "==", v, cv))
                            for tr, y3 in ts:
                                if tr: run(i, y3)
                                else: nrest.append(y3)
                    rest = self.dedupe_s(nrest)
            for y in rest:
                if dflt is None: out.append(("n", y, None))
                else: run(dflt, y)
        return self.dedupe(out)
    def s_case(self, s, st, fr): return self.exec(s[3], st, fr) if s[3] else [("n", st, None)]
    def s_default(self, s, st, fr): return self.exec(s[2], st, fr) if s[2] else [("n", st, None)]
