"""Value-level summaries of small functions: the terms a function returns and stores on each path, and
the calls it makes, with calls of other code as uninterpreted pure terms."""
from engine import *
from core import Broken
NS = "boost::asynchronous::"
THIS = ("D", ("this",))
def F(name, o=THIS): return ("F", o, name)
def V(loc): return ("V", loc)

class Rec(Rule):
    """records calls on objects as events; opaque calls yield pure terms ("call", name, object, args)"""
    max_inline = 6; depth = 14
    def __init__(self, inl=None, opq=(), ev=None, spec=None, locks=False):
        self.inl = inl; self.opq = set(opq); self.ev = ev; self.spec = spec; self.locks = locks; self.touched = []
    def init(self): return ()
    def inline(self, eng, fn, c):
        if c.nm in self.opq: return False
        if self.inl is not None: return self.inl(eng, fn, c)
        return fn.file == eng.root.file
    def lock(self, eng, st, l, line, acq):
        return st.cp(rs=st.rs + (("lock" if acq else "unlock", l),)) if self.locks else st
    def call(self, eng, st, c):
        if self.spec is not None:
            r = self.spec(self, eng, st, c)
            if r is not None: return r
        if c.isctor or c.nm in ("new", "delete"): return None
        if c.nm in ("operator*", "operator->", "operator[]", "at", "operator bool", "operator-conv", "operator=") or c.nm == "get" and c.qn.startswith(SMART): return None
        if c.nm == "operator()" and c.oval is not None and eng.as_lambda(c.oval) is not None: return None
        if c.callee is not None and c.callee.uid not in c.frame.stack and c.frame.depth < self.max_inline and self.inline(eng, c.callee, c): return None
        t = trim(("call", c.nm, strip(c.oval) if c.oval is not None else None, tuple(strip(a) for a in c.args)), self.depth)
        if self.ev is None or self.ev(c): st = st.cp(rs=st.rs + ((c.nm, c.o, t, c.args, c.line, st.held),)).ev(c.line, c.nm)
        if len(st.rs) > 40: st = st.cp(rs=st.rs[:40])
        args = c.node.get("a") or []
        for i, l in enumerate(c.locs):
            if l is not None and i < len(args) and args[i] is not None and eng.is_move(args[i]): st = eng.moved(st, l, c.args[i])
        if c.nm == "swap" and len(c.locs) == 2 and all(c.locs):
            a, b = c.args; st = eng.storeloc(st, c.locs[0], b, c.line); st = eng.storeloc(st, c.locs[1], a, c.line)
        return [(st, t)]

def strip(t):
    """forget what cannot matter: moved-from marks, call sites"""
    if not isinstance(t, tuple): return t
    if t and t[0] == "moved": return strip(t[1])
    if t and t[0] == "defarg": return strip(t[1])
    return tuple(strip(x) for x in t)

def paths(ctx, P, fn, rule=None, st=None, **kw):
    r = Rec(**kw) if rule is None else rule
    eng = Engine(P, r, maxsteps=400000)
    outs = ctx.run_engine(eng, fn)
    return [(k, s, (v[0] if k == "r" and v else v)) for k, s, v in outs], r

def calls(st, nm=None): return [e for e in st.rs if e[0] not in ("lock", "unlock") and (nm is None or e[0] == nm)]

def insts(P, pred):
    """functions satisfying pred: instantiations where there are any, else the template itself; one per body"""
    g = {}
    for f in P.fns:
        if f.b and pred(f): g.setdefault((f.file, f.line, f.qn), []).append(f)
    res = []
    for l in g.values():
        i = [f for f in l if f.kind != "pattern"]
        res += i or l
    return res

def copy_of(f, x, m, rhs):
    """is x the member m of a local which was made from rhs?"""
    for t in find_terms(x, lambda y: y and y[0] == "F" and y[2] == m and y[1][0] == "L"):
        name = t[1][3]
        for d in find_decls(f.b, name):
            if repr(rhs) in repr(d): return True
    return False

def find_decls(b, name):
    if isinstance(b, dict):
        if b.get("n") == name and b.get("init", b.get("i")) is not None: yield b
        for x in b.values(): yield from find_decls(x, name)
    elif isinstance(b, (list, tuple)):
        for x in b: yield from find_decls(x, name)

def pterms(f):
    """the terms which stand for the parameters of f (those of a pack share their name)"""
    return [("p", p["n"] if sum(q["n"] == p["n"] for q in f.ps) == 1 else "%s#%d" % (p["n"], i)) for i, p in enumerate(f.ps)]
