"""Parallel algorithms: how ranges are split, what sub-tasks inherit, and the order in which their results
are combined (C25-C27).  Works on the templates themselves, so for every instantiation."""
from engine import *
from core import Broken, extract
from sym import strip
import rules_algo as A
from rules_algo import REG, NS, short, what_of, exprs_in

KINDS = ("adv", "dist", "cut", "cutprev", "cutp", "beg", "end", "task", "half", "call")
def norm(v):
    while v and v[0] in ("moved", "defarg"): v = v[1]
    if not isinstance(v, tuple) or not v: return v
    if v[0] == "V" and v[1][0] == "F" and v[1][1] == ("D", ("this",)): return ("f", v[1][2])
    if v[0] == "bin" and v[1] == "+": return mk_adv(norm(v[2]), norm(v[3]))
    if v[0] == "bin" and v[1] == "-": return ("dist", norm(v[3]), norm(v[2]))
    if v[0] == "bin": return ("bin", v[1], norm(v[2]), norm(v[3]))
    if v[0] == "adv": return mk_adv(norm(v[1]), norm(v[2]))
    if v[0] in KINDS: return tuple(norm(x) if isinstance(x, tuple) else x for x in v)
    if v[0] in ("V", "A", "D", "F", "I"): return tuple(norm(x) if isinstance(x, tuple) else x for x in v)
    return v
def mk_adv(x, d):
    if d[0] == "dist" and d[1] == x: return d[2]
    if d[0] == "bin" and d[1] == "/" and d[3] == ("c", 2) and d[2][0] == "dist" and d[2][1] == x: return ("half", x, d[2][2])
    if d[0] == "adv": return mk_adv(mk_adv(x, d[1]), d[2])      # x + (a + b)
    return ("adv", x, d)
def sh(v):
    if not isinstance(v, tuple) or not v: return str(v)
    if v[0] == "f": return v[1]
    if v[0] == "name": return "name"
    if v[0] == "task": return short(v[1]) + "{" + ", ".join(sh(x) for x in v[2]) + "}"
    if v[0] in KINDS: return v[0] + "(" + ", ".join(sh(x) for x in v[1:]) + ")"
    if v[0] == "val": return "result%s" % "".join(v[1:2])
    if v[0] == "c": return str(v[1])
    if v[0] in ("V", "A"): return sh(v[1])
    if v[0] == "D": return "*" + sh(v[1]) if v[1] != ("this",) else "this"
    if v[0] == "F": return sh(v[1]) + "." + str(v[2])
    if v[0] == "I": return sh(v[1]) + "[" + sh(v[2]) + "]"
    return str(v)[:60]

SHARED = {"partition_worker", "parallel_partition_helper"}      # workers which take pieces of a shared list instead of splitting a range

class SplitEngine(Engine):
    def x_mem(self, e, st, fr):
        if e.get("o") and (e["o"].get("k") == "ref" or e["n"] in ("first", "second")):
            out = []
            for s, l, v in self.evl(e["o"], st, fr):
                v = norm(v)
                if v and v[0] == "cutp": out.append((s, None, ("cut" if e["n"] == "second" else "cutprev",) + v[1:]))
                elif v and v[0] == "val" and not e.get("ar"): out.append((s, None, v + (e["n"],)))
                else: out = None; break
            if out: return out
        return Engine.x_mem(self, e, st, fr)
    def moved(self, st, loc, val):
        s = Engine.moved(self, st, loc, val)
        if isinstance(s.rs, tuple) and loc is not None and loc[0] in ("F", "L") and ("mv", loc) not in s.rs: s = s.cp(rs=s.rs + (("mv", loc),))
        return s
    def range_var(self, s, eloc, v):
        n = norm(v)
        if isinstance(n, tuple) and find_terms(n, lambda t: t and t[0] == "val"): return ("elem", n)
        return Engine.range_var(self, s, eloc, v)
    def s_for(self, s, st, fr):
        c = count_loop(s)
        if c is None: return Engine.s_for(self, s, st, fr)
        out = []
        for s1, l, n in self.evl(c[0], st, fr):
            for s2, loc, v in self.evl(c[1], s1, fr):
                if loc is None: return Engine.s_for(self, s, st, fr)
                out.append(("n", self.storeloc(s2, loc, mk_adv(norm(v), norm(n)), s[1]), None))
        return out
    def truth(self, s, v):
        r = Engine.truth(self, s, v); out = []
        for b, s2 in r:
            for k in s2.facts:
                if k not in s.facts and not relevant(norm(k)): s2 = s2.cp(facts=s.facts); break
            out.append((b, s2))
        return out

def relevant(x):
    """conditions worth keeping: about positions and results of sub-tasks"""
    if x[0] == "val" or x[0] == "f" and "depth" in x[1]: return True
    if x[0] == "bin": return bool(find_terms(x, lambda t: t and t[0] in ("cut", "val", "half", "dist", "beg", "end", "f"))) and not find_terms(x, lambda t: t and t[0] in ("upd",))
    return x[0] == "call" and x[1] in ("operator()", "lexicographical_compare", "is_sorted")

class SplitRule(Rule):
    """models the positions a task works with: cut positions, distances, advanced iterators"""
    max_inline = 6
    def __init__(self, tasks): self.tasks = tasks; self.regs = []; self.handlers = []; self.comb = []; self.algos = []; self.sets = []; self.stores = []; self.advs = []; self.used = []; self.inh = None; self.inhst = None
    def init(self): return ()
    def inline(self, eng, fn, c): return fn.cls is not None and fn.cls == c.frame.fn.cls
    def note(self, l, x):
        if x not in l: l.append(x)
    def store(self, eng, st, loc, val, line):
        if loc and loc[0] in ("D", "I") and loc != ("D", ("this",)): self.note(self.stores, (norm(loc), norm(val), st))
        return st
    def call(self, eng, st, c):
        nm = c.nm; raw = c.args; a = tuple(norm(x) for x in raw); o = norm(c.oval) if c.oval is not None else None
        if c.isctor:
            if c.cls in self.tasks and not (c.node.get("cp") or c.node.get("mv")):
                mv = tuple(i for i, x in enumerate(raw) if x and x[0] == "moved")
                if isinstance(st.rs, tuple):
                    for i, l in enumerate(c.locs or ()):
                        x = c.node["a"][i] if i < len(c.node.get("a", ())) else None
                        if l is not None and x and not eng.is_move(x) and (("mv", l) in st.rs or i in mv): self.note(self.used, (c.line, str(l[-1])))
                return [(st, ("task", c.cls, a, c.line, mv))]
            if "reverse_sorted" in short(c.cls): return [(st, ("call", short(c.cls), None, a))]
            if len(a) == 1 and not c.node.get("cp") and a[0] and a[0][0] in ("cut", "adv", "beg", "end", "f", "task", "half", "val"): return [(st, a[0])]
            return None
        if nm == "find_cutoff" and len(a) == 3: return [(st, ("cut", a[0], a[1], a[2]))]
        if nm == "find_cutoff_and_prev" and len(a) == 3: return [(st, ("cutp", a[0], a[1], a[2]))]
        if nm == "distance" and len(a) == 2: return [(st, ("dist", a[0], a[1]))]
        if nm in ("advance", "advance_iterators", "safe_advance") and c.locs and c.locs[0] is not None:
            self.note(self.advs, (nm, a[0], a[1], a[2] if len(a) > 2 else None, c.line, st))
            return [(eng.storeloc(st, c.locs[0], mk_adv(a[0], a[1]), c.line), ("c", None))]
        if nm in ("next", "operator+"):
            x = (o,) + a if o is not None else a
            if len(x) == 2: return [(st, mk_adv(x[0], x[1]))]
        if nm == "operator-":
            x = (o,) + a if o is not None else a
            if len(x) == 2: return [(st, ("dist", x[1], x[0]))]
        if nm in ("begin", "cbegin", "end", "cend"):
            x = a[0] if a else o
            return [(st, ("beg" if "begin" in nm else "end", x))]
        if nm in ("operator<", "operator>", "operator<=", "operator>="):
            x = (o,) + a if o is not None else a
            if len(x) == 2: return [(st, ("bin", nm[8:], x[0], x[1]))]
        if nm == "get_name": return [(st, ("name",))]
        if nm == "get" and not a and o is not None and o[0] == "sub": return [(st, ("val", o[1]))]
        if nm == "get" and len(a) == 1 and c.node.get("ta") and a[0] == ("res",): return [(st, ("sub", c.node["ta"].rstrip("ULul")))]
        for x in raw:
            l = eng.as_lambda(x)
            if l is not None: self.handlers.append((l, st, c, self.inh))
        if nm in REG or nm == "top_level_callback_continuation_job":
            ts = [x for x in a if x and x[0] == "task"]
            self.note(self.regs, (c.line, nm, tuple(ts), c.node.get("ta"), st))
            return [(st, ("r", c.site, nm))]
        if nm in ("move", "forward", "ref", "cref"): return None
        if nm in ("set_value",) and o is not None: self.note(self.sets, (a, st, c.line, self.inh)); return None
        if nm == "operator()" and c.oval is not None and eng.as_lambda(c.oval) is not None: return None
        vals = [frozenset(t[1] for t in find_terms(x, lambda t: t and t[0] in ("val", "sub"))) for x in ((o,) if o is not None else ()) + a]
        flat = frozenset().union(*vals) if vals else frozenset()
        if len(flat) > 1 or flat and nm == "operator()" and sum(1 for v in vals if v) > 1: self.note(self.comb, (c.line, nm, tuple(vals), o, a, c.frame.fn.uid))
        if c.callee is not None and c.callee.b and c.callee.uid not in c.frame.stack and self.inline(eng, c.callee, c): return None
        self.note(self.algos, (c.line, nm, o, a, c.node.get("ta"), st))
        if nm in ("operator*", "operator->"): return [(st, ("val",) + tuple(sorted(flat)))] if len(flat) == 1 else None
        if len(flat) == 1 and o is not None and o[0] == "val" and nm in ("first", "second"): return [(st, o)]
        if c.callee is None and nm not in ("operator[]", "at", "operator=", "operator++", "operator==", "operator!=", "operator bool"):
            return [(st, trim(("call", nm, o, a), 40))]
        return None

class Res: pass
def bare(e):
    while isinstance(e, dict) and e.get("k") in ("paren", "cast") and "e" in e: e = e["e"]
    return e
def plus_one(e):
    """++x, x++ -> x"""
    e = bare(e)
    if isinstance(e, dict) and e.get("k") == "un" and e.get("op", "").startswith("++"): return bare(e["e"])
    if isinstance(e, dict) and e.get("k") == "call" and e.get("nm") == "operator++": return bare(e.get("o") or (e.get("a") or [None])[0])
    return None
def count_loop(s):
    """for (i = 0; i < n; ++i) ++x;  ->  (n, x)"""
    i, c, inc, b = s[2], s[3], s[4], s[5]
    if not i or i[0] != "decl" or len(i[2]) != 1 or not c or not inc or not b: return None
    d = i[2][0]; z = bare(d.get("i") or d.get("init")) if isinstance(d, dict) else None
    if not isinstance(z, dict) or z.get("k") != "lit" or z.get("v") != 0: return None
    def isvar(e): e = bare(e); return isinstance(e, dict) and e.get("k") == "ref" and e.get("n") == d.get("n")
    c = bare(c)
    if isinstance(c, dict) and c.get("k") == "call" and c.get("nm") in ("operator<", "operator!=") and c.get("o") and c.get("a"): c = {"k": "bin", "op": c["nm"][8:], "x": c["o"], "y": c["a"][0]}
    if not isinstance(c, dict) or c.get("k") != "bin" or c.get("op") not in ("<", "!=") or not isvar(c["x"]) or not isvar(plus_one(inc)): return None
    while b[0] == "{" and len(b[2]) == 1: b = b[2][0]
    x = plus_one(b[2]) if b[0] == "e" else None
    return (c["y"], x) if x is not None and not isvar(x) else None

def analyse(ctx, P, f, tasks, binds=None):
    r = SplitRule(tasks); eng = SplitEngine(P, r, maxsteps=40000)
    outs = ctx.run_engine(eng, f)
    done = set(); n = 0; i = 0
    while i < len(r.handlers):
        l, st0, c, inh = r.handlers[i]; i += 1
        if l in done: continue
        done.add(l); n += 1
        if n > 60: raise Broken("too many handlers in " + what_of(f))
        r.inh = (c.nm, l)
        nps = len(eng.lams[l[1]][0]["ps"])
        eng.run_lambda(l, State(rs=(), mem=dict(st0.mem)), nargs_vals=[("res",)] * nps, tag="H%d" % n)
        r.inh = None
    return r, eng

def ctor_fields(P, cls, n):
    """parameter and field it initialises, in order, for the constructor with n parameters"""
    best = None
    for f in P.fns:
        if f.cls == cls and f.kind == "pattern" and f.nm == short(cls) and f.d.get("sp") == "ctor" and (len(f.ps) == n or len(f.ps) > n and all(p.get("d") for p in f.ps[n:])):
            x = fields_of(f, n)
            if best is None or len(pair_fields(x)) > len(pair_fields(best)): best = x
    return best

def load(ctx):
    P = extract(["all"])
    ts = [f for f in A.tasks(P) if short(f.cls) not in SHARED]
    return P, ts, {f.cls for f in ts}

def term_has(v, p): return bool(find_terms(v, p))
def is_cut(v): return bool(v) and v[0] in ("cut", "half")
def positions(f): return [p for p in f]

class Split:
    """one registration of two sub-tasks of the same kind"""
    def __init__(self, f, line, t0, t1, fields, st):
        self.f = f; self.line = line; self.fields = fields; self.st = st; self.cls = t0[1]
        self.c0, self.c1 = t0[2], t1[2]; self.mv = set(t0[4]) | set(t1[4]); self.mv1 = set(t1[4])
        self.n = len(fields); self.role = {}; self.errs = []; self.order = []
    def name(self, i): return (self.fields[i][1] or self.fields[i][0] or "?")
    def chains(self):
        """consecutive parameters (b, e): left part ends where the right part begins"""
        r = []
        for i in range(self.n - 1):
            if self.c0[i + 1] == self.c1[i] and self.c0[i] != self.c1[i] and self.c0[i + 1] != self.c1[i + 1]: r.append(i)
            elif self.c0[i + 1] == self.c1[i] and self.c0[i] != self.c1[i] and self.c1[i] == self.c1[i + 1] and begin_name(self.name(i)): r.append(i)      # empty right part
        return r

def begin_name(n): n = n.strip("_").lower(); return n.startswith(("beg", "first", "merge_beg"))
def end_name(n): n = n.strip("_").lower(); return n.startswith(("end", "last", "merge_end"))
def pair_fields(fs):
    """begin/end pairs among the parameters of a task"""
    return [i for i in range(len(fs) - 1) if begin_name(fs[i][1] or fs[i][0]) and end_name(fs[i + 1][1] or fs[i + 1][0])]

def whole(a, b, pfields):
    """(a, b) is the whole range of the parent task"""
    if a[0] == "beg" and b[0] == "end": return a[1] == b[1]
    if a[0] == "f" and b[0] == "f":
        return any((fs[i][1], fs[i + 1][1]) == (a[1], b[1]) for fs in pfields for i in pair_fields(fs))
    return False

def eqt(x, y):
    """equal up to abbreviated terms"""
    if x == ("..",) or y == ("..",): return True
    if isinstance(x, tuple) and isinstance(y, tuple): return len(x) == len(y) and all(eqt(p, q) for p, q in zip(x, y))
    return x == y

def fact(st, a, b):
    """is it known on this path whether a == b?"""
    for k, v in st.facts.items():
        if k[0] == "bin" and k[1] == "==":
            x, y = norm(k[2]), norm(k[3])
            if eqt(x, a) and eqt(y, b) or eqt(x, b) and eqt(y, a): return v
    return None

def strip_site(v):
    """the same computation at different places"""
    if not isinstance(v, tuple): return v
    if v and v[0] == "obj": return ("obj",)
    if v and v[0] == "lam": return ("lam",)
    return tuple(strip_site(x) for x in v)

def check_split(sp, pfields, rule_algos):
    """C25: adjacent parts, nothing lost, everything else moves along"""
    E = sp.errs; n = sp.n; c0, c1 = sp.c0, sp.c1
    chs = sp.chains()
    prim = None; pad = None
    mids = [i for i in pair_fields(sp.fields) if c1[i][0] == "adv" and c1[i][2] == ("c", 1) and c1[i][1] == c0[i + 1]]
    if mids: return merge_like(sp, pfields)
    for i in chs:
        if whole(c0[i], c1[i + 1], pfields): prim = i; break
    if prim is None:
        # the left part may go on for the length of a pattern
        for i in pair_fields(sp.fields):
            if whole(c0[i], c1[i + 1], pfields) and c0[i + 1][0] == "adv" and c0[i + 1][1] == c1[i]: prim = i; pad = c0[i + 1][2]; break
    if prim is None: E.append("the parts are not adjacent or do not cover the task's range"); return False
    a, m, b = c0[prim], c1[prim], c1[prim + 1]
    sp.abm = (a, m, b)
    sp.role[prim] = sp.role[prim + 1] = "range"
    cond = fact(sp.st, c0[prim + 1], b)
    if pad is not None and not (pad[0] == "dist" and pad[1] == ("c", 1) and term_has(pad[2], lambda t: isinstance(t, tuple) and any(isinstance(z, str) and "needle_size" in z for z in t))):
        E.append("the left part does not go on for the length of the pattern minus one")
    if m[0] == "cut":
        if not (m[1] == a and m[3] == b): E.append("the cut is not taken from the task's range")
        elif not (m[2][0] == "f" and "cutoff" in m[2][1]): E.append("the cut is not taken at the task's cutoff")
        elif cond is not False and not one_more_level(sp): E.append("splits although the rest may be no longer than the cutoff")
    elif m[0] == "half":
        if m[1:] != (a, b): E.append("the cut is not taken from the task's range")
    elif m == b: pass
    elif m[0] == "call" and m[1] in ("upper_bound", "lower_bound", "partition_point"):
        if not (len(m[3]) >= 2 and m[3][1] == b and (m[3][0] == a or is_cut(m[3][0]) and m[3][0][1] == a)): E.append("the cut is not taken from the task's range")
    elif m[0] == "val":
        if not any(nm.startswith("parallel_") and len(x) >= 2 and (x[0], x[1]) == (a, b) for l, nm, o, x, ta, st in rule_algos): E.append("the cut is not taken from the task's range")
    else: E.append("the cut is not taken from the task's range")
    d = ("dist", a, m)
    for i in chs:
        if i == prim: continue
        a2, m2, b2 = c0[i], c0[i + 1], c1[i + 1]
        ok = strip_site(m2) == strip_site(mk_adv(a2, d))
        okb = whole(a2, b2, pfields) or strip_site(b2) == strip_site(mk_adv(a2, ("dist", a, b)))
        if not ok: E.append("'%s' and '%s' are cut at another place than the range" % (sp.name(i), sp.name(i + 1)))
        if not okb: E.append("'%s'..'%s' of the parts do not cover the whole range" % (sp.name(i), sp.name(i + 1)))
        sp.role[i] = sp.role[i + 1] = "range"
    return rest(sp, pfields, a, m, b, d)

def own(v, pfields):
    return v[0] == "f" and any(v[1] == f[1] for fs in pfields for f in fs)
def word(n):
    for w in ("true", "false"):
        if w in n: return w
    return None

def one_more_level(sp):
    """odd recursion depths split once more, so that the result ends up in the original memory"""
    return any(b is (k[1] == "%") and k[0] == "bin" and find_terms(k, lambda t: t and t[0] == "bin" and t[1] == "%") for k, b in sp.st.facts.items()) and \
        any("depth" in sp.name(i) and sp.c0[i] == sp.c1[i] == ("adv", ("f", sp.name(i)), ("c", 1)) for i in range(sp.n))

def rest(sp, pfields, a, m, b, d):
    E = sp.errs; c0, c1 = sp.c0, sp.c1
    pn = {f[1] for fs in pfields for f in fs}
    for i in range(sp.n):
        if i in sp.role: continue
        x, y = c0[i], c1[i]; nm = sp.name(i)
        if x == y or strip_site(x) == strip_site(y):
            sp.role[i] = "same"
            if find_terms(x, lambda t: t and t[0] == "I" and len(t) == 3 and t[2] in (("c", 0), ("c", 1)) and "data" in repr(t[1])): E.append("both parts get the same part's data as '%s'" % nm)
            continue
        base = x[0] == "f" or x[0] == "beg"
        if y == mk_adv(x, d):
            sp.role[i] = "moves"
            if base and x[0] == "f" and nm in pn and x[1] != nm: E.append("'%s' of the left part is not the task's own" % nm)
            continue
        # the results of an earlier pass over the same parts: [0] belongs to the left part, [1] to the right one
        i0 = [t[2] for t in find_terms(x, lambda t: t and t[0] == "I" and len(t) == 3)]; i1 = [t[2] for t in find_terms(y, lambda t: t and t[0] == "I" and len(t) == 3)]
        if i0 == [("c", 0)] and i1 == [("c", 1)] and [t for t in (x, y)] and swap_index(x) == y: sp.role[i] = "part"; continue
        if y[0] == "adv" and y[1] == x and x == ("f", nm) and not i0 and i1 == [("c", 0)]:
            sp.role[i] = "offset"
            flds = [t[2] for t in find_terms(y[2], lambda t: t and t[0] == "F" and isinstance(t[2], str))]
            w = word(nm)
            if w and not any(word(z) == w for z in flds[:1]): E.append("'%s' of the right part moves by the wrong number of elements" % nm)
            continue
        if x == ("f", nm) and y[0] == "call" and y[1] == "operator()" and len(y[3]) == 2 and y[3][0] == x and not i0 and i1 == [("c", 0)]: sp.role[i] = "offset"; continue
        # how much has been processed so far
        if x[0] == "adv" and y[0] == "adv" and x[1] == y[1] == ("f", nm) and x[2] == ("dist", a, m) and y[2] == ("dist", m, b): sp.role[i] = "progress"; continue
        E.append("'%s' differs between the parts, but not by the distance to the cut (%s / %s)" % (nm, sh(x), sh(y)))
    return True

def swap_index(x):
    if not isinstance(x, tuple): return x
    if x and x[0] == "I" and len(x) == 3 and x[2] == ("c", 0): return ("I", x[1], ("c", 1))
    return tuple(swap_index(t) for t in x)

def merge_like(sp, pfields):
    """two sorted ranges are merged: one is cut in the middle and its middle element placed, the other one
    is cut where the middle element belongs"""
    E = sp.errs; c0, c1 = sp.c0, sp.c1
    ps = pair_fields(sp.fields)
    if len(ps) != 2: E.append("the parts are not adjacent or do not cover the task's range"); return False
    i, j = ps
    def part(i): return c0[i], c0[i + 1], c1[i], c1[i + 1]
    ok = False
    for p, q in ((i, j), (j, i)):
        a, m, m1, b = part(p); a2, k, k1, b2 = part(q)
        if m[0] == "half" and m[1:] == (a, b) and m1 == mk_adv(m, ("c", 1)) and k == k1 and k[0] == "call" and k[1] in ("lower_bound", "upper_bound") and whole(a, b, pfields) and whole(a2, b2, pfields):
            ok = True
            if len(k[3]) < 3 or k[3][0] != a2 or k[3][1] != b2 or not term_has(k[3][2], lambda t: t == m): E.append("the second cut is not where the middle element belongs")
            first = p == i
            # equal elements of the first range stay in front of those of the second
            if k[1] != ("lower_bound" if first else "upper_bound"): sp.order.append("equal elements of the two ranges change their order")
            if a != ("f", sp.name(p)) or a2 != ("f", sp.name(q)): sp.order.append("the two ranges change places")
            out = [x for x in range(sp.n) if x not in (i, i + 1, j, j + 1) and c0[x] != c1[x]]
            for x in (i, i + 1, j, j + 1): sp.role[x] = "range"
            sp.mid = (m, out)
            for x in out:
                want = {repr(t) for t in (("dist", a, m), ("dist", a2, k), ("c", 1))}
                y = c1[x]; got = []
                while y[0] == "adv" and y != c0[x]: got.append(repr(y[2])); y = y[1]
                sp.role[x] = "moves"
                if y != c0[x] or sorted(got) != sorted(want): E.append("'%s' of the right part does not follow the elements before it" % sp.name(x))
                sp.outmid = (c0[x], {repr(t) for t in (("dist", a, m), ("dist", a2, k))}, m)
            for x in range(sp.n): sp.role.setdefault(x, "same")
            break
    if not ok: E.append("the parts are not adjacent or do not cover the task's range")
    return ok

PROGRESS = {"parallel_nth_element_helper", "parallel_partial_sort_helper"}

def splits(ctx, P, ts, classes):
    """all tasks with their model"""
    out = []
    cf = {}
    for f in ts:
        r, eng = analyse(ctx, P, f, classes)
        fs = [ctor_fields(P, f.cls, n) for n in ()]
        sps = []; singles = []
        for line, nm, tt, ta, st in r.regs:
            if nm in REG and len(tt) == 2 and tt[0][1] == tt[1][1]:
                k = (tt[0][1], len(tt[0][2]))
                if k not in cf: cf[k] = ctor_fields(P, *k)
                if cf[k] is None: raise Broken("no constructor of %s found" % tt[0][1])
                sps.append(Split(f, line, tt[0], tt[1], cf[k], st))
            else:
                for t in tt:
                    k = (t[1], len(t[2]))
                    if k not in cf: cf[k] = ctor_fields(P, *k)
                    singles.append((line, nm, t, cf[k], st))
        out.append((f, r, eng, sps, singles))
    return out

def fields_of(c, n):
    m = {}
    for i in c.inits:
        refs = [e for e in exprs_in(i["i"]) if e.get("k") == "ref" and e.get("dk") == "parm"]
        if len(refs) == 1: m[refs[0]["n"]] = i.get("m") or "<base>"
    return [(p["n"], m.get(p["n"])) for p in c.ps[:n]]
def parent_fields(P, f):
    """parameters and fields of every constructor (of every specialisation)"""
    return [fields_of(c, len(c.ps)) for c in P.fns if c.cls == f.cls and c.kind == "pattern" and c.nm == short(f.cls) and c.d.get("sp") == "ctor"]


# ------------------------------------------------------------------ C25
RULE25 = ("For every task of the parallel algorithms which registers two sub-tasks of one kind, the values given to the constructors of the sub-tasks are computed on every path (iterators as begin/end of the task, cut positions, distances): "
          "left part = [begin, cut), right part = [cut, end) of the task's own range with one cut, taken by find_cutoff from that range with the task's cutoff and only where it is not the end (or its middle, or a position a search or partition of the same range returned; a merge places the middle element itself, a pattern search lets the left part go on for the pattern's length minus one); "
          "every other argument is the same for both parts or moves along by exactly the distance from begin to cut (second inputs, outputs, offsets); sequential leaves work on the whole range; elements are only looked at where the range is not empty; find_cutoff itself returns the end when the range is not longer than the cutoff and a position inside the range otherwise; "
          "selection algorithms go on in the part which contains the wanted position.")
LEAF_SKIP = {"make_pair", "iter_swap", "new", "distance", "median_of_medians", "back_inserter", "operator[]", "push_back"}
def leaf(sp, r, pfields):
    """the sequential algorithm of the last level works on the whole range"""
    a, m, b = sp.abm; good = 0; errs = []
    ends = (b, m) + ((sp.c0[1],) if sp.c0[1] != m else ())
    for line, nm, o, x, ta, st in r.algos:
        if nm in LEAF_SKIP or nm.startswith("operator") and nm != "operator()": continue
        if not (fact(st, m, b) is True or fact(st, sp.c0[1], b) is True): continue
        for i in range(len(x)):
            if x[i] == a and i + 1 < len(x) and not (len(x) == 1 and o is not None):
                if eqt(x[i + 1], b) or eqt(x[i + 1], m) or any(eqt(x[i + 1], z) for z in ends): good += 1
                elif x[i + 1][0] in ("f", "beg", "end", "cut", "adv", "half") or x[i + 1][0] == "call" and x[i + 1][1] in ("prev", "next") and x[i + 1][3] and x[i + 1][3][0] in (a, b, m): errs.append("the sequential part does not work on the whole range (%s)" % nm)
            if i and x[i] in (b, m) and x[i - 1] != a and x[i - 1][0] in ("f", "beg", "end", "cut", "adv", "half"): errs.append("the sequential part does not work on the whole range (%s)" % nm)
    return good, sorted(set(errs))

def empty_deref(sp, r):
    """uses *begin in the sequential part although the range may be empty"""
    a, m, b = sp.abm; out = set(); n = 0
    for line, nm, o, x, ta, st in r.algos:
        if not (fact(st, m, b) is True or fact(st, sp.c0[1], b) is True): continue
        for y in x:
            y = norm(y)
            if y[0] == "V": y = y[1]
            if y == ("D", a):
                n += 1
                if fact(st, a, b) is not False: out.add((line, nm))
    return n, sorted(out)

def bound(fs, f):
    """facts about a distance compared with the cutoff"""
    return fs

def lt(st, x, y):
    """is x < y known?"""
    for k, v in st.facts.items():
        if k[0] == "bin" and k[1] == "<":
            p, q = norm(k[2]), norm(k[3])
            if eqt(p, x) and eqt(q, y): return v
            if eqt(p, y) and eqt(q, x) and v is True: return False
        if k[0] == "bin" and k[1] == "<=":
            p, q = norm(k[2]), norm(k[3])
            if eqt(p, y) and eqt(q, x): return not v
    return None

class CutRule(SplitRule):
    top = True
    def call(self, eng, st, c):
        a = tuple(norm(x) for x in c.args)
        if c.nm in CUTFNS: return [(st, ("call", c.nm, None, a))]
        if c.nm in ("make_pair", "pair"): return [(st, ("pair",) + a)]
        return SplitRule.call(self, eng, st, c)
CUTFNS = ("find_cutoff_helper", "find_cutoff_and_prev_helper", "safe_advance_helper", "find_cutoff", "find_cutoff_and_prev")
class CutEngine(SplitEngine):
    def truth(self, s, v): return Engine.truth(self, s, v)

def longer(st, it, k, end):
    """is the range known to be longer than k (True), not longer (False)?"""
    d = ("dist", it, end)
    for x, y in ((k, d), (mk_adv(it, k), end)):
        r = lt(st, x, y)
        if r is not None: return r
    return None

def cut_functions(ctx, P):
    """find_cutoff and friends return a position inside a range longer than the cutoff, the end otherwise"""
    seen = set()
    for f in P.fns:
        if not f.file.endswith("detail/safe_advance.hpp") or f.kind != "pattern" or not f.b: continue
        if f.nm not in CUTFNS and f.nm != "safe_advance": continue
        tag = short(f.ps[-1].get("t", "")) if f.nm.endswith("helper") else "integral" if "integral" in str(f.ps[-1].get("t")) else ""
        what = "%s(%s)" % (f.nm, tag)
        r = CutRule(set()); eng = CutEngine(P, r, maxsteps=20000)
        outs = ctx.run_engine(eng, f)
        it, k, end = (("p", p["n"]) for p in f.ps[:3])
        errs = []
        def e(m):
            if m not in errs: errs.append(m)
        for kind, st, v in outs:
            if kind == "t": continue
            v = norm(v[0]) if v else None
            if f.nm == "find_cutoff" or f.nm == "find_cutoff_helper" and "random" in tag:
                if v and v[0] == "call" and v[1] == "find_cutoff_helper":
                    if v[3][:3] != (it, k, end): e("does not pass its arguments on")
                    continue
                kk = k
                l = longer(st, it, kk, end)
                if l is None:      # the cutoff may have been raised before
                    for c in (("c", 2), ("c", 1)):
                        l = longer(st, it, c, end)
                        if l is not None: break
                if v == end:
                    if l is not False: e("returns the end of a range longer than the cutoff")
                elif v == ("half", it, end):
                    if l is not True: e("cuts a range which is not longer than the cutoff")
                else: e("returns %s, which may not be a position inside the range" % sh(v))
            elif f.nm == "find_cutoff_helper":
                if v != ("adv", it, k) or not any(x[:4] == ("safe_advance", it, k, end) for x in r.advs): e("does not advance by the cutoff up to the end of the range")
            elif f.nm == "find_cutoff_and_prev_helper":
                if not v or v[0] != "pair" or len(v) != 3: e("does not return two positions"); continue
                if "random" in tag:
                    l = longer(st, it, k, end)
                    if v[1] == v[2] == end:
                        if l is not False: e("returns the end of a range longer than the cutoff")
                    elif v[2] == ("half", it, end):
                        if l is not True: e("cuts a range which is not longer than the cutoff")
                        if prev_of(v[1]) != v[2]: e("the first position is not the one before the cut")
                    else: e("returns %s, which may not be a position inside the range" % sh(v[2]))
                else:
                    for x in r.advs:
                        if x[0] != "safe_advance" or x[3] != end: e("may advance beyond the end of the range")
                    m1 = mk_adv(it, dec(k))
                    if v[1] != m1 or v[2] != mk_adv(m1, ("c", 1)): e("does not advance by the cutoff")
            elif f.nm == "find_cutoff_and_prev":
                if not (v and v[0] == "call" and v[1] == "find_cutoff_and_prev_helper" and v[3][:3] == (it, k, end)): e("does not pass its arguments on")
        if f.nm == "safe_advance_helper":
            for nm, x, d, lim, line, st in r.advs:
                if "random" in tag:
                    if d != k or longer(st, it, k, end) is not True and lt(st, end, mk_adv(it, k)) is not False and lt(st, ("dist", it, end), k) is not False: e("may advance beyond the end of the range")
                elif d != ("c", 1) or fact(st, x, end) is not False: e("may advance beyond the end of the range")
            if "random" not in tag:
                for c in loop_conds(f):
                    m = counted(c, f.ps[1]["n"])
                    if m: e(m)
        ctx.count("cut_functions"); seen.add(f.nm)
        for m in errs: ctx.bad("C25", "%s:%s" % (f.file, f.line), "%s %s" % (what, m), key="C25@%s:%s" % (what, m.split(", which")[0]))
        if not errs: ctx.ok("C25", "%s:%s" % (f.file, f.line), what + ": position inside the range or its end")
    for n in ("find_cutoff", "safe_advance"):
        if n not in seen: raise Broken("no %s found" % n)

def dec(k): return norm(("bin", "-", k, ("c", 1)))
def prev_of(v):
    """x such that v is the position before x"""
    if v[0] == "adv" and v[2][0] == "bin" and v[2][1] == "/" :
        # it - 1 + (end - it) / 2
        b = v[1]
        if b[0] == "dist" and b[1] == ("c", 1): return mk_adv(b[2], v[2])
    if v[0] == "dist" and v[1] == ("c", 1): return v[2]
    if v[0] == "adv" and v[2] in (("c", -1), ("un", "-", ("c", 1))): return v[1]
    return None

def loop_conds(f):
    out = []
    def go(b):
        if isinstance(b, list):
            if b and b[0] in ("while", "for", "do"):
                out.append(b)
            for x in b: go(x)
        elif isinstance(b, dict):
            for x in b.values(): go(x)
    go(f.b)
    return out

def counted(loop, n):
    """a loop which is to run n times: 'counting down' conditions hold exactly n times"""
    def un(e):
        while isinstance(e, dict) and e.get("k") in ("paren", "cast") and "e" in e: e = e["e"]
        return e
    def is_n(e): e = un(e); return isinstance(e, dict) and e.get("k") == "ref" and e.get("n") == n
    for e in exprs_in(loop[2:]):
        if e.get("k") == "bin" and e.get("op") in ("<", "<=", ">", ">=", "!="): op, l, r = e["op"], un(e["x"]), un(e["y"])
        elif e.get("k") == "call" and e.get("nm", "").startswith("operator") and e["nm"][8:] in ("<", "<=", ">", ">=", "!=") and e.get("o") and e.get("a"): op, l, r = e["nm"][8:], un(e["o"]), un(e["a"][0])
        else: continue
        if r.get("k") == "un" and r.get("op", "").startswith("--"): op, l, r = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op), r, l
        if not (l.get("k") == "un" and l.get("op", "").startswith("--") and is_n(l["e"]) and r.get("k") == "lit"): continue
        runs = {(False, ">=", 0), (False, ">", -1), (True, ">", 0), (True, ">=", 1), (True, "!=", 0), (False, "!=", -1)}
        if (bool(l.get("post")) or l["op"] != "--", op, r.get("v")) not in runs: return "does not advance by exactly the given number of steps"
    return None

def c25(ctx):
    P, ts, classes = load(ctx); ctx.tus = ["all"]
    for f, r, eng, sps, singles in splits(ctx, P, ts, classes):
        pf = parent_fields(P, f); what = what_of(f)
        def bad(line, e): ctx.bad("C25", "%s:%s" % (f.file, line), "%s: %s" % (what, e), key="C25@%s:%s" % (what, e.split(" (")[0]))
        leaves = {}
        for sp in sps:
            check_split(sp, pf, r.algos)
            ctx.count("splits")
            for e in sp.errs: bad(sp.line, e)
            if not sp.errs:
                t = tuple(sh(x)[:60] for x in getattr(sp, "abm", (("c", "?"),) * 3))
                ctx.ok("C25", "%s:%s" % (f.file, sp.line), "%s: [%s, %s) and [%s, %s)" % (what, t[0], t[1], t[1], t[2]))
            if hasattr(sp, "abm") and not sp.errs:
                g, errs = leaf(sp, r, pf)
                for e in errs: bad(sp.line, e)
                n, errs = empty_deref(sp, r)
                if n: ctx.count("first_elements", n)
                for line, nm in errs: bad(line, "uses the first element of a range which may be empty")
                leaves[sp.abm] = leaves.get(sp.abm, 0) + g
        for k, g in leaves.items():
            if g: ctx.count("sequential_parts"); ctx.ok("C25", f.file, what + ": the sequential part covers the range")
        if sps: ctx.count("splitting_tasks")
        progress(ctx, f, what, r, singles, bad)
    cut_functions(ctx, P)
    ctx.minimum("splitting_tasks", 55); ctx.minimum("splits", 60); ctx.minimum("sequential_parts", 35); ctx.minimum("cut_functions", 6); ctx.minimum("selections", 4)
    return RULE25

def progress(ctx, f, what, r, singles, bad):
    """nth_element, partial_sort: which part contains the wanted position"""
    if short(f.cls) not in PROGRESS: return
    for line, nm, t, fs, st in singles:
        a, b = t[2][0], t[2][1]
        nth = t[2][2]
        ctx.count("selections")
        if b[0] == "val":      # first part
            if lt(st, ("dist", a, nth), ("dist", a, b)) is not True and not ("partial" in f.cls and lt(st, ("dist", a, b), ("dist", a, nth)) is False):
                bad(line, "goes on in the first part although the position may be in the second one")
        elif a[0] == "val":
            if lt(st, ("dist", ("f", fs_name(fs, 0)), nth), ("dist", ("f", fs_name(fs, 0)), a)) is not False: bad(line, "goes on in the second part although the position may be in the first one")
        elif not whole(a, b, [fs]): bad(line, "goes on in another range")
    if "partial" in f.cls:
        for line, nm, o, x, ta, st in r.algos:
            if nm == "parallel_sort" and x[1][0] == "val" and lt(st, ("dist", x[0], ("f", "middle_")), ("dist", x[0], x[1])) is not True: bad(line, "sorts the first part although the middle may be in the second one")
            if nm == "median_of_medians" and fact(st, ("f", "middle_"), x[0]) is not False: bad(line, "never ends for an empty part")
def fs_name(fs, i): return fs[i][1] or fs[i][0]

def dump(ctx):
    P, ts, classes = load(ctx)
    for f in ts:
        import time; t0 = time.time()
        try: r, eng = analyse(ctx, P, f, classes)
        except (Broken, Budget) as ex: print('BUDGET', what_of(f), time.time()-t0); continue
        if time.time()-t0 > 1: print('SLOW', what_of(f), time.time()-t0)
        for line, nm, tt, ta, st in r.regs:
            print(what_of(f), line, nm, ta)
            for t in tt: print("      ", sh(t), t[4])
        for line, nm, vals, o, a, u in r.comb: print("   COMB", what_of(f), line, nm, [set(x) for x in vals])
        for a, st, line, inh in r.sets:
            if inh: print("   SET", what_of(f), line, inh[0], [sh(x) for x in a], [(sh(k[2]) + "==" + sh(k[3]) if k[0] == "bin" else str(k)[:60], b) for k, b in st.facts.items() if find_terms(k, lambda t: t and t[0] in ("val",))])
    return ""

# ------------------------------------------------------------------ C26
RULE26 = ("For every task of the parallel algorithms and every sub-task it constructs: constructor arguments initialising function, operation, comparison, cutoff, thread number and name fields have to be the task's own field of that name (the name: get_name(), task_name_ or these plus a suffix); none of them is moved into one of several sub-tasks or has been moved from before. "
          "Calls of other parallel algorithms from a task pass the task's functions in their order, its cutoff and its name. "
          "Entry points (parallel_* functions) hand their own function, cutoff and name parameters to the constructor parameters of that name.")
FUNCS = ("func", "op_", "op", "red", "combine", "scan", "compar", "functor", "matcher", "value", "old_value", "new_value", "count_", "thread_num", "stop_event", "original_size")
def is_func(n):
    n = n.strip("_").lower()
    return n.startswith(("func", "op", "red", "combine", "scan", "compar", "functor", "matcher", "pred")) 
def is_conf(n):
    n = n.strip("_").lower()
    return n.startswith(("value", "old_value", "new_value", "count", "thread_num", "stop_event", "original_size"))
def is_cutoff(v):
    return v[0] in ("f", "p") and "cutoff" in v[1] or v[0] == "call" and v[1] == "get_cutoff"
def is_name(v):
    """the task's name, possibly with a suffix"""
    if v == ("name",) or v[0] in ("f", "p") and "name" in v[1] or v[0] == "L" and "name" in str(v[-1]): return True
    if v[0] == "V": return is_name(v[1])
    if v[0] == "adv": return is_name(v[1])
    if v[0] == "call" and v[1] in ("get_name", "get_task_name"): return True
    return False
def is_prio(v): return v[0] in ("f", "p") and "prio" in v[1] or v[0] == "call" and v[1] in ("get_prio",)
def is_namefield(n): return n == "<base>" or "task_name" in n

def c26(ctx):
    P, ts, classes = load(ctx); ctx.tus = ["all"]
    for f, r, eng, sps, singles in splits(ctx, P, ts, classes):
        what = what_of(f); pf = parent_fields(P, f); pn = {x[1] for fs in pf for x in fs}
        def bad(line, e): ctx.bad("C26", "%s:%s" % (f.file, line), "%s: %s" % (what, e), key="C26@%s:%s" % (what, e))
        def fields(line, cls, args, fs, where):
            n = 0
            for (p, fl), v in zip(fs, args):
                name = fl or p
                if is_namefield(name):
                    if not is_name(v): bad(line, "the sub-task's name is not the task's (%s)" % sh(v)[:40])
                    n += 1
                elif "cutoff" in name:
                    if not is_cutoff(v): bad(line, "the sub-task's cutoff is not the task's (%s)" % sh(v)[:40])
                    n += 1
                elif is_func(name) or is_conf(name):
                    n += 1
                    if v[0] == "f":
                        if v[1] != name and name in pn: bad(line, "'%s' of the sub-task is the task's '%s'" % (name, v[1]))
                    elif name in pn: bad(line, "'%s' of the sub-task is not the task's (%s)" % (name, sh(v)[:40]))
            return n
        for sp in sps:
            n = fields(sp.line, sp.cls, sp.c0, sp.fields, "left") + fields(sp.line, sp.cls, sp.c1, sp.fields, "right")
            for i in sorted(sp.mv): bad(sp.line, "'%s' is moved into one of two sub-tasks" % sp.name(i))
            ctx.count("inherited_fields", n)
            ctx.ok("C26", "%s:%s" % (f.file, sp.line), what + ": both sub-tasks inherit function, cutoff and name")
        for line, nm, t, fs, st in singles:
            ctx.count("inherited_fields", fields(line, t[1], t[2], fs, ""))
            ctx.ok("C26", "%s:%s" % (f.file, line), what + ": the sub-task inherits function, cutoff and name")
        for line, m in sorted(set(r.used)): bad(line, "'%s' is passed to a sub-task after it was moved" % m)
        subalg(ctx, f, what, P, r, bad)
    entries(ctx, P, classes)
    ctx.minimum("inherited_fields", 300); ctx.minimum("sub_algorithms", 50); ctx.minimum("entry_points", 90); ctx.minimum("entry_fields", 170)
    return RULE26

def fits(fn, x):
    """function arguments meet the parameter of their name, if there is one"""
    names = [p["n"].strip("_") for p in fn.ps]
    for p, v in zip(names, x):
        if v[0] == "f" and is_func(v[1]):
            n = v[1].strip("_")
            if n in names and p != n: return False
    return True

def subalg(ctx, f, what, P, r, bad):
    seen = set()
    for line, nm, o, x, ta, st in r.algos:
        if o is not None or not nm.startswith("parallel_") or (line, nm) in seen: continue
        if len(x) < 4: continue
        seen.add((line, nm))
        ov = [g for g in P.fns if not g.cls and g.kind == "pattern" and g.nm == nm and len(g.ps) >= len(x) and all(p.get("d") for p in g.ps[len(x):])]
        if ov and not any(fits(g, x) for g in ov): bad(line, "%s gets the task's functions in another order" % nm)
        if nm.startswith("parallel_partition") and not nm.startswith("parallel_partition_copy"): continue
        i = len(x) - 1
        if len(x) >= 3 and is_prio(x[-1]): i = len(x) - 2
        if not is_name(x[i]): bad(line, "%s does not get the task's name" % nm)
        elif not is_cutoff(x[i - 1]): bad(line, "%s does not get the task's cutoff" % nm)
        ctx.count("sub_algorithms"); ctx.ok("C26", "%s:%s" % (f.file, line), "%s: %s inherits functions, cutoff and name" % (what, nm))

class EntryRule(SplitRule):
    max_inline = 1
    def inline(self, eng, fn, c): return False
def entries(ctx, P, classes):
    seen = set()
    for f in P.fns:
        if f.cls or f.kind != "pattern" or not f.b or not f.nm.startswith("parallel_") or "algorithm/" not in f.file: continue
        if not any("cutoff" in p["n"] for p in f.ps): continue
        r = EntryRule(classes); eng = SplitEngine(P, r, maxsteps=20000)
        ctx.run_engine(eng, f)
        pn = {p["n"] for p in f.ps}
        what = "%s:%s" % (f.file.split("/")[-1], f.nm)
        def bad(line, e): ctx.bad("C26", "%s:%s" % (f.file, line), "%s: %s" % (what, e), key="C26@%s:%s" % (what, e))
        ctors = [(line, t) for line, nm, tt, ta, st in r.regs for t in tt]
        n = 0
        for line, t in ctors:
            fs = ctor_fields(P, t[1], len(t[2]))
            if fs is None: continue
            for (p, fl), v in zip(fs, t[2]):
                if "cutoff" in p: n += 1; (is_cutoff(v) or bad(line, "the task's cutoff is not the one given (%s)" % sh(v)[:30]))
                elif "task_name" in p: n += 1; (is_name(v) or bad(line, "the task's name is not the one given (%s)" % sh(v)[:30]))
                elif is_func(p) and v[0] == "p" and is_func(v[1]) and v[1] != p and p in pn: bad(line, "the task's '%s' is '%s'" % (p, v[1]))
            ps = pair_fields([(p, p) for p, fl in fs])
            for i in ps:
                a, b = t[2][i], t[2][i + 1]
                if a[0] == b[0] == "p" and (a == b or end_name(a[1]) or begin_name(b[1])): bad(line, "the task's range is [%s, %s)" % (a[1], b[1]))
                if a[0] == "beg" and b[0] == "end" and a[1] != b[1] or a[0] == "end": bad(line, "the task's range is not the given one")
        if ctors: ctx.count("entry_points"); ctx.count("entry_fields", n); ctx.ok("C26", "%s:%s" % (f.file, f.line), what + " passes function, cutoff and name on")

# ------------------------------------------------------------------ C27
RULE27 = ("For every task of the parallel algorithms which splits its range, the handler called when both sub-tasks are done is followed on every path: whenever results of both parts are given to one call, the left part's comes first; "
          "algorithms looking for the first (last) match deliver the right (left) part's result only where the left (right) part has none, look for matches across the cut in a region which reaches the pattern's length to both sides and is limited by the range; "
          "conjunctions deliver true only if both parts do, lexicographical comparison consults the right part only after the left parts were found equal; an output position is the right part's; results collected in a vector are stored left part first; "
          "neighbours on both sides of a cut are compared where the sequential algorithm compares neighbours; a merge keeps equal elements in the order of the two ranges and puts the middle element between the merged parts; reverse-sorted shortcuts of stable sorts demand a strict order; sorts merge the sorted left part with the sorted right part, into the memory which does not hold them.")
FIRST = {"parallel_find_first_of_helper": "", "parallel_mismatch_helper": "", "parallel_mismatch_helper2": "", "parallel_adjacent_find_helper": "", "parallel_search_helper": "search", "parallel_search_n_helper": "search_n"}
LAST = {"parallel_find_end_helper": "find_end"}
AND = {"parallel_equal_helper", "parallel_equal_helper2", "parallel_is_sorted_helper"}
LEXI = {"parallel_lexicographical_compare_helper", "parallel_lexicographical_compare_helper2"}
COMMUTATIVE = {"operator==", "operator!=", "swap"}
V0, V1 = ("val", "0"), ("val", "1")

def vfact(st, i, pos):
    """is it known whether the result of part i equals the position?"""
    for k, v in st.facts.items():
        if k[0] == "bin" and k[1] == "==":
            x, y = norm(k[2]), norm(k[3])
            for p, q in ((x, y), (y, x)):
                if p[0] == "val" and p[1] == str(i) and len(p) <= 3 and eqt(q, pos): return v
    return None
def bfact(st, i):
    for k, v in st.facts.items():
        if norm(k) == ("val", str(i)): return v
    return None

def neighbours(st, m):
    """is it known what the comparison of *a and *b (in this order or the other) says?"""
    for k, v in st.facts.items():
        x = norm(k)
        if x[0] == "call" and x[1] == "operator()" and len(x[3]) == 2:
            p, q = (deref_of(y) for y in x[3])
            if p == V0 and vfact(st, 0, m) is True: p = m
            if q == V0 and vfact(st, 0, m) is True: q = m
            if p is not None and q is not None and any(eqt(p, a) and eqt(q, m) or eqt(p, m) and eqt(q, a) for a in prevs(m)): return v
    return None
def prevs(m):
    return [("adv", m, ("c", -1)), ("dist", ("c", 1), m)] + ([("cutprev",) + m[1:]] if m[0] == "cut" else [])
def deref_of(v):
    if v[0] == "val": return v[:2]
    if v[0] == "V" and v[1][0] == "D": return norm(v[1][1])
    if v[0] == "call" and v[1] in ("operator*",) and v[2] is not None: return norm(v[2])
    return None

def c27(ctx):
    P, ts, classes = load(ctx); ctx.tus = ["all"]; found = set()
    for f, r, eng, sps, singles in splits(ctx, P, ts, classes):
        what = what_of(f); pf = parent_fields(P, f); name = short(f.cls)
        def bad(line, e): ctx.bad("C27", "%s:%s" % (f.file, line), "%s: %s" % (what, e), key="C27@%s:%s" % (what, e))
        for line, nm, vals, o, a, uid in r.comb:
            if nm in COMMUTATIVE: continue
            p0 = [i for i, v in enumerate(vals) if v == frozenset("0")]; p1 = [i for i, v in enumerate(vals) if v == frozenset("1")]
            if nm == "operator()" and len(p0) + len(p1) > 1 and not (p0 and p1): bad(line, "combines one part's result with itself")
            if p0 and p1:
                ctx.count("combinations")
                if min(p1) < min(p0): bad(line, "the right part's result comes first in the call of %s" % nm)
                else: ctx.ok("C27", "%s:%s" % (f.file, line), "%s: %s gets the left part's result first" % (what, nm))
        pushes(ctx, f, what, r, bad)
        for sp in sps:
            check_split(sp, pf, r.algos)
            if sp.cls == f.cls or name.endswith("move_helper"): deliver(ctx, f, what, name, sp, r, bad, found)
            for e in sp.order: bad(sp.line, e)
            if hasattr(sp, "mid"): merged(ctx, f, what, sp, r, bad); found.add("merge")
        shortcuts(ctx, f, what, r, bad, found); joined(ctx, f, what, sps, r, bad, found)
    strict(ctx, P)
    for n in list(FIRST) + list(LAST) + list(LEXI) + ["merge", "reverse", "join"]:
        if n not in found: raise Broken("%s not found" % n)
    ctx.minimum("combinations", 14); ctx.minimum("handlers", 50); ctx.minimum("deliveries", 40)
    return RULE27

def pushes(ctx, f, what, r, bad):
    first = {}
    for line, nm, o, a, ta, st in r.algos:
        if nm not in ("push_back", "emplace_back") or not a: continue
        vs = {t[1] for t in find_terms(a[0], lambda t: t and t[0] == "val")}
        if len(vs) != 1: continue
        k = repr(strip_site(o))[:80]
        first.setdefault(k, []).append((line, vs.pop()))
    for k, l in first.items():
        if {v for _, v in l} >= {"0", "1"}:
            ctx.count("collected")
            if l[0][1] != "0": bad(l[0][0], "the right part's result is stored first")
            else: ctx.ok("C27", "%s:%s" % (f.file, l[0][0]), what + ": results are stored left part first")

def deliver(ctx, f, what, name, sp, r, bad, found):
    if not hasattr(sp, "abm"): return
    a, m, b = sp.abm
    dl = [(x, st, line) for x, st, line, inh in r.sets if inh and inh[0].startswith("create_callback_continuation")]
    if not dl: return
    ctx.count("handlers"); n = 0
    for x, st, line in dl:
        v = x[0] if x else None
        if v is not None and v[0] == "val": v = v[:2]
        if name in FIRST or name in LAST:
            found.add(name); n += 1
            me, other, pos, opos = (V0, V1, m, b) if name in FIRST else (V1, V0, b, m)
            side = ("left", "right") if name in FIRST else ("right", "left")
            mine = vfact(st, me[1], pos)
            if v == me:
                if mine is not False: bad(line, "delivers the %s part's result although it may have found nothing" % side[0])
            elif mine is not True: bad(line, "delivers another result although the %s part may have found a match" % side[0])
            elif v == b and vfact(st, other[1], opos) is not True: bad(line, "delivers the end although the %s part may have found a match" % side[1])
            elif v is not None and v[0] == "call" and v[1] in ("search", "search_n", "find_end"): overlap(f, what, sp, r, v, bad, line, st)
            ov = FIRST.get(name) or LAST.get(name)
            if ov and v in (other, b) and mine is True and not any(nm == ov and vfact(s2, me[1], pos) is True for l2, nm, o, x2, ta, s2 in r.algos): bad(line, "does not look for a match across the cut")
            if name == "parallel_adjacent_find_helper":
                nb = neighbours(st, m)
                if v == other and nb is not False: bad(line, "delivers the right part's result although the neighbours at the cut may match")
                if v is not None and v[0] == "cutprev" and nb is not True: bad(line, "delivers the cut although the neighbours there may not match")
        elif name in AND:
            n += 1; w = bfact(st, 0), bfact(st, 1)
            if v == ("c", True) and w != (True, True): bad(line, "delivers true although a part may be false")
            if v == ("c", False) and False not in w: bad(line, "delivers false although both parts may be true")
            if v in (V0, V1) and bfact(st, 1 - int(v[1])) is not True: bad(line, "delivers one part's result although the other may be false")
        elif name in LEXI:
            found.add(name); n += 1; w = bfact(st, 0), bfact(st, 1)
            if w[0] is True and v != ("c", True): bad(line, "does not deliver true although the left part is less")
            elif w[0] is None: bad(line, "delivers a result without the left part's")
            elif w[0] is False and w[1] is True:
                # the left parts have to be equal: the reverse comparison of the left parts has been asked
                rev = [k for k in list(st.facts) if norm(k)[0] == "call" and norm(k)[1] == "lexicographical_compare"]
                ok = False
                for k in rev:
                    x = norm(k)[3]
                    if len(x) >= 4 and (x[0], x[1]) != (a, m) and (x[2], x[3]) == (a, m): ok = st.facts[k] is not True if v == ("c", True) else st.facts[k] is True
                if not ok: bad(line, "the right part decides although the left parts may differ")
            elif w[0] is False and w[1] is False and v != ("c", False): bad(line, "delivers true although no part is less")
        elif v in (V0, V1) and bfact(st, 0) is None and not any(find_terms(k, lambda t: t and t[0] == "val") for k in st.facts):
            n += 1
            if v == V1 and not [i for i, z in sp.role.items() if z in ("moves", "offset") or z == "same" and sp.name(i).startswith(("out", "result"))]:
                if not appended(r, "1", "0"): bad(line, "delivers the right part's result only")
            if v == V0 and not appended(r, "0", "1"): bad(line, "delivers the left part's result only")
    if name == "parallel_is_sorted_helper":
        if neighbours(sp.st, m) is not False: bad(sp.line, "does not compare the neighbours at the cut")
    ctx.count("deliveries", n)
    if n: ctx.ok("C27", "%s:%s" % (f.file, sp.line), what + ": delivers the sequential result")

def appended(r, x, y):
    return any(nm not in COMMUTATIVE and frozenset(x) in vals and frozenset(y) in vals for line, nm, vals, o, a, uid in r.comb)

def overlap(f, what, sp, r, v, bad, line, st):
    a, m, b = sp.abm; x = v[3]
    start, stop = x[0], x[1]
    lims = [q for q in r.advs if q[0] == "safe_advance" and q[1] == m and q[3] == b]
    if stop != b and not any(stop == mk_adv(m, q[2]) for q in lims): bad(line, "the region searched across the cut is not limited by the range"); return
    k = [q[2] for q in lims if stop == mk_adv(m, q[2])] or [None]
    k = k[0]
    room = None if k is None else lt(st, k, ("dist", a, m))
    if start != a and room is not True: bad(line, "the region searched across the cut may begin before the range")
    if start != a and not (k is not None and start == mk_adv(a, ("dist", k, ("dist", a, m)))): bad(line, "the region searched across the cut does not reach back by the pattern's length")
    if k is not None and not (k == ("f", "count_") or k == ("dist", ("f", "beg2_"), ("f", "end2_"))): bad(line, "the region searched across the cut is not as long as the pattern")
    seq = [y for l2, nm, o, y, ta, st in r.algos if nm == v[1] and y[:2] == (a, b)]
    if seq and not any(y[2:] == x[2:] for y in seq): bad(line, "looks for another pattern across the cut")

def merged(ctx, f, what, sp, r, bad):
    """the middle element lies between the two merged parts"""
    m = sp.mid[0]; ok = False
    base, want, _ = sp.outmid
    for loc, val, st in r.stores:
        y = loc[1]; got = set()
        while y[0] == "adv" and y != base: got.add(repr(y[2])); y = y[1]
        if y == base and got == want and find_terms(val, lambda t: t == m): ok = True
    ctx.count("merges")
    if not ok: bad(sp.line, "the middle element is not put between the merged parts")
    else: ctx.ok("C27", "%s:%s" % (f.file, sp.line), what + ": the middle element lies between the merged parts")

MERGES = ("merge", "inplace_merge", "parallel_merge")
def parts_of(v): return {t[1] for t in find_terms(v, lambda t: t and t[0] == "val")}
def bound_kind(v):
    """begin/end of a container holding a part's result"""
    return v[0] if v and v[0] in ("beg", "end") else v[1] if v and v[0] == "call" and v[1] in ("begin", "end") else None
def joined(ctx, f, what, sps, r, bad, found):
    """sorted parts are merged: the left part is the first range, the right part the second one, together they
    are the whole range; merging in alternating memory ends in the range itself at even depths"""
    if not f.file.startswith("algorithm/parallel_sort"): return
    seen = set(); alternating = False
    for line, nm, o, x, ta, st in r.algos:
        if nm not in MERGES or o is not None or len(x) < 4: continue
        if nm == "inplace_merge": A_, M, M2, B, out = x[0], x[1], x[1], x[2], None
        elif len(x) < 6: continue
        else: A_, M, M2, B, out = x[:5]
        if (line, nm) not in seen: seen.add((line, nm)); ctx.count("joins")
        ok = False; errs = []; even = parity(st)
        for sp in sps:
            for i in range(sp.n - 1):
                if eqt(sp.c0[i], A_) and sp.c1[i + 1] == B and eqt(strip_site(sp.c0[i + 1]), strip_site(M)) and eqt(strip_site(sp.c1[i]), strip_site(M2)):
                    ok = True
                    if out is None: continue
                    outs = [j for j in range(sp.n - 1) if j != i and sp.c0[j] == out and sp.c0[j] != sp.c1[j]]
                    if outs: alternating = True
                    errs.append("the merged parts are not put into the task's other range" if not outs else "the parts are merged into the memory which holds them" if even is not None and even != (outs[0] < i) else None)
        if errs and None not in errs: bad(line, errs[0])
        if not ok and (parts_of(A_), parts_of(M), parts_of(M2), parts_of(B)) == ({"0"}, {"0"}, {"1"}, {"1"}):
            ok = [bound_kind(y) for y in (A_, M, M2, B)] == ["beg", "end", "beg", "end"] or [bound_kind(y) for y in (A_, M, M2, B)] == ["begin", "end", "begin", "end"]
        found.add("join")
        if not ok: bad(line, "%s does not merge the left part with the right part" % nm)
        else: ctx.ok("C27", "%s:%s" % (f.file, line), "%s: %s merges the left part with the right part" % (what, nm))
    if alternating:
        for x, st, line, inh in r.sets:
            if inh is None and parity(st) is not True: bad(line, "sorts a part in the memory the other half is not merged from")
def parity(st):
    """is the recursion depth known to be even?"""
    for k, v in st.facts.items():
        k = norm(k)
        if k[0] == "bin" and k[1] == "%": return not v
        if k[0] == "bin" and k[1] == "==" and find_terms(k, lambda t: t and t[0] == "bin" and t[1] == "%") and k[3][0] == "c": return v is (k[3][1] == 0)
        if v is False and k[0] == "f" and "depth" in k[1]: return True
    return None

STRICT = "strictly_reverse_sorted"
def shortcuts(ctx, f, what, r, bad, found):
    """a range sorted in reverse is only reversed by a (stable) sort if it is strictly reverse sorted"""
    if not f.file.endswith("parallel_sort.hpp"): return
    asked = []
    for line, nm, o, x, ta, st in r.algos:
        if nm in ("is_sorted", "parallel_is_sorted") and len(x) >= 3 and x[2][0] == "call" and x[2][1] == STRICT: asked.append(nm)
    for line, nm, o, x, ta, st in r.algos:
        if nm == "reverse":
            found.add("reverse"); ctx.count("reversals")
            ok = any(norm(k)[1] == "is_sorted" and v is True and STRICT in repr(k) for k, v in st.facts.items() if norm(k)[0] == "call")
            if not ok: bad(line, "reverses a range although equal elements may change their order")
            else: ctx.ok("C27", "%s:%s" % (f.file, line), what + ": only strictly reverse sorted ranges are reversed")
        if nm == "parallel_reverse":
            ctx.count("reversals")
            if "parallel_is_sorted" not in asked: bad(line, "reverses a range although equal elements may change their order")
            else: ctx.ok("C27", "%s:%s" % (f.file, line), what + ": only strictly reverse sorted ranges are reversed")

def strict(ctx, P):
    """strictly_reverse_sorted: no neighbour is not less than its predecessor"""
    for f in P.fns:
        if f.nm == "operator()" and f.kind == "pattern" and short(f.cls or "") == STRICT and f.b:
            r = CutRule(set()); eng = CutEngine(P, r)
            bad = True; a, b = (p["n"] for p in f.ps[:2])
            for kind, st, v in ctx.run_engine(eng, f):
                if kind == "t": continue
                x = norm(v[0]) if v else None
                if x and x[0] == "bin" and x[1] == "==" and x[3] == ("c", False): x = x[2]; bad = False
                elif x and x[0] == "un" and x[1] == "!": x = x[2]; bad = False
                elif x and x[0] == "c":
                    fx = [(norm(k), w) for k, w in st.facts.items()]
                    if fx: bad = fx[0][1] is x[1]; x = fx[0][0]
                args = [y[1] if y[0] == "p" else strip_v(y) for y in x[3]] if x and x[0] == "call" else None
                if args != [a, b]: bad = True
            ctx.count("orders")
            if bad: ctx.bad("C27", "%s:%s" % (f.file, f.line), "strictly_reverse_sorted accepts equal neighbours", key="C27@strictly_reverse_sorted")
            else: ctx.ok("C27", "%s:%s" % (f.file, f.line), "strictly_reverse_sorted: !func(a, b)")
def strip_v(y):
    while isinstance(y, tuple) and y and y[0] in ("V", "D", "A"): y = y[1]
    return y[1] if isinstance(y, tuple) and y[0] == "p" else y
