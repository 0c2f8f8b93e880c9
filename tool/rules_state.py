"""State carried by library objects: outcomes (C28), copies and moves (C29)."""
from engine import *
from core import Broken
from sym import Rec, paths, calls, insts, strip, copy_of, THIS, F, V
NS = "boost::asynchronous::"
PTR = ("std::shared_ptr<", "std::unique_ptr<", "boost::shared_ptr<")

def rep(ctx, R_, f, msg, line=None):
    what = "%s::%s%s" % ((f.cls or "").split("::")[-1], f.nm, "" if not f.d.get("sp") else " (%s)" % SPN.get(f.d["sp"], f.d["sp"]))
    ctx.bad(R_, f.where(line), "%s: %s" % (what, msg), key="%s|%s:%s|%s" % (R_, f.file, what, msg))
SPN = {"cc": "copy", "mc": "move", "ca": "copy assignment", "ma": "move assignment", "dc": "default", "ctor": "from value"}

def rhs_locs(st, f):
    """locations denoting the source object"""
    p = f.ps[0]
    return ("L", "f0", p["id"], p["n"])

def self_assign(st, f):
    """the path on which source and target are the same object"""
    p = f.ps[0]["n"]
    for t, v in st.facts.items():
        if isinstance(t, tuple) and find_terms(t, lambda x: x == ("this",)) and find_terms(t, lambda x: len(x) > 3 and x[0] == "L" and x[3] == p or x == ("p", p)) and len(t) > 1:
            if t[1] in ("==", "operator==") and v is True or t[1] in ("!=", "operator!=") and v is False: return True
    return False

def is_null(t): return t in (("c", None), ("c", 0), ("c", "nullptr")) or isinstance(t, tuple) and t[:1] == ("obj",) and len(t) == 2
def copies(f, k): return f.d.get("sp") in ("cc", "ca") if k == "copy" else f.d.get("sp") in ("mc", "ma")

class XRec(Rec):
    max_inline = 6
    def call(self, eng, st, c):
        if c.nm == "rethrow_exception":
            eng.throw_(st.cp(rs=st.rs + (("rethrow", strip(c.args[0]) if c.args else None),)), ("std::exception", "any"), c.line); return []
        if c.nm == "reset" and c.o is not None and not c.args: return [(eng.storeloc(st, c.o, ("c", None), c.line), ("c", None))]
        return Rec.call(self, eng, st, c)

def final(eng_st, loc):
    """the value of a location at the end of a path"""
    v = eng_st.mem.get(loc)
    return strip(v) if v is not None else ("V", loc)

def c28(ctx):
    P = ctx.need(["expected"])
    recs = {}
    fns = [f for f in P.fns if f.b and f.file == "expected.hpp" and f.kind != "pattern" and (f.cls or "") == NS + "expected"]
    for f in fns: recs.setdefault(f.ct, []).append(f)
    if len(recs) < 3: raise Broken("specialisations of expected not found")
    for ct, fl in sorted(recs.items()):
        rl = [r for r in P.recs if r.get("ct") == ct and r["kind"] != "pattern"] if hasattr(P, "recs") else [r for l in P.rec_by_qn.values() for r in l if r.get("ct") == ct and r["kind"] != "pattern"]
        if not rl: raise Broken("fields of %s" % ct)
        fields = rl[0]["fields"]
        ex = [x["n"] for x in fields if "exception_ptr" in x["t"]]; va = [x for x in fields if "exception_ptr" not in x["t"]]
        if len(ex) != 1 or len(va) > 1: raise Broken("%s: one exception and at most one value expected" % ct)
        EX = ex[0]; VA = va[0]["n"] if va else None; ptr = bool(va) and va[0]["t"].startswith(PTR)
        void = VA is None
        E = V(F(EX)); W = V(F(VA)) if VA else None
        VAL = None if void else (V(("D", W)) if ptr else W)
        seen = set()
        for f in fl:
            res, r = paths(ctx, P, f, rule=XRec())
            ctx.count("members"); sp = f.d.get("sp"); nm = f.nm; okk = len(ctx.violations)
            def b(msg): rep(ctx, "C28", f, msg)
            for k, st, v in res:
                ctx.count("paths"); v = strip(v) if v is not None else None
                e1 = final(st, F(EX)); w1 = final(st, F(VA)) if VA else None
                if sp in ("cc", "mc", "ca", "ma"):
                    R = rhs_locs(st, f); Re = V(F(EX, R)); Rw = V(F(VA, R)) if VA else None
                    if k == "t": b("throws"); continue
                    if sp in ("ca", "ma"):
                        if v not in (V(THIS), ("this",), ("D", ("this",))): b("does not return the object assigned to")
                        if self_assign(st, f): continue
                    # an exception cannot hide in the source when it was tested
                    if e1 != Re and not (st.fact(Re) is False and is_null(e1)): b("does not carry over the exception")
                    if VA:
                        if not ptr or sp in ("mc", "ma"):
                            if w1 != Rw: b("does not carry over the value")
                        else:
                            Rv = V(("D", Rw)); nn = st.fact(Rw)
                            used = [t for t in list(st.mem.values()) if mentions(strip(t), Rv)]
                            if used and nn is not True: b("reads the value of the source without knowing that there is one: an outcome holding an exception has none")
                            if nn is False:
                                if not (is_null(w1) or w1 == Rw): b("the source has no value, but the copy keeps one")
                            elif w1 == Rw: b("shares the value with the source instead of copying it")
                            else:
                                fresh = w1[0] in ("call", "obj", "new") and mentions(w1, Rv)
                                inpl = st.mem.get(("D", V(F(VA)))) is not None and strip(st.mem[("D", V(F(VA)))]) == Rv and st.fact(V(F(VA))) is True
                                if not (fresh or inpl): b("does not carry over the value")
                elif sp in ("ctor",) and len(f.ps) == 1:
                    p = ("p", f.ps[0]["n"])
                    if k == "t": b("throws"); continue
                    if "exception_ptr" in f.ps[0]["t"]:
                        seen.add("from exception")
                        if e1 != p: b("does not keep the exception it is given")
                    else:
                        seen.add("from value")
                        if not mentions(w1, p): b("does not keep the value it is given")
                        if not is_null(e1): b("an outcome made from a value holds an exception")
                elif sp == "dc" or sp == "ctor" and not f.ps:
                    if not is_null(e1): b("a default outcome holds an exception")
                elif nm == "set_exception":
                    seen.add(nm)
                    if k == "t" or e1 != ("p", f.ps[0]["n"]): b("does not keep the exception it is given")
                elif nm == "set_value":
                    seen.add(nm)
                    if k == "t": b("throws")
                    if f.ps:
                        p = ("p", f.ps[0]["n"])
                        inpl = ptr and st.fact(W) is True and strip(st.mem.get(("D", W), ())) == p
                        if not inpl and not (mentions(w1, p) and w1 != p if ptr else w1 == p): b("does not keep the value it is given")
                    if not (e1 == E or is_null(e1)): b("setting a value changes the exception")
                elif nm == "get":
                    seen.add(nm + (" const" if f.d.get("const") else ""))
                    if k == "t":
                        if not any(x[0] == "rethrow" and x[1] == E for x in st.rs): b("throws something else than the exception held")
                        elif st.fact(E) is not True: b("rethrows without having found an exception")
                    else:
                        if st.fact(E) is not False: b("returns normally although an exception may be held")
                        if not void and v not in (VAL, ): b("returns something else than the value held")
                    if w1 is not None and w1 != W or e1 != E: b("changes the outcome")
                elif nm in ("has_exception", "has_value"):
                    seen.add(nm)
                    want = nm == "has_exception"
                    if k == "t": b("throws"); continue
                    fe = st.fact(E)
                    if v[0] == "c" and fe is not None: good = v[1] is (fe if want else not fe)
                    elif v == E: good = want
                    elif v == ("un", "!", ("un", "!", E)): good = want
                    elif v == ("un", "!", E): good = not want
                    elif v[0] in ("bin", "cmp", "op") and mentions(v, E):
                        good = ("!=" in v) == want if ("!=" in v or "==" in v) and (("c", None) in v or ("c", "nullptr") in v or ("c", 0) in v) else False
                    else: good = False
                    if not good: b("does not tell whether an exception is held")
                    if (e1 != E) or (w1 is not None and w1 != W): b("changes the outcome")
                elif nm == "get_exception_ptr":
                    seen.add(nm)
                    if k == "t" or v != E: b("returns something else than the exception held")
                    if e1 != E or any(e["k"] == "call" and e.get("nm") in ("move", "exchange", "swap") for e in walk_stmt(f.b, True)): b("takes the exception out of the outcome")
                else: continue
            ctx.ok("C28", f.where(), "%s of %s: %d paths" % (nm if not sp else SPN.get(sp, sp), ct.split("::")[-1], len(res))) if len(ctx.violations) == okk else None
        need = {"from exception", "set_exception", "set_value", "get", "has_exception", "has_value", "get_exception_ptr"} | (set() if void else {"from value"})
        miss = {x for x in need if x not in seen and not (x == "get" and "get const" in seen)}
        if miss: raise Broken("%s: members %s not found" % (ct, sorted(miss)))
    ctx.minimum("members", 40)
    return "Outcomes: every member of the three specialisations (default-constructible, not default-constructible, void) summarised symbolically: get rethrows exactly the exception held when there is one and returns the value held otherwise, the has_ functions answer accordingly, constructors and setters keep what they are given, copies and moves transfer exception and value on every path, and never read a value which is not there."

# ---------------------------------------------------------------- C29
MUTEX = ("std::mutex", "boost::mutex", "std::recursive_mutex", "std::condition_variable", "boost::condition_variable", "boost::shared_mutex")

def rec_of(P, f):
    c = [r for r in P.rec_by_qn.get(f.cls or "", ()) if r["tu"] == f.tu and any(len(m) > 1 and m[1] == f.id for m in r.get("ms", ()))]
    return c[0] if c else None

def stateless(P, b, seen=()):
    """a base of the library (or of the standard library's helpers) without any data"""
    q = b.split("<")[0]
    if q in ("std::enable_shared_from_this", "boost::enable_shared_from_this", "boost::noncopyable", "std::binary_function", "std::unary_function"): return True
    if q in seen: return False
    l = P.rec_by_qn.get(q) or P.rec_by_qn.get(NS + q)
    if not l: return False
    return all(not r["fields"] and all(stateless(P, x, seen + (q,)) for x in r.get("bases", ())) for r in l)

class SRec(XRec):
    def __init__(self): XRec.__init__(self); self.bases = []
    def call(self, eng, st, c):
        if c.nm == "operator=" and c.callee is not None and c.callee.cls == eng.root.cls: return None
        if c.nm == "operator=" and c.o is not None and strip(c.o) in (THIS, ("D", ("this",))):
            return [(st.cp(rs=st.rs + (("base=", strip(tuple(c.args))),)), ("c", None))]
        if c.nm in COPY: st = st.cp(rs=st.rs + (("copies",),))
        else:
            for a in c.args:
                l = eng.as_lambda(a) if isinstance(a, tuple) else None
                if l is not None and any(e["k"] == "call" and e.get("nm") in COPY for e in walk_stmt(eng.lams[l[1]][0]["b"], True)):
                    r = XRec.call(self, eng, st, c)
                    if r is None: return None
                    return [(s.cp(rs=s.rs + (("copies",),)), v) for s, v in r]
        r = XRec.call(self, eng, st, c)
        return r if r is not None or c.nm not in COPY else None
COPY = ("copy", "copy_n", "uninitialized_copy", "parallel_copy")

def c29(ctx):
    P = ctx.need(["all"])
    for f in sorted(P.fns, key=lambda f: (f.file, f.line)):
        if f.b is None or f.kind == "inst" or f.d.get("sp") not in ("cc", "mc", "ca", "ma") or f.d.get("dft") or not f.ps: continue
        r = rec_of(P, f)
        if r is None: continue
        one29(ctx, P, f, r)
    ctx.minimum("special members", 100)
    return "Copies and moves: in every user-written copy or move constructor and assignment of the library, on every path on which source and target differ, each data member (locks excepted) ends with a value made from the source's member of the same name, each base with state is constructed or assigned from the source, and assignments return the assigned object. Storage of containers and the identity of servants are new by design: there the copied elements and the remaining members are required."

# state which is deliberately not taken over: an identity of its own (C20), storage of its own with the elements copied
SKIP = {"trackable_servant": {"cc": ("m_tracking",), "ca": ("m_tracking",)},
        "vector": {"cc": ("m_data",), "ca": ("m_data", "m_size", "m_capacity", "m_allocator"), "ma": ("m_allocator",)}}

def one29(ctx, P, f, r):
    sp = f.d["sp"]; n0 = len(ctx.violations)
    ctx.count("special members")
    fields = [x for x in r["fields"] if not x["t"].startswith(MUTEX)]
    # the diagnostics record of a task (its job type's diagnostic base) starts afresh, except in jobs themselves
    bases = [b for b in r.get("bases", ()) if not stateless(P, b) and b.split("::")[-1] not in ("$diagnostic_type", "$Diag")]
    skip = SKIP.get((f.cls or "").replace(NS, ""), {}).get(sp, ())
    fields = [x for x in fields if x["n"] not in skip]
    res, rule = paths(ctx, P, f, rule=SRec())
    p = f.ps[0]
    if not p["n"]:
        if fields or bases: rep(ctx, "C29", f, "ignores its source")
        return
    R = rhs_locs(None, f)
    for k, st, v in res:
        if k == "t": continue
        if sp in ("ca", "ma"):
            v = strip(v) if v is not None else None
            if k != "r" or v not in (V(THIS), ("this",), THIS): rep(ctx, "C29", f, "does not return the object assigned to")
            if self_assign(st, f): continue
        for x in fields:
            n = x["n"]; w = final(st, F(n)); s = V(F(n, R))
            if mentions(w, s) or mentions(w, F(n, R)) or find_terms(w, lambda y: y and y[0] == "call" and len(y) > 2 and y[2] == ("p", p["n"])): ctx.count("fields"); continue
            if any(find_terms(t, lambda y: y == s or y == F(n, R)) for t in [strip(y) for l, y in st.mem.items() if mentions(l, F(n))]): ctx.count("fields"); continue
            if st.fact(s) is False and is_null(w): continue
            if copy_of(f, w, n, p["n"]): ctx.count("fields"); continue       # copy and swap
            rep(ctx, "C29", f, "%s is not taken over from the source" % n)
        if skip and "m_data" in skip and sp in ("cc", "ca") and not any(e[0] == "copies" for e in st.rs): rep(ctx, "C29", f, "the elements are not copied on some path")
        for b in bases:
            ok = False
            if sp in ("cc", "mc"):
                for i in f.inits:
                    if i.get("b") and i.get("i") is not None and any(e["k"] == "ref" and e["n"] == p["n"] for e in walk(i["i"])): ok = True
            else:
                ok = any(e[0] == "base=" and (mentions(e[1], R) or mentions(e[1], ("p", p["n"]))) for e in st.rs)
            if ok: ctx.count("bases")
            else: rep(ctx, "C29", f, "base %s is not taken over from the source" % b.split("<")[0].split("::")[-1])
    if len(ctx.violations) == n0: ctx.ok("C29", f.where(), "%s of %s" % (SPN[sp], f.cls))
