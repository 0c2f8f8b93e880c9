"""C03, second half: what the traits calls store is what the diagnostics report."""
from sym import *
import rules_pool
SETS = ("set_posted_time", "set_started_time", "set_finished_time", "set_failed", "set_interrupted", "set_executing_thread_id", "set_name")
GETS = ("get_failed", "get_name", "get_diagnostic_item")
def rep(ctx, f, what, msg, trace=()):
    ctx.bad("C03", f.where(), "%s: %s" % (what, msg), key="C03|%s|%s" % (what, msg), trace=trace)

def traits(ctx, P):
    T = NS + "job_traits::"
    for f in [f for f in P.fns if f.qn.startswith(T) and f.b and f.kind != "pattern" or f.b and f.qn.startswith(T) and "any_loggable" in (f.ps[0]["t"] if f.ps else "")]:
        log = [p for p in f.ps if "any_loggable" in p["t"]]
        if f.nm == "reset_current_diagnostic":
            if "any_loggable" not in (f.ct or ""): continue
        elif not log: continue
        n0 = len(ctx.violations); what = (f.ct or "").replace(NS, "") + "::" + f.nm
        outs, r = paths(ctx, P, f, inl=lambda e, fn, c: fn.file == f.file)
        job = ("p", log[0]["n"]) if log else None
        others = [("p", p["n"]) for p in f.ps if p["n"] and not (log and p is log[0])]
        for k, st, v in outs:
            if k == "t": continue
            cs = calls(st)
            if f.nm in SETS:
                if [(c[0], strip(c[2][2]), strip(c[2][3])) for c in cs] != [(f.nm, job, tuple(others))]: rep(ctx, f, what, "does not pass the request on to the job", st.trace)
            elif f.nm in GETS:
                if strip(v) != ("call", f.nm, job, ()): rep(ctx, f, what, "does not return what the job reports", st.trace)
            elif f.nm in ("add_diagnostic", "add_current_diagnostic", "reset_current_diagnostic"):
                op = {"add_diagnostic": "add", "add_current_diagnostic": "set_current", "reset_current_diagnostic": "reset_current"}[f.nm]
                diag = others[-1]; idx = tuple(others[:-1])
                want = idx if op == "reset_current" else idx + (("call", "get_name", job, ()), ("call", "get_diagnostic_item", job, ()))
                got = [c for c in cs if c[0] == op]
                if len(got) != 1 or len([c for c in cs if c[0] not in ("get_name", "get_diagnostic_item")]) != 1: rep(ctx, f, what, "does not make exactly one entry in the table", st.trace); continue
                if not mentions(got[0][2][2], diag): rep(ctx, f, what, "uses another table than the one given", st.trace)
                if strip(got[0][2][3]) != want: rep(ctx, f, what, "does not enter the job's name and item", st.trace)
            else: continue
        if f.nm in SETS + GETS + ("add_diagnostic", "add_current_diagnostic", "reset_current_diagnostic"):
            ctx.count("traits_functions")
            if len(ctx.violations) == n0: ctx.ok("C03", f.where(), what + " passes on")

PAIR = {"set_posted_time": "get_posted_time", "set_started_time": "get_started_time", "set_finished_time": "get_finished_time", "set_interrupted": "is_interrupted", "set_failed": "is_failed", "set_executing_thread_id": "get_executing_thread_id"}

def one(l, what):
    if not l: raise Broken(what + " not found")
    return l

def items(ctx, P):
    # the item: constructor parameter i is what getter g returns
    I = NS + "diagnostic_item::"
    ct = [f for f in one(P.by_qn.get(I + "diagnostic_item"), "diagnostic_item") if f.b and len(f.ps) == 6]
    pos = {}
    for k, st, v in paths(ctx, P, one(ct, "constructor of diagnostic_item")[0])[0]:
        for l, v in st.mem.items():
            for i, p in enumerate(ct[0].ps):
                if l[0] == "F" and l[1] == THIS and strip(v) == ("p", p["n"]): pos[l[2]] = i
    at = {}
    for g in PAIR.values():
        f = one([f for f in P.by_qn.get(I + g, ()) if f.b], g)[0]
        for k, st, v in paths(ctx, P, f)[0]:
            v = strip(v)
            if v[0] == "V" and v[1][0] == "F" and v[1][2] in pos: at.setdefault(g, set()).add(pos[v[1][2]])
            else: rep(ctx, f, "diagnostic_item::" + g, "does not return what the item was made with", st.trace)
    for cls in ("default_loggable_job", "default_loggable_job_extended"):
        C = NS + cls + "::"; fs = {}
        for f in P.fns:
            if f.b and (f.cls or "") == NS + cls: fs.setdefault(f.nm, []).append(f)
        gi = one(fs.get("get_diagnostic_item"), cls + "::get_diagnostic_item")[0]
        made = None
        for k, st, v in paths(ctx, P, gi, opq=("get_failed",), inl=lambda e, fn, c: fn.cls == gi.cls)[0]:
            if k == "r" and v[0] == "obj" and len(v) == 8: made = [strip(x) for x in v[2:]]
            else: rep(ctx, gi, cls + "::get_diagnostic_item", "does not return a complete item", st.trace)
        if made is None: continue
        fld = {}
        for s, g in PAIR.items():
            f = one(fs.get(s), cls + "::" + s)[0]; n0 = len(ctx.violations); what = cls + "::" + s
            for k, st, v in paths(ctx, P, f, inl=lambda e, fn, c: fn.cls == f.cls)[0]:
                ch = {l[2]: strip(v) for l, v in st.mem.items() if l[0] == "F" and l[1] == THIS}
                if len(ch) != 1: rep(ctx, f, what, "does not change exactly its own mark", st.trace); continue
                (fl, val), = ch.items()
                want = ("c", True) if s == "set_failed" else ("p", f.ps[0]["n"]) if f.ps else None
                if want is not None and val != want or want is None and not (val[0] == "call" and val[1] == "now"): rep(ctx, f, what, "stores something else than it should", st.trace)
                if fl in fld and fld[fl] != s: rep(ctx, f, what, "overwrites another mark (%s)" % fl, st.trace)
                fld[fl] = s
                idx = at.get(g, set())
                for i in idx:
                    m = made[i]
                    if s == "set_failed" and cls.endswith("extended"):
                        if not (m[0] == "call" and m[1] == "get_failed"): rep(ctx, gi, cls + "::get_diagnostic_item", "does not ask for failures the task keeps itself", st.trace)
                    elif s == "set_failed" and m[0] == "call" and m[1] == "get_failed": pass
                    elif m != V(F(fl)): rep(ctx, gi, cls + "::get_diagnostic_item", "reports something else as %s" % g, st.trace)
            for gf in fs.get("get_failed", ()):
                for k, st, v in paths(ctx, P, gf)[0]:
                    if s == "set_failed" and strip(v) != V(F(fl)): rep(ctx, gf, cls + "::get_failed", "does not report the mark set_failed makes", st.trace)
            ctx.count("marks")
            if len(ctx.violations) == n0: ctx.ok("C03", f.where(), "%s is reported by %s" % (what, g))
        # name
        for f in fs.get("set_name", ()):
            for k, st, v in paths(ctx, P, f)[0]:
                if strip(st.mem.get(F("m_name"))) != ("p", f.ps[0]["n"]): rep(ctx, f, cls + "::set_name", "does not keep the name", st.trace)
        for f in one(fs.get("get_name"), "get_name"):
            for k, st, v in paths(ctx, P, f)[0]:
                if strip(v) != V(F("m_name")): rep(ctx, f, cls + "::get_name", "does not return the name", st.trace)
        ct = [f for f in fs.get(cls, ()) if f.sp == "ctor" or f.sp == "dc"]
        for f in ct:
            for k, st, v in paths(ctx, P, f)[0]:
                for s, want in (("set_failed", ("c", False)), ("set_interrupted", ("c", False))):
                    for fl, s2 in fld.items():
                        if s2 == s and st.mem.get(F(fl)) != want: rep(ctx, f, cls, "a new job is already marked", st.trace)
    # jobs which fail without throwing keep that themselves; both count
    for f in insts(P, lambda f: f.nm == "get_failed" and f.file == "job_traits.hpp" and "base_job" in (f.cls or "")):
        n0 = len(ctx.violations); what = f.cls.replace(NS, "") + "::get_failed"
        outs, r = paths(ctx, P, f, inl=lambda e, fn, c: False)
        for k, st, v in outs:
            if k == "t": continue
            v = strip(v); F_ = {strip(t): b for t, b in st.facts.items() if t[0] == "call" and t[1] == "get_failed"}
            own = [b for t, b in F_.items() if "m_callable" not in repr(t)]; task = [b for t, b in F_.items() if "m_callable" in repr(t)]
            if v == ("c", True): ok = True in own or True in task
            elif v == ("c", False): ok = own == [False] and task == [False]
            elif v[0] == "call" and v[1] == "get_failed": ok = (own if "m_callable" in repr(v) else task) == [False]
            elif v[0] == "bin" and v[1] in ("|", "||"): ok = "m_callable" in repr(v[2]) + repr(v[3]) and not all("m_callable" in repr(x) for x in v[2:4]) and all(x[0] == "call" and x[1] == "get_failed" for x in v[2:4])
            else: ok = False
            if not ok: rep(ctx, f, what, "does not report failed exactly when the worker or the task itself said so", st.trace)
        ctx.count("failed_flags")
        if len(ctx.violations) == n0: ctx.ok("C03", f.where(), what)

def table(ctx, P):
    D = NS + "diagnostics_table"
    def fns(nm): return one(insts(P, lambda f: f.cls == D and f.nm == nm), "diagnostics_table::" + nm)
    def inl(e, fn, c): return fn.file == e.root.file
    def all_(f, nm, msg):
        what = "diagnostics_table::" + f.nm
        # entries: one store of (key, value), in the place designated
    for nm in ("add", "set_current", "reset_current"):
        for f in fns(nm):
            n0 = len(ctx.violations); what = "diagnostics_table::" + nm
            ps = [("p", p["n"]) for p in f.ps]
            for k, st, v in paths(ctx, P, f, inl=inl, locks=True)[0]:
                if k == "t": continue
                if nm == "add":
                    pb = [c for c in calls(st) if c[0] in ("push_back", "emplace_back", "push_front")]
                    if len(pb) != 1: rep(ctx, f, what, "does not add exactly one record", st.trace); continue
                    if not (mentions(pb[0][3], ps[0]) and mentions(pb[0][3], ps[1])): rep(ctx, f, what, "does not add the name and item given", st.trace)
                    if not mentions(pb[0][1], ps[0]): rep(ctx, f, what, "does not add to the bucket of its name", st.trace)
                    if "m_buckets" not in repr(pb[0][1]): rep(ctx, f, what, "does not add to a bucket", st.trace)
                else:
                    ch = [(l, strip(v)) for l, v in st.mem.items() if l[0] == "F" and l[2] == "data"]
                    if len(ch) != 1: rep(ctx, f, what, "does not change exactly one entry", st.trace); continue
                    l, val = ch[0]
                    cont, idx = rules_pool.contloc(l[1])
                    if cont != F("m_current") or strip(idx) != ps[0]: rep(ctx, f, what, "does not use the entry of the worker given", st.trace)
                    if nm == "set_current" and not (mentions(val, ps[1]) and mentions(val, ps[2])): rep(ctx, f, what, "does not show the job given", st.trace)
                    if nm == "reset_current" and find_terms(val, lambda t: t and t[0] in ("p", "V")): rep(ctx, f, what, "does not clear the entry", st.trace)
            ctx.count("table_functions")
            if len(ctx.violations) == n0: ctx.ok("C03", f.where(), what)
    for nm, cont, op in (("get_current", "m_current", ("push_back", "emplace_back")), ("get_map", "m_buckets", ("push_back", "emplace_back", "insert", "splice")), ("clear", "m_buckets", ("clear",)), ("diagnostics_table", None, ("reset", "operator=", "make_unique"))):
        for f in fns(nm):
            if nm == "diagnostics_table" and f.sp != "ctor": continue
            n0 = len(ctx.violations); what = "diagnostics_table::" + nm
            def event(fr, eng, st, c):
                if c.isctor: return None
                if c.nm in op and c.o is not None:
                    if nm in ("get_current", "get_map"):
                        if c.args and find_terms(tuple(c.args), lambda t: t and isinstance(t, tuple) and t and t[0] in ("obj", "lk")): return None
                        if "lock" in repr((c.node.get("o") or {}).get("t", "")): return None
                    return (c.nm, strip(rules_pool.contloc(c.o)), None)
                return None
            res, r = rules_pool.fan(ctx, P, f, event)
            if not r.nevents: rep(ctx, f, what, "covers no entry at all"); continue
            seen = set()
            for rs, st, v in res:
                for it, s, b, br in rs.loops:
                    has = lambda x: any(e[0] in op or e[0] == "loop" for e in x)
                    if not any(has(x) for x in it): continue
                    if br or not all(has(x) for x in it): rep(ctx, f, what, "leaves entries out")
                    if b is None: rep(ctx, f, what, "leaves entries out"); continue
                    if cont is None:
                        if not (b[0] == "<" and s == ("c", 0)): rep(ctx, f, what, "does not create every entry")
                        else: seen.add(b[1])
                    if nm == "get_map":
                        for e in [e for x in it for e in x if e[0] == "loop"]:
                            if e[1][3] or e[1][1] not in (("begin",), ("range",)) or e[1][2] is None: rep(ctx, f, what, "leaves records out")
                    if cont is not None and not rules_pool.over_all(b, s, (cont,)): rep(ctx, f, what, "does not go over all entries")
            if cont is None and not {("p", f.ps[0]["n"]), ("p", f.ps[1]["n"])} <= seen: 
                sz = {x for x in seen}
                if len(sz) < 2: rep(ctx, f, what, "does not create every entry")
            ctx.count("table_functions")
            if len(ctx.violations) == n0: ctx.ok("C03", f.where(), what)
    # what schedulers hand out
    for f in insts(P, lambda f: f.nm == "get_diagnostics" and (f.cls or "").endswith("_scheduler") and f.file.startswith("scheduler/")):
        if (f.cls or "").split("::")[-1] in ("composite_threadpool_scheduler",): continue
        outs, r = paths(ctx, P, f, inl=lambda e, fn, c: fn.cls == f.cls)
        n0 = len(ctx.violations); what = f.cls.replace(NS, "") + "::get_diagnostics"
        for k, st, v in outs:
            if k != "r": continue
            n = [c[0] for c in calls(st)]
            if "asio" in what or not r: continue
            if not ("get_map" in n and "get_current" in n and "get_map" in repr(v) and "get_current" in repr(v)):
                if "m_diagnostics" in repr([x for x in fn_exprs(f)]): rep(ctx, f, what, "does not report both finished and current jobs", st.trace)
        ctx.count("reports")
        if len(ctx.violations) == n0: ctx.ok("C03", f.where(), what)

def c03_rest(ctx):
    P = ctx.prog
    traits(ctx, P); items(ctx, P); table(ctx, P)
    ctx.minimum("traits_functions", 10); ctx.minimum("marks", 12); ctx.minimum("failed_flags", 2); ctx.minimum("table_functions", 7); ctx.minimum("reports", 6)

def only(ctx):      # development entry
    ctx.need(["sched", "tcp"]); c03_rest(ctx)
