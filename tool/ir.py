"""Loading of the extractor's output and small helpers over expressions and statements."""
import json, sys
from collections import defaultdict

class Fn:
    __slots__ = ("d", "id", "kind", "p", "qn", "nm", "cls", "ct", "file", "line", "ps", "inits", "b", "sp", "tu", "rt", "uid")
    def __init__(self, d, tu):
        self.d = d; self.id = d["id"]; self.kind = d["kind"]; self.p = d["p"]; self.qn = d["qn"]; self.nm = d["nm"]
        self.cls = d.get("cls"); self.ct = d.get("ct"); self.file = d["file"]; self.line = d["line"]
        self.ps = d["ps"]; self.inits = d["inits"]; self.b = d["b"]; self.sp = d.get("sp"); self.tu = tu; self.rt = d.get("rt", "")
        self.uid = (tu, self.id)
    def where(self, line=None): return "%s:%s" % (self.file, line or self.line)
    def __repr__(self): return "<%s %s %s>" % (self.kind, self.qn, self.where())

class Program:
    """All functions and records of a set of translation units."""
    def __init__(self):
        self.fns = []; self.by_id = {}; self.by_p = defaultdict(list); self.by_qn = defaultdict(list); self.recs = []; self.rec_by_qn = defaultdict(list)
        self.tus = []
        self.cands = {}
    def load(self, path, tu):
        for line in open(path):
            d = json.loads(line)
            r = d["r"]
            if r == "fn":
                f = Fn(d, tu); self.fns.append(f); self.by_id[(tu, f.id)] = f; self.by_p[f.p].append(f); self.by_qn[f.qn].append(f)
            elif r == "rec":
                d["tu"] = tu; self.recs.append(d); self.rec_by_qn[d["qn"]].append(d)
            else: self.tus.append((tu, d))
    def callee(self, tu, c):
        """function with a body for a call node (or None)"""
        if "f" in c:
            f = self.by_id.get((tu, c["f"]))
            if f and f.b: return f
        p = c.get("p")
        if p:
            l = self.by_p.get(p, ())
            best = None
            for f in l:
                if not f.b: continue
                if f.tu == tu and f.kind != "pattern": return f
                if best is None or (best.kind == "pattern" and f.kind != "pattern"): best = f
            return best
        return None

EXPR_KEYS = ("o", "e", "x", "y", "c", "i")
def kids(e):
    """direct sub-expressions of an expression, in evaluation-ish order"""
    k = e.get("k")
    if k == "lam":
        return [c["i"] for c in e["caps"] if c.get("i")]
    out = []
    if k == "call":
        if e.get("o"): out.append(e["o"])
        out += [a for a in e["a"] if a]
        return out
    for key in EXPR_KEYS:
        v = e.get(key)
        if isinstance(v, dict): out.append(v)
    for key in ("a", "pl"):
        v = e.get(key)
        if isinstance(v, list): out += [a for a in v if isinstance(a, dict)]
    if k == "new" and isinstance(e.get("n"), dict): out.append(e["n"])
    return out

def walk(e, lam=False):
    """all sub-expressions; bodies of lambdas when lam"""
    if not isinstance(e, dict): return
    yield e
    for c in kids(e): yield from walk(c, lam)
    if lam and e.get("k") == "lam": yield from walk_stmt(e["b"], lam)

def stmt_exprs(s):
    """expressions directly in a statement node and its sub-statements: (exprs, stmts)"""
    t = s[0]
    if t == "{": return [], s[2]
    if t == "decl": return [d["i"] for d in s[2] if d.get("i")], []
    if t == "if": return [s[3]] if s[3] else [], [x for x in (s[2], s[4], s[5]) if x]
    if t == "while": return [s[2]], [s[3]] if s[3] else []
    if t == "do": return [s[3]], [s[2]]
    if t == "for": return [x for x in (s[3], s[4]) if x], [x for x in (s[2], s[5]) if x]
    if t == "range": return [s[3]] if s[3] else [], [s[4]] if s[4] else []
    if t == "ret": return [s[2]] if s[2] else [], []
    if t == "try": return [], [s[2]] + [h["b"] for h in s[3]]
    if t == "switch": return [s[2]], [s[3]]
    if t == "case": return [s[2]] if s[2] else [], [s[3]] if s[3] else []
    if t in ("default", "label"): return [], [s[2]] if s[2] else []
    if t == "e": return [s[2]], []
    return [], []

def walk_stmt(s, lam=False):
    if not s: return
    es, ss = stmt_exprs(s)
    for e in es: yield from walk(e, lam)
    for x in ss: yield from walk_stmt(x, lam)

def fn_exprs(f, lam=True):
    for i in f.inits:
        yield from walk(i["i"], lam)
    if f.b: yield from walk_stmt(f.b, lam)

# ---------- pretty printing (diagnostics of the rules, and development)
def pe(e):
    if e is None: return "∅"
    k = e["k"]
    if k == "call":
        o = pe(e["o"]) + "." if e.get("o") else ""
        return "%s%s%s%s(%s)" % (o, e.get("nm"), "<%s>" % e["ta"] if e.get("ta") else "", "?" if e.get("d") else "", ", ".join(pe(a) for a in e["a"]))
    if k == "ref": return e["n"]
    if k == "mem": return (pe(e["o"]) + "." if e.get("o") and e["o"]["k"] != "this" else "this->") + e["n"]
    if k == "this": return "this"
    if k == "lit": return repr(e["v"])
    if k == "asg": return "%s %s %s" % (pe(e["x"]), e["op"], pe(e["y"]))
    if k == "bin": return "(%s %s %s)" % (pe(e["x"]), e["op"], pe(e["y"]))
    if k == "un": return "%s%s" % (e["op"], pe(e["e"]))
    if k == "cond": return "(%s ? %s : %s)" % (pe(e["c"]), pe(e["x"]), pe(e["y"]))
    if k == "ctor":
        return "%s{%s}%s" % (e["cls"].split("::")[-1], ", ".join(pe(a) for a in e["a"]), "ᶜ" if e.get("cp") else "ᵐ" if e.get("mv") else "")
    if k == "lam": return "λ[%s](%s){..}" % (",".join(("&" if c.get("ref") else "") + c["n"] for c in e["caps"]), ",".join(p["n"] for p in e["ps"]))
    if k == "defarg": return "dflt:" + pe(e["e"])
    if k == "cast": return "cast(%s)" % pe(e["e"])
    if k == "new": return "new %s(%s)" % (e["nt"], pe(e["e"]))
    if k == "del": return "delete %s" % pe(e["e"])
    if k == "throw": return "throw " + pe(e["e"])
    if k == "idx": return "%s[%s]" % (pe(e["o"]), pe(e["i"]))
    if k == "pack": return pe(e["e"]) + "..."
    return "%s(%s)" % (k, ", ".join(pe(a) for a in kids(e)))

def ps(s, ind=0, out=None):
    top = out is None
    if top: out = []
    I = "  " * ind
    if s is None: out.append(I + ";")
    else:
        t = s[0]
        if t == "{":
            for x in s[2]: ps(x, ind, out)
        elif t == "decl":
            for d in s[2]: out.append("%s%s: %s %s%s" % (I, d.get("l", s[1]), d["t"], d["n"], " = " + pe(d["i"]) if d.get("i") else ""))
        elif t == "if":
            if s[2]: ps(s[2], ind, out)
            out.append("%s%s: if %s" % (I, s[1], pe(s[3]))); ps(s[4], ind + 1, out)
            if s[5]: out.append(I + "else"); ps(s[5], ind + 1, out)
        elif t == "while": out.append("%s%s: while %s" % (I, s[1], pe(s[2]))); ps(s[3], ind + 1, out)
        elif t == "do": out.append("%s%s: do" % (I, s[1])); ps(s[2], ind + 1, out); out.append("%swhile %s" % (I, pe(s[3])))
        elif t == "for":
            out.append("%s%s: for (; %s; %s)" % (I, s[1], pe(s[3]), pe(s[4])))
            if s[2]: ps(s[2], ind + 1, out)
            ps(s[5], ind + 1, out)
        elif t == "range": out.append("%s%s: for %s : %s" % (I, s[1], s[2]["n"], pe(s[3]))); ps(s[4], ind + 1, out)
        elif t == "ret": out.append("%s%s: return %s" % (I, s[1], pe(s[2])))
        elif t == "try":
            out.append("%stry" % I); ps(s[2], ind + 1, out)
            for h in s[3]: out.append("%scatch %s" % (I, h.get("t", "..."))); ps(h["b"], ind + 1, out)
        elif t == "e":
            out.append("%s%s: %s" % (I, s[1], pe(s[2])))
            for x in walk(s[2]):
                if x["k"] == "lam": out.append(I + "    λ body:"); ps(x["b"], ind + 3, out)
        elif t in ("case", "default", "label", "switch"): 
            out.append("%s%s: %s %s" % (I, s[1], t, pe(s[2]) if t in ("case","switch") else "")); ps(s[-1], ind + 1, out)
        else: out.append("%s%s: %s" % (I, s[1], t))
    return "\n".join(out) if top else None

if __name__ == "__main__":
    P = Program()
    P.load(sys.argv[1], "x")
    for f in P.fns:
        if all(a in f.qn or a == f.kind or a in (f.ct or "") for a in sys.argv[2:]):
            print("==", f, f.ct, [(p["n"], p["t"]) for p in f.ps])
            for i in f.inits: print("   init", i.get("m") or i.get("b"), pe(i["i"]))
            print(ps(f.b, 1))
