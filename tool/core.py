"""Driver shared by all checks: extraction (cached by content), reporting, evidence, known findings."""
import os, sys, json, hashlib, subprocess, time, fcntl, glob, re
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from ir import Program
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = REPO + "/boost/asynchronous/"
CACHE = os.environ.get("VERIF_CACHE", os.path.join(ROOT, ".cache"))
RES = "/usr/lib/llvm-18/lib/clang/18"
FLAGS = ["-std=c++20", "-I" + REPO, "-w", "-ftemplate-depth=400", "-fsyntax-only", "-ferror-limit=0", "-resource-dir", RES]
TU_FLAGS = {}

class Broken(Exception):
    """the analysis itself cannot give an answer (never a verdict)"""

def sha(*parts):
    h = hashlib.sha256()
    for p in parts: h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()[:24]

def build_tool():
    src = open(os.path.join(HERE, "extract.cpp"), "rb").read()
    os.makedirs(CACHE, exist_ok=True)
    out = os.path.join(CACHE, "extract-" + sha(src))
    if os.path.exists(out): return out
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out): return out
        cmd = ["g++", "-std=c++17", "-O1", "-fno-rtti", "-w", "-I/usr/lib/llvm-18/include", "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS",
               os.path.join(HERE, "extract.cpp"), "-o", out + ".tmp", "/usr/lib/llvm-18/lib/libclang-cpp.so.18.1", "/usr/lib/llvm-18/lib/libLLVM.so.18.1", "-Wl,-rpath,/usr/lib/llvm-18/lib"]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode: raise Broken("extractor does not build:\n" + r.stderr[-3000:])
        os.rename(out + ".tmp", out)
    return out

def tree_hash():
    h = hashlib.sha256()
    for d, _, fs in sorted(os.walk(SRC)):
        for f in sorted(fs):
            p = os.path.join(d, f); h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()

def extract(tus):
    tool = build_tool(); th = tree_hash()
    jobs = []
    common = b"".join(open(p, "rb").read() for p in sorted(glob.glob(os.path.join(ROOT, "tus", "*.hpp"))))
    for tu in tus:
        main = os.path.join(ROOT, "tus", tu + ".cpp")
        flags = FLAGS + TU_FLAGS.get(tu, [])
        key = sha(th, open(main, "rb").read(), common, open(tool, "rb").read(), " ".join(flags))
        out = os.path.join(CACHE, "%s-%s.jsonl" % (tu, key))
        jobs.append((tu, main, flags, out))
    def one(j):
        tu, main, flags, out = j
        if os.path.exists(out): return j, 0, "", 0.0
        t = time.time(); tmp = out + ".%d" % os.getpid()
        r = subprocess.run([tool, tmp, main, SRC, "--"] + flags, capture_output=True, text=True)
        if os.path.exists(tmp):
            if r.returncode == 0: os.rename(tmp, out)
            else: os.remove(tmp)
        return j, r.returncode, r.stderr, time.time() - t
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(one, jobs))
    prog = Program()
    for (tu, main, flags, out), rc, err, dt in res:
        if rc != 0 or not os.path.exists(out):
            errs = "\n".join(l for l in err.splitlines() if "error" in l)[:3000]
            raise Broken("translation unit %s does not parse:\n%s" % (tu, errs))
        prog.load(out, tu)
    # keep the cache small: older files of the same units go
    for tu, main, flags, out in jobs:
        olds = sorted(glob.glob(os.path.join(CACHE, tu + "-*.jsonl")), key=os.path.getmtime)
        for o in olds[:-6]:
            if o != out:
                try: os.remove(o)
                except OSError: pass
    return prog

class Ctx:
    def __init__(self, prop, tier):
        self.prop = prop; self.tier = tier; self.t0 = time.time()
        self.violations = []; self.obl = []      # (kind, where, ok)
        self.counts = {}; self.notes = []; self.assump = []; self.fns = set(); self.engine = {"runs": 0, "steps": 0, "widened": 0}
    def need(self, tus):
        self.tus = tus; self.prog = extract(tus); return self.prog
    def count(self, k, n=1): self.counts[k] = self.counts.get(k, 0) + n
    def minimum(self, k, n):
        if self.counts.get(k, 0) < n: raise Broken("rule instance count '%s' is %d, below the confirmed minimum %d: the analysis lost its anchors" % (k, self.counts.get(k, 0), n))
    def ok(self, rule, where, what=""):
        self.obl.append((rule, where, what, True))
    def bad(self, rule, where, msg, key=None, trace=()):
        """key: stable identification of the construct (no line numbers)"""
        key = key or (rule + "@" + where.split(":")[0] + ":" + msg)
        for v in self.violations:
            if v["key"] == key: return
        self.violations.append({"rule": rule, "where": where, "msg": msg, "key": key, "trace": [list(x) for x in trace]})
        self.obl.append((rule, where, msg, False))
    def run_engine(self, eng, fn, **kw):
        from engine import Budget
        self.fns.add((fn.qn, fn.file))
        try: r = eng.run(fn, **kw)
        except Budget: raise Broken("analysis budget exhausted in %s" % fn)
        self.engine["runs"] += 1; self.engine["steps"] += eng.steps; self.engine["widened"] += eng.widened
        return r

def known_findings():
    p = os.path.join(ROOT, "known_findings.txt"); r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r"finding: property=(\S+) key=(.*?) :: (.*)$", l)
            if m: r.append((m.group(1), m.group(2), m.group(3)))
    return r

def finish(ctx, title, rule_text, trusted, extra=None):
    known = [(k, t) for p, k, t in known_findings() if p == ctx.prop]
    viol = []; found = []
    for v in ctx.violations:
        hit = [t for k, t in known if k == v["key"]]
        (found if hit else viol).append((v, hit[0] if hit else None))
    for v, t in found: print("KNOWN-FINDING: property=%s %s [%s]" % (ctx.prop, t, v["where"]))
    replay = os.path.join(ROOT, "evidence", "%s.violations.json" % ctx.prop)
    os.makedirs(os.path.dirname(replay), exist_ok=True)
    if viol:
        json.dump([v for v, _ in viol], open(replay, "w"), indent=1)
        for v, _ in viol:
            print("%s: [%s] %s" % (v["where"], v["rule"], v["msg"]))
            for l, w in v["trace"][-12:]: print("      line %s: %s" % (l, w))
            print("      key: %s" % v["key"])
    elif os.path.exists(replay): os.remove(replay)
    nob = len(ctx.obl); dis = sum(1 for o in ctx.obl if o[3])
    cov = {"obligations": nob, "discharged": dis, "checker_cmd": "tool/check.py %s %s" % (ctx.prop, ctx.tier),
           "trusted_base": trusted, "explanation": rule_text,
           "rule": rule_text, "counts": ctx.counts, "functions_analysed": len(ctx.fns), "translation_units": getattr(ctx, "tus", []),
           "engine": ctx.engine, "samples": [{"rule": a, "where": b, "what": c, "ok": d} for a, b, c, d in ctx.obl[:8]],
           "functions": sorted("%s (%s)" % f for f in ctx.fns)[:80]}
    if extra: cov.update(extra)
    ev = {"property": ctx.prop, "tier": ctx.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other", "coverage": cov,
          "assumptions": ctx.assump, "wall_s": round(time.time() - ctx.t0, 2), "violations": len(viol)}
    json.dump(ev, open(os.path.join(ROOT, "evidence", ctx.prop + ".json"), "w"), indent=1)
    print("%s: %d obligations, %d discharged, %s" % (ctx.prop, nob, dis, ", ".join("%s=%d" % kv for kv in sorted(ctx.counts.items()))))
    if viol:
        print("VIOLATION property=%s replay=%s" % (ctx.prop, replay))
        return 1
    return 0
