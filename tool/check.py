#!/usr/bin/env python3
"""check.py <property> [quick|thorough] : decide one property on /repo's current sources.
exit 0 holds, 1 violation (with a VIOLATION line), anything else: the analysis gave no answer."""
import sys, os, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
import registry
def main():
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    mod, fn = registry.CHECKS[prop][:2]
    try:
        m = importlib.import_module(mod)
        ctx = core.Ctx(prop, tier)
        try:
            text = getattr(m, fn)(ctx)
            if not ctx.obl: raise core.Broken("no obligations")
        except core.Broken as e:
            # an anchor is missing, but a violation had already been found: that is the answer
            if not ctx.violations: raise
            text = "analysis ended early: %s" % e
        rc = core.finish(ctx, prop, text, ["clang 18 front end (parsing, overload resolution, template instantiation)", "tool/extract.cpp", "tool/engine.py and the rule module " + mod])
    except core.Broken as e:
        print("ANALYSIS-BROKEN %s: %s" % (prop, e)); sys.exit(3)
    except Exception:
        traceback.print_exc(); print("ANALYSIS-BROKEN %s" % prop); sys.exit(3)
    sys.exit(rc)
main()
