#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json: claims come from registry.py, the rest is not applicable (run to regenerate)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry, props
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = "Decided on the representation clang's front end resolves from /repo's sources; trusted: clang 18, tool/extract.cpp, tool/engine.py and the rule module. "
def main():
    checks = []; na = []
    for p in props.P:
        i = p["id"]
        if i in registry.CHECKS:
            c = registry.CHECKS[i]
            checks.append({"property": i, "quick_cmd": "python3 tool/check.py %s quick" % i, "thorough_cmd": "python3 tool/check.py %s thorough" % i,
                           "technique": c[2], "level": "other", "level_note": TRUST + c[3]})
        else: na.append({"property": i, "reason": registry.NA.get(i, "no sound static rule has been built for this property yet, so nothing is claimed for it")})
    m = {"version": 1, "setup_cmd": "python3 tool/setup.py", "checks": checks, "not_applicable": na}
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "claimed", len(na), "not claimed")
if __name__ == "__main__": main()
