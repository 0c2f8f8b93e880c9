#!/usr/bin/env python3
"""Builds the extractor and warms the extraction cache (checks repeat both when the cache is cold)."""
import os, sys, glob
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
core.build_tool()
core.extract(sorted(os.path.splitext(os.path.basename(p))[0] for p in glob.glob(os.path.join(core.ROOT, "tus", "*.cpp"))))
print("setup done")
