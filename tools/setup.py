"""Warm the build cache (every check builds what it needs by itself as well)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import mc
for v in ("fast", "asan", "initz", "initp", "vomp"):
    mc.driver(v)
print("ok")
