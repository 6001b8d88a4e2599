#!/usr/bin/env python3
"""check.py Cxx: decide one property on /repo's current tree (VERIF_TIER, VERIF_SEED)."""
import importlib
import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "tools"))
sys.path.insert(0, os.path.join(ROOT, "checks"))
sys.setrecursionlimit(100000)
import driver  # noqa: E402

COMMON = [
    "rustc/LLVM compile the encoded executable faithfully: the encoding is the LLVM IR of the executable that replays the models",
    "heap allocation succeeds",
    "a declaration outside the listed family and a size above the listed bound are outside the claim",
]

if __name__ == "__main__":
    prop = sys.argv[1]
    m = importlib.import_module(prop.lower())
    sys.exit(driver.main(prop, m.units, level="model_checking", assumptions=COMMON + list(getattr(m, "ASSUME", [])),
                         bounds=m.BOUNDS))
