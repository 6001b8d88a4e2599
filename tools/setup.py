"""setup_cmd: builds /repo's library once for the default configuration, to fail early if the tool chain is unusable."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rustbuild as rb

for v in ("std",):
    rb.deps(v)
    print("built", v)
