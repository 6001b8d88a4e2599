#!/usr/bin/env python3
"""replay.py FILE: run a recorded violation again, natively, on /repo's current tree (exit 1: it is still violated)."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(ROOT, "tools"), os.path.join(ROOT, "checks")]
sys.setrecursionlimit(100000)
import driver  # noqa: E402
import rustbuild as rb  # noqa: E402


def main(path):
    v = json.load(open(path))
    if v["harness"].startswith("configuration:"):
        try:
            rb.deps(v["unit"])
        except rb.BuildError as e:
            print(e)
            return 1
        print("builds")
        return 0
    m = importlib.import_module(v["property"].lower())
    u = next(x for x in m.units(v["tier"], v["seed"]) if x.name == v["unit"])
    d = os.path.join(rb.BUILD, "replays", u.name)
    os.makedirs(d, exist_ok=True)
    src = os.path.join(d, u.name + ".rs")
    open(src, "w").write(u.source()[0])
    bad = False
    for prof in ("dev", "plain"):
        try:
            exe = rb.compile_bin(src, os.path.join(d, prof), rb.deps(u.variant, prof), prof, u.crates, emit_ir=False)[0]
        except rb.CompileError as e:
            print(e.stderr[-3000:])
            return 1
        if v["harness"].startswith("compile:"):
            continue
        h = next(x for x in u.harnesses if x.name == v["harness"])
        inp = bytes.fromhex(v["input"])
        out = driver.run_native(exe, [(list(u.entries).index(h.entry.name), inp, h.entry.nout)])[0]
        viol = driver.judge(h, inp, out)
        print("%s: %s\n  input  %s\n  output %s\n  violated: %s" % (
            prof, h.name + " (" + h.note + ")", inp.hex(), out if type(out) is tuple else out.hex(), viol or "nothing"))
        bad = bad or bool(viol)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
