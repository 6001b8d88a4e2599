"""Runs the units of one property: compile, execute symbolically, decide, replay."""
import hashlib
import json
import multiprocessing as mp
import os
import re
import subprocess
import sys
import time
import traceback

import rustbuild as rb
from llsym import terms as T
from llsym.exec import Engine, Limit
from llsym.ir import Module, Unsupported
from llsym.solve import Solver, Stats, Unknown

RUNTIME = open(os.path.join(rb.ROOT, "rust", "runtime.rs")).read()
WITNESS_CAP = 24


class Entry:
    def __init__(self, name, nin, nout, body):
        self.name, self.nin, self.nout, self.body = name, nin, nout, body

    def rust(self):
        return ("#[no_mangle] #[inline(never)]\npub unsafe extern \"C\" fn e_%s(ip: *const u8, op: *mut u8) {\n"
                "    let i: &[u8; %d] = &*(ip as *const [u8; %d]);\n"
                "    let o: &mut [u8; %d] = &mut *(op as *mut [u8; %d]);\n%s\n}\n"
                % (self.name, self.nin, self.nin, self.nout, self.nout, self.body))


class Harness:
    """entry: Entry; inp: per byte None (symbolic), an int, or (lo, hi): symbolic within; assume(I), spec(I, O)."""

    def __init__(self, name, entry, spec, inp=None, assume=None, known=None, note="", max_paths=20000, symptr=False, apart=None,
                 panics=False):
        self.name, self.entry, self.spec = name, entry, spec
        self.inp = inp if inp is not None else [None] * entry.nin
        assert len(self.inp) == entry.nin, name
        self.assume = assume
        self.known = known      # exact description of a recorded finding: spec_known(I, O)
        self.note = note
        self.max_paths = max_paths
        self.heapfork = False
        self.symptr = symptr    # keep choices between pointers symbolic
        self.panics = panics    # a panic is an outcome like any other: spec(I, None)
        self.apart = apart      # output bytes: states in which they differ are not merged


class Unit:
    def __init__(self, name, variant="std", crates=("packed_struct",)):
        self.name, self.variant, self.crates = name, variant, crates
        self.internal = False  # reaches into internals: not compiling is no answer rather than a violation
        self.items = []       # (label, rust text)
        self.entries = {}
        self.harnesses = []
        self.head = "#![allow(warnings)]\n"
        self.prelude = ("use packed_struct::prelude::*;\nuse packed_struct::*;\nuse packed_struct::types::*;\n"
                        "use packed_struct::types::bits::*;\n")

    def item(self, label, text):
        self.items.append((label, text))

    def add(self, h):
        self.entries.setdefault(h.entry.name, h.entry)
        self.harnesses.append(h)

    def weight(self):
        return sum(40 + h.entry.nin + h.entry.nout for h in self.harnesses)

    def source(self):
        out = [self.head, self.prelude]
        spans = []
        line = "".join(out).count("\n") + 1
        for label, t in self.items + [(e.name, e.rust()) for e in self.entries.values()]:
            t = t if t.endswith("\n") else t + "\n"
            n = t.count("\n")
            spans.append((line, line + n - 1, label))
            line += n
            out.append(t)
        names = list(self.entries)
        out.append("static VP_TABLE: &[Entry] = &[%s];\n" % ", ".join("e_" + n for n in names))
        out.append(RUNTIME)
        return "".join(out), spans


def stack():
    """room for structures of megabytes on the stack"""
    import resource
    hard = resource.getrlimit(resource.RLIMIT_STACK)[1]
    resource.setrlimit(resource.RLIMIT_STACK, (256 << 20 if hard == resource.RLIM_INFINITY else min(hard, 256 << 20), hard))


def run_native(exe, jobs):
    """jobs: [(entry index, input bytes, nout)] -> list of output bytes or ('crash', text)"""
    res = []
    i = 0
    while i < len(jobs):
        inp = "".join("%d %s %d\n" % (e, b.hex() or "", n) for e, b, n in jobs[i:])
        p = subprocess.run([exe], input=inp, capture_output=True, text=True, timeout=300, preexec_fn=stack,
                           env={"RUST_BACKTRACE": "0", "PATH": "/usr/bin:/bin"})
        got = [l for l in p.stdout.split("\n") if " " in l]
        for l in got:
            res.append(bytes.fromhex(l.split(" ")[1]))
        i += len(got)
        if i < len(jobs):
            if p.returncode == 0:
                raise RuntimeError("native run stopped early")
            res.append(("crash", p.stderr.strip()[-400:]))
            i += 1
    return res


def conc(h, model):
    b = bytearray()
    for k, x in enumerate(h.inp):
        b.append(x if type(x) is int else model.get("in%d" % k, x[0] if x else 0))
    return bytes(b)


def judge(h, inp, native):
    """labels of the assertions the native outcome violates (None: passes)"""
    if type(native) is tuple:
        if not h.panics:
            return ["panics: " + native[1]]
        native = None
    else:
        native = list(native)
    bad = [l for l, c in h.spec(list(inp), native) if not c]
    return bad or None


class Found(Exception):
    pass


def run_harness(mod, h, exe, index, opts):
    solver = Solver(opts["query_ms"], cross=opts["cross"])
    eng = Engine(mod, solver, max_paths=h.max_paths, deadline=opts["deadline"], max_steps=opts["max_steps"])
    eng.symptr = h.symptr
    eng.heapfork = h.heapfork
    if h.apart is not None:
        eng.pin = max(h.apart) + 1
        def apart(a, b):
            x, y = a.mem[eng.bo], b.mem[eng.bo]
            return any(x[k] is not y[k] and x[k] != y[k] for k in h.apart)
        eng.apart = apart
    I = [x if type(x) is int else T.var("in%d" % k, 8) for k, x in enumerate(h.inp)]
    assume = list(h.assume(I)) if h.assume else []
    for v, x in zip(I, h.inp):
        if type(x) is tuple:
            assume += [c for c in (T.ule(8, x[0], v), T.ule(8, v, x[1])) if type(c) is not int]
            v._r = x
    r = dict(name=h.name, ok=0, folded=0, obligations=0, ces=[], wit=[], known=None, status="ok", msg="")
    cache = {}

    def decide(conds, res):
        """model of pc and not all(conds), or None"""
        live = []
        memo = {}
        for l, c in conds:
            if res.sub:
                c = T.substitute(c, res.sub, memo)
            if type(c) is int:
                if not c:
                    return res.model
            else:
                live.append(c)
        if not live:
            return None
        return solver.check(res.pc + [T.bnot(T.land(*live))])

    known_bad = []

    def on_end(res):
        for model in res.models[:WITNESS_CAP - len(r["wit"])]:
            memo = {}
            exp = None
            if res.kind == "ok":
                exp = [T.evaluate(x, model, memo) if x is not None else None for x in res.out]
                uv = False
                vs = set()
                seen = set()
                for x in res.out:
                    if type(x) is T.Term:
                        T.variables(x, vs, seen)
                if any(v.startswith("undef!") for v in vs):
                    exp = None
                    uv = True
                if uv:
                    r["undef"] = True
            r["wit"].append((conc(h, model), exp, res.kind))
        if res.kind != "ok" and not (h.panics and res.kind == "panic"):
            if h.known is not None:
                known_bad.append(res.model)
            r["ces"].append((conc(h, res.model), res.kind + ": " + res.msg, res.where[-6:]))
            if len(r["ces"]) >= 3:
                raise Found()
            return
        r["ok"] += 1
        out = [0 if x is None else x for x in res.out] if res.kind == "ok" else None
        conds = h.spec(I, out)
        r["obligations"] += len(conds)
        r["folded"] += sum(1 for _, c in conds if type(c) is int)
        m = decide(conds, res)
        if m is not None:
            if h.known is not None:
                k = decide(h.known(I, out), res)
                if k is None:
                    r["known"] = conc(h, m)
                    return
                m = k
            r["ces"].append((conc(h, m), "assertion", res.where[-6:]))
            if len(r["ces"]) >= 3:
                raise Found()

    t0 = time.time()
    try:
        eng.run("e_" + h.entry.name, I, h.entry.nout, assume, on_end)
    except Found:
        pass
    except (Unsupported, Limit, Unknown) as e:
        r["status"] = "inconclusive"
        r["msg"] = "%s: %s" % (type(e).__name__, e)
    except KeyError as e:
        r["status"] = "inconclusive"
        r["msg"] = "internal: " + traceback.format_exc()[-600:]
    r["paths"] = eng.paths
    r["forks"] = eng.forks
    r["merges"] = eng.merges
    r["steps"] = eng.total_steps
    r["fns"] = sorted(eng.fns_used)
    r["solver"] = solver.stats.dict()
    r["wall"] = time.time() - t0
    return r


def validate(h, r, exe, index):
    """witnesses of every kind of path against the native build"""
    jobs = [(index, w[0], h.entry.nout) for w in r["wit"]]
    jobs += [(index, c[0], h.entry.nout) for c in r["ces"]]
    if r["known"] is not None:
        jobs.append((index, r["known"], h.entry.nout))
    nat = run_native(exe, jobs) if jobs else []
    r["validated"] = 0
    k = len(r["wit"])
    for (inp, exp, kind), n in zip(r["wit"], nat):
        if kind == "ok":
            if type(n) is tuple:
                r["status"] = "inconclusive"
                r["msg"] = "translator mismatch: native run crashed on %s: %s" % (inp.hex(), n[1])
                r["ces"], r["known"] = [], None
                return
            if exp is not None and bytes(0 if x is None else x for x in exp) != n:
                r["status"] = "inconclusive"
                r["msg"] = "translator mismatch on %s: %s vs native %s" % (
                    inp.hex(), bytes(0 if x is None else x for x in exp).hex(), n.hex())
                r["ces"], r["known"] = [], None
                return
            r["validated"] += 1
        elif type(n) is tuple:
            r["validated"] += 1
        elif h.panics:
            r["status"] = "inconclusive"
            r["msg"] = "translator mismatch: no native panic on " + inp.hex()
            r["ces"], r["known"] = [], None
            return
    conf = []
    for (inp, what, where), n in zip(r["ces"], nat[k:]):
        bad = judge(h, inp, n)
        conf.append(dict(input=inp.hex(), what=what, where=where, native=(n[1] if type(n) is tuple else n.hex()),
                         labels=bad))
    r["ces"] = conf
    if r["known"] is not None:
        n = nat[-1]
        r["known"] = dict(input=r["known"].hex(), native=(n[1] if type(n) is tuple else n.hex()),
                          labels=judge(h, r["known"], n))
        if not r["known"]["labels"]:
            r["status"] = "inconclusive"
            r["msg"] = "recorded finding did not reproduce natively"


_units = []
_opts = {}


def work(args):
    ui, dep = args
    u = _units[ui]
    t0 = time.time()
    d = os.path.join(_opts["dir"], u.name)
    os.makedirs(d, exist_ok=True)
    src, spans = u.source()
    path = os.path.join(d, u.name + ".rs")
    open(path, "w").write(src)
    res = dict(unit=u.name, src=path, harnesses=[], error=None, compile=None)
    try:
        exe, ll = rb.compile_bin(path, d, dep, "release", u.crates)
    except rb.CompileError as e:
        res["compile"] = blame(e.stderr, spans, path)
        return res
    res["compile_s"] = time.time() - t0
    try:
        mod = Module(ll)
        res["ir_functions"] = len(mod.fn_text)
        os.unlink(ll)
        names = list(u.entries)
        for h in u.harnesses:
            index = names.index(h.entry.name)
            r = run_harness(mod, h, exe, index, _opts)
            if r["status"] == "ok" or r["ces"]:
                validate(h, r, exe, index)
            T.reset()
            r["unit"] = u.name
            r["index"] = index
            r["sample"] = dict(harness=h.name, symbolic_bytes=sum(1 for x in h.inp if type(x) is not int),
                               note=h.note, witness=r["wit"][0][0].hex() if r["wit"] else None,
                               output=(bytes(0 if x is None else x for x in r["wit"][0][1]).hex()
                                       if r["wit"] and r["wit"][0][1] else None))
            del r["wit"]
            res["harnesses"].append(r)
            if _opts["deadline"] and time.time() > _opts["deadline"]:
                res["error"] = "time budget exhausted"
                break
    except Exception:
        res["error"] = traceback.format_exc()
    res["wall"] = time.time() - t0
    return res


def blame(stderr, spans, path):
    lab = {}
    base = os.path.basename(path)
    for m in re.finditer(r"error(?:\[\w+\])?: ([^\n]*)\n\s*--> \S*?%s:(\d+)" % re.escape(base), stderr):
        ln = int(m.group(2))
        for a, b, l in spans:
            if a <= ln <= b:
                lab.setdefault(l, m.group(1))
    return dict(labels=lab, stderr=stderr[-3000:])


def load_known():
    p = os.path.join(rb.ROOT, "KNOWN_FINDINGS.txt")
    out = {}
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\w+) harness=(\S+) (.*)", l.strip())
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


def main(prop, build_units, level="model_checking", assumptions=(), bounds=""):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    thorough = tier == "thorough"
    budget = float(os.environ.get("VP_BUDGET", 3600 * 3 if thorough else 780))
    global _units, _opts
    _units = build_units(tier, seed)
    only = os.environ.get("VP_ONLY")
    if only:
        for u in _units:
            u.harnesses = [h for h in u.harnesses if re.search(only, h.name)]
        _units = [u for u in _units if u.harnesses]
    _opts = dict(dir=os.path.join(rb.BUILD, prop), query_ms=120000 if thorough else 60000,
                 cross=thorough and os.environ.get("VP_CROSS", "1") == "1",
                 deadline=t0 + budget, max_steps=200_000_000)
    os.makedirs(_opts["dir"], exist_ok=True)
    deps = {}
    unbuilt = {}
    try:
        for v in sorted({u.variant for u in _units}):
            try:
                deps[v] = rb.deps(v)
            except rb.BuildError as e:
                # a configuration of the crate that does not build while the default one does
                if v == "std" or rb.VARIANTS[v] is None:
                    raise
                rb.deps("std")
                unbuilt[v] = str(e)
    except rb.BuildError as e:
        print("ERROR: " + str(e))
        return 2
    _units = [u for u in _units if u.variant not in unbuilt]
    t_deps = time.time() - t0
    order = sorted(range(len(_units)), key=lambda k: -_units[k].weight())
    ctx = mp.get_context("fork")
    with ctx.Pool(max(1, min(8, len(_units))), maxtasksperchild=1) as pool:
        results = pool.map(work, [(k, deps[_units[k].variant]) for k in order], chunksize=1)

    known = load_known()
    violations = [dict(harness="configuration:" + v, unit=v, src=None, stderr=e, what="the crate builds in its default configuration but not "
                       "with " + (rb.VARIANTS[v][0] or v)) for v, e in unbuilt.items()]
    errors = []
    kf = []
    st = Stats()
    tot = dict(paths=0, steps=0, forks=0, merges=0, validated=0, obligations=0, folded=0, ok=0)
    fns = set()
    samples = []
    nh = 0
    byname = {u.name: u for u in _units}
    confirm = []
    for res in results:
        u = byname[res["unit"]]
        if res["compile"] is not None:
            c = res["compile"]
            if not c["labels"] or u.internal:
                errors.append("unit %s does not compile:\n%s" % (res["unit"], c["stderr"]))
            else:
                l, m = next(iter(c["labels"].items()))
                violations.append(dict(harness="compile:" + l, unit=res["unit"], src=res["src"], what=
                                       "a declaration that uses only documented forms no longer compiles: %s: %s" % (l, m),
                                       stderr=c["stderr"]))
            continue
        if res["error"]:
            errors.append("%s: %s" % (res["unit"], res["error"]))
        hs = {h.name: h for h in u.harnesses}
        for r in res["harnesses"]:
            nh += 1
            st.add(r["solver"])
            tot["paths"] += r["paths"]
            tot["steps"] += r["steps"]
            tot["forks"] += r["forks"]
            tot["merges"] += r["merges"]
            tot["validated"] += r.get("validated", 0)
            tot["obligations"] += r["obligations"]
            tot["folded"] += r["folded"]
            tot["ok"] += r["ok"]
            fns.update(r["fns"])
            if len(samples) < 12 or (nh % 97 == 0 and len(samples) < 30):
                samples.append(dict(r["sample"], paths=r["paths"], ir_instructions=r["steps"],
                                    assertions=r["obligations"]))
            if r["status"] != "ok":
                errors.append("%s: %s" % (r["name"], r["msg"]))
            elif not r["ok"] and not r["ces"]:
                errors.append("%s: vacuous (no completed path)" % r["name"])
            for ce in r["ces"]:
                confirm.append((u, hs[r["name"]], r["index"], ce, res["src"]))
            if r["known"] is not None:
                if (prop, r["name"]) in known:
                    kf.append((r["name"], known[(prop, r["name"])], r["known"]))
                else:
                    confirm.append((u, hs[r["name"]], r["index"], dict(r["known"], what="assertion", where=[]), res["src"]))
    # counterexamples must reproduce in a build users run
    exes = {}
    seen = set()
    for u, h, index, ce, src in confirm:
        if h.name in seen:
            continue
        if len(violations) >= 20:
            break
        got = {}
        for prof in ("dev", "plain"):
            if (u.name, prof) not in exes:
                try:
                    dep = rb.deps(u.variant, prof)
                    exes[(u.name, prof)] = rb.compile_bin(src, os.path.join(_opts["dir"], u.name, prof), dep, prof,
                                                          u.crates, emit_ir=False)[0]
                except (rb.BuildError, rb.CompileError) as e:
                    exes[(u.name, prof)] = None
                    errors.append("replay build failed: %s" % getattr(e, "stderr", e)[-500:])
            exe = exes[(u.name, prof)]
            if exe:
                inp = bytes.fromhex(ce["input"])
                n = run_native(exe, [(index, inp, h.entry.nout)])[0]
                bad = judge(h, inp, n)
                if bad:
                    got[prof] = dict(outcome=n[1] if type(n) is tuple else n.hex(), violated=bad)
        if got:
            seen.add(h.name)
            violations.append(dict(harness=h.name, unit=u.name, src=src, entry=h.entry.name, note=h.note,
                                   input=ce["input"], what=ce["what"], where=ce["where"], replay=got))
        else:
            errors.append("%s: counterexample %s (%s) does not reproduce natively" % (h.name, ce["input"], ce["what"]))

    rep = os.path.join(rb.BUILD, "replays")
    os.makedirs(rep, exist_ok=True)
    for k, v in enumerate(violations):
        p = os.path.join(rep, "%s-%d.json" % (prop, k))
        v["property"], v["tier"], v["seed"] = prop, tier, seed
        v["source"] = open(v["src"]).read() if k == 0 and v["src"] else None
        json.dump(v, open(p, "w"), indent=1)
        v["path"] = p
    wall = time.time() - t0
    ev = dict(
        property=prop, tier=tier, seed=seed, level=level,
        coverage=dict(
            states=tot["paths"] + tot["forks"], transitions=tot["steps"],
            traces_validated_against_impl=tot["validated"], samples=samples,
            harnesses=nh, units=len(_units), symbolic_paths=tot["paths"], completed_paths=tot["ok"],
            path_merges=tot["merges"],
            assertions=tot["obligations"], assertions_constant_after_execution=tot["folded"],
            solver_queries=st.queries, solver_unsat=st.unsat, solver_sat=st.sat,
            solver_seconds=round(st.seconds, 2), queries_confirmed_by_cvc5=st.cross,
            functions_encoded=len(fns),
            functions_encoded_of_repo=sorted(repo_fns(fns))[:400],
            bounds=bounds, build_seconds=round(t_deps, 1), known_findings=len(kf),
            errors=len(errors), tree_sha256=rb.tree_hash()),
        assumptions=list(assumptions), wall_s=round(wall, 2), violations=len(violations))
    os.makedirs(os.path.join(rb.ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(rb.ROOT, "evidence", prop + ".json"), "w"), indent=1)
    for n, what, k in kf:
        print("KNOWN-FINDING: property=%s harness=%s %s" % (prop, n, what))
    print("%s: %d harnesses, %d paths, %d IR instructions, %d queries (%.1f s), %d assertions, %d native replays, %.1f s"
          % (prop, nh, tot["paths"], tot["steps"], st.queries, st.seconds, tot["obligations"], tot["validated"], wall))
    for v in violations:
        print("  %s [%s] input=%s %s" % (v["harness"], v["what"][:200], v.get("input"),
                                        {k: x["violated"][:3] for k, x in v.get("replay", {}).items()}))
    if os.environ.get("VP_SLOW"):
        for r in sorted((r for x in results for r in x["harnesses"]), key=lambda r: -r["wall"])[:25]:
            print("  slow %s %.1f s, %d paths, %d queries, %d steps" % (r["name"], r["wall"], r["paths"], r["solver"]["queries"], r["steps"]))
    for e in errors[:10]:
        print("  ERROR " + e[:1500])
    if violations:
        for v in violations[:5]:
            print("VIOLATION property=%s replay=%s" % (prop, v["path"]))
        return 1
    if errors:
        return 2
    return 0


def repo_fns(fns):
    out = set()
    for f in fns:
        if f.startswith("e_"):
            out.add(f)
        elif "packed_struct" in f or "PackedStruct" in f:
            m = demangle(f)
            out.add(m)
    return out


def demangle(n):
    parts = re.findall(r"\d+_?([A-Za-z_]\w*)", n)
    return n[:140]
