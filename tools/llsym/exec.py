"""Symbolic executor for LLVM IR.

Explores every feasible path of one entry function `void f(ptr in, ptr out)`
whose input bytes are symbolic.  Branch feasibility and all verdicts come from
the SMT solver.  Anything the executor does not model raises Unsupported: the
run is then inconclusive, never a success.
"""
import sys
import time
from . import terms as T
from .terms import Term, mask
from .ir import (Unsupported, Fx, PTR, VOID, I, size_align, store_size, bits_of,
                 field_offsets, zero, undef)
from .solve import Unknown
from .cfg import Cfg

M64 = (1 << 64) - 1
HEAP0 = 0x7000_0000_0000


class Limit(Exception):
    pass


class EndPath(Exception):
    def __init__(self, kind, msg=""):
        self.kind = kind
        self.msg = msg


class Frame:
    __slots__ = ("fn", "code", "idx", "block", "regs", "dest", "allocas", "normal")


class State:
    __slots__ = ("frames", "mem", "owned", "pc", "model", "memo", "known", "steps", "depth", "models", "sub", "smemo")

    def clone(self):
        s = State()
        s.frames = []
        for f in self.frames:
            g = Frame()
            g.fn, g.code, g.idx, g.block, g.dest, g.normal = f.fn, f.code, f.idx, f.block, f.dest, f.normal
            g.regs = dict(f.regs)
            g.allocas = list(f.allocas)
            s.frames.append(g)
        s.mem = dict(self.mem)
        s.owned = set()
        self.owned = set()
        s.pc = list(self.pc)
        s.model = self.model
        s.memo = self.memo
        s.known = dict(self.known)
        s.steps = self.steps
        s.depth = self.depth
        s.models = []
        s.sub = dict(self.sub)
        s.smemo = dict(self.smemo)
        return s


class Stop0(Exception):
    """the state was replaced by others on the work list"""


class Stop(Exception):
    """the state reached the join point of the branch being explored"""


class PathResult:
    __slots__ = ("kind", "msg", "pc", "model", "models", "out", "where", "sub")


class Engine:
    def __init__(self, mod, solver, max_paths=20000, max_steps=20_000_000, deadline=None,
                 max_fork_values=300):
        self.mod = mod
        self.solver = solver
        self.max_paths = max_paths
        self.max_steps = max_steps
        self.deadline = deadline
        self.max_fork_values = max_fork_values
        self.page = {}
        self.rsize = {}
        self.rname = {}
        self.ronly = set()
        self.next = HEAP0
        self.undef_n = 0
        self.total_steps = 0
        self.paths = 0
        self.forks = 0
        self.fns_used = set()
        self.merges = 0
        self.merge = True
        self.symptr = False     # keep selected pointers symbolic
        self.pin = 0            # so many first output bytes are kept concrete (forking on them)
        self.apart = None       # fn(a, b) -> True: keep these two states apart
        self.heapfork = False   # fork on symbolic heap addresses and keep such paths apart
        self.stop = None
        self.cfgs = {}
        self.work = []
        self.disp = {k[3:]: getattr(self, k) for k in dir(self) if k.startswith("op_")}

    # ---------------------------------------------------------------- memory
    def alloc(self, st, size, init=None, name="heap"):
        base = self.next
        pages = (size + 4095) // 4096 + 1
        self.next += (pages + 1) * 4096
        for p in range(base >> 12, (base >> 12) + pages):
            self.page[p] = base
        self.rsize[base] = size
        self.rname[base] = name
        st.mem[base] = [init] * size
        st.owned.add(base)
        return base

    def base_of(self, addr):
        p = addr >> 12
        b = self.page.get(p)
        if b is None:
            # module globals register lazily
            for a, (name, size, mem, const) in list(self.mod.glob_regions.items()):
                if a not in self.rsize:
                    self.rsize[a] = size
                    self.rname[a] = name
                    if const:
                        self.ronly.add(a)
                    for q in range(a >> 12, ((a + max(size, 1) - 1) >> 12) + 1):
                        self.page[q] = a
            b = self.page.get(p)
        return b

    def region(self, st, addr, n, what):
        b = self.base_of(addr)
        if b is None or addr < b or addr + n > b + self.rsize[b]:
            raise EndPath("memory", "%s of %d byte(s) outside any object (%s)" % (
                what, n, "%s+%d of %d" % (self.rname[b], addr - b, self.rsize[b]) if b else hex(addr)))
        m = st.mem.get(b, 0)
        if m == 0 and type(m) is int:
            g = self.mod.glob_regions.get(b)
            if g is None:
                raise EndPath("memory", "%s of dead object %s" % (what, self.rname[b]))
            m = g[2]
        elif m is None:
            raise EndPath("memory", "%s after free" % what)
        return b, m

    def wregion(self, st, addr, n):
        b, m = self.region(st, addr, n, "write")
        if b in self.ronly:
            raise EndPath("memory", "write to constant " + self.rname[b])
        if b not in st.owned:
            m = list(m)
            st.mem[b] = m
            st.owned.add(b)
        return b, m

    def read_bytes(self, st, addr, n):
        if n == 0:
            return []
        b, m = self.region(st, addr, n, "read")
        o = addr - b
        return m[o:o + n]

    def write_bytes(self, st, addr, bs):
        if not bs:
            return
        b, m = self.wregion(st, addr, len(bs))
        o = addr - b
        m[o:o + len(bs)] = bs

    def fresh(self, w):
        self.undef_n += 1
        return T.var("undef!%d" % self.undef_n, w)

    def join(self, bs, w):
        """little-endian bytes -> value of width w"""
        acc = 0
        for i, x in enumerate(bs):
            if type(x) is not int:
                break
            acc |= x << (8 * i)
        else:
            return acc & mask(w)
        if all(x is None for x in bs):
            return None
        bs = [self.fresh(8) if x is None else x for x in bs]
        v = T.concat(*[(x, 8) for x in reversed(bs)])
        if w != 8 * len(bs):
            v = T.extract(v, w - 1, 0)
        return v

    def split(self, v, w):
        n = (w + 7) // 8
        if v is None:
            return [None] * n
        if type(v) is int:
            return [(v >> (8 * i)) & 255 for i in range(n)]
        if w != 8 * n:
            v = T.zext(w, 8 * n, v)
        return [T.extract(v, 8 * i + 7, 8 * i, True) for i in range(n)]

    def to_bytes(self, ty, v):
        k = ty[0]
        if k == "i":
            return self.split(v, ty[1])
        if k == "ptr":
            return self.split(v, 64)
        n = size_align(ty)[0]
        if v is None:
            return [None] * n
        out = [None] * n
        if k == "vec":
            eb = bits_of(ty[2])
            if eb % 8:
                tot = T.concat(*[(self.u(x, eb), eb) for x in reversed(v)])
                return self.split(tot, eb * ty[1])
            for i in range(ty[1]):
                out[i * eb // 8:(i + 1) * eb // 8] = self.split(v[i], eb)
            return out
        if k == "arr":
            es = size_align(ty[2])[0]
            for i in range(ty[1]):
                x = v[i]
                bs = self.to_bytes(ty[2], x)
                out[i * es:i * es + len(bs)] = bs
            return out
        if k == "st":
            for i, (t, o) in enumerate(zip(ty[1], field_offsets(ty))):
                bs = self.to_bytes(t, v[i])
                out[o:o + len(bs)] = bs
            return out
        raise Unsupported("store " + str(ty))

    def from_bytes(self, ty, bs):
        k = ty[0]
        if k == "i":
            return self.join(bs, ty[1])
        if k == "ptr":
            return self.join(bs, 64)
        if k == "vec":
            eb = bits_of(ty[2])
            if eb % 8:
                v = self.join(bs, 8 * len(bs))
                v = self.u(v, 8 * len(bs))
                return tuple(T.extract(v, (i + 1) * eb - 1, i * eb) for i in range(ty[1]))
            s = eb // 8
            return tuple(self.join(bs[i * s:(i + 1) * s], eb) for i in range(ty[1]))
        if k == "arr":
            es = size_align(ty[2])[0]
            ss = store_size(ty[2])
            return tuple(self.from_bytes(ty[2], bs[i * es:i * es + ss]) for i in range(ty[1]))
        if k == "st":
            return tuple(self.from_bytes(t, bs[o:o + store_size(t)]) for t, o in zip(ty[1], field_offsets(ty)))
        raise Unsupported("load " + str(ty))

    def u(self, v, w):
        return self.fresh(w) if v is None else v

    # -------------------------------------------------------------- deciding
    def decide(self, st, c):
        """Concrete truth value of a 1-bit term on this path; forks when both are feasible."""
        if self.heapfork:
            c = self.simp(st, c)
        if type(c) is int:
            return c
        k = st.known.get(c.id)
        if k is not None:
            return k
        if c.op == "xor" and type(c.a[1]) is int:
            return 1 - self.decide(st, c.a[0])
        v = T.evaluate(c, st.model, st.memo)
        other = T.bnot(c) if v else c
        m = self.solver.check(st.pc + [other])
        if m is None:
            st.known[c.id] = v
            return v
        self.forks += 1
        if self.deadline and time.time() > self.deadline:
            raise Limit("time limit")
        o = st.clone()
        o.pc.append(other)
        o.model = m
        o.memo = {}
        o.known[c.id] = 1 - v
        o.depth += 1
        self.work.append(o)
        st.pc.append(c if v else T.bnot(c))
        st.known[c.id] = v
        st.depth += 1
        return v

    def simp(self, st, t):
        """t with what is known on this path filled in"""
        return T.substitute(t, st.sub, st.smemo, st.known)

    def split_heap(self, st, a, n, what):
        """Fork over the values of a symbolic heap address, and of everything it is made of."""
        a = self.simp(st, a)
        if type(a) is int:
            return a
        b = self.base_of(T.evaluate(a, st.model, st.memo))
        if b is None or self.rname[b] != "heap" or len(T.variables(a)) > 8:
            return a
        for c in T.choices(a):
            self.decide(st, c)
        st.smemo = {}
        a = self.simp(st, a)
        if type(a) is int:
            return a
        self.sym_region(st, a, n, what)
        r = self.concretize(st, a, 64)
        self.pin_vars(st, a)
        return r

    def pin_vars(self, st, t):
        """note the variables of t that have only one value left on this path"""
        for v in T.variable_terms(t):
            x = T.evaluate(v, st.model, st.memo)
            if v.a[0] not in st.sub and self.solver.check(st.pc + [T.bnot(T.eq(v.w, v, x))]) is None:
                st.sub[v.a[0]] = x
                st.smemo = {}

    def concretize(self, st, t, w):
        """Fork over the feasible values of t."""
        if type(t) is int:
            return t
        if t is None:
            raise Unsupported("concretising an uninitialised value")
        n = 0
        while True:
            v = T.evaluate(t, st.model, st.memo)
            if self.decide(st, T.eq(w, t, v)):
                return v
            n += 1
            if n > self.max_fork_values:
                raise Limit("too many values for a symbolic address/size")

    # ------------------------------------------------- symbolic memory access
    def sym_region(self, st, a, n, what):
        """Restrict path so that address term a stays in the object the model points to."""
        va = T.evaluate(a, st.model, st.memo)
        b = self.base_of(va)
        if b is None or va < b or va + n > b + self.rsize[b]:
            # is there any feasible value inside an object? report the bad one
            raise EndPath("memory", "%s of %d byte(s) outside any object" % (what, n))
        size = self.rsize[b]
        off = T.sub(64, a, b)
        inside = T.ule(64, off, size - n)
        if not self.decide(st, inside):
            raise EndPath("memory", "%s out of bounds of %s" % (what, self.rname[b]))
        return b, off, size

    def offsets(self, st, off, size, n):
        """feasible concrete offsets, cheaply over-approximated by known zero low bits"""
        step = 1
        if off.op == "concat":
            x, xw = off.a[0][-1]
            if type(x) is int and x == 0:
                step = 1 << xw
        hi = size - n
        if off.op == "concat" and type(off.a[0][0][0]) is int and off.a[0][0][0] == 0:
            hi = min(hi, mask(64 - off.a[0][0][1]))
        return range(0, hi + 1, step)

    def leaves(self, t, cap=12):
        """[(condition, concrete address)] of a choice between constants, else None"""
        if type(t) is int:
            return [(1, t)]
        if type(t) is not Term:
            return None
        if t.op == "ite":
            a, b = self.leaves(t.a[1], cap), self.leaves(t.a[2], cap)
            if a is None or b is None or len(a) + len(b) > cap:
                return None
            c = t.a[0]
            return [(T.and_(1, c, k), v) for k, v in a] + [(T.and_(1, T.bnot(c), k), v) for k, v in b]
        if t.op == "add" and type(t.a[1]) is int:
            a = self.leaves(t.a[0], cap)
            return None if a is None else [(k, (v + t.a[1]) & M64) for k, v in a]
        return None

    def choice(self, st, a, n):
        """leaves of a symbolic pointer that may be followed (n bytes), or None"""
        if not self.symptr:
            return None
        ls = self.leaves(a)
        if ls is None:
            return None
        out = []
        for c, v in ls:
            if type(c) is int and not c:
                continue
            try:
                self.region(st, v, n, "read")
            except EndPath:
                if self.solver.check(st.pc + [c]) is None:
                    continue
                if self.decide(st, c):
                    raise
                continue
            out.append((c, v))
        return out

    def load(self, st, ty, a):
        n = store_size(ty)
        if type(a) is not int and self.heapfork:
            a = self.split_heap(st, a, n, "read")
        if type(a) is not int and ty[0] in ("i", "ptr"):
            ls = self.choice(st, a, n)
            if ls:
                w = bits_of(ty)
                r = self.u(self.load(st, ty, ls[-1][1]), w)
                for c, v in reversed(ls[:-1]):
                    r = T.ite(w, c, self.u(self.load(st, ty, v), w), r)
                return r
        if type(a) is int:
            if n == 0:
                return zero(ty)
            b, m = self.region(st, a, n, "read")
            o = a - b
            return self.from_bytes(ty, m[o:o + n])
        b, off, size = self.sym_region(st, a, n, "read")
        offs = self.offsets(st, off, size, n)
        if ty[0] not in ("i", "ptr") or len(offs) > 1100:
            a = self.concretize(st, a, 64)
            return self.load(st, ty, a)
        _, m = self.region(st, b, size, "read")
        w = bits_of(ty)
        vals = []
        for o in offs:
            v = self.join(m[o:o + n], w)
            vals.append((o, self.u(v, w)))
        # group equal values to keep the chain short
        r = vals[-1][1]
        for o, v in reversed(vals[:-1]):
            r = T.ite(w, T.eq(64, off, o), v, r)
        return r

    def store(self, st, ty, v, a):
        bs = self.to_bytes(ty, v)
        bs = bs[:store_size(ty)]
        n = len(bs)
        if type(a) is not int and self.heapfork:
            a = self.split_heap(st, a, n, "write")
        if type(a) is int:
            self.write_bytes(st, a, bs)
            return
        b, off, size = self.sym_region(st, a, n, "write")
        offs = self.offsets(st, off, size, n)
        if len(offs) * n > 600:
            a = self.concretize(st, a, 64)
            self.write_bytes(st, a, bs)
            return
        _, m = self.wregion(st, b, size)
        conds = {o: T.eq(64, off, o) for o in offs}
        for o in offs:
            for i in range(n):
                old = m[o + i]
                new = self.u(bs[i], 8)
                m[o + i] = T.ite(8, conds[o], new, self.u(old, 8))

    # ------------------------------------------------------------------- run
    def run(self, fname, inp, out_len, assume, on_end):
        """inp: list of ints / 8-bit terms; assume: list of conditions."""
        f = self.mod.fn(fname)
        st = State()
        st.frames = []
        st.mem = {}
        st.owned = set()
        st.pc = [c for c in assume if type(c) is not int]
        if any(type(c) is int and not c for c in assume):
            raise Unsupported("vacuous harness: assumption is false")
        m = self.solver.check(st.pc)
        if m is None:
            raise Unsupported("vacuous harness: assumptions unsatisfiable")
        st.model = m
        st.memo = {}
        st.known = {}
        st.sub = {}
        st.smemo = {}
        st.steps = 0
        st.depth = 0
        bi = self.alloc(st, len(inp), 0, "input buffer")
        st.mem[bi] = list(inp)
        bo = self.alloc(st, out_len, 0, "output buffer")
        self.push(st, f, [bi, bo], None, None)
        st.models = []
        self.bo = bo
        self.on_end = on_end
        self.explore([st], None)

    def explore(self, states, stop):
        """run the states to the stop point (frame depth, block) or to their end; -> those that stopped"""
        saved = self.work, self.stop
        self.work = list(states)
        out = []
        try:
            while self.work:
                st = self.work.pop()
                self.stop = stop
                kind, msg = "ok", ""
                try:
                    if stop is not None and len(st.frames) == stop[0] and st.frames[-1].block == stop[1]:
                        raise Stop()
                    self.loop(st)
                except Stop:
                    out.append(st)
                    continue
                except Stop0:
                    continue
                except EndPath as e:
                    kind, msg = e.kind, e.msg
                self.paths += 1
                if self.paths > self.max_paths:
                    raise Limit("path limit")
                r = PathResult()
                r.kind, r.msg, r.pc, r.model = kind, msg, st.pc, st.model
                r.models = [st.model]
                for m in st.models:
                    if m is not st.model:
                        memo = {}
                        if all(T.evaluate(c, m, memo) for c in st.pc):
                            r.models.append(m)
                r.where = [fr.fn.name for fr in st.frames]
                r.out = list(st.mem[self.bo])
                r.sub = st.sub
                if self.heapfork:
                    r.out = [x if x is None else self.simp(st, x) for x in r.out]
                self.on_end(r)
        finally:
            self.work, self.stop = saved
        return out

    def branch(self, st, fr, targets):
        """targets: [(condition, label)], exclusive and exhaustive; the state continues at the label(s) that are feasible"""
        feas = []
        for c, l in targets:
            if type(c) is int:
                if c:
                    return self.goto(st, fr, l)
                continue
            if self.heapfork:
                c = self.simp(st, c)
                if type(c) is int:
                    if c:
                        return self.goto(st, fr, l)
                    continue
            k = st.known.get(c.id)
            if k == 1:
                return self.goto(st, fr, l)
            if k == 0:
                continue
            feas.append((c, l))
        here = None
        alive = []
        for c, l in feas:
            if here is None and T.evaluate(c, st.model, st.memo):
                here = (c, l)
                alive.append((c, l, st.model, st.memo))
                continue
            m = self.solver.check(st.pc + [c])
            if m is None:
                st.known[c.id] = 0
            else:
                alive.append((c, l, m, {}))
        if len(alive) == 1:
            st.known[alive[0][0].id] = 1
            return self.goto(st, fr, alive[0][1])
        if self.deadline and time.time() > self.deadline:
            raise Limit("time limit")
        f = fr.fn
        cf = self.cfgs.get(f.name)
        if cf is None and self.merge:
            cf = self.cfgs[f.name] = Cfg(self.mod, f)
        join = cf.ipdom.get(fr.block) if self.merge else None
        states = []
        for c, l, m, memo in alive:
            o = st.clone()
            o.pc.append(c)
            o.model, o.memo = m, memo
            o.known[c.id] = 1
            o.depth += 1
            states.append((o, l))
        self.forks += len(alive) - 1
        n = len(st.pc)
        if join is None:
            for o, l in states:
                self.goto(o, o.frames[-1], l, False)
                self.work.append(o)
            states[0][0].models = st.models
            raise Stop0()
        stop = (len(st.frames), join)
        for o, l in states:
            self.goto(o, o.frames[-1], l, False)
        got = self.explore([o for o, _ in reversed(states)], stop)
        if not got:
            raise Stop0()
        merged = [got[0]]
        for o in got[1:]:
            m = self.join2(merged[-1], o, n, cf, join)
            if m is None:
                merged.append(o)
            else:
                merged[-1] = m
        merged[0].models = (merged[0].models + st.models)[:24]
        # continue with the merged state(s) under the enclosing stop
        self.work.extend(merged)
        raise Stop0()

    def join2(self, a, b, n, cf, join):
        """one state for both, or None"""
        if self.apart is not None and self.apart(a, b):
            return None
        if a.sub != b.sub:
            return None
        fa, fb = a.frames[-1], b.frames[-1]
        ca = T.land(*a.pc[n:])
        cb = T.land(*b.pc[n:])
        todo = []
        regs = {}
        phi = {i[1]: i[2] for i in cf.f.blocks[join].phis}
        for r, x in fa.regs.items():
            if r not in fb.regs:
                continue
            y = fb.regs[r]
            if x is y or (type(x) is int and type(y) is int and x == y):
                regs[r] = x
                continue
            if r not in phi:
                d = cf.defs.get(r)
                if d is not None and not cf.strictly_dominates(d, join):
                    continue
                ty = cf.types.get(r)
            else:
                ty = phi[r]
            if x is None:
                regs[r] = y
                continue
            if y is None:
                regs[r] = x
                continue
            if ty is not None and ty[0] == "ptr" and self.symptr and self.leaves(x) and self.leaves(y):
                todo.append((r, ty, x, y))
                continue
            if ty is None or ty[0] in ("float", "double") or ty[0] == "ptr" or ty[0] == "st" and any(t[0] == "ptr" for t in ty[1]):
                return None
            todo.append((r, ty, x, y))
        memo = []
        for base, x in a.mem.items():
            y = b.mem.get(base)
            if x is y:
                continue
            if base not in b.mem:
                g = self.mod.glob_regions.get(base)
                if g is None:
                    continue        # allocated on one side only
                y = g[2]
            if type(x) is not list or type(y) is not list:
                # freed on one side only: the two states stay apart
                if x is None and y is None or x == 0 or y == 0:
                    continue
                return None
            if len(x) != len(y):
                return None
            diff = [k for k in range(len(x)) if x[k] is not y[k] and not (type(x[k]) is int and x[k] == y[k] and type(y[k]) is int)]
            if diff:
                memo.append((base, x, y, diff))
        if sum(len(d) for _, _, _, d in memo) > 20000:
            return None
        for r, ty, x, y in todo:
            regs[r] = self.sel(a, ca, ty, x, y)
        for base, x, y, diff in memo:
            z = list(x)
            for k in diff:
                p, q = x[k], y[k]
                z[k] = q if p is None else p if q is None else T.ite(8, ca, p, q)
            a.mem[base] = z
            a.owned.add(base)
        for base, y in b.mem.items():
            if base not in a.mem:
                g = self.mod.glob_regions.get(base)
                if g is not None:
                    y = [q if p is q or p == q and type(p) is int and type(q) is int else
                         q if p is None else p if q is None else T.ite(8, ca, p, q)
                         for p, q in zip(g[2], y)]
                    a.owned.add(base)
                else:
                    a.owned.discard(base)
                a.mem[base] = y
        fa.regs = regs
        a.pc = a.pc[:n]
        k = 0
        # common part, then the disjunction unless it is a tautology
        alt = 1 if (ca is T.bnot(cb) or cb is T.bnot(ca)) else T.or_(1, ca, cb)
        if type(alt) is not int:
            a.pc.append(alt)
        a.known = {k: v for k, v in a.known.items() if b.known.get(k) == v}
        a.smemo = {}
        a.models = (a.models + [b.model] + b.models)[:24]
        self.merges += 1
        return a

    def push(self, st, f, args, dest, normal):
        if f.blocks is None:
            raise Unsupported("call of external function " + f.name)
        if len(st.frames) > 400:
            raise Limit("call depth")
        self.fns_used.add(f.name)
        fr = Frame()
        fr.fn = f
        fr.regs = {}
        for (nm, t), v in zip(f.params, args):
            fr.regs[nm] = v
        fr.dest = dest
        fr.normal = normal
        fr.allocas = []
        fr.block = None
        st.frames.append(fr)
        self.goto(st, fr, f.entry)

    def goto(self, st, fr, label, check=True):
        b = fr.fn.blocks[label]
        if b.code is None:
            b.compile(self.mod)
        if b.phis:
            prev = fr.block
            regs = fr.regs
            vals = []
            for ins in b.phis:
                v = ins[3][prev]
                if type(v) is str:
                    v = regs[v]
                vals.append(v)
            for ins, v in zip(b.phis, vals):
                regs[ins[1]] = v
        fr.block = label
        fr.code = b.code
        fr.idx = 0
        if check and self.stop is not None and label == self.stop[1] and len(st.frames) == self.stop[0]:
            raise Stop()

    def loop(self, st):
        disp = self.disp
        steps = 0
        try:
            while st.frames:
                fr = st.frames[-1]
                ins = fr.code[fr.idx]
                steps += 1
                disp[ins[0]](st, fr, ins)
                if not steps & 0xFFFF:
                    if self.total_steps + steps > self.max_steps:
                        raise Limit("step limit")
                    if self.deadline and time.time() > self.deadline:
                        raise Limit("time limit")
        finally:
            self.total_steps += steps

    # ----------------------------------------------------------- instructions
    def op_bin(self, st, fr, ins):
        _, d, op, ty, a, b = ins
        regs = fr.regs
        if type(a) is str:
            a = regs[a]
        if type(b) is str:
            b = regs[b]
        if ty[0] == "i":
            w = ty[1]
            if a is None:
                a = self.fresh(w)
            if b is None:
                b = self.fresh(w)
            regs[d] = self.binop(st, op, w, a, b)
        elif ty[0] == "vec":
            w = ty[2][1]
            a = a if a is not None else (None,) * ty[1]
            b = b if b is not None else (None,) * ty[1]
            regs[d] = tuple(self.binop(st, op, w, self.u(x, w), self.u(y, w)) for x, y in zip(a, b))
        else:
            raise Unsupported("binop on " + str(ty))
        fr.idx += 1

    def binop(self, st, op, w, a, b):
        if op in ("udiv", "sdiv", "urem", "srem"):
            if self.decide(st, T.eq(w, b, 0)):
                raise EndPath("panic", "division by zero")
        return T.BIN[op](w, a, b)

    def op_icmp(self, st, fr, ins):
        _, d, pred, ty, a, b = ins
        regs = fr.regs
        if type(a) is str:
            a = regs[a]
        if type(b) is str:
            b = regs[b]
        if ty[0] == "vec":
            w = bits_of(ty[2])
            regs[d] = tuple(self.icmp(pred, w, self.u(x, w), self.u(y, w)) for x, y in zip(a, b))
        else:
            w = 64 if ty[0] == "ptr" else ty[1]
            if a is None:
                a = self.fresh(w)
            if b is None:
                b = self.fresh(w)
            regs[d] = self.icmp(pred, w, a, b)
        fr.idx += 1

    def icmp(self, p, w, a, b):
        if p == "eq":
            return T.eq(w, a, b)
        if p == "ne":
            return T.bnot(T.eq(w, a, b))
        if p == "ult":
            return T.ult(w, a, b)
        if p == "ule":
            return T.ule(w, a, b)
        if p == "ugt":
            return T.ult(w, b, a)
        if p == "uge":
            return T.ule(w, b, a)
        if p == "slt":
            return T.slt(w, a, b)
        if p == "sle":
            return T.sle(w, a, b)
        if p == "sgt":
            return T.slt(w, b, a)
        return T.sle(w, b, a)

    # floating point: exact nonnegative values with a power-of-two denominator only
    def fx(self, st, ty, v):
        """Fx of a float operand, exact in its type"""
        if type(v) is int and v == 0:
            return Fx(0, 0)
        if type(v) is not Fx:
            raise Unsupported("floating-point value")
        return v

    def fx_make(self, st, ty, t, s):
        p = 24 if ty[0] == "float" else 53
        hi = T.rng(t)[1]
        if hi >> 64:
            raise Unsupported("floating-point range")
        if hi < 1 << p:
            return Fx(t, s)
        t = self.concretize(st, t, 64)
        while not t & 1 and s > -900:
            t >>= 1
            s -= 1
        if t.bit_length() > p:
            k = t.bit_length() - p        # round to nearest, ties to even
            half = 1 << (k - 1)
            low = t & ((1 << k) - 1)
            t >>= k
            if low > half or low == half and t & 1:
                t += 1
            s -= k
        if s < 0:
            t, s = t << -s, 0
        return Fx(t, s)

    def op_fbin(self, st, fr, ins):
        _, d, op, ty, a, b = ins
        a = fr.regs[a] if type(a) is str else a
        b = fr.regs[b] if type(b) is str else b
        a, b = self.fx(st, ty, a), self.fx(st, ty, b)
        if op == "fdiv":
            if type(b.t) is not int or b.t == 0 or b.t & (b.t - 1):
                raise Unsupported("floating-point division")
            k = b.t.bit_length() - 1
            fr.regs[d] = self.fx_norm(st, ty, a.t, a.s + k - b.s)
        elif op == "fmul":
            if T.rng(a.t)[1] * T.rng(b.t)[1] >> 64:
                raise Unsupported("floating-point range")
            fr.regs[d] = self.fx_norm(st, ty, T.mul(64, a.t, b.t), a.s + b.s)
        else:
            s = max(a.s, b.s)
            x, y = self.fx_up(a, s), self.fx_up(b, s)
            if op == "fsub" and T.rng(x)[0] < T.rng(y)[1]:
                raise Unsupported("floating-point sign")
            fr.regs[d] = self.fx_norm(st, ty, (T.add if op == "fadd" else T.sub)(64, x, y), s)
        fr.idx += 1

    def fx_up(self, a, s):
        if T.rng(a.t)[1] << (s - a.s) >> 63:
            raise Unsupported("floating-point range")
        return T.mul(64, a.t, 1 << (s - a.s))

    def fx_norm(self, st, ty, t, s):
        if s < 0:
            if T.rng(t)[1] << -s >> 64:
                raise Unsupported("floating-point range")
            t, s = T.mul(64, t, 1 << -s), 0
        return self.fx_make(st, ty, t, s)

    def fx_int(self, a, up):
        """floor or ceiling"""
        if a.s >= 63:
            raise Unsupported("floating-point range")
        t = a.t
        if up:
            if T.rng(t)[1] + (1 << a.s) >> 64:
                raise Unsupported("floating-point range")
            t = T.add(64, t, (1 << a.s) - 1)
        return T.lshr(64, t, a.s)

    def op_fcast(self, st, fr, ins):
        _, d, op, ft, v, tt = ins
        v = fr.regs[v] if type(v) is str else v
        if op in ("uitofp", "sitofp"):
            w = bits_of(ft)
            v = self.u(v, w)
            if w > 64 or op == "sitofp" and T.rng(v)[1] >> (w - 1):
                raise Unsupported("floating-point conversion")
            r = self.fx_make(st, tt, T.zext(w, 64, v) if w < 64 else v, 0)
        elif op in ("fptoui", "fptosi"):
            r = self.fx_toint(self.fx(st, ft, v), bits_of(tt), op == "fptosi")
        elif op == "fpext":
            r = self.fx(st, ft, v)
        else:
            x = self.fx(st, ft, v)
            r = self.fx_make(st, tt, x.t, x.s)
        fr.regs[d] = r
        fr.idx += 1

    def fx_toint(self, a, w, signed):
        t = self.fx_int(a, False)
        if T.rng(t)[1] >> (w - (1 if signed else 0)):
            raise Unsupported("floating-point conversion out of range")
        return T.extract(t, w - 1, 0)

    def op_fcmp(self, st, fr, ins):
        _, d, pred, ty, a, b = ins
        a = fr.regs[a] if type(a) is str else a
        b = fr.regs[b] if type(b) is str else b
        a, b = self.fx(st, ty, a), self.fx(st, ty, b)
        s = max(a.s, b.s)
        x, y = self.fx_up(a, s), self.fx_up(b, s)
        p = pred[1:] if pred[0] in "ou" and len(pred) == 3 else pred
        f = {"eq": lambda: T.eq(64, x, y), "ne": lambda: T.ne(64, x, y), "lt": lambda: T.ult(64, x, y), "le": lambda: T.ule(64, x, y),
             "gt": lambda: T.ult(64, y, x), "ge": lambda: T.ule(64, y, x), "ord": lambda: 1, "uno": lambda: 0}.get(p)
        if f is None:
            raise Unsupported("fcmp " + pred)
        fr.regs[d] = f()
        fr.idx += 1

    def cast1(self, op, ft, tt, v):
        fw = bits_of(ft)
        tw = bits_of(tt)
        if v is None:
            if op in ("zext", "sext"):
                v = self.fresh(fw)
            else:
                return None
        if op == "zext":
            return T.zext(fw, tw, v)
        if op == "sext":
            return T.sext(fw, tw, v)
        if op == "trunc":
            return T.extract(v, tw - 1, 0)
        if fw == tw:
            return v
        if fw < tw:
            return T.zext(fw, tw, v)
        return T.extract(v, tw - 1, 0)

    def op_cast(self, st, fr, ins):
        _, d, op, ft, v, tt = ins
        if type(v) is str:
            v = fr.regs[v]
        if op == "bitcast" and (ft[0] == "vec" or tt[0] == "vec"):
            bs = self.to_bytes(ft, v)
            fr.regs[d] = self.from_bytes(tt, bs[:store_size(tt)])
        elif ft[0] == "vec":
            if v is None:
                v = (None,) * ft[1]
            fr.regs[d] = tuple(self.cast1(op, ft[2], tt[2], x) for x in v)
        else:
            fr.regs[d] = self.cast1(op, ft, tt, v)
        fr.idx += 1

    def sel(self, st, c, ty, a, b):
        k = ty[0]
        if type(c) is int:
            return a if c else b
        if k in ("i", "ptr"):
            w = bits_of(ty)
            if a is None and b is None:
                return None
            return T.ite(w, c, self.u(a, w), self.u(b, w))
        if k in ("arr", "vec"):
            a = a if a is not None else undef(ty)
            b = b if b is not None else undef(ty)
            return tuple(self.sel(st, c, ty[2], x, y) for x, y in zip(a, b))
        if k == "st":
            a = a if a is not None else undef(ty)
            b = b if b is not None else undef(ty)
            return tuple(self.sel(st, c, t, x, y) for t, x, y in zip(ty[1], a, b))
        raise Unsupported("select " + str(ty))

    def op_select(self, st, fr, ins):
        _, d, ct, c, ty, a, b = ins
        regs = fr.regs
        if type(c) is str:
            c = regs[c]
        if type(a) is str:
            a = regs[a]
        if type(b) is str:
            b = regs[b]
        if ct[0] == "vec":
            regs[d] = tuple(self.sel(st, self.u(x, 1), ty[2], y, z) for x, y, z in zip(c, a, b))
        else:
            if c is None:
                c = self.fresh(1)
            if type(c) is not int and ty[0] == "ptr" and a is not None and b is not None:
                if not (self.symptr and self.leaves(a) and self.leaves(b)):
                    # keep pointers concrete: fork
                    c = self.decide(st, c)
            regs[d] = self.sel(st, c, ty, a, b)
        fr.idx += 1

    def op_jmp(self, st, fr, ins):
        self.goto(st, fr, ins[2])

    def op_br(self, st, fr, ins):
        c = ins[2]
        if type(c) is str:
            c = fr.regs[c]
        if c is None:
            raise Unsupported("branch on uninitialised value in " + fr.fn.name)
        if type(c) is int:
            self.goto(st, fr, ins[3] if c else ins[4])
        elif ins[3] == ins[4]:
            self.goto(st, fr, ins[3])
        else:
            self.branch(st, fr, [(c, ins[3]), (T.bnot(c), ins[4])])

    def op_switch(self, st, fr, ins):
        _, _, ty, v, d, cases = ins
        if type(v) is str:
            v = fr.regs[v]
        if v is None:
            raise Unsupported("switch on uninitialised value")
        w = ty[1]
        if type(v) is int:
            for cv, l in cases:
                if cv == v:
                    return self.goto(st, fr, l)
            return self.goto(st, fr, d)
        groups = {}
        order = []
        for cv, l in cases:
            if l not in groups:
                groups[l] = 0
                order.append(l)
            groups[l] = T.or_(1, groups[l], T.eq(w, v, cv))
        alld = 0
        for l in order:
            alld = T.or_(1, alld, groups[l])
        rest = T.bnot(alld)
        if d in groups:
            groups[d] = T.or_(1, groups[d], rest)
        else:
            groups[d] = rest
            order.append(d)
        self.branch(st, fr, [(groups[l], l) for l in order])

    def op_ret(self, st, fr, ins):
        v = ins[3]
        if type(v) is str:
            v = fr.regs[v]
        elif type(v) is tuple:
            v = self.aggr(fr, v)
        for b in fr.allocas:
            st.mem.pop(b, None)
        st.frames.pop()
        if st.frames:
            up = st.frames[-1]
            if fr.dest is not None:
                up.regs[fr.dest] = v
            if fr.normal is not None:
                self.goto(st, up, fr.normal)
            else:
                up.idx += 1

    def aggr(self, fr, v):
        return tuple(fr.regs[x] if type(x) is str else self.aggr(fr, x) if type(x) is tuple else x for x in v)

    def op_unreachable(self, st, fr, ins):
        raise EndPath("panic", "unreachable code reached in " + fr.fn.name)

    def op_load(self, st, fr, ins):
        _, d, ty, p = ins
        if type(p) is str:
            p = fr.regs[p]
        if p is None:
            raise Unsupported("load through uninitialised pointer")
        fr.regs[d] = self.load(st, ty, p)
        fr.idx += 1

    def op_store(self, st, fr, ins):
        _, _, ty, v, p = ins
        if type(v) is str:
            v = fr.regs[v]
        elif type(v) is tuple:
            v = self.aggr(fr, v)
        if type(p) is str:
            p = fr.regs[p]
        if p is None:
            raise Unsupported("store through uninitialised pointer")
        if self.pin and type(v) is Term and type(p) is int and self.bo <= p < self.bo + self.pin:
            v = self.concretize(st, v, bits_of(ty))
        self.store(st, ty, v, p)
        fr.idx += 1

    def op_gep(self, st, fr, ins):
        _, d, t, bt, base, (off, var) = ins
        regs = fr.regs
        if type(base) is str:
            base = regs[base]
        if bt[0] == "vec":
            raise Unsupported("vector gep")
        if base is None:
            regs[d] = None
            fr.idx += 1
            return
        r = T.add(64, base, off & M64) if off else base
        for sc, w, op in var:
            x = regs[op]
            if x is None:
                x = self.fresh(w)
            x = T.sext(w, 64, x) if w < 64 else x
            if sc != 1:
                x = T.mul(64, x, sc)
            r = T.add(64, r, x)
        regs[d] = r
        fr.idx += 1

    def op_alloca(self, st, fr, ins):
        _, d, t, n, al = ins
        if type(n) is str:
            n = self.concretize(st, fr.regs[n], 64)
        b = self.alloc(st, size_align(t)[0] * n, None, "local")
        fr.allocas.append(b)
        fr.regs[d] = b
        fr.idx += 1

    def op_extractvalue(self, st, fr, ins):
        _, d, v, idx = ins
        if type(v) is str:
            v = fr.regs[v]
        for i in idx:
            if v is None:
                break
            v = v[i]
        fr.regs[d] = v
        fr.idx += 1

    def op_insertvalue(self, st, fr, ins):
        _, d, v, e, idx = ins
        if type(v) is str:
            v = fr.regs[v]
        if type(e) is str:
            e = fr.regs[e]

        def put(v, idx):
            if not idx:
                return e
            if v is None:
                raise Unsupported("insertvalue into undef")
            l = list(v)
            l[idx[0]] = put(l[idx[0]], idx[1:])
            return tuple(l)
        fr.regs[d] = put(v, idx)
        fr.idx += 1

    def op_freeze(self, st, fr, ins):
        _, d, t, v = ins
        if type(v) is str:
            v = fr.regs[v]
        if t[0] in ("i", "ptr"):
            v = self.u(v, bits_of(t))
        elif t[0] == "vec":
            v = tuple(self.u(x, bits_of(t[2])) for x in v)
        fr.regs[d] = v
        fr.idx += 1

    def op_extractelement(self, st, fr, ins):
        _, d, t, v, i = ins
        if type(v) is str:
            v = fr.regs[v]
        if type(i) is str:
            i = self.concretize(st, fr.regs[i], 64)
        fr.regs[d] = v[i] if v is not None else None
        fr.idx += 1

    def op_insertelement(self, st, fr, ins):
        _, d, t, v, e, i = ins
        if type(v) is str:
            v = fr.regs[v]
        if type(e) is str:
            e = fr.regs[e]
        if type(i) is str:
            i = self.concretize(st, fr.regs[i], 64)
        v = list(v) if v is not None else [None] * t[1]
        v[i] = e
        fr.regs[d] = tuple(v)
        fr.idx += 1

    def op_shufflevector(self, st, fr, ins):
        _, d, t, a, b, m = ins
        if type(a) is str:
            a = fr.regs[a]
        if type(b) is str:
            b = fr.regs[b]
        a = a if a is not None else (None,) * t[1]
        b = b if b is not None else (None,) * t[1]
        ab = tuple(a) + tuple(b)
        fr.regs[d] = tuple(ab[i] if i is not None else None for i in m)
        fr.idx += 1

    def op_nop(self, st, fr, ins):
        fr.idx += 1

    def op_unsupported(self, st, fr, ins):
        raise Unsupported("instruction: " + ins[2])

    def op_atomicrmw(self, st, fr, ins):
        _, d, kind, t, p, v = ins
        g = lambda x: fr.regs[x] if type(x) is str else x
        p, v = g(p), g(v)
        old = self.load(st, t, p)
        w = bits_of(t)
        new = v if kind == "xchg" else T.BIN[kind](w, old, v)
        self.store(st, t, new, p)
        fr.regs[d] = old
        fr.idx += 1

    def op_cmpxchg(self, st, fr, ins):
        _, d, t, p, c, nv = ins
        g = lambda x: fr.regs[x] if type(x) is str else x
        p, c, nv = g(p), g(c), g(nv)
        old = self.load(st, t, p)
        w = bits_of(t)
        ok = self.decide(st, T.eq(w, old, c))
        if ok:
            self.store(st, t, nv, p)
        fr.regs[d] = (old, ok)
        fr.idx += 1

    # ------------------------------------------------------------------ calls
    def op_call(self, st, fr, ins):
        _, d, ty, callee, args, noret, normal = ins
        regs = fr.regs
        vals = []
        for at, v in args:
            if type(v) is str:
                v = regs[v]
            elif type(v) is tuple:
                v = self.aggr(fr, v)
            vals.append(v)
        kind, name = callee
        if kind != "@":
            a = regs[name] if kind == "%" else name
            if a is None:
                raise Unsupported("call through uninitialised pointer")
            a = self.concretize(st, a, 64)
            name = self.mod.fn_at.get(a)
            if name is None:
                raise EndPath("memory", "call of a non-function address " + hex(a))
        if name.startswith("llvm."):
            r = self.intrinsic(st, fr, name, ty, args, vals)
            if d is not None:
                regs[d] = r
            fr.idx += 1
            return
        h = self.libcall(st, fr, name, vals)
        if h is not None:
            if d is not None:
                regs[d] = h[0]
            if normal is not None:
                self.goto(st, fr, normal)
            else:
                fr.idx += 1
            return
        f = self.mod.fn(name)
        if noret or f.noreturn:
            raise EndPath("panic", "call of diverging function " + name)
        self.push(st, f, vals, d, normal)

    def libcall(self, st, fr, name, v):
        if name in ("memcpy", "memmove"):
            self.memcpy(st, v[0], v[1], v[2])
            return (v[0],)
        if name == "memset":
            self.memset(st, v[0], T.extract(v[1], 7, 0), v[2])
            return (v[0],)
        if name in ("memcmp", "bcmp"):
            return (self.memcmp(st, v[0], v[1], v[2], name == "bcmp"),)
        if name == "strlen":
            n = 0
            while self.decide(st, T.ne(8, self.load(st, I(8), T.add(64, v[0], n)), 0)):
                n += 1
            return (n,)
        if "rust_alloc" in name or "rust_dealloc" in name or "rust_realloc" in name or "rust_no_alloc_shim" in name:
            if name.endswith("___rust_alloc"):
                return (self.alloc(st, self.concretize(st, v[0], 64)),)
            if name.endswith("___rust_alloc_zeroed"):
                return (self.alloc(st, self.concretize(st, v[0], 64), 0),)
            if name.endswith("___rust_dealloc"):
                self.free(st, v[0])
                return (None,)
            if name.endswith("___rust_realloc"):
                return (self.realloc(st, v[0], v[3]),)
            if "no_alloc_shim" in name:
                return (None,)
        if name in ("malloc", "__rdl_alloc"):
            return (self.alloc(st, self.concretize(st, v[0], 64)),)
        if name == "calloc":
            n = self.concretize(st, T.mul(64, v[0], v[1]), 64)
            return (self.alloc(st, n, 0),)
        if name == "free":
            self.free(st, v[0])
            return (None,)
        if name == "realloc":
            return (self.realloc(st, v[0], v[1]),)
        # destructors of thread locals run when the thread ends, after the harness: registering one has no effect here
        if name == "pthread_key_create":
            self.store(st, I(32), 7, v[0])
            return (0,)
        if name in ("pthread_setspecific", "__cxa_thread_atexit_impl"):
            return (0,)
        if name == "posix_memalign":
            n = self.concretize(st, v[2], 64)
            self.store(st, PTR, self.alloc(st, n), v[0])
            return (0,)
        return None

    def free(self, st, p):
        p = self.concretize(st, p, 64)
        if p == 0:
            return
        if st.mem.get(p) is None:
            raise EndPath("memory", "free of an invalid pointer")
        st.mem[p] = None

    def realloc(self, st, p, n):
        p = self.concretize(st, p, 64)
        n = self.concretize(st, n, 64)
        old = st.mem.get(p)
        if old is None:
            raise EndPath("memory", "realloc of an invalid pointer")
        q = self.alloc(st, n)
        k = min(n, len(old))
        st.mem[q][:k] = old[:k]
        st.mem[p] = None
        return q

    def memcpy(self, st, d, s, n):
        n = self.concretize(st, n, 64)
        if n == 0:
            return
        d = self.concretize(st, d, 64)
        if type(s) is not int:
            ls = self.choice(st, s, n)
            if ls:
                r = self.read_bytes(st, ls[-1][1], n)
                for c, v in reversed(ls[:-1]):
                    r = [q if p is None else p if q is None else T.ite(8, c, p, q)
                         for p, q in zip(self.read_bytes(st, v, n), r)]
                self.write_bytes(st, d, r)
                return
        s = self.concretize(st, s, 64)
        self.write_bytes(st, d, self.read_bytes(st, s, n))

    def memset(self, st, d, v, n):
        n = self.concretize(st, n, 64)
        if n == 0:
            return
        d = self.concretize(st, d, 64)
        self.write_bytes(st, d, [v] * n)

    def memcmp(self, st, a, b, n, eqonly):
        n = self.concretize(st, n, 64)
        if n == 0:
            return 0
        a = self.concretize(st, a, 64)
        b = self.concretize(st, b, 64)
        x = [self.u(t, 8) for t in self.read_bytes(st, a, n)]
        y = [self.u(t, 8) for t in self.read_bytes(st, b, n)]
        if eqonly:
            e = T.land(*[T.eq(8, p, q) for p, q in zip(x, y)])
            return T.ite(32, e, 0, 1)
        r = 0
        for p, q in reversed(list(zip(x, y))):
            lt = T.ult(8, p, q)
            r = T.ite(32, T.eq(8, p, q), r, T.ite(32, lt, mask(32), 1))
        return r

    def intrinsic(self, st, fr, name, ty, args, v):
        p = name.split(".")
        k = p[1]
        if k in ("lifetime", "dbg", "assume", "experimental", "prefetch", "donothing", "sideeffect", "invariant", "var"):
            if k == "experimental" and p[2] != "noalias":
                raise Unsupported(name)
            return None
        if k in ("memcpy", "memmove"):
            self.memcpy(st, v[0], v[1], T.zext(args[2][0][1], 64, v[2]))
            return None
        if k == "memset":
            self.memset(st, v[0], v[1], T.zext(args[2][0][1], 64, v[2]))
            return None
        if k in ("trap", "debugtrap", "ubsantrap"):
            raise EndPath("panic", "trap")
        if k == "expect":
            return v[0]
        if k == "is" and p[2] == "constant":
            return 0
        if k == "threadlocal":
            return v[0]
        if k == "objectsize":
            return M64
        if k in ("ceil", "floor", "trunc"):
            return Fx(self.fx_int(self.fx(st, ty, v[0]), k == "ceil"), 0)
        if k in ("fptoui", "fptosi") and p[2] == "sat":
            return self.fx_toint(self.fx(st, args[0][0], v[0]), bits_of(ty), k == "fptosi")
        if k == "vector":
            return self.vreduce(st, p, args, v)
        if k == "load" and p[2] == "relative":
            off = self.load(st, I(32), T.add(64, v[0], T.sext(args[1][0][1], 64, v[1])))
            return T.add(64, v[0], T.sext(32, 64, off))
        if ty[0] == "vec" or (ty[0] == "st" and ty[1][0][0] == "vec"):
            n = (ty if ty[0] == "vec" else ty[1][0])[1]
            el = []
            for i in range(n):
                ea = [(a[0][2] if a[0][0] == "vec" else a[0], None) for a in args]
                ev = [x[i] if a[0][0] == "vec" else x for a, x in zip(args, v)]
                el.append(self.scalar(st, p, ea, ev))
            if ty[0] == "st":
                return (tuple(x[0] for x in el), tuple(x[1] for x in el))
            return tuple(el)
        return self.scalar(st, p, args, v)

    def vreduce(self, st, p, args, v):
        op = p[3]
        w = bits_of(args[0][0][2])
        xs = [self.u(x, w) for x in v[0]]
        f = {"and": T.and_, "or": T.or_, "xor": T.xor, "add": T.add, "mul": T.mul}.get(op)
        if f is None:
            g = {"umax": lambda w, a, b: T.ite(w, T.ult(w, a, b), b, a),
                 "umin": lambda w, a, b: T.ite(w, T.ult(w, a, b), a, b),
                 "smax": lambda w, a, b: T.ite(w, T.slt(w, a, b), b, a),
                 "smin": lambda w, a, b: T.ite(w, T.slt(w, a, b), a, b)}
            f = g[op]
        r = xs[0]
        for x in xs[1:]:
            r = f(w, r, x)
        return r

    def scalar(self, st, p, args, v):
        k = p[1]
        t0 = args[0][0]
        w = bits_of(t0)
        v = [self.u(x, bits_of(a[0])) if a[0][0] in ("i", "ptr") else x for a, x in zip(args, v)]
        a = v[0]
        b = v[1] if len(v) > 1 else None
        if k == "bswap":
            return T.bswap(w, a)
        if k == "bitreverse":
            return T.bitrev(w, a)
        if k in ("fshl", "fshr"):
            n = T.urem(w, v[2], w)
            if type(n) is int:
                if k == "fshr":
                    n = (w - n) % w
                    if n == 0:
                        return b
                elif n == 0:
                    return a
                return T.extract(T.concat((a, w), (b, w)), 2 * w - 1 - n, w - n)
            cc = T.concat((a, w), (b, w))
            n2 = T.zext(w, 2 * w, n)
            if k == "fshl":
                return T.extract(T.shl(2 * w, cc, n2), 2 * w - 1, w)
            return T.extract(T.lshr(2 * w, cc, n2), w - 1, 0)
        if k == "umin":
            return T.ite(w, T.ult(w, a, b), a, b)
        if k == "umax":
            return T.ite(w, T.ult(w, a, b), b, a)
        if k == "smin":
            return T.ite(w, T.slt(w, a, b), a, b)
        if k == "smax":
            return T.ite(w, T.slt(w, a, b), b, a)
        if k == "abs":
            return T.ite(w, T.slt(w, a, 0), T.sub(w, 0, a), a)
        if k == "ctpop":
            r = 0
            for i in range(w):
                r = T.add(w, r, T.zext(1, w, T.extract(a, i, i)))
            return r
        if k == "cttz":
            r = w & mask(w)
            for i in reversed(range(w)):
                r = T.ite(w, T.extract(a, i, i), i, r)
            return r
        if k == "ctlz":
            r = w & mask(w)
            for i in range(w):
                r = T.ite(w, T.extract(a, i, i), w - 1 - i, r)
            return r
        if k in ("ucmp", "scmp"):
            rt = int(p[2][1:])
            lt = T.ult(w, a, b) if k == "ucmp" else T.slt(w, a, b)
            return T.ite(rt, T.eq(w, a, b), 0, T.ite(rt, lt, mask(rt), 1))
        if k in ("uadd", "sadd", "usub", "ssub", "umul", "smul", "ushl", "sshl"):
            if p[2] == "with":
                return self.overflow(k, w, a, b)
            if p[2] == "sat":
                r, o = self.overflow(k, w, a, b)
                if k == "uadd" or k == "umul":
                    return T.ite(w, o, mask(w), r)
                if k == "usub":
                    return T.ite(w, o, 0, r)
                if k in ("sadd", "ssub"):
                    sat = T.ite(w, T.slt(w, a, 0), 1 << (w - 1), mask(w - 1))
                    return T.ite(w, o, sat, r)
        raise Unsupported("intrinsic llvm." + ".".join(p[1:]))

    def overflow(self, k, w, a, b):
        if k == "uadd":
            r = T.add(w, a, b)
            return (r, T.ult(w, r, a))
        if k == "usub":
            return (T.sub(w, a, b), T.ult(w, a, b))
        W = 2 * w
        if k == "umul":
            r = T.mul(W, T.zext(w, W, a), T.zext(w, W, b))
            return (T.extract(r, w - 1, 0), T.ne(w, T.extract(r, W - 1, w), 0))
        x, y = T.sext(w, W, a), T.sext(w, W, b)
        r = T.add(W, x, y) if k == "sadd" else T.sub(W, x, y) if k == "ssub" else T.mul(W, x, y)
        lo = T.extract(r, w - 1, 0)
        return (lo, T.ne(W, T.sext(w, W, lo), r))
