"""Solver back end: terms -> z3, queries, models, statistics."""
import time
import z3
from .terms import Term, evaluate, rng

z3.set_param("smt.random_seed", 1)


def to_bv(t, w=None):
    if type(t) is int:
        return z3.BitVecVal(t, w)
    if t._z is not None:
        return t._z
    # iterative post-order (deep terms)
    stack = [t]
    while stack:
        x = stack[-1]
        if x._z is not None:
            stack.pop()
            continue
        kids = [p[0] for p in x.a[0]] if x.op == "concat" else x.a
        todo = [k for k in kids if type(k) is Term and k._z is None]
        if todo:
            stack.extend(todo)
            continue
        _conv(x)
        stack.pop()
    return t._z


def _b2v(b):
    return z3.If(b, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))


def _arg(k, w):
    return z3.BitVecVal(k, w) if type(k) is int else k._z


def _conv(x):
    op, w, a = x.op, x.w, x.a
    if op == "var":
        x._z = z3.BitVec(a[0], w)
        return
    if op == "concat":
        x._z = z3.Concat(*[_arg(k, kw) for k, kw in a[0]])
        return
    if op == "extract":
        x._z = z3.Extract(a[1] + w - 1, a[1], a[0]._z)
        return
    if op == "sext":
        x._z = z3.SignExt(w - a[0].w, a[0]._z)
        return
    if op == "ite":
        x._z = z3.If(as_bool(a[0]), _arg(a[1], w), _arg(a[2], w))
        return
    if op in ("eq", "ult", "slt"):
        kw = a[0].w if type(a[0]) is Term else a[1].w
        if op != "slt" and kw > 8:
            k = max(rng(a[0])[1], rng(a[1])[1]).bit_length() or 1
            if k < kw:
                p, q = _low(a[0], k), _low(a[1], k)
                b = p == q if op == "eq" else z3.ULT(p, q)
                x._b = b
                x._z = _b2v(b)
                return
        p, q = _arg(a[0], kw), _arg(a[1], kw)
        b = p == q if op == "eq" else z3.ULT(p, q) if op == "ult" else p < q
        x._b = b
        x._z = _b2v(b)
        return
    if w == 1 and op in ("and", "or", "xor"):
        p, q = as_bool(a[0]), as_bool(a[1])
        b = z3.And(p, q) if op == "and" else z3.Or(p, q) if op == "or" else \
            (z3.Not(p) if a[1] == 1 and type(a[1]) is int else z3.Xor(p, q))
        x._b = b
        x._z = _b2v(b)
        return
    p, q = _arg(a[0], w), _arg(a[1], w)
    x._z = OPS[op](p, q)


def _low(t, k):
    """the low k bits of t, computed on k bits where that is enough"""
    if type(t) is int:
        return z3.BitVecVal(t & ((1 << k) - 1), k)
    op, w, a = t.op, t.w, t.a
    if w == k:
        return t._z
    if t._n is None:
        t._n = {}
    r = t._n.get(k)
    if r is not None:
        return r
    if op in ("add", "sub", "mul", "and", "or", "xor"):
        r = OPS[op](_low(a[0], k), _low(a[1], k))
    elif op == "ite":
        r = z3.If(as_bool(a[0]), _low(a[1], k), _low(a[2], k))
    elif op == "concat":
        parts = []
        pos = 0
        for x, xw in reversed(a[0]):
            if pos + xw <= k:
                parts.append(_arg(x, xw))
            elif pos < k:
                parts.append(_low(x, k - pos))
            pos += xw
            if pos >= k:
                break
        parts.reverse()
        r = parts[0] if len(parts) == 1 else z3.Concat(*parts)
    elif op in ("udiv", "urem") and max(rng(a[0])[1], rng(a[1])[1]) >> k == 0:
        r = OPS[op](_low(a[0], k), _low(a[1], k))
    elif op == "extract" and a[1] == 0 and type(a[0]) is Term:
        r = _low(a[0], k)
    else:
        r = z3.Extract(k - 1, 0, t._z)
    t._n[k] = r
    return r


OPS = {
    "add": lambda p, q: p + q, "sub": lambda p, q: p - q, "mul": lambda p, q: p * q,
    "udiv": z3.UDiv, "urem": z3.URem, "sdiv": lambda p, q: p / q, "srem": z3.SRem,
    "and": lambda p, q: p & q, "or": lambda p, q: p | q, "xor": lambda p, q: p ^ q,
    "shl": lambda p, q: p << q, "lshr": z3.LShR, "ashr": lambda p, q: p >> q,
}


def as_bool(t):
    if type(t) is int:
        return z3.BoolVal(bool(t))
    if t._b is None:
        to_bv(t)
        if t._b is None:
            t._b = t._z == z3.BitVecVal(1, 1)
    return t._b


class Unknown(Exception):
    pass


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.seconds = 0.0
        self.cross = 0

    def add(self, o):
        for k in ("queries", "unsat", "sat", "seconds", "cross"):
            setattr(self, k, getattr(self, k) + o[k])

    def dict(self):
        return dict(queries=self.queries, unsat=self.unsat, sat=self.sat,
                    seconds=self.seconds, cross=self.cross)


class Solver:
    """One-shot QF_BV queries; optional second opinion by cvc5."""

    def __init__(self, timeout_ms=60000, cross=False):
        self.timeout = timeout_ms
        self.stats = Stats()
        self.cross = cross
        self.dump = None

    def check(self, conds):
        """None if unsatisfiable, else a model (dict)."""
        t0 = time.time()
        live = []
        for c in conds:
            if type(c) is int:
                if not c:
                    return None
            else:
                live.append(c)
        if not live:
            return {}
        s = z3.SolverFor("QF_BV")
        s.set("timeout", self.timeout)
        for c in live:
            s.add(as_bool(c))
        r = s.check()
        self.stats.queries += 1
        if r == z3.unknown:
            # second chance: plain solver with another strategy
            s2 = z3.Then("simplify", "propagate-values", "solve-eqs", "bit-blast", "sat").solver()
            s2.set("timeout", self.timeout)
            for c in live:
                s2.add(as_bool(c))
            r = s2.check()
            s = s2
        self.stats.seconds += time.time() - t0
        if r == z3.unsat:
            self.stats.unsat += 1
            if self.cross:
                self._cross(s, "unsat")
            return None
        if r == z3.sat:
            self.stats.sat += 1
            m = s.model()
            return {d.name(): m[d].as_long() for d in m.decls()}
        raise Unknown("solver gave no answer within %d ms" % self.timeout)

    def _cross(self, s, expect):
        import cvc5
        tm = cvc5.TermManager()
        slv = cvc5.Solver(tm)
        slv.setOption("tlimit-per", "60000")
        sm = cvc5.SymbolManager(tm)
        p = cvc5.InputParser(slv, sm)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6,
                         "(set-logic QF_BV)\n" + s.to_smt2(), "q")
        res = ""
        while True:
            cmd = p.nextCommand()
            if cmd.isNull():
                break
            res += cmd.invoke(slv, sm)
        res = res.strip()
        if "(error" in res:
            raise Unknown("cvc5 error: " + res[:200])
        if res == "unknown":
            return
        if res != expect:
            raise Unknown("z3 and cvc5 disagree: %s vs %s" % (expect, res))
        self.stats.cross += 1
