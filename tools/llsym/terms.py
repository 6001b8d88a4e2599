"""Bit-vector terms.

A value is either a Python int (already reduced modulo 2**w) or a hash-consed
Term.  All widths are explicit.  Booleans are 1-bit vectors.  Only cheap,
local rewriting happens here (constant folding, neutral elements, byte
split/merge of memory accesses); deciding anything is left to the solver.
"""


class Term:
    __slots__ = ("op", "w", "a", "id", "_z", "_b", "_r", "_n")

    def __init__(self, op, w, a, id_):
        self.op = op
        self.w = w
        self.a = a
        self.id = id_
        self._z = None
        self._b = None
        self._r = None
        self._n = None

    def __repr__(self):
        return show(self)


_table = {}
_next = [0]


def mk(op, w, *a):
    k = (op, w) + tuple((x.id, 1) if type(x) is Term else x for x in a)
    t = _table.get(k)
    if t is None:
        _next[0] += 1
        t = Term(op, w, a, _next[0])
        _table[k] = t
    return t


def reset():
    _table.clear()


def show(t, d=0):
    if type(t) is int:
        return hex(t)
    if t.op == "var":
        return t.a[0]
    if d > 6:
        return "…"
    return "(%s.%d %s)" % (t.op, t.w, " ".join(
        show(x, d + 1) if type(x) in (Term, int) else str(x) for x in t.a))


def var(name, w):
    return mk("var", w, name)


def mask(w):
    return (1 << w) - 1


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


# -------------------------------------------------------------------- ranges

def rng(t, depth=0):
    """(lo, hi): sound unsigned bounds of a term"""
    if type(t) is int:
        return (t, t)
    r = t._r
    if r is not None:
        return r
    w = t.w
    full = (0, (1 << w) - 1)
    if depth > 60:
        return full
    op = t.op
    a = t.a
    r = full
    if op == "ite":
        x, y = rng(a[1], depth + 1), rng(a[2], depth + 1)
        r = (min(x[0], y[0]), max(x[1], y[1]))
    elif op == "concat":
        lo = hi = 0
        for x, xw in a[0]:
            p = rng(x, depth + 1)
            lo, hi = lo << xw | p[0], hi << xw | p[1]
        r = (lo, hi)
    elif op == "extract":
        x = rng(a[0], depth + 1)
        lo, hi = x[0] >> a[1], x[1] >> a[1]
        if lo >> w == hi >> w:
            r = (lo & full[1], hi & full[1])
    elif op == "and":
        x, y = rng(a[0], depth + 1), rng(a[1], depth + 1)
        r = (0, min(x[1], y[1]))
    elif op == "or":
        x, y = rng(a[0], depth + 1), rng(a[1], depth + 1)
        r = (max(x[0], y[0]), (1 << max(x[1].bit_length(), y[1].bit_length())) - 1)
    elif op == "add":
        x, y = rng(a[0], depth + 1), rng(a[1], depth + 1)
        lo, hi = x[0] + y[0], x[1] + y[1]
        if lo >> w == hi >> w:
            r = (lo & full[1], hi & full[1])
    elif op == "sub":
        x, y = rng(a[0], depth + 1), rng(a[1], depth + 1)
        if x[0] >= y[1]:
            r = (x[0] - y[1], x[1] - y[0])
        elif x[1] < y[0]:
            r = (x[0] - y[1] + (1 << w), x[1] - y[0] + (1 << w))
    elif op == "mul":
        x, y = rng(a[0], depth + 1), rng(a[1], depth + 1)
        if x[1] * y[1] <= full[1]:
            r = (x[0] * y[0], x[1] * y[1])
    elif op == "udiv":
        x, y = rng(a[0], depth + 1), rng(a[1], depth + 1)
        if y[0] > 0:
            r = (x[0] // y[1], x[1] // y[0])
    elif op == "urem":
        x, y = rng(a[0], depth + 1), rng(a[1], depth + 1)
        if y[0] > 0:
            r = x if x[1] < y[0] else (0, min(x[1], y[1] - 1))
    elif op == "sext":
        x = rng(a[0], depth + 1)
        xw = a[0].w
        if not x[1] >> (xw - 1):
            r = x
    if depth < 30:
        t._r = r
    return r


# ---------------------------------------------------------------- arithmetic

def add(w, a, b):
    ia, ib = type(a) is int, type(b) is int
    if ia and ib:
        return (a + b) & mask(w)
    if ia:
        a, b, ia, ib = b, a, ib, ia
    if ib:
        if b == 0:
            return a
        if a.op == "add" and type(a.a[1]) is int:
            return add(w, a.a[0], (a.a[1] + b) & mask(w))
    return mk("add", w, a, b)


def neg(w, a):
    return sub(w, 0, a)


def sub(w, a, b):
    if type(b) is int:
        return add(w, a, (-b) & mask(w))
    if a is b:
        return 0
    return mk("sub", w, a, b)


def mul(w, a, b):
    ia, ib = type(a) is int, type(b) is int
    if ia and ib:
        return (a * b) & mask(w)
    if ia:
        a, b, ia, ib = b, a, ib, ia
    if ib:
        if b == 0:
            return 0
        if b == 1:
            return a
        if b & (b - 1) == 0:
            return shl(w, a, b.bit_length() - 1)
    return mk("mul", w, a, b)


def _bin(name, f):
    def g(w, a, b):
        if type(a) is int and type(b) is int:
            return f(w, a, b)
        return mk(name, w, a, b)
    return g


def _sdiv(w, a, b):
    if b == 0:
        return mask(w) if sgn(a, w) >= 0 else 1
    x, y = sgn(a, w), sgn(b, w)
    q = abs(x) // abs(y)
    return (q if (x < 0) == (y < 0) else -q) & mask(w)


def _srem(w, a, b):
    if b == 0:
        return a
    x, y = sgn(a, w), sgn(b, w)
    r = abs(x) % abs(y)
    return (-r if x < 0 else r) & mask(w)


udiv_ = _bin("udiv", lambda w, a, b: a // b if b else mask(w))
urem_ = _bin("urem", lambda w, a, b: a % b if b else a)
sdiv = _bin("sdiv", _sdiv)
srem = _bin("srem", _srem)


def udiv(w, a, b):
    if type(b) is int and b and b & (b - 1) == 0:
        return lshr(w, a, b.bit_length() - 1)
    return udiv_(w, a, b)


def urem(w, a, b):
    if type(b) is int and b and b & (b - 1) == 0:
        return and_(w, a, b - 1)
    return urem_(w, a, b)


# ------------------------------------------------------------------- bitwise

def and_(w, a, b):
    ia, ib = type(a) is int, type(b) is int
    if ia and ib:
        return a & b
    if ia:
        a, b, ia, ib = b, a, ib, ia
    if ib:
        if b == 0:
            return 0
        if b == mask(w):
            return a
        if a.op == "and" and type(a.a[1]) is int:
            return and_(w, a.a[0], a.a[1] & b)
        if a.op == "concat":
            pos = w
            out = []
            for x, xw in a.a[0]:
                pos -= xw
                m = (b >> pos) & mask(xw)
                if m == 0:
                    out.append((0, xw))
                elif type(x) is int:
                    out.append((x & m, xw))
                elif m == mask(xw):
                    out.append((x, xw))
                else:
                    break
            else:
                return concat(*out)
    elif a is b:
        return a
    return mk("and", w, a, b)


def or_(w, a, b):
    ia, ib = type(a) is int, type(b) is int
    if ia and ib:
        return a | b
    if ia:
        a, b, ia, ib = b, a, ib, ia
    if ib:
        if b == 0:
            return a
        if b == mask(w):
            return b
    elif a is b:
        return a
    return mk("or", w, a, b)


def xor(w, a, b):
    ia, ib = type(a) is int, type(b) is int
    if ia and ib:
        return a ^ b
    if ia:
        a, b, ia, ib = b, a, ib, ia
    if ib:
        if b == 0:
            return a
        if a.op == "xor" and type(a.a[1]) is int:
            return xor(w, a.a[0], a.a[1] ^ b)
    elif a is b:
        return 0
    return mk("xor", w, a, b)


def not_(w, a):
    return xor(w, a, mask(w))


def bnot(a):
    return xor(1, a, 1)


def shl(w, a, b):
    if type(b) is int:
        if b >= w:
            return 0
        if type(a) is int:
            return (a << b) & mask(w)
        if b == 0:
            return a
        return concat((extract(a, w - b - 1, 0), w - b), (0, b))
    if type(a) is int and a == 0:
        return 0
    return mk("shl", w, a, b)


def lshr(w, a, b):
    if type(b) is int:
        if b >= w:
            return 0
        if type(a) is int:
            return a >> b
        if b == 0:
            return a
        return zext(w - b, w, extract(a, w - 1, b))
    if type(a) is int and a == 0:
        return 0
    return mk("lshr", w, a, b)


def ashr(w, a, b):
    if type(b) is int:
        b = min(b, w - 1)
        if type(a) is int:
            return (sgn(a, w) >> b) & mask(w)
        if b == 0:
            return a
        return sext(w - b, w, extract(a, w - 1, b))
    if type(a) is int and a == 0:
        return 0
    return mk("ashr", w, a, b)


# -------------------------------------------------------------- restructuring

def extract(a, hi, lo, keep=False):
    """bits hi..lo (inclusive) of a; keep: a part of a value that is likely to be put together again"""
    if type(a) is int:
        return (a >> lo) & mask(hi - lo + 1)
    w = a.w
    n = hi - lo + 1
    if n == w:
        return a
    op = a.op
    if op == "extract":
        return extract(a.a[0], hi + a.a[1], lo + a.a[1])
    if op == "concat":
        out = []
        pos = w
        for x, xw in a.a[0]:
            x = _ref(x)
            top = pos - 1
            pos -= xw
            h = min(hi, top)
            l = max(lo, pos)
            if h >= l:
                out.append((extract(x, h - pos, l - pos), h - l + 1))
        return concat(*out)
    if op == "sext":
        x = a.a[0]
        xw = x.w
        if hi < xw:
            return extract(x, hi, lo)
        if lo >= xw:
            return sext(1, n, extract(x, xw - 1, xw - 1)) if n > 1 else extract(x, xw - 1, xw - 1)
        return sext(xw - lo, n, extract(x, xw - 1, lo))
    if op in ("and", "or", "xor"):
        f = {"and": and_, "or": or_, "xor": xor}[op]
        return f(n, extract(a.a[0], hi, lo), extract(a.a[1], hi, lo))
    if op == "ite":
        x, y = a.a[1], a.a[2]
        if type(x) is int or type(y) is int:
            return ite(n, a.a[0], extract(x, hi, lo), extract(y, hi, lo))
    if lo and rng(a)[1] >> lo == 0:
        return 0
    if op in ("add", "sub", "mul") and lo == 0 and not keep:
        f = {"add": add, "sub": sub, "mul": mul}[op]
        return f(n, extract(a.a[0], hi, 0), extract(a.a[1], hi, 0))
    return mk("extract", n, a, lo)


def _ref(x):
    return x


def concat(*parts):
    """parts: (value, width), most significant first"""
    out = []
    for x, xw in parts:
        if xw == 0:
            continue
        if type(x) is Term and x.op == "concat":
            for y in x.a[0]:
                _push(out, y[0], y[1])
        else:
            _push(out, x, xw)
    if len(out) == 1:
        return out[0][0]
    w = sum(p[1] for p in out)
    if len(out) == 2 and type(out[0][0]) is int and out[0][0] == 0:
        x, xw = out[1]
        if x.op == "extract" and x.a[1] == 0 and x.a[0].w == w and rng(x.a[0])[1] >> xw == 0:
            return x.a[0]       # the part that was cut off is zero
    k = ("concat", w) + tuple((p[0].id, 1, p[1]) if type(p[0]) is Term else p for p in out)
    t = _table.get(k)
    if t is None:
        _next[0] += 1
        t = Term("concat", w, (tuple(out),), _next[0])
        _table[k] = t
    return t


def _push(out, x, xw):
    if out:
        y, yw = out[-1]
        if type(x) is int and type(y) is int:
            out[-1] = ((y << xw) | x, yw + xw)
            return
        if type(x) is Term and type(y) is Term:
            # merge adjacent slices of the same term
            bx, lx = (x.a[0], x.a[1]) if x.op == "extract" else (x, 0)
            by, ly = (y.a[0], y.a[1]) if y.op == "extract" else (y, 0)
            if bx is by and ly == lx + xw and (y.op == "extract" or x.op == "extract"):
                out[-1] = (extract(bx, ly + yw - 1, lx), xw + yw)
                return
    out.append((x, xw))


def zext(fw, tw, a):
    if type(a) is int or fw == tw:
        return a
    return concat((0, tw - fw), (a, fw))


def sext(fw, tw, a):
    if type(a) is int:
        return sgn(a, fw) & mask(tw)
    if fw == tw:
        return a
    if a.op == "sext":
        return sext(a.a[0].w, tw, a.a[0])
    if a.op == "concat" and type(a.a[0][0][0]) is int:
        c, cw = a.a[0][0]
        if c >> (cw - 1) == 0:
            return zext(fw, tw, a)
    return mk("sext", tw, a)


def trunc(tw, a):
    return extract(a, tw - 1, 0)


def ite(w, c, a, b):
    if type(c) is int:
        return a if c else b
    if a is b or (type(a) is int and type(b) is int and a == b):
        return a
    if w == 1 and type(a) is int and type(b) is int:
        return c if a else bnot(c)
    return mk("ite", w, c, a, b)


# ---------------------------------------------------------------- comparison

def eq(w, a, b):
    ia, ib = type(a) is int, type(b) is int
    if ia and ib:
        return int(a == b)
    if a is b:
        return 1
    if ia:
        a, b, ia, ib = b, a, ib, ia
    if w == 1 and ib:
        return a if b else bnot(a)
    if ib:
        if a.op == "concat":
            # compare constant pieces right away
            pos = w
            rest = []
            for x, xw in a.a[0]:
                pos -= xw
                c = (b >> pos) & mask(xw)
                if type(x) is int:
                    if x != c:
                        return 0
                else:
                    rest.append((x, xw, c))
            if len(rest) < len(a.a[0]):
                r = 1
                for x, xw, c in rest:
                    r = and_(1, r, eq(xw, x, c))
                return r
        if a.op == "ite" and type(a.a[1]) is int and type(a.a[2]) is int:
            p, q = int(a.a[1] == b), int(a.a[2] == b)
            return ite(1, a.a[0], p, q)
        r = rng(a)
        if b < r[0] or b > r[1]:
            return 0
        if a.op == "add" and type(a.a[1]) is int:
            return eq(w, a.a[0], (b - a.a[1]) & mask(w))
        if a.op == "sub" and type(a.a[0]) is int:
            return eq(w, a.a[1], (a.a[0] - b) & mask(w))
        if a.op == "mul" and type(a.a[1]) is int and rng(a.a[0])[1] * a.a[1] <= mask(w):
            return 0 if b % a.a[1] else eq(w, a.a[0], b // a.a[1])
    elif a.id > b.id:
        a, b = b, a
    return mk("eq", 1, a, b)


def ne(w, a, b):
    return bnot(eq(w, a, b))


def ult(w, a, b):
    if type(a) is int and type(b) is int:
        return int(a < b)
    if a is b:
        return 0
    if type(b) is int:
        if b == 0:
            return 0
        if b == 1:
            return eq(w, a, 0)
        if a.op == "concat" and type(a.a[0][0][0]) is int and a.a[0][0][0] == 0:
            rw = w - a.a[0][0][1]
            if b > mask(rw):
                return 1
    if type(a) is int and a == mask(w):
        return 0
    x, y = rng(a), rng(b)
    if x[1] < y[0]:
        return 1
    if x[0] >= y[1]:
        return 0
    if type(b) is int:
        # a small sum or product below a constant
        if a.op == "add" and type(a.a[1]) is int and rng(a.a[0])[1] + a.a[1] <= mask(w):
            return ult(w, a.a[0], b - a.a[1])
        if a.op == "mul" and type(a.a[1]) is int and rng(a.a[0])[1] * a.a[1] <= mask(w):
            return ult(w, a.a[0], -(-b // a.a[1]))
        if a.op == "sub" and type(a.a[0]) is int and rng(a.a[1])[1] <= a.a[0]:
            return bnot(ult(w, a.a[1], a.a[0] - b + 1))
    if type(a) is int:
        if b.op == "add" and type(b.a[1]) is int and rng(b.a[0])[1] + b.a[1] <= mask(w):
            return ult(w, a - b.a[1], b.a[0])
        if b.op == "mul" and type(b.a[1]) is int and rng(b.a[0])[1] * b.a[1] <= mask(w):
            return ult(w, a // b.a[1], b.a[0])
        if b.op == "sub" and type(b.a[0]) is int and rng(b.a[1])[1] <= b.a[0] and b.a[0] >= a:
            return ult(w, b.a[1], b.a[0] - a)
        r = ult_const(w, b, a + 1)
        return bnot(r)
    return mk("ult", 1, a, b)


def ult_const(w, a, b):
    """a < b, b constant (1 <= b), without further rewriting of sums"""
    if b > mask(w):
        return 1
    if b == 1:
        return eq(w, a, 0)
    return mk("ult", 1, a, b)


def ule(w, a, b):
    return bnot(ult(w, b, a))


def slt(w, a, b):
    if type(a) is int and type(b) is int:
        return int(sgn(a, w) < sgn(b, w))
    if a is b:
        return 0
    h = 1 << (w - 1)
    x, y = rng(a), rng(b)
    if not x[1] & h and not y[1] & h:
        return ult(w, a, b)
    if not x[1] & h and y[0] & h:
        return 0
    if x[0] & h and not y[1] & h:
        return 1
    return mk("slt", 1, a, b)


def sle(w, a, b):
    return bnot(slt(w, b, a))


def land(*cs):
    r = 1
    for c in cs:
        r = and_(1, r, c)
    return r


def lor(*cs):
    r = 0
    for c in cs:
        r = or_(1, r, c)
    return r


def bswap(w, a):
    n = w // 8
    return concat(*[(extract(a, 8 * i + 7, 8 * i), 8) for i in range(n)])


def bitrev(w, a):
    return concat(*[(extract(a, i, i), 1) for i in range(w)])


# ---------------------------------------------------------------- evaluation

def width_of_args(t):
    return None


def evaluate(t, model, memo):
    """value of t under model (dict var name -> int, default 0)"""
    if type(t) is int:
        return t
    r = memo.get(t.id)
    if r is not None:
        return r
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in memo:
            stack.pop()
            continue
        op = x.op
        if op == "var":
            memo[x.id] = model.get(x.a[0], 0)
            stack.pop()
            continue
        kids = [p[0] for p in x.a[0]] if op == "concat" else x.a
        todo = [k for k in kids if type(k) is Term and k.id not in memo]
        if todo:
            stack.extend(todo)
            continue
        v = [memo[k.id] if type(k) is Term else k for k in kids]
        w = x.w
        if op == "concat":
            r = 0
            for (k, kw), kv in zip(x.a[0], v):
                r = (r << kw) | kv
        elif op == "extract":
            r = (v[0] >> v[1]) & mask(w)
        elif op == "sext":
            r = sext(x.a[0].w, w, v[0])
        elif op == "ite":
            r = v[1] if v[0] else v[2]
        elif op in ("eq", "ult", "slt"):
            k = x.a[0] if type(x.a[0]) is Term else x.a[1]
            r = CMP[op](k.w, v[0], v[1])
        else:
            r = BIN[op](w, v[0], v[1])
        memo[x.id] = r
        stack.pop()
    return memo[t.id]


def substitute(t, sub, memo, known={}):
    """t with the variables of sub (name -> value) and known conditions (id -> value) replaced"""
    if type(t) is int:
        return t
    r = memo.get(t.id)
    if r is not None:
        return r
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in memo:
            stack.pop()
            continue
        op = x.op
        if op == "var":
            memo[x.id] = sub.get(x.a[0], x)
            stack.pop()
            continue
        if x.w == 1 and x.id in known:
            memo[x.id] = known[x.id]
            stack.pop()
            continue
        kids = [p[0] for p in x.a[0]] if op == "concat" else x.a
        todo = [k for k in kids if type(k) is Term and k.id not in memo]
        if todo:
            stack.extend(todo)
            continue
        v = [memo[k.id] if type(k) is Term else k for k in kids]
        if all(p is q for p, q in zip(v, kids)):
            r = x
        else:
            w = x.w
            if op == "concat":
                r = concat(*[(kv, kw) for (k, kw), kv in zip(x.a[0], v)])
            elif op == "extract":
                r = extract(v[0], v[1] + w - 1, v[1])
            elif op == "sext":
                r = sext(x.a[0].w, w, v[0])
            elif op == "ite":
                r = ite(w, *v)
            elif op in ("eq", "ult", "slt"):
                k = x.a[0] if type(x.a[0]) is Term else x.a[1]
                r = CMP[op](k.w, v[0], v[1])
            else:
                r = BIN[op](w, v[0], v[1])
        memo[x.id] = r
        stack.pop()
    return memo[t.id]


CMP = {"eq": eq, "ult": ult, "slt": slt}
BIN = {"add": add, "sub": sub, "mul": mul, "udiv": udiv, "urem": urem,
       "sdiv": sdiv, "srem": srem, "and": and_, "or": or_, "xor": xor,
       "shl": shl, "lshr": lshr, "ashr": ashr}


def variables(t, out=None, seen=None):
    out = set() if out is None else out
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if type(x) is not Term or x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "var":
            out.add(x.a[0])
        elif x.op == "concat":
            stack.extend(p[0] for p in x.a[0])
        else:
            stack.extend(x.a)
    return out


def walk(t):
    """every subterm once, arguments first"""
    seen = set()
    out = []
    stack = [(t, False)]
    while stack:
        x, done = stack.pop()
        if done:
            out.append(x)
            continue
        if type(x) is not Term or x.id in seen:
            continue
        seen.add(x.id)
        stack.append((x, True))
        kids = [p[0] for p in x.a[0]] if x.op == "concat" else x.a
        stack.extend((k, False) for k in kids)
    return out


def variable_terms(t):
    return [x for x in walk(t) if x.op == "var"]


def choices(t):
    """the conditions of the ite terms in t, innermost first"""
    return [x.a[0] for x in walk(t) if x.op == "ite"]
