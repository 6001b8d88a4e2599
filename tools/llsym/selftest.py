"""Random check of the term rewriting: every constructor against plain integer arithmetic."""
import random
import sys
import os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from llsym import terms as T


def main(n=40000, seed=1):
    r = random.Random(seed)
    model = {}
    pool = []       # (term, width, value)
    bad = 0
    for k in range(n):
        if k % 400 == 0:
            T.reset()
            model = {"v%d" % j: 0 for j in range(6)}
            pool = []
            for j in range(6):
                w = r.choice([1, 4, 8, 8, 16, 64])
                model["v%d" % j] = r.choice([0, T.mask(w), r.randrange(1 << w)])
                pool.append((T.var("v%d" % j, w), w, model["v%d" % j]))
            for w in (1, 4, 8, 16, 64):
                for v in (0, 1, T.mask(w), r.randrange(1 << w)):
                    pool.append((v, w, v))
        a, w, x = r.choice(pool)
        same = [p for p in pool if p[1] == w]
        b, _, y = r.choice(same)
        op = r.choice(["bin", "bin", "cmp", "cmp", "ite", "ext", "cat", "sext", "zext", "shift"])
        if op == "bin":
            f = r.choice(list(T.BIN))
            t, tw = T.BIN[f](w, a, b), w
            v = T.BIN[f](w, x, y)
        elif op == "cmp":
            f = r.choice([T.eq, T.ult, T.slt, T.ne, T.ule, T.sle])
            t, tw, v = f(w, a, b), 1, f(w, x, y)
        elif op == "ite":
            c, _, cv = r.choice([p for p in pool if p[1] == 1])
            t, tw, v = T.ite(w, c, a, b), w, x if cv else y
        elif op == "ext":
            hi = r.randrange(w)
            lo = r.randrange(hi + 1)
            t, tw, v = T.extract(a, hi, lo), hi - lo + 1, (x >> lo) & T.mask(hi - lo + 1)
        elif op == "cat":
            c, cw, z = r.choice(pool)
            if w + cw > 128:
                continue
            t, tw, v = T.concat((a, w), (c, cw)), w + cw, x << cw | z
        elif op in ("sext", "zext"):
            tw = w + r.randrange(1, 9)
            if tw > 128:
                continue
            f = T.sext if op == "sext" else T.zext
            t, v = f(w, tw, a), (T.sgn(x, w) & T.mask(tw)) if op == "sext" else x
        else:
            s = r.randrange(w + 1)
            f = r.choice([T.shl, T.lshr, T.ashr])
            t, tw = f(w, a, s), w
            v = (x << s) & T.mask(w) if f is T.shl else x >> s if f is T.lshr else (T.sgn(x, w) >> min(s, w - 1)) & T.mask(w)
        got = T.evaluate(t, model, {})
        lo, hi = T.rng(t)
        if got != v or not lo <= v <= hi:
            bad += 1
            print("MISMATCH", op, T.show(t), got, v, (lo, hi))
            if bad > 5:
                return 1
        pool.append((t, tw, v))
    print("terms: %d random constructions agree" % n)
    return int(bad > 0)


if __name__ == "__main__":
    sys.exit(main())
