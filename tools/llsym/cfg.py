"""Control-flow facts used to merge paths: post-dominators, dominators, register types."""
from .ir import PTR, I


def terminator(mod, b):
    if b.code is None:
        b.compile(mod)
    return b.code[-1]


def succs(mod, b):
    t = terminator(mod, b)
    k = t[0]
    if k == "jmp":
        return [t[2]]
    if k == "br":
        return [t[3], t[4]]
    if k == "switch":
        return [t[4]] + [l for _, l in t[5]]
    if k == "call" and t[6] is not None:
        return [t[6]]
    return []


def _dom(order, preds, root):
    """immediate dominators (Cooper/Harvey/Kennedy); order = reverse post-order from root"""
    num = {b: i for i, b in enumerate(order)}
    idom = {root: root}
    changed = True
    while changed:
        changed = False
        for b in order[1:]:
            new = None
            for p in preds[b]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while num[x] > num[y]:
                                x = idom[x]
                            while num[y] > num[x]:
                                y = idom[y]
                        new = x
            if new is not None and idom.get(b) != new:
                idom[b] = new
                changed = True
    return idom


def _rpo(root, nxt):
    seen = {root}
    out = []
    st = [(root, iter(nxt(root)))]
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(nxt(s))))
                break
        else:
            out.append(b)
            st.pop()
    out.reverse()
    return out


EXIT = "\0exit"


class Cfg:
    def __init__(self, mod, f):
        self.f = f
        self.succ = {}
        todo = [f.entry]
        while todo:
            l = todo.pop()
            if l in self.succ:
                continue
            s = list(dict.fromkeys(succs(mod, f.blocks[l])))
            self.succ[l] = s
            todo += s
        pred = {l: [] for l in self.succ}
        for l, ss in self.succ.items():
            for s in ss:
                pred[s].append(l)
        self.pred = pred
        order = _rpo(f.entry, lambda b: self.succ[b])
        self.idom = _dom(order, pred, f.entry)
        # reverse graph over blocks that can return
        rets = [l for l in self.succ if terminator(mod, f.blocks[l])[0] == "ret"]
        rsucc = {EXIT: rets}
        rorder = _rpo(EXIT, lambda b: rets if b == EXIT else pred[b])
        live = set(rorder)
        rpred = {b: [s for s in self.succ[b] if s in live] for b in rorder if b != EXIT}
        for r in rets:
            rpred[r] = [EXIT] + rpred[r]
        rpred[EXIT] = []
        ip = _dom(rorder, rpred, EXIT)
        self.ipdom = {b: (None if ip[b] == EXIT else ip[b]) for b in rorder if b != EXIT and b in ip}
        self.defs = {}
        self.types = {}
        for l in self.succ:
            b = f.blocks[l]
            for ins in list(b.phis) + b.code:
                if ins[1] is not None:
                    self.defs[ins[1]] = l
                    self.types[ins[1]] = rtype(ins)
        for nm, t in f.params:
            self.types[nm] = t

    def strictly_dominates(self, a, b):
        while b in self.idom and self.idom[b] != b:
            b = self.idom[b]
            if b == a:
                return True
        return False


def rtype(ins):
    k = ins[0]
    if k in ("bin",):
        return ins[3]
    if k == "icmp":
        return I(1) if ins[3][0] != "vec" else None
    if k == "cast":
        return ins[5]
    if k == "select":
        return ins[4]
    if k in ("phi", "load", "freeze"):
        return ins[2]
    if k in ("gep", "alloca"):
        return PTR
    if k == "call":
        return ins[2]
    return None
