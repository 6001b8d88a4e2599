"""Reader for textual LLVM IR (as printed by rustc --emit=llvm-ir).

The module is split once; global initialisers and function bodies are parsed
on first use.  Operands are compiled to: str -> local register, int/tuple ->
constant.
"""
import re
import struct

TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<comment>;[^\n]*)
 | (?P<cstr>c"[^"]*")
 | (?P<local>%(?:"[^"]*"|[-\w.$]+))
 | (?P<glob>@(?:"[^"]*"|[-\w.$]+))
 | (?P<meta>!(?:[-\w.$]+)?)
 | (?P<attr>\#\d+)
 | (?P<str>"[^"]*")
 | (?P<hex>0x[0-9A-Fa-fKLMHR]+)
 | (?P<flt>-?\d+\.\d+(?:[eE][-+]?\d+)?)
 | (?P<num>-?\d+)
 | (?P<id>[A-Za-z_$.][\w.$]*)
 | (?P<p>\.\.\.|[()\[\]{}<>,=*:|])
''', re.X)


class Unsupported(Exception):
    pass


def lex(s):
    out = []
    pos = 0
    n = len(s)
    m_ = TOK.match
    while pos < n:
        m = m_(s, pos)
        if not m:
            raise Unsupported("lex: %r" % s[pos:pos + 60])
        k = m.lastgroup
        pos = m.end()
        if k == "ws" or k == "comment":
            continue
        out.append((k, m.group()))
    out.append(("eof", ""))
    return out


def unq(name):
    # %"a b" -> a b
    n = name[1:]
    if n.startswith('"'):
        n = n[1:-1]
    return n


# ---------------------------------------------------------------------- types
# ("i", n) ("ptr",) ("void",) ("arr", n, t) ("vec", n, t) ("st", (ts), packed)
PTR = ("ptr",)
VOID = ("void",)
_ints = {}


def I(n):
    t = _ints.get(n)
    if t is None:
        t = _ints[n] = ("i", n)
    return t


_sz = {}


def size_align(t):
    r = _sz.get(t)
    if r is None:
        r = _sz[t] = _size_align(t)
    return r


def _size_align(t):
    k = t[0]
    if k == "i":
        n = (t[1] + 7) // 8
        p = 1
        while p < n:
            p *= 2
        a = min(p, 16)
        return ((n + a - 1) // a * a, a)
    if k == "ptr":
        return (8, 8)
    if k == "arr":
        s, a = size_align(t[2])
        return (s * t[1], a)
    if k == "vec":
        bits = t[1] * bits_of(t[2])
        n = (bits + 7) // 8
        p = 1
        while p < n:
            p *= 2
        return (p, p)
    if k == "st":
        off = 0
        al = 1
        for x in t[1]:
            s, a = size_align(x)
            if not t[2]:
                off = (off + a - 1) // a * a
                al = max(al, a)
            off += s
        if not t[2]:
            off = (off + al - 1) // al * al
        return (off, al)
    if k == "float":
        return (4, 4)
    if k == "double":
        return (8, 8)
    raise Unsupported("size of %r" % (t,))


def store_size(t):
    if t[0] == "i":
        return (t[1] + 7) // 8
    if t[0] == "vec":
        return (t[1] * bits_of(t[2]) + 7) // 8
    return size_align(t)[0]


def bits_of(t):
    if t[0] == "i":
        return t[1]
    if t[0] == "ptr":
        return 64
    raise Unsupported("bits of %r" % (t,))


_fo = {}


def field_offsets(t):
    r = _fo.get(t)
    if r is None:
        r = []
        off = 0
        for x in t[1]:
            s, a = size_align(x)
            if not t[2]:
                off = (off + a - 1) // a * a
            r.append(off)
            off += s
        _fo[t] = r
    return r


# --------------------------------------------------------------------- module

class Fn:
    __slots__ = ("name", "ret", "params", "blocks", "noreturn", "text", "declared",
                 "entry", "addr")


VALKW = {"true", "false", "null", "undef", "poison", "zeroinitializer", "getelementptr",
         "inttoptr", "ptrtoint", "trunc", "sub", "add", "xor", "splat", "none", "c",
         "addrspacecast", "bitcast", "blockaddress", "dso_local_equivalent", "asm", "mul", "shl",
         "ptrtoaddr"}


class Module:
    def __init__(self, path):
        self.path = path
        txt = open(path, encoding="utf-8", errors="surrogateescape").read()
        self.fn_text = {}      # name -> (header, body) or (header, None)
        self.glob_text = {}
        self.aliases = {}
        self.types = {}
        self.attr_noreturn = set()
        self._split(txt)
        self.fns = {}
        # address assignment
        self.addr_of = {}
        self.fn_at = {}
        self.next_fn = 0x10000
        self.next_glob = 0x10_0000_0000
        self.glob_regions = {}   # base -> (name, size, bytes(list), const)

    def _split(self, txt):
        pos = 0
        lines = txt.split("\n")
        n = len(lines)
        i = 0
        while i < n:
            l = lines[i]
            if l.startswith("define"):
                j = i + 1
                while lines[j] != "}":
                    j += 1
                name = self._fname(l)
                self.fn_text[name] = (l, lines[i + 1:j])
                i = j + 1
                continue
            if l.startswith("declare"):
                name = self._fname(l)
                self.fn_text[name] = (l, None)
            elif l.startswith("@"):
                m = re.match(r'@("[^"]*"|[-\w.$]+) = (.*)$', l)
                name = m.group(1)
                if name.startswith('"'):
                    name = name[1:-1]
                rest = m.group(2)
                if re.match(r'(?:[\w()]+ )*alias ', rest):
                    tgt = rest[rest.index("alias "):]
                    mm = re.search(r'@("[^"]*"|[-\w.$]+)', tgt)
                    self.aliases[name] = unq("@" + mm.group(1))
                else:
                    self.glob_text[name] = rest
            elif l.startswith("attributes #"):
                m = re.match(r'attributes (#\d+) = \{(.*)\}', l)
                if re.search(r'\bnoreturn\b', m.group(2)):
                    self.attr_noreturn.add(m.group(1))
            elif l.startswith("%"):
                m = re.match(r'%("[^"]*"|[-\w.$]+) = type (.*)$', l)
                if m:
                    self.types[unq("%" + m.group(1))] = m.group(2)
            i += 1

    @staticmethod
    def _fname(l):
        m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
        n = m.group(1)
        return n[1:-1] if n.startswith('"') else n

    # ------------------------------------------------------------- resolution
    def resolve(self, name):
        while name in self.aliases:
            name = self.aliases[name]
        return name

    def address(self, name):
        name = self.resolve(name)
        a = self.addr_of.get(name)
        if a is not None:
            return a
        if name in self.fn_text:
            a = self.next_fn
            self.next_fn += 16
            self.addr_of[name] = a
            self.fn_at[a] = name
            return a
        if name not in self.glob_text:
            raise Unsupported("unknown global " + name)
        rest = self.glob_text[name]
        toks = lex(rest)
        p = Parser(self, toks)
        const = False
        external = False
        while True:
            k, v = p.peek()
            if k == "id" and v in ("global", "constant"):
                const = v == "constant"
                p.next()
                break
            if k == "id" and v in ("external", "extern_weak"):
                external = True
            p.next()
            if k == "eof":
                raise Unsupported("global " + rest[:80])
            if p.peek()[1] == "(" and v != "global":
                p.skip_paren()
        ty = p.type()
        size = size_align(ty)[0]
        a = self.next_glob
        self.next_glob += (size + 0x1000 + 63) // 64 * 64
        self.addr_of[name] = a
        mem = [0] * size
        self.glob_regions[a] = (name, size, mem, const)
        if not external:
            v = p.value(ty)
            write_const(mem, 0, ty, v)
        elif size:
            mem[:] = [None] * size
        return a

    def fn(self, name):
        name = self.resolve(name)
        f = self.fns.get(name)
        if f is None:
            f = self.fns[name] = self._parse_fn(name)
        return f

    def _parse_fn(self, name):
        hdr, body = self.fn_text[name]
        f = Fn()
        f.name = name
        f.declared = body is None
        p = Parser(self, lex(hdr))
        p.next()  # define/declare
        while p.peek()[0] != "glob":
            k, v = p.peek()
            # stop at a type directly followed (after attributes) by @name
            if self._is_type_start(k, v):
                save = p.i
                t = p.type()
                if p.peek()[0] == "glob":
                    f.ret = t
                    break
                p.i = save
                raise Unsupported("fn header " + hdr[:100])
            p.skip_attr()
        p.next()
        p.expect("(")
        f.params = []
        idx = 0
        while p.peek()[1] != ")":
            if p.peek()[1] == "...":
                p.next()
                continue
            t = p.type()
            while p.peek()[0] != "local" and p.peek()[1] not in (",", ")"):
                p.skip_attr()
            nm = None
            if p.peek()[0] == "local":
                nm = unq(p.next()[1])
            else:
                nm = str(idx)
            idx += 1
            f.params.append((nm, t))
            if p.peek()[1] == ",":
                p.next()
        p.expect(")")
        f.noreturn = False
        while p.peek()[0] != "eof":
            k, v = p.next()
            if k == "attr" and v in self.attr_noreturn:
                f.noreturn = True
            if v == "noreturn":
                f.noreturn = True
        f.blocks = None
        if body is not None:
            self._parse_body(f, body)
        return f

    @staticmethod
    def _is_type_start(k, v):
        if k == "id" and (re.fullmatch(r"i\d+", v) or v in ("void", "ptr", "float", "double", "half", "fp128")):
            return True
        return v in ("[", "{", "<") or k == "local"

    def _parse_body(self, f, lines):
        blocks = {}
        cur = None
        label = None
        i = 0
        n = len(lines)
        first = None
        while i < n:
            l = lines[i]
            i += 1
            if not l or l.startswith(";"):
                continue
            if l[0] != " ":
                m = re.match(r'("[^"]*"|[-\w.$]+):', l)
                if not m:
                    raise Unsupported("label? " + l[:80])
                label = m.group(1)
                if label.startswith('"'):
                    label = label[1:-1]
                cur = []
                blocks[label] = cur
                if first is None:
                    first = label
                continue
            s = l.strip()
            if s.startswith(";") or s.startswith("#dbg"):
                continue
            if cur is None:
                # unnamed entry block: it takes the number after the parameters
                label = str(sum(1 for nm, _ in f.params if nm.isdigit()))
                cur = []
                blocks[label] = cur
                first = label
            if s.startswith("switch ") or re.match(r'%\S+ = landingpad', s) or s.startswith("indirectbr"):
                if s.startswith("switch") and "]" not in s:
                    while True:
                        s += " " + lines[i].strip()
                        i += 1
                        if lines[i - 1].strip().startswith("]"):
                            break
                else:
                    while i < n and lines[i].startswith("          "):
                        s += " " + lines[i].strip()
                        i += 1
            elif "invoke " in s and " unwind label" not in s:
                while True:
                    s += " " + lines[i].strip()
                    i += 1
                    if "unwind label" in lines[i - 1]:
                        break
            cur.append(s)
        f.entry = first
        f.blocks = {k: Block(k, v) for k, v in blocks.items()}


class Block:
    __slots__ = ("name", "raw", "code", "phis")

    def __init__(self, name, raw):
        self.name = name
        self.raw = raw
        self.code = None
        self.phis = None

    def compile(self, mod):
        code = []
        phis = []
        for s in self.raw:
            try:
                ins = Parser(mod, lex(s)).instr()
            except Unsupported as e:
                ins = ("unsupported", None, "%s: %s" % (s[:120], e))
            if ins[0] == "phi":
                phis.append(ins)
            else:
                code.append(ins)
        self.phis = phis
        self.code = code
        self.raw = None


def write_const(mem, off, ty, v):
    k = ty[0]
    if k == "i" or k == "ptr":
        n = store_size(ty)
        for j in range(n):
            mem[off + j] = None if v is None else (v >> (8 * j)) & 255
    elif k == "arr":
        es = size_align(ty[2])[0]
        if type(v) is bytes:
            mem[off:off + len(v)] = list(v)
            return
        for j in range(ty[1]):
            write_const(mem, off + j * es, ty[2], v[j] if v is not None else None)
    elif k == "vec":
        eb = bits_of(ty[2])
        tot = 0
        if v is None:
            v = (0,) * ty[1]
        for j in range(ty[1]):
            tot |= v[j] << (j * eb)
        for j in range(store_size(ty)):
            mem[off + j] = (tot >> (8 * j)) & 255
    elif k == "st":
        for j, (t, o) in enumerate(zip(ty[1], field_offsets(ty))):
            write_const(mem, off + o, t, v[j] if v is not None else None)
    elif k in ("float", "double"):
        for j in range(size_align(ty)[0]):
            mem[off + j] = 0 if v == 0 else None
    else:
        raise Unsupported("const %r" % (ty,))


def zero(ty):
    k = ty[0]
    if k in ("i", "ptr", "float", "double"):
        return 0
    if k in ("arr", "vec"):
        return (zero(ty[2]),) * ty[1]
    if k == "st":
        return tuple(zero(t) for t in ty[1])
    raise Unsupported("zero %r" % (ty,))


def undef(ty):
    k = ty[0]
    if k in ("i", "ptr", "float", "double"):
        return None
    if k in ("arr", "vec"):
        return (undef(ty[2]),) * ty[1]
    if k == "st":
        return tuple(undef(t) for t in ty[1])
    raise Unsupported("undef %r" % (ty,))


BINOPS = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"}
FBIN = {"fadd", "fsub", "fmul", "fdiv"}
FCASTS = {"uitofp", "sitofp", "fptoui", "fptosi", "fpext", "fptrunc"}


class Fx:
    """an exact, nonnegative floating-point value: term / 2**shift"""
    __slots__ = ("t", "s")

    def __init__(self, t, s):
        self.t, self.s = t, s


def fx_of(f):
    n, d = f.as_integer_ratio()
    return Fx(n, d.bit_length() - 1)


CASTS = {"zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "addrspacecast", "ptrtoaddr"}
FLAGS = {"nuw", "nsw", "exact", "disjoint", "nneg", "inbounds", "nusw", "samesign", "volatile",
         "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast", "atomic", "weak"}


class Parser:
    __slots__ = ("m", "t", "i")

    def __init__(self, mod, toks):
        self.m = mod
        self.t = toks
        self.i = 0

    def peek(self):
        return self.t[self.i]

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def expect(self, v):
        x = self.next()
        if x[1] != v:
            raise Unsupported("expected %r got %r in %s" % (v, x[1], " ".join(t[1] for t in self.t)[:300]))

    def accept(self, v):
        if self.t[self.i][1] == v:
            self.i += 1
            return True
        return False

    def skip_paren(self):
        d = 0
        while True:
            k, v = self.next()
            if v == "(":
                d += 1
            elif v == ")":
                d -= 1
                if d == 0:
                    return
            elif k == "eof":
                raise Unsupported("paren")

    def skip_attr(self):
        k, v = self.next()
        if k == "eof":
            raise Unsupported("attr eof: " + " ".join(t[1] for t in self.t)[:300])
        if self.peek()[1] == "(":
            self.skip_paren()
        elif v == "align" or v == "addrspace":
            if self.peek()[0] == "num":
                self.next()
        elif k == "str" and self.peek()[1] == "=":
            self.next()
            self.next()

    # ------------------------------------------------------------------ types
    def type(self):
        k, v = self.next()
        if k == "id":
            if v == "ptr":
                if self.peek()[1] == "addrspace":
                    self.next()
                    self.skip_paren()
                return PTR
            if v == "void":
                return VOID
            if v[0] == "i" and v[1:].isdigit():
                return I(int(v[1:]))
            if v in ("float", "double", "half", "fp128", "x86_fp80", "label", "metadata", "token"):
                return (v,)
            raise Unsupported("type " + v)
        if v == "[":
            n = int(self.next()[1])
            self.expect("x")
            t = self.type()
            self.expect("]")
            return ("arr", n, t)
        if v == "<":
            if self.peek()[1] == "{":
                t = self.type()
                self.expect(">")
                return ("st", t[1], True)
            n = int(self.next()[1])
            self.expect("x")
            t = self.type()
            self.expect(">")
            return ("vec", n, t)
        if v == "{":
            ts = []
            while not self.accept("}"):
                ts.append(self.type())
                self.accept(",")
            return ("st", tuple(ts), False)
        if k == "local":
            txt = self.m.types[unq(v)]
            return Parser(self.m, lex(txt)).type()
        raise Unsupported("type tok %r in %s" % (v, " ".join(t[1] for t in self.t)[:200]))

    # ----------------------------------------------------------------- values
    def value(self, ty):
        k, v = self.next()
        if k == "local":
            return unq(v)
        if k == "num":
            if ty[0] == "i":
                return int(v) & ((1 << ty[1]) - 1)
            if ty[0] in ("float", "double"):
                return fx_of(float(v)) if int(v) >= 0 else None
            raise Unsupported("num for %r" % (ty,))
        if k == "glob":
            return self.m.address(unq(v))
        if k == "cstr":
            return _cstr(v)
        if k in ("flt", "hex"):
            if k == "hex" and ty[0] not in ("float", "double"):
                return None
            f = float(v) if k == "flt" else struct.unpack(">d", bytes.fromhex(v[2:].rjust(16, "0")))[0] if re.fullmatch("0x[0-9A-Fa-f]+", v) else None
            if f == 0.0:
                return 0
            return None if f is None or f < 0 or f != f or f == float("inf") else fx_of(f)
        if k == "id":
            if v == "true":
                return 1
            if v == "false":
                return 0
            if v == "null":
                return 0
            if v == "none":
                return 0
            if v in ("undef", "poison"):
                return undef(ty) if ty[0] in ("arr", "vec", "st") else None
            if v == "zeroinitializer":
                return zero(ty)
            if v == "splat":
                self.expect("(")
                t = self.type()
                x = self.value(t)
                self.expect(")")
                return (x,) * ty[1]
            if v == "getelementptr":
                while self.peek()[1] in FLAGS:
                    self.next()
                if self.peek()[1] == "inrange":
                    self.next()
                    self.skip_paren()
                self.expect("(")
                t = self.type()
                self.expect(",")
                self.type()
                base = self.value(PTR)
                idx = []
                while self.accept(","):
                    it = self.type()
                    x = self.value(it)
                    idx.append(x - (1 << it[1]) if x >> (it[1] - 1) else x)
                self.expect(")")
                return (base + const_gep(t, idx)) & ((1 << 64) - 1)
            if v in CASTS:
                self.expect("(")
                ft = self.type()
                x = self.value(ft)
                self.expect("to")
                tt = self.type()
                self.expect(")")
                if tt[0] == "i":
                    return x & ((1 << tt[1]) - 1)
                return x
            if v in ("add", "sub", "xor", "mul", "shl"):
                while self.peek()[1] in FLAGS:
                    self.next()
                self.expect("(")
                t1 = self.type()
                a = self.value(t1)
                self.expect(",")
                t2 = self.type()
                b = self.value(t2)
                self.expect(")")
                r = a + b if v == "add" else a - b if v == "sub" else a ^ b if v == "xor" else a * b if v == "mul" else a << b
                return r & ((1 << bits_of(t1)) - 1)
            if v == "asm":
                return ("asm",)
            raise Unsupported("const " + v)
        if v == "[":
            out = []
            while not self.accept("]"):
                t = self.type()
                out.append(self.value(t))
                self.accept(",")
            return tuple(out)
        if v == "{":
            out = []
            while not self.accept("}"):
                t = self.type()
                out.append(self.value(t))
                self.accept(",")
            return tuple(out)
        if v == "<":
            if self.accept("{"):
                out = []
                while not self.accept("}"):
                    t = self.type()
                    out.append(self.value(t))
                    self.accept(",")
                self.expect(">")
                return tuple(out)
            out = []
            while not self.accept(">"):
                t = self.type()
                out.append(self.value(t))
                self.accept(",")
            return tuple(out)
        raise Unsupported("value %r (%r) in %s" % (v, ty, " ".join(t[1] for t in self.t)[:200]))

    def tyval(self):
        t = self.type()
        while self._attr_here():
            self.skip_attr()
        return t, self.value(t)

    def _attr_here(self):
        k, v = self.peek()
        return k == "id" and v not in VALKW or k == "str"

    def label(self):
        self.expect("label")
        return unq(self.next()[1])

    def flags(self):
        while self.peek()[1] in FLAGS:
            self.next()

    # ----------------------------------------------------------- instructions
    def instr(self):
        dest = None
        if self.peek()[0] == "local" and self.t[self.i + 1][1] == "=":
            dest = unq(self.next()[1])
            self.next()
        k, op = self.next()
        if op in BINOPS:
            self.flags()
            t = self.type()
            a = self.value(t)
            self.expect(",")
            b = self.value(t)
            return ("bin", dest, op, t, a, b)
        if op in FBIN:
            self.flags()
            t = self.type()
            a = self.value(t)
            self.expect(",")
            return ("fbin", dest, op, t, a, self.value(t))
        if op in FCASTS:
            self.flags()
            t = self.type()
            a = self.value(t)
            self.expect("to")
            return ("fcast", dest, op, t, a, self.type())
        if op == "fcmp":
            self.flags()
            pred = self.next()[1]
            t = self.type()
            a = self.value(t)
            self.expect(",")
            return ("fcmp", dest, pred, t, a, self.value(t))
        if op == "icmp":
            self.flags()
            pred = self.next()[1]
            t = self.type()
            a = self.value(t)
            self.expect(",")
            b = self.value(t)
            return ("icmp", dest, pred, t, a, b)
        if op in CASTS:
            self.flags()
            t = self.type()
            a = self.value(t)
            self.expect("to")
            t2 = self.type()
            return ("cast", dest, op, t, a, t2)
        if op == "select":
            self.flags()
            ct, c = self.tyval()
            self.expect(",")
            t, a = self.tyval()
            self.expect(",")
            _, b = self.tyval()
            return ("select", dest, ct, c, t, a, b)
        if op == "phi":
            self.flags()
            t = self.type()
            inc = {}
            while True:
                self.expect("[")
                v = self.value(t)
                self.expect(",")
                l = unq(self.next()[1])
                self.expect("]")
                inc[l] = v
                if not self.accept(","):
                    break
                if self.peek()[1] != "[":
                    break
            return ("phi", dest, t, inc)
        if op == "br":
            if self.peek()[1] == "label":
                return ("jmp", None, self.label())
            t, c = self.tyval()
            self.expect(",")
            a = self.label()
            self.expect(",")
            b = self.label()
            return ("br", None, c, a, b)
        if op == "switch":
            t, v = self.tyval()
            self.expect(",")
            d = self.label()
            self.expect("[")
            cases = []
            while not self.accept("]"):
                ct, cv = self.tyval()
                self.expect(",")
                cases.append((cv, self.label()))
            return ("switch", None, t, v, d, cases)
        if op == "ret":
            if self.peek()[1] == "void":
                return ("ret", None, VOID, None)
            t, v = self.tyval()
            return ("ret", None, t, v)
        if op == "unreachable":
            return ("unreachable", None)
        if op == "load":
            self.flags()
            t = self.type()
            self.expect(",")
            _, p = self.tyval()
            return ("load", dest, t, p)
        if op == "store":
            self.flags()
            t, v = self.tyval()
            self.expect(",")
            _, p = self.tyval()
            return ("store", None, t, v, p)
        if op == "getelementptr":
            while self.peek()[1] in FLAGS:
                self.next()
            if self.peek()[1] == "inrange":
                self.next()
                self.skip_paren()
            t = self.type()
            self.expect(",")
            bt, base = self.tyval()
            idx = []
            while self.accept(","):
                if self.peek()[0] == "meta":
                    break
                it, iv = self.tyval()
                idx.append((it, iv))
            return ("gep", dest, t, bt, base, compile_gep(t, idx))
        if op == "alloca":
            t = self.type()
            n = 1
            al = size_align(t)[1]
            while self.accept(","):
                if self.peek()[1] == "align":
                    self.next()
                    al = int(self.next()[1])
                elif self.peek()[0] == "meta":
                    break
                else:
                    _, n = self.tyval()
            return ("alloca", dest, t, n, al)
        if op == "extractvalue":
            t, v = self.tyval()
            idx = []
            while self.accept(","):
                if self.peek()[0] == "meta":
                    break
                idx.append(int(self.next()[1]))
            return ("extractvalue", dest, v, idx)
        if op == "insertvalue":
            t, v = self.tyval()
            self.expect(",")
            t2, e = self.tyval()
            idx = []
            while self.accept(","):
                if self.peek()[0] == "meta":
                    break
                idx.append(int(self.next()[1]))
            return ("insertvalue", dest, v, e, idx)
        if op == "freeze":
            t, v = self.tyval()
            return ("freeze", dest, t, v)
        if op in ("tail", "musttail", "notail", "call", "invoke"):
            if op in ("tail", "musttail", "notail"):
                op = self.next()[1]
            return self.call(dest, op)
        if op == "extractelement":
            t, v = self.tyval()
            self.expect(",")
            it, i = self.tyval()
            return ("extractelement", dest, t, v, i)
        if op == "insertelement":
            t, v = self.tyval()
            self.expect(",")
            t2, e = self.tyval()
            self.expect(",")
            it, i = self.tyval()
            return ("insertelement", dest, t, v, e, i)
        if op == "shufflevector":
            t, a = self.tyval()
            self.expect(",")
            _, b = self.tyval()
            self.expect(",")
            mt, m = self.tyval()
            return ("shufflevector", dest, t, a, b, m)
        if op == "fence":
            return ("nop", None)
        if op == "atomicrmw":
            self.flags()
            kind = self.next()[1]
            _, p = self.tyval()
            self.expect(",")
            t, v = self.tyval()
            return ("atomicrmw", dest, kind, t, p, v)
        if op == "cmpxchg":
            self.flags()
            _, p = self.tyval()
            self.expect(",")
            t, c = self.tyval()
            self.expect(",")
            _, nv = self.tyval()
            return ("cmpxchg", dest, t, p, c, nv)
        return ("unsupported", dest, " ".join(x[1] for x in self.t)[:200])

    def call(self, dest, op):
        # calling convention and return attributes
        while not Module._is_type_start(*self.peek()):
            if self.peek()[1] == "cc":
                self.next()
                self.next()
                continue
            if self.peek()[1] in FLAGS:
                self.next()
                continue
            self.skip_attr()
        t = self.type()
        if self.peek()[1] == "(":
            self.skip_paren()
        while self.peek()[0] not in ("glob", "local") and self.peek()[1] != "asm" and self.peek()[1] not in VALKW:
            self.skip_attr()
        k, v = self.peek()
        if v == "asm":
            return ("unsupported", dest, "inline asm")
        if k == "glob":
            self.next()
            callee = ("@", self.m.resolve(unq(v)))
        elif k == "local":
            self.next()
            callee = ("%", unq(v))
        else:
            callee = ("c", self.value(PTR))
        self.expect("(")
        args = []
        while not self.accept(")"):
            at = self.type()
            if at[0] == "metadata":
                d = 0
                while not (d == 0 and self.peek()[1] in (",", ")")):
                    if self.peek()[1] in "([{<":
                        d += 1
                    if self.peek()[1] in ")]}>":
                        d -= 1
                    self.next()
                args.append((at, None))
                self.accept(",")
                continue
            align = None
            byval = False
            while self._attr_here():
                if self.peek()[1] == "byval":
                    byval = True
                self.skip_attr()
            if byval:
                return ("unsupported", dest, "byval")
            args.append((at, self.value(at)))
            self.accept(",")
        noret = False
        normal = None
        while self.peek()[0] != "eof":
            k, v = self.next()
            if k == "attr" and v in self.m.attr_noreturn or v == "noreturn":
                noret = True
            if v == "to" and self.peek()[1] == "label":
                normal = self.label()
                break
        return ("call", dest, t, callee, args, noret, normal)


def _cstr(v):
    s = v[2:-1]
    out = bytearray()
    i = 0
    b = s.encode("utf-8", "surrogateescape")
    while i < len(b):
        if b[i] == 0x5C:
            if b[i + 1] == 0x5C:
                out.append(0x5C)
                i += 2
            else:
                out.append(int(b[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(b[i])
            i += 1
    return bytes(out)


def const_gep(t, idx):
    off = 0
    if idx:
        off += idx[0] * size_align(t)[0]
        for i in idx[1:]:
            if t[0] == "st":
                off += field_offsets(t)[i]
                t = t[1][i]
            else:
                t = t[2]
                off += i * size_align(t)[0]
    return off


def compile_gep(t, idx):
    """-> (constant offset, [(scale, int width, operand)])"""
    off = 0
    var = []
    first = True
    for it, iv in idx:
        if first:
            sc = size_align(t)[0]
            first = False
        elif t[0] == "st":
            off += field_offsets(t)[iv]
            t = t[1][iv]
            continue
        else:
            t = t[2]
            sc = size_align(t)[0]
        if type(iv) is int:
            s = iv - (1 << it[1]) if iv >> (it[1] - 1) else iv
            off += s * sc
        else:
            if it[0] != "i":
                raise Unsupported("vector gep")
            var.append((sc, it[1], iv))
    return (off, var)
