"""Parser for the textual LLVM IR that clang-18 emits for /repo's sources.

Only the constructs that occur in this code base are understood; everything
else raises Unsupported, which the checker reports as "not decided", never as
proved."""
import re, subprocess


class Unsupported(Exception):
    pass


# ----------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "n", "elts", "packed", "name")

    def __init__(self, k, n=0, elts=None, packed=False, name=None):
        self.k, self.n, self.elts, self.packed, self.name = k, n, elts, packed, name

    def __repr__(self):
        if self.k == "int":
            return "i%d" % self.n
        if self.k == "arr":
            return "[%d x %r]" % (self.n, self.elts[0])
        if self.k == "vec":
            return "<%d x %r>" % (self.n, self.elts[0])
        if self.k == "struct":
            return self.name or "{%s}" % ",".join(map(repr, self.elts))
        return self.k


PTR = Ty("ptr")
VOID = Ty("void")
DOUBLE = Ty("double")
FLOAT = Ty("float")
_ints = {}


def INT(n):
    if n not in _ints:
        _ints[n] = Ty("int", n)
    return _ints[n]


TOK = re.compile(
    r'\s*(?:(c"(?:[^"\\]|\\.)*")|([%@]"(?:[^"\\]|\\.)*")|([%@][-\w.$]+)|("(?:[^"\\]|\\.)*")'
    r'|(![\w.]*)|(#\d+)|(-?\d+\.\d+(?:e[+-]?\d+)?|0x[0-9A-Fa-f]+|-?\d+)|([A-Za-z_][\w.]*)|(\.\.\.|[][{}()<>,=*:]))')


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "" or s[i:].lstrip().startswith(";"):
                break
            raise Unsupported("token: " + s[i:i + 40])
        out.append(m.group(0).strip())
        i = m.end()
        if s[i:i + 1] == ";" or s[i:i + 2] == " ;":
            break
    return out


class P:
    """token stream"""

    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise Unsupported("expected %s got %s in %s" % (x, y, " ".join(self.t[:60])))

    def more(self):
        return self.i < len(self.t)

    def type(self):
        t = self.next()
        if t == "ptr":
            r = PTR
        elif t == "void":
            r = VOID
        elif t == "double":
            r = DOUBLE
        elif t == "float":
            r = FLOAT
        elif t in ("x86_fp80", "fp128", "half", "token", "metadata", "label"):
            r = Ty(t)
        elif re.fullmatch(r"i\d+", t):
            r = INT(int(t[1:]))
        elif t == "[":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect("]")
            r = Ty("arr", n, [e])
        elif t == "<":
            if self.peek() == "{":
                self.next()
                el = self.typelist("}")
                self.expect(">")
                r = Ty("struct", 0, el, True)
            else:
                n = int(self.next())
                self.expect("x")
                e = self.type()
                self.expect(">")
                r = Ty("vec", n, [e])
        elif t == "{":
            r = Ty("struct", 0, self.typelist("}"))
        elif t[0] == "%":
            r = self.mod.named(t)
        else:
            raise Unsupported("type " + t)
        while self.peek() == "(":  # function type
            self.next()
            d = 1
            while d:
                x = self.next()
                d += (x == "(") - (x == ")")
            r = Ty("fn", 0, [r])
        return r

    def typelist(self, close):
        el = []
        if self.eat(close):
            return el
        while True:
            el.append(self.type())
            if self.eat(close):
                return el
            self.expect(",")

    ATTR1 = {"noundef", "nonnull", "noalias", "nocapture", "readonly", "writeonly", "zeroext", "signext",
             "returned", "immarg", "readnone", "nofree", "nest", "inreg", "writable", "allocptr", "dead_on_unwind"}

    def attrs(self):
        while True:
            t = self.peek()
            if t in self.ATTR1:
                self.next()
            elif t == "align":
                self.next()
                if self.eat("("):
                    self.next(); self.expect(")")
                else:
                    self.next()
            elif t in ("dereferenceable", "dereferenceable_or_null", "sret", "byval", "elementtype", "memory", "range"):
                self.next()
                self.expect("(")
                d = 1
                while d:
                    x = self.next()
                    d += (x == "(") - (x == ")")
            else:
                return

    def value(self, ty):
        """operand of known type -> tuple"""
        t = self.next()
        if t[0] == "%":
            return ("r", unq(t))
        if t[0] == "@":
            return ("g", unq(t))
        if t in ("true", "false"):
            return ("c", t == "true")
        if t == "null":
            return ("null",)
        if t in ("undef", "poison"):
            return ("undef", ty)
        if t == "zeroinitializer":
            return ("zero", ty)
        if t == "none":
            return ("undef", ty)
        if re.fullmatch(r"-?\d+", t):
            if ty.k == "int":
                v = int(t)
                if ty.n == 1:
                    return ("c", bool(v))
                return ("c", v & ((1 << ty.n) - 1))
            return ("fp", float(t))
        if re.fullmatch(r"0x[0-9A-Fa-f]+", t):
            return ("fpbits", int(t, 16))
        if re.fullmatch(r"-?\d+\.\d+(e[+-]?\d+)?", t):
            return ("fp", float(t))
        if t[:2] == 'c"':
            return ("str", cstr(t[2:-1]))
        if t == "getelementptr":
            while self.peek() in ("inbounds", "nuw", "nusw"):
                self.next()
            if self.peek() == "inrange":
                raise Unsupported("inrange")
            self.expect("(")
            bt = self.type()
            self.expect(",")
            ops = []
            while True:
                self.eat("inrange")
                et = self.type()
                ops.append((et, self.value(et)))
                if self.eat(")"):
                    break
                self.expect(",")
            return ("gep", bt, ops)
        if t in ("{", "[", "<"):
            close = {"{": "}", "[": "]", "<": ">"}[t]
            packed = False
            if t == "<" and self.peek() == "{":
                self.next()
                close = "}"
                packed = True
            el = []
            if not self.eat(close):
                while True:
                    et = self.type()
                    el.append((et, self.value(et)))
                    if self.eat(close):
                        break
                    self.expect(",")
            if packed:
                self.expect(">")
            return ("agg", el)
        if t in ("bitcast", "inttoptr", "ptrtoint", "trunc", "sub", "add"):
            return ("cexpr", t, self._skip_paren())
        raise Unsupported("value " + t + " in " + " ".join(self.t[:40]))

    def _skip_paren(self):
        self.expect("(")
        d = 1
        o = []
        while d:
            x = self.next()
            d += (x == "(") - (x == ")")
            o.append(x)
        return o

    def tv(self):
        ty = self.type()
        self.attrs()
        return ty, self.value(ty)


def unq(t):
    if t[1:2] == '"':
        return t[0] + t[2:-1]
    return t


def cstr(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class Ins:
    __slots__ = ("op", "dst", "ty", "a", "line")

    def __init__(self, op, dst, ty, a, line):
        self.op, self.dst, self.ty, self.a, self.line = op, dst, ty, a, line

    def __repr__(self):
        return self.line.strip()


class Block:
    __slots__ = ("name", "ins", "succ")

    def __init__(self, name):
        self.name, self.ins, self.succ = name, [], []


class Func:
    def __init__(self, name, ret, params, decl, nounwind):
        self.name, self.ret, self.params, self.decl, self.nounwind = name, ret, params, decl, nounwind
        self.raw = []
        self._blocks = None
        self.entry = None
        self.mod = None

    @property
    def blocks(self):
        if self._blocks is None:
            self._parse()
        return self._blocks

    def _parse(self):
        mod = self.mod
        blocks = {}
        # the entry block's implicit label is the next free number
        nums = [int(p[1:]) for _, p in self.params if p and p[1:].isdigit()]
        cur = Block("%" + str(len(self.params)))
        first = True
        lines = self.raw
        i = 0
        while i < len(lines):
            l = lines[i]
            m = re.match(r'^("(?:[^"])*"|[-\w.$]+):', l)
            if m:
                nm = "%" + m.group(1).strip('"')
                if first and not cur.ins:
                    cur = Block(nm)
                else:
                    blocks[cur.name] = cur
                    cur = Block(nm)
                if first:
                    first = False
                i += 1
                continue
            first = False
            s = l.strip()
            if not s:
                i += 1
                continue
            # multi-line: switch [...], landingpad clauses, invoke "to label"
            while True:
                nxt = lines[i + 1].strip() if i + 1 < len(lines) else ""
                if s.lstrip().startswith("switch ") and "]" not in s.split("[", 1)[-1]:
                    s += " " + nxt
                elif nxt.startswith(("to label", "catch ", "cleanup", "filter ")):
                    s += " " + nxt
                else:
                    break
                i += 1
            cur.ins.append(s)
            i += 1
        blocks[cur.name] = cur
        self.entry = next(iter(blocks))
        for b in blocks.values():
            b.ins = [parse_ins(s, mod) for s in b.ins]
            t = b.ins[-1]
            if t.op == "br":
                b.succ = [t.a[0]]
            elif t.op == "condbr":
                b.succ = [t.a[1], t.a[2]]
            elif t.op == "switch":
                b.succ = [t.a[1]] + [x[1] for x in t.a[2]]
            elif t.op == "invoke":
                b.succ = [t.a["normal"], t.a["unwind"]]
            else:
                b.succ = []
        self._blocks = blocks
        self._loops()

    def _loops(self):
        """dominators and natural loops"""
        bl = self._blocks
        order = []
        seen = set()
        st = [(self.entry, iter(bl[self.entry].succ))]
        seen.add(self.entry)
        while st:
            n, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(bl[s].succ)))
                    break
            else:
                order.append(n)
                st.pop()
        rpo = order[::-1]
        idx = {n: i for i, n in enumerate(rpo)}
        pred = {n: [] for n in rpo}
        for n in rpo:
            for s in bl[n].succ:
                pred[s].append(n)
        idom = {self.entry: self.entry}
        ch = True
        while ch:
            ch = False
            for n in rpo[1:]:
                ps = [p for p in pred[n] if p in idom]
                d = ps[0]
                for p in ps[1:]:
                    a, b = d, p
                    while a != b:
                        while idx[a] > idx[b]:
                            a = idom[a]
                        while idx[b] > idx[a]:
                            b = idom[b]
                    d = a
                if idom.get(n) != d:
                    idom[n] = d
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if idom[b] == b:
                    return False
                b = idom[b]

        loops = {}
        for n in rpo:
            for s in bl[n].succ:
                if dom(s, n):
                    body = loops.setdefault(s, {s})
                    w = [n]
                    while w:
                        x = w.pop()
                        if x not in body:
                            body.add(x)
                            w.extend(pred[x])
                elif idx[s] <= idx[n]:
                    raise Unsupported("irreducible control flow in " + self.name)
        self.loops = loops
        self.rpo = rpo
        self.pred = pred
        self.idom = idom


BIN = {"add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "lshr", "ashr",
       "fadd", "fsub", "fmul", "fdiv", "frem"}
CAST = {"sext", "zext", "trunc", "bitcast", "ptrtoint", "inttoptr", "fptosi", "fptoui", "sitofp", "uitofp",
        "fpext", "fptrunc"}
FLAGS = {"nuw", "nsw", "exact", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast", "disjoint", "nneg",
         "volatile", "inbounds"}


def parse_ins(s, mod):
    line = s
    s = re.sub(r", !\w+ ![\d]+|, !srcloc ![\d]+", "", s)
    p = P(tokenize(s), mod)
    dst = None
    if p.peek(1) == "=":
        dst = unq(p.next())
        p.next()
    op = p.next()
    if op in ("tail", "musttail", "notail"):
        op = p.next()
    try:
        return _parse(op, dst, p, line, mod)
    except Unsupported as e:
        return Ins("unsupported", dst, None, str(e), line)


def _parse(op, dst, p, line, mod):
    while p.peek() in FLAGS:
        p.next()
    if op in BIN:
        ty = p.type()
        a = p.value(ty)
        p.expect(",")
        b = p.value(ty)
        return Ins(op, dst, ty, (a, b), line)
    if op == "fneg":
        ty, a = p.tv()
        return Ins(op, dst, ty, (a,), line)
    if op == "freeze":
        ty, a = p.tv()
        return Ins(op, dst, ty, (a,), line)
    if op in CAST:
        fty, a = p.tv()
        p.expect("to")
        ty = p.type()
        return Ins(op, dst, ty, (fty, a), line)
    if op in ("icmp", "fcmp"):
        while p.peek() in FLAGS:
            p.next()
        pred = p.next()
        ty = p.type()
        a = p.value(ty)
        p.expect(",")
        b = p.value(ty)
        return Ins(op, dst, ty, (pred, a, b), line)
    if op == "load":
        ty = p.type()
        p.expect(",")
        _, a = p.tv()
        return Ins(op, dst, ty, (a,), line)
    if op == "store":
        ty, v = p.tv()
        p.expect(",")
        _, a = p.tv()
        return Ins(op, dst, ty, (v, a), line)
    if op == "alloca":
        ty = p.type()
        n = None
        if p.eat(","):
            if p.peek() != "align":
                nt, n = p.tv()
        return Ins(op, dst, ty, (n,), line)
    if op == "getelementptr":
        bt = p.type()
        p.expect(",")
        _, base = p.tv()
        idx = []
        while p.eat(","):
            if p.peek() and p.peek().startswith("!"):
                break
            idx.append(p.tv())
        return Ins(op, dst, bt, (base, idx), line)
    if op == "phi":
        ty = p.type()
        inc = []
        while True:
            p.expect("[")
            v = p.value(ty)
            p.expect(",")
            b = unq(p.next())
            p.expect("]")
            inc.append((v, b))
            if not p.eat(","):
                break
        return Ins(op, dst, ty, inc, line)
    if op == "select":
        _, c = p.tv()
        p.expect(",")
        ty, a = p.tv()
        p.expect(",")
        _, b = p.tv()
        return Ins(op, dst, ty, (c, a, b), line)
    if op == "br":
        if p.eat("label"):
            return Ins("br", None, None, (unq(p.next()),), line)
        _, c = p.tv()
        p.expect(",")
        p.expect("label")
        a = unq(p.next())
        p.expect(",")
        p.expect("label")
        b = unq(p.next())
        return Ins("condbr", None, None, (c, a, b), line)
    if op == "switch":
        ty, v = p.tv()
        p.expect(",")
        p.expect("label")
        d = unq(p.next())
        p.expect("[")
        cs = []
        while not p.eat("]"):
            t2, c = p.tv()
            p.expect(",")
            p.expect("label")
            cs.append((c, unq(p.next())))
        return Ins("switch", None, ty, (v, d, cs), line)
    if op == "ret":
        ty = p.type()
        if ty.k == "void":
            return Ins("ret", None, ty, None, line)
        return Ins("ret", None, ty, p.value(ty), line)
    if op in ("call", "invoke"):
        while p.peek() in ("fastcc", "ccc", "coldcc"):
            p.next()
        p.attrs()
        ty = p.type()
        if ty.k == "fn":
            ty = ty.elts[0]
        p.attrs()
        callee = p.value(PTR)
        p.expect("(")
        args = []
        if not p.eat(")"):
            while True:
                at = p.type()
                p.attrs()
                if at.k == "metadata":
                    p.next()
                    args.append((at, None))
                else:
                    args.append((at, p.value(at)))
                if p.eat(")"):
                    break
                p.expect(",")
        a = {"callee": callee, "args": args, "nounwind": False}
        while p.more():
            t = p.next()
            if t[0] == "#":
                a["nounwind"] = "nounwind" in mod.attrs.get(t, ())
            elif t == "to":
                p.expect("label")
                a["normal"] = unq(p.next())
                p.expect("unwind")
                p.expect("label")
                a["unwind"] = unq(p.next())
        return Ins(op, dst, ty, a, line)
    if op == "landingpad":
        ty = p.type()
        cl = []
        while p.more():
            t = p.next()
            if t == "cleanup":
                cl.append("cleanup")
            elif t == "catch":
                _, v = p.tv()
                cl.append(("catch", v))
            elif t == "filter":
                cl.append("filter")
                break
        return Ins(op, dst, ty, cl, line)
    if op == "resume":
        ty, v = p.tv()
        return Ins(op, None, ty, (v,), line)
    if op == "unreachable":
        return Ins(op, None, None, None, line)
    if op == "extractvalue":
        ty, v = p.tv()
        idx = []
        while p.eat(","):
            idx.append(int(p.next()))
        return Ins(op, dst, ty, (v, idx), line)
    if op == "insertvalue":
        ty, v = p.tv()
        p.expect(",")
        et, e = p.tv()
        idx = []
        while p.eat(","):
            idx.append(int(p.next()))
        return Ins(op, dst, ty, (v, e, idx), line)
    raise Unsupported("opcode " + op)


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.attrs = {}
        self.aliases = {}
        lines = text.split("\n")
        tl = []
        gl = []
        fl = []
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith("%"):
                tl.append(l)
            elif l.startswith("@"):
                gl.append(l)
            elif l.startswith("attributes #"):
                m = re.match(r"attributes (#\d+) = \{(.*)\}", l)
                self.attrs[m.group(1)] = set(re.sub(r'"[^"]*"(="[^"]*")?', "", m.group(2)).split())
            elif l.startswith("declare"):
                fl.append((l, None))
            elif l.startswith("define"):
                j = i + 1
                while lines[j] != "}":
                    j += 1
                fl.append((l, lines[i + 1:j]))
                i = j
            i += 1
        self._tl = {}
        for l in tl:
            m = re.match(r'(%"[^"]*"|%[\w.$-]+) = type (.*)', l)
            if m:
                self._tl[unq(m.group(1))] = m.group(2)
        for l, body in fl:
            self._func(l, body)
        self._gl = {}
        for l in gl:
            m = re.match(r'(@"[^"]*"|@[\w.$-]+) = (.*)', l)
            if m:
                self._gl[unq(m.group(1))] = m.group(2)
                ma = re.match(r".*\balias\b.*, ptr (@[\w.$-]+|@\"[^\"]*\")", m.group(2))
                if ma:
                    self.aliases[unq(m.group(1))] = unq(ma.group(1))
        self.demangle()

    def named(self, t):
        t = unq(t)
        if t not in self.types:
            src = self._tl[t]
            if src == "opaque":
                ty = Ty("struct", 0, [], name=t)
                self.types[t] = ty
                return ty
            ty = P(tokenize(src), self).type()
            ty = Ty(ty.k, ty.n, ty.elts, ty.packed, t)
            self.types[t] = ty
        return self.types[t]

    def _func(self, l, body):
        m = re.search(r'(@"[^"]*"|@[\w.$-]+)\(', l)
        name = unq(m.group(1))
        pre = l[:m.start()]
        rest = l[m.end() - 1:]
        # parameter list
        d = 0
        for k, c in enumerate(rest):
            d += (c == "(") - (c == ")")
            if d == 0:
                break
        ps, tail = rest[1:k], rest[k + 1:]
        params = []
        if body is not None:
            p = P(tokenize(ps), self)
            while p.more():
                if p.peek() == "...":
                    p.next()
                    break
                ty = p.type()
                p.attrs()
                nm = unq(p.next())
                params.append((ty, nm))
                if not p.eat(","):
                    break
        nounwind = any("nounwind" in self.attrs_later(t, l) for t in ())
        f = Func(name, None, params, body is None, False)
        f.attrids = re.findall(r"#\d+", tail)
        f.mod = self
        f.raw = body or []
        f.header = l
        self.funcs[name] = f

    def attrs_later(self, t, l):
        return ()

    def is_nounwind(self, f):
        return any("nounwind" in self.attrs.get(a, ()) for a in f.attrids)

    def glob(self, name):
        """(type, init value, constant?)"""
        if name not in self.globals:
            src = self._gl[name]
            m = re.match(r"(.*?)\b(constant|global)\b (.*)", src)
            if not m:
                raise Unsupported("global " + name)
            ext = re.search(r"\bexternal\b", m.group(1)) is not None
            p = P(tokenize(re.sub(r", !\w+ !\d+", "", m.group(3))), self)
            ty = p.type()
            init = None if ext else p.value(ty)
            self.globals[name] = (ty, init, m.group(2) == "constant")
        return self.globals[name]

    # ------------------------------------------------ layout
    def size(self, ty):
        k = ty.k
        if k == "int":
            return {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}.get(ty.n) or (ty.n + 7) // 8
        if k == "ptr":
            return 8
        if k == "double":
            return 8
        if k == "float":
            return 4
        if k == "arr":
            return ty.n * self.size(ty.elts[0])
        if k == "vec":
            return ty.n * self.size(ty.elts[0])
        if k == "struct":
            return self.fields(ty)[1]
        raise Unsupported("size of " + k)

    def align(self, ty):
        k = ty.k
        if k in ("int", "ptr", "double", "float"):
            return self.size(ty)
        if k in ("arr",):
            return self.align(ty.elts[0])
        if k == "vec":
            return self.size(ty)
        if k == "struct":
            if ty.packed or not ty.elts:
                return 1
            return max(self.align(e) for e in ty.elts)
        raise Unsupported("align of " + k)

    _fc = {}

    def fields(self, ty):
        key = id(ty)
        if key in self._fc:
            return self._fc[key][1]
        off = 0
        offs = []
        for e in ty.elts:
            if not ty.packed:
                a = self.align(e)
                off = (off + a - 1) // a * a
            offs.append(off)
            off += self.size(e)
        if not ty.packed and ty.elts:
            a = self.align(ty)
            off = (off + a - 1) // a * a
        self._fc[key] = (ty, (offs, off))
        return offs, off

    def leaves(self, ty, off=0):
        """scalar leaves [(offset, type)]"""
        if ty.k == "struct":
            o, _ = self.fields(ty)
            r = []
            for e, x in zip(ty.elts, o):
                r += self.leaves(e, off + x)
            return r
        if ty.k in ("arr", "vec"):
            s = self.size(ty.elts[0])
            r = []
            for i in range(ty.n):
                r += self.leaves(ty.elts[0], off + i * s)
            return r
        return [(off, ty)]

    # ------------------------------------------------ names
    def demangle(self):
        names = list(self.funcs) + list(self.aliases)
        inp = "\n".join(n[1:] for n in names)
        out = subprocess.run(["c++filt"], input=inp, capture_output=True, text=True).stdout.split("\n")
        self.pretty = dict(zip(names, out))
        self.byname = {}
        for n in names:
            if n in self.funcs:
                self.byname.setdefault(self.pretty[n], []).append(n)

    def find(self, pretty):
        """function by demangled signature (exact)"""
        r = self.byname.get(pretty, [])
        return self.funcs[r[0]] if r else None


def build(repo, out, extra=(), passes="function(sroa,simplifycfg)"):
    """compile /repo's sources (and extra TUs) to one linked module; returns the text"""
    import os
    os.makedirs(out, exist_ok=True)
    code = os.path.join(repo, "Code")
    srcs = [os.path.join(code, x) for x in
            ("Json4C4/C4Json.cpp", "Terathon/TSText.cpp", "Terathon/TSString.cpp", "Terathon/TSMap.cpp")]
    srcs += list(extra)
    procs = []
    lls = []
    for s in srcs:
        o = os.path.join(out, os.path.basename(s) + ".ll")
        lls.append(o)
        procs.append((s, subprocess.Popen(
            ["clang++-18", "-std=c++17", "-O1", "-Xclang", "-disable-llvm-passes", "-w", "-S", "-emit-llvm",
             "-I" + code, "-I" + code + "/Terathon", "-I" + code + "/Json4C4", s, "-o", o],
            stderr=subprocess.PIPE)))
    for s, p in procs:
        _, err = p.communicate()
        if p.returncode:
            raise RuntimeError("compile %s:\n%s" % (s, err.decode()[-2000:]))
    subprocess.run(["llvm-link-18", "-S"] + lls + ["-o", out + "/all.ll"], check=True)
    subprocess.run(["opt-18", "-S", "-passes=" + passes, out + "/all.ll", "-o", out + "/opt.ll"], check=True)
    return open(out + "/opt.ll").read()


if __name__ == "__main__":
    import sys, time
    t = time.time()
    m = Module(open(sys.argv[1]).read())
    bad = {}
    for f in m.funcs.values():
        if f.decl:
            continue
        try:
            for b in f.blocks.values():
                for i in b.ins:
                    if i.op == "unsupported":
                        bad.setdefault(i.a[:60], []).append(m.pretty[f.name])
        except Unsupported as e:
            print("FN", m.pretty[f.name], e)
    for k, v in bad.items():
        print(k, len(v), v[0])
    for g in m._gl:
        try:
            m.glob(g)
        except Exception as e:
            print("G", g, str(e)[:100])
    print(len(m.funcs), time.time() - t)
