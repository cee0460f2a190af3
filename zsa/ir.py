"""Textual LLVM IR reader (LLVM 18, opaque pointers).

Only the subset that the canonicalised, fully inlined module can contain is
understood.  Anything else raises `Unsupported`, which the driver turns into an
analysis error (exit 2) -- never into a pass.
"""
import re


class Unsupported(Exception):
    pass


# ----------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "a", "b")
    _pool = {}

    def __new__(cls, k, a=None, b=None):
        key = (k, a, b)
        o = cls._pool.get(key)
        if o is None:
            o = object.__new__(cls)
            o.k, o.a, o.b = k, a, b
            cls._pool[key] = o
        return o

    def __repr__(self):
        return "%s(%s,%s)" % (self.k, self.a, self.b)


I8 = Ty("i", 8)
FLOAT, DOUBLE, PTR, VOID, LABEL, META = (Ty("f", 32), Ty("f", 64), Ty("ptr"), Ty("void"),
                                         Ty("label"), Ty("metadata"))


def INT(w):
    return Ty("i", w)


TOK = re.compile(r'\s*(%"[^"]*"|@"[^"]*"|c"[^"]*"|"[^"]*"|![A-Za-z0-9_.]*|[%@][-A-Za-z0-9_.$]+|#\d+|'
                 r'0x[KLMHR]?[0-9A-Fa-f]+|-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+|\.\.\.|[A-Za-z_][A-Za-z0-9_.]*|'
                 r'[\[\]{}()<>,=*:|])')


def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "" or s[i:].lstrip().startswith(";"):
                break
            raise Unsupported("cannot tokenize IR: %r" % s[i:i + 60])
        out.append(m.group(1))
        i = m.end()
    return out


PARAM_ATTRS = {"noundef", "nonnull", "readonly", "writeonly", "readnone", "nocapture", "noalias", "returned",
               "zeroext", "signext", "inreg", "immarg", "swiftself", "nest", "dead_on_unwind", "writable",
               "nofpclass", "allocptr", "noext", "nofree"}
PARAM_ATTRS_ARG = {"align", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "byref", "inalloca",
                   "elementtype", "preallocated", "nofpclass", "range", "captures", "initializes"}


class Parser:
    def __init__(self, toks, mod):
        self.t, self.i, self.m = toks, 0, mod

    def peek(self, d=0):
        j = self.i + d
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise Unsupported("expected %r got %r in %r" % (x, y, " ".join(self.t)[:200]))

    def skip_parens(self):
        self.expect("(")
        d = 1
        while d:
            x = self.next()
            if x == "(":
                d += 1
            elif x == ")":
                d -= 1

    def type(self):
        x = self.next()
        if x == "float":
            ty = FLOAT
        elif x in ("half", "bfloat"):
            ty = Ty("f", 16)
        elif x == "x86_fp80":
            ty = Ty("f", 80)
        elif x == "double":
            ty = DOUBLE
        elif x == "ptr":
            ty = PTR
        elif x == "void":
            ty = VOID
        elif x == "label":
            ty = LABEL
        elif x == "metadata":
            ty = META
        elif x[0] == "i" and x[1:].isdigit():
            ty = INT(int(x[1:]))
        elif x == "[":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect("]")
            ty = Ty("arr", n, e)
        elif x == "<":
            if self.peek() == "{":
                self.next()
                es = self._list("}")
                self.expect(">")
                ty = Ty("pstruct", tuple(es))
            else:
                n = int(self.next())
                self.expect("x")
                e = self.type()
                self.expect(">")
                ty = Ty("vec", n, e)
        elif x == "{":
            ty = Ty("struct", tuple(self._list("}")))
        elif x[0] == "%":
            ty = Ty("named", x)
        else:
            raise Unsupported("type %r in %r" % (x, " ".join(self.t)[:200]))
        while self.peek() == "*" or (self.peek() == "(" and False):
            self.next()
            ty = PTR
        return ty

    def _list(self, end):
        es = []
        if self.accept(end):
            return es
        while True:
            es.append(self.type())
            if self.accept(end):
                return es
            self.expect(",")

    def attrs(self):
        while True:
            x = self.peek()
            if x in PARAM_ATTRS_ARG:
                self.next()
                if self.peek() == "(":
                    self.skip_parens()
                elif x == "align":
                    self.next()
            elif x in PARAM_ATTRS:
                self.next()
                if self.peek() == "(":
                    self.skip_parens()
            else:
                return

    def value(self, ty):
        """operand of the given type -> tagged tuple"""
        x = self.next()
        if x[0] == "%":
            return ("reg", x)
        if x[0] == "@":
            return ("glob", x)
        if x in ("undef", "poison"):
            return ("undef", ty)
        if x == "null":
            return ("null",)
        if x == "zeroinitializer":
            return ("zero", ty)
        if x in ("true", "false"):
            return ("int", 1, 1 if x == "true" else 0)
        if x == "<" or x == "[" or x == "{":
            end = {"<": ">", "[": "]", "{": "}"}[x]
            packed = False
            if x == "<" and self.peek() == "{":
                self.next()
                end, packed = "}", True
            es = []
            if not self.accept(end):
                while True:
                    t = self.type()
                    es.append((t, self.value(t)))
                    if self.accept(end):
                        break
                    self.expect(",")
            if packed:
                self.expect(">")
            return ("agg", ty, tuple(es))
        if x in ("getelementptr", "bitcast", "inttoptr", "ptrtoint", "addrspacecast", "trunc", "sub", "add"):
            if x != "getelementptr":
                raise Unsupported("constant expression %s" % x)
            self.accept("inbounds")
            self.accept("nuw")
            self.expect("(")
            bt = self.type()
            self.expect(",")
            self.type()
            base = self.value(PTR)
            idx = []
            while self.accept(","):
                self.accept("inrange")
                it = self.type()
                idx.append(self.value(it))
            self.expect(")")
            return ("cgep", bt, base, tuple(idx))
        if x == "splat":
            raise Unsupported("splat")
        if ty.k == "i":
            return ("int", ty.a, int(x) & ((1 << ty.a) - 1))
        if ty.k == "f":
            return ("fp", parse_fp(x, ty))
        if x.startswith('c"'):
            return ("cstr", x)
        if x == "metadata" or x.startswith("!"):
            return ("meta",)
        raise Unsupported("value %r of type %r" % (x, ty))

    def tvalue(self):
        ty = self.type()
        self.attrs()
        return ty, self.value(ty)


def parse_fp(x, ty):
    import struct
    from fractions import Fraction
    if x.startswith("0x"):
        if x[2] == "K":
            n = int(x[3:], 16)
            e, m = (n >> 64) & 0x7fff, n & ((1 << 64) - 1)
            if e == 0x7fff or m == 0:
                raise Unsupported("fp constant " + x)
            v = Fraction(m) * Fraction(2) ** (e - 16383 - 63)
            return -v if n >> 79 else v
        if x[2] == "H":
            d = struct.unpack(">e", bytes.fromhex(x[3:].rjust(4, "0")))[0]
            return Fraction(d) if d == d and abs(d) != float("inf") else "nan" if d != d else "inf" if d > 0 else "-inf"
        if x[2] in "LMR":
            raise Unsupported("fp constant " + x)
        d = struct.unpack(">d", bytes.fromhex(x[2:].rjust(16, "0")))[0]
    else:
        d = float(x)
    if d != d:
        return "nan"
    if d in (float("inf"), float("-inf")):
        return "inf" if d > 0 else "-inf"
    if d == 0.0 and str(d).startswith("-"):
        return "-0"
    return Fraction(d)


FLAGS = {"fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "nuw", "nsw", "exact", "inbounds",
         "disjoint", "nneg", "tail", "musttail", "notail", "volatile", "inrange", "samesign"}
BINOPS = {"fadd", "fsub", "fmul", "fdiv", "frem", "add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl",
          "lshr", "ashr", "and", "or", "xor"}
CASTS = {"zext", "sext", "trunc", "fpext", "fptrunc", "sitofp", "uitofp", "fptosi", "fptoui", "bitcast",
         "ptrtoint", "inttoptr", "addrspacecast"}
CALLCONV = {"fastcc", "coldcc", "ccc", "x86_vectorcallcc"}


class Ins:
    __slots__ = ("op", "res", "ty", "a", "dbg", "flags")

    def __init__(self, op, res, ty, a, dbg, flags=()):
        self.op, self.res, self.ty, self.a, self.dbg, self.flags = op, res, ty, a, dbg, flags


class Func:
    def __init__(self, name):
        self.name, self.params, self.blocks, self.order, self.ret = name, [], {}, [], None
        self.dbg = None


class Module:
    def __init__(self):
        self.types, self.funcs, self.globals, self.meta, self.decls = {}, {}, {}, {}, set()
        self.aliases = {}

    # layout -------------------------------------------------------
    def resolve(self, ty):
        while ty.k == "named":
            if ty.a not in self.types:
                raise Unsupported("opaque type " + ty.a)
            ty = self.types[ty.a]
        return ty

    def align(self, ty):
        ty = self.resolve(ty)
        if ty.k == "i":
            return max(1, min(16, 1 << ((ty.a + 7) // 8 - 1).bit_length()))
        if ty.k == "f":
            return ty.a // 8
        if ty.k == "ptr":
            return 8
        if ty.k == "arr":
            return self.align(ty.b)
        if ty.k == "vec":
            return max(1, 1 << (self.size(ty) - 1).bit_length())
        if ty.k == "struct":
            return max([self.align(e) for e in ty.a] or [1])
        if ty.k == "pstruct":
            return 1
        raise Unsupported("align %r" % ty)

    def size(self, ty):
        ty = self.resolve(ty)
        if ty.k == "i":
            return (ty.a + 7) // 8
        if ty.k == "f":
            return ty.a // 8
        if ty.k == "ptr":
            return 8
        if ty.k == "arr":
            return ty.a * self.asize(ty.b)
        if ty.k == "vec":
            return ty.a * self.size(ty.b)
        if ty.k in ("struct", "pstruct"):
            off = 0
            for e in ty.a:
                if ty.k == "struct":
                    al = self.align(e)
                    off = (off + al - 1) // al * al
                off += self.size(e) if ty.k == "pstruct" else self.asize(e)
            al = self.align(ty)
            return (off + al - 1) // al * al
        raise Unsupported("size %r" % ty)

    def asize(self, ty):
        s, al = self.size(ty), self.align(ty)
        return (s + al - 1) // al * al

    def field(self, ty, i):
        ty = self.resolve(ty)
        off = 0
        for j, e in enumerate(ty.a):
            if ty.k == "struct":
                al = self.align(e)
                off = (off + al - 1) // al * al
            if j == i:
                return off, e
            off += self.asize(e)
        raise Unsupported("field index")

    def gep(self, bt, idx):
        """constant byte offset of a gep, idx = python ints"""
        off = idx[0] * self.asize(bt)
        ty = bt
        for i in idx[1:]:
            ty = self.resolve(ty)
            if ty.k in ("arr", "vec"):
                off += i * self.asize(ty.b)
                ty = ty.b
            else:
                o, ty = self.field(ty, i)
                off += o
        return off


DEFRE = re.compile(r'^define\b.*?(@"[^"]*"|@[-A-Za-z0-9_.$]+)\s*\(')
DBG = re.compile(r',\s*!dbg !(\d+)')
MD = re.compile(r',\s*![A-Za-z_.]+(?:\.[a-z]+)* (?:!\d+|!\{[^}]*\}|!DIExpression\([^)]*\))')


def parse_module(text, want=None):
    m = Module()
    lines = text.split("\n")
    i, n = 0, len(lines)
    while i < n:
        ln = lines[i]
        if not ln or ln[0] == ";":
            i += 1
            continue
        if ln[0] == "%":
            nm, rest = ln.split(" = type ", 1)
            if rest.strip() == "opaque":
                i += 1
                continue
            m.types[nm] = Parser(tokenize(rest), m).type()
        elif ln[0] == "@":
            nm, rest = re.match(r'(@"[^"]*"|@[-A-Za-z0-9_.$]+) = (.*)', ln).groups()
            m.globals[nm] = rest
        elif ln[0] == "!":
            k = ln.find(" = ")
            m.meta[ln[1:k]] = ln[k + 3:]
        elif ln.startswith("declare"):
            g = re.search(r'(@"[^"]*"|@[-A-Za-z0-9_.$]+)\s*\(', ln)
            m.decls.add(g.group(1)[1:])
        elif ln.startswith("define"):
            g = DEFRE.match(ln)
            name = g.group(1)[1:].strip('"')
            body = [ln]
            i += 1
            while lines[i] != "}":
                body.append(lines[i])
                i += 1
            if want is None or name in want:
                m.funcs[name] = body
            else:
                m.funcs[name] = body
        i += 1
    return m


def get_func(m, name):
    f = m.funcs.get(name)
    if isinstance(f, list):
        f = parse_func(m, name, f)
        m.funcs[name] = f
    return f


def parse_func(m, name, body):
    f = Func(name)
    head = body[0]
    g = DEFRE.match(head)
    d = re.search(r'!dbg !(\d+)', head)
    f.dbg = d.group(1) if d else None
    # parameters
    j = g.end()
    depth, k = 1, j
    inq = False
    while depth:
        c = head[k]
        if c == '"':
            inq = not inq
        elif not inq:
            if c == "(":
                depth += 1
            elif c == ")":
                depth -= 1
        k += 1
    ps = head[j:k - 1]
    p = Parser(tokenize(ps), m)
    cnt = 0
    while p.peek() is not None:
        if p.peek() == "...":
            p.next()
            break
        ty = p.type()
        p.attrs()
        nm = None
        if p.peek() and p.peek()[0] == "%":
            nm = p.next()
        else:
            nm = "%" + str(cnt)
        f.params.append((ty, nm))
        cnt += 1
        if not p.accept(","):
            break
    cur = None
    first = True
    acc = []
    for ln in body[1:]:
        s = ln.strip()
        if not s or s[0] == ";":
            continue
        lm = re.match(r'^("[^"]*"|[-A-Za-z0-9_.$]+):', ln)
        if lm and not ln.startswith(" "):
            cur = "%" + lm.group(1)
            f.blocks[cur] = []
            f.order.append(cur)
            first = False
            continue
        if first:
            cur = "%" + str(cnt) if True else None
            f.blocks[cur] = []
            f.order.append(cur)
            first = False
        # switch spans several lines
        acc.append(s)
        if s.startswith("switch") and "]" not in s:
            continue
        if len(acc) > 1 and "]" not in s:
            continue
        s = " ".join(acc)
        acc = []
        if "@llvm.dbg." in s or "@llvm.lifetime" in s or "@llvm.experimental.noalias" in s:
            continue
        f.blocks[cur].append(parse_ins(m, s))
    return f


def parse_ins(m, s):
    d = DBG.search(s)
    dbg = d.group(1) if d else None
    s = MD.sub("", s)
    s = re.sub(r'\s*;.*$', "", s) if ";" in s and '"' not in s else s
    p = Parser(tokenize(s), m)
    res = None
    if p.peek()[0] == "%" and p.peek(1) == "=":
        res = p.next()
        p.next()
    flags = []
    while p.peek() in FLAGS:
        flags.append(p.next())
    op = p.next()
    while p.peek() in FLAGS and op not in ("load", "store"):
        flags.append(p.next())
    if op in BINOPS:
        ty = p.type()
        a = p.value(ty)
        p.expect(",")
        b = p.value(ty)
        return Ins(op, res, ty, (a, b), dbg, flags)
    if op == "fneg":
        ty = p.type()
        return Ins(op, res, ty, (p.value(ty),), dbg)
    if op == "freeze":
        ty = p.type()
        return Ins(op, res, ty, (p.value(ty),), dbg)
    if op in CASTS:
        ty = p.type()
        a = p.value(ty)
        p.expect("to")
        return Ins(op, res, p.type(), (ty, a), dbg)
    if op in ("fcmp", "icmp"):
        pred = p.next()
        while pred in FLAGS:
            pred = p.next()
        ty = p.type()
        a = p.value(ty)
        p.expect(",")
        b = p.value(ty)
        return Ins(op, res, ty, (pred, a, b), dbg)
    if op == "select":
        ct, c = p.tvalue()
        p.expect(",")
        ta, a = p.tvalue()
        p.expect(",")
        tb, b = p.tvalue()
        return Ins(op, res, ta, (ct, c, a, b), dbg)
    if op == "phi":
        ty = p.type()
        inc = []
        while True:
            p.expect("[")
            v = p.value(ty)
            p.expect(",")
            b = p.next()
            p.expect("]")
            inc.append((v, b))
            if not p.accept(","):
                break
        return Ins(op, res, ty, tuple(inc), dbg)
    if op == "load":
        p.accept("atomic")      # single-threaded value flow; sharing is property C27
        if p.accept("volatile"):
            raise Unsupported("volatile load")
        ty = p.type()
        p.expect(",")
        p.expect("ptr")
        return Ins(op, res, ty, (p.value(PTR),), dbg)
    if op == "store":
        if p.accept("volatile") or p.accept("atomic"):
            raise Unsupported("volatile/atomic store")
        ty, v = p.tvalue()
        p.expect(",")
        p.expect("ptr")
        return Ins(op, None, ty, (v, p.value(PTR)), dbg)
    if op == "getelementptr":
        while p.peek() in FLAGS:
            p.next()
        bt = p.type()
        p.expect(",")
        pt, base = p.tvalue()
        idx = []
        while p.accept(","):
            idx.append(p.tvalue())
        if pt.k != "ptr":
            raise Unsupported("vector gep")
        return Ins(op, res, bt, (base, tuple(idx)), dbg)
    if op == "alloca":
        ty = p.type()
        cnt = 1
        if p.accept(","):
            if p.peek() == "align":
                pass
            else:
                t, v = p.tvalue()
                if v[0] != "int":
                    raise Unsupported("dynamic alloca")
                cnt = v[2]
        return Ins(op, res, ty, (cnt,), dbg)
    if op == "extractelement":
        tv, v = p.tvalue()
        p.expect(",")
        ti, i = p.tvalue()
        return Ins(op, res, tv, (v, i), dbg)
    if op == "insertelement":
        tv, v = p.tvalue()
        p.expect(",")
        te, e = p.tvalue()
        p.expect(",")
        ti, i = p.tvalue()
        return Ins(op, res, tv, (v, e, i), dbg)
    if op == "shufflevector":
        tv, v = p.tvalue()
        p.expect(",")
        tw, w = p.tvalue()
        p.expect(",")
        tm, mk = p.tvalue()
        return Ins(op, res, tv, (v, w, tm, mk), dbg)
    if op == "extractvalue":
        tv, v = p.tvalue()
        idx = []
        while p.accept(","):
            idx.append(int(p.next()))
        return Ins(op, res, tv, (v, tuple(idx)), dbg)
    if op == "insertvalue":
        tv, v = p.tvalue()
        p.expect(",")
        te, e = p.tvalue()
        idx = []
        while p.accept(","):
            idx.append(int(p.next()))
        return Ins(op, res, tv, (v, te, e, tuple(idx)), dbg)
    if op in ("call", "invoke"):
        if op == "invoke":
            raise Unsupported("invoke")
        while p.peek() in CALLCONV or p.peek() in FLAGS:
            p.next()
        p.attrs()
        rt = p.type()
        if p.peek() == "(":     # function type
            p.skip_parens()
        p.accept("asm")
        callee = p.next()
        p.expect("(")
        args = []
        if not p.accept(")"):
            while True:
                t = p.type()
                p.attrs()
                if t.k == "metadata":
                    while p.peek() not in (",", ")"):
                        if p.peek() == "(":
                            p.skip_parens()
                        else:
                            p.next()
                    args.append((t, ("meta",)))
                else:
                    args.append((t, p.value(t)))
                if p.accept(")"):
                    break
                p.expect(",")
        return Ins("call", res, rt, (callee, tuple(args)), dbg)
    if op == "br":
        if p.peek() == "label":
            p.next()
            return Ins("br", None, None, (p.next(),), dbg)
        p.expect("i1")
        c = p.value(INT(1))
        p.expect(",")
        p.expect("label")
        a = p.next()
        p.expect(",")
        p.expect("label")
        return Ins("cbr", None, None, (c, a, p.next()), dbg)
    if op == "switch":
        ty = p.type()
        v = p.value(ty)
        p.expect(",")
        p.expect("label")
        dflt = p.next()
        p.expect("[")
        cases = []
        while not p.accept("]"):
            t = p.type()
            c = p.value(t)
            p.expect(",")
            p.expect("label")
            cases.append((c, p.next()))
        return Ins("switch", None, ty, (v, dflt, tuple(cases)), dbg)
    if op == "ret":
        ty = p.type()
        if ty.k == "void":
            return Ins("ret", None, ty, (), dbg)
        return Ins("ret", None, ty, (p.value(ty),), dbg)
    if op == "unreachable":
        return Ins("unreachable", None, None, (), dbg)
    raise Unsupported("instruction %r" % op)
