"""Gated value-flow construction: one acyclic function -> a term for every
output cell.  Control-flow joins become `ite` terms gated by the edge
conditions (gated SSA); memory is a map of byte ranges per object.
No path is executed or enumerated here."""
from .ir import Unsupported, get_func, FLOAT, I8, PTR, Parser, tokenize
from .term import *
from . import term as tm


class Ptr:
    __slots__ = ("r", "o")

    def __init__(self, r, o):
        self.r, self.o = r, o


class PIte:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class Vec:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = tuple(e)


class Agg(Vec):
    pass


SWAPPRED = {"eq": "eq", "ne": "ne", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult",
            "ule": "uge", "uge": "ule"}

class OOB(Exception):
    """access outside of the object a pointer argument designates"""

    def __init__(self, region, off, size, kind, dbg):
        self.region, self.off, self.size, self.kind, self.dbg = region, off, size, kind, dbg


UNARY = {"sinf": "sin", "cosf": "cos", "tanf": "tan", "asinf": "asin", "acosf": "acos", "atanf": "atan",
         "sinhf": "sinh", "coshf": "cosh", "tanhf": "tanh", "asinhf": "asinh", "acoshf": "acosh",
         "atanhf": "atanh", "expf": "exp", "exp2f": "exp2", "logf": "log", "log2f": "log2", "sqrtf": "sqrt",
         "cbrtf": "cbrt", "floorf": "floor", "ceilf": "ceil", "truncf": "trunc", "roundf": "round",
         "nearbyintf": "rint", "rintf": "rint", "fabsf": "fabs", "log10f": "log10", "expm1f": "expm1",
         "log1pf": "log1p", "roundevenf": "rint"}
BINARY = {"powf": "pow", "atan2f": "atan2", "fmodf": "fmod", "fminf": "fmin", "fmaxf": "fmax",
          "hypotf": "hypot", "copysignf": "copysign", "remainderf": "remainder"}
TERNARY = {"fmaf": "fma"}
TOINT = {f + s: g for f, g in (("lround", "round"), ("llround", "round"), ("lrint", "rint"), ("llrint", "rint"))
         for s in ("f", "")}
for _d in (UNARY, BINARY, TERNARY):
    for _k in list(_d):
        _d[_k[:-1]] = _d[_k]           # double version
INTRIN1 = {"llvm.sqrt": "sqrt", "llvm.sin": "sin", "llvm.cos": "cos", "llvm.exp": "exp", "llvm.exp2": "exp2",
           "llvm.log": "log", "llvm.log2": "log2", "llvm.floor": "floor", "llvm.ceil": "ceil",
           "llvm.trunc": "trunc", "llvm.round": "round", "llvm.rint": "rint", "llvm.nearbyint": "rint",
           "llvm.roundeven": "rint", "llvm.fabs": "fabs", "llvm.log10": "log10"}
INTRIN2 = {"llvm.pow": "pow", "llvm.minnum": "fmin", "llvm.maxnum": "fmax", "llvm.copysign": "copysign",
           "llvm.minimum": "fmin", "llvm.maximum": "fmax"}
NORETURN = {"__assert_fail", "abort", "exit", "_ZSt9terminatev", "__cxa_throw", "_ZSt17__throw_bad_allocv"}


KEEP_FMA = False        # C10: the fused operation is the subject; elsewhere it is a way of evaluating a*b + c


def fcall(f, *a):
    x = a[0]
    if f == "fma" and not KEEP_FMA:
        return mk("add", (mk("mul", (a[0], a[1]), "f"), a[2]), "f")
    if f == "fabs":
        return mk("fabs", (x,), "f")
    return mk("call", (f,) + a, "f")


FLT_MAX = Fraction((2 ** 24 - 1) * 2 ** 104)


class FlowBuilder:
    def __init__(self, mod, fname, regions, globinit=None):
        """regions: list, one per pointer parameter: (name, size, [(off,size,term)])
        globinit: contents of static storage at entry, where they differ from the initialisers"""
        self.globinit = globinit or {}
        self.m, self.f = mod, get_func(mod, fname)
        if self.f is None:
            raise Unsupported("no such function " + fname)
        self.env, self.regions = {}, {}
        self.init = {}
        self.sizes = {}
        for (ty, nm), reg in zip(self.f.params, regions):
            name, size, cells = reg
            self.env[nm] = Ptr(name, 0)
            self.sizes[name] = size
            d = self.init.setdefault(name, {})
            for off, sz, t in cells:
                d[off] = (sz, t)
        if len(self.f.params) != len(regions):
            raise Unsupported("wrapper parameter mismatch")
        self.oob = []
        self.aborts = FALSE
        self.calls = 0
        self.heap = 0
        self.stores = 0
        self.ninstr = 0
        self.global_loads = set()
        self.global_stores = set()
        self.cur = None

    # ------------------------------------------------------------ values
    def val(self, v, ty):
        k = v[0]
        if k == "reg":
            return self.env[v[1]]
        if k == "int":
            return ic(v[2], v[1])
        if k == "fp":
            x = v[1]
            return fc(x)
        if k == "undef":
            return self.undefval(ty)
        if k == "zero":
            return self.zeroval(ty)
        if k == "agg":
            es = [self.val(e, t) for t, e in v[2]]
            return Vec(es) if ty.k == "vec" else Agg(es)
        if k == "null":
            return Ptr("null", 0)
        if k == "glob":
            return Ptr("glob:" + v[1], 0)
        if k == "cgep":
            base = self.val(v[2], PTR)
            idx = [self.signed(self.val(i, None)) for i in v[3]]
            return Ptr(base.r, base.o + self.m.gep(v[1], idx))
        raise Unsupported("operand %r" % (v,))

    def rebuild(self, t, m, memo):
        """t with the boolean subterm m[0] replaced by the constant m[1], folded"""
        if t is m[0]:
            return m[1]
        if t.op in ("ic", "fc", "sym", "undef"):
            return t
        if t.id in memo:
            return memo[t.id]
        R = lambda x: self.rebuild(x, m, memo) if isinstance(x, T) else x
        o, a = t.op, t.a
        if o == "ite":
            c = R(a[0])
            r = R(a[1]) if c is TRUE else R(a[2]) if c is FALSE else ite(c, R(a[1]), R(a[2]))
        elif o == "concat":
            r = concat([R(x) for x in a])
        elif o == "slice":
            r = mkslice(R(a[0]), a[1], t.ty)
        elif o == "not":
            r = notb(R(a[0]))
        elif o in ("and", "or") and t.ty == 1:
            xs = [R(x) for x in a]
            r = xs[0]
            for x in xs[1:]:
                r = andb(r, x) if o == "and" else orb(r, x)
        elif o == "sext":
            x = R(a[0])
            r = self.one_sext(x, t.ty)
        elif o == "icmp":
            x, y = R(a[1]), R(a[2])
            r = t if x is a[1] and y is a[2] else self.cmp("icmp", a[0], x, y)
        elif o in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "lshr", "ashr"):
            xs = [R(x) for x in a]
            r = xs[0]
            for x in xs[1:]:
                r = self.ibin(o, r, x)
        else:
            r = t
        memo[t.id] = r
        return r

    @staticmethod
    def one_sext(x, w):
        if x.op == "ic":
            k = x.a[0]
            return ic(k - (1 << x.ty) if k >> (x.ty - 1) else k, w)
        return mk("sext", (x,), w)

    def atom(self, t, seen):
        """a boolean the integer term t is selected by"""
        if t.id in seen or t.op in ("ic", "fc", "sym", "undef"):
            return None
        seen.add(t.id)
        if t.op == "ite":
            return self.atom(t.a[0], seen) or t.a[0]
        if t.op == "icmp":          # a comparison of integers that are selected themselves: what selects them comes first
            for x in t.a[1:]:
                r = self.atom(x, seen)
                if r is not None:
                    return r
            return t
        if t.ty == 1 and t.op in ("and", "or", "not", "xor"):
            for x in t.a:
                r = isinstance(x, T) and self.atom(x, seen)
                if r:
                    return r
        if t.ty == 1:
            return t
        if t.op in ("concat", "slice", "sext", "add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "lshr", "ashr"):
            for x in t.a:
                if isinstance(x, T):
                    r = self.atom(x, seen)
                    if r is not None:
                        return r
        return None

    def choose(self, t, f, depth=0):
        """f(constant) for an index taking finitely many values, gated by the conditions selecting them"""
        if t.op == "ic":
            return f(self.signed(t))
        c = self.atom(t, set()) if depth < 8 else None
        if c is None:
            raise Unsupported("non-constant index")
        a = self.choose(self.rebuild(t, (c, TRUE), {}), f, depth + 1)
        b = self.choose(self.rebuild(t, (c, FALSE), {}), f, depth + 1)
        return self.iteval(c, a, b)

    def signed(self, t):
        if t.op != "ic":
            raise Unsupported("non-constant index")
        x = t.a[0]
        return x - (1 << t.ty) if x >> (t.ty - 1) else x

    def undefval(self, ty):
        ty = self.m.resolve(ty)
        if ty.k == "f":
            return undef("f")
        if ty.k == "i":
            return undef(ty.a)
        if ty.k == "vec":
            return Vec([self.undefval(ty.b)] * ty.a)
        if ty.k == "arr":
            return Agg([self.undefval(ty.b)] * ty.a)
        if ty.k in ("struct", "pstruct"):
            return Agg([self.undefval(e) for e in ty.a])
        if ty.k == "ptr":
            return Ptr("undef", 0)
        raise Unsupported("undef %r" % ty)

    def zeroval(self, ty):
        ty = self.m.resolve(ty)
        if ty.k == "f":
            return fc(0)
        if ty.k == "i":
            return ic(0, ty.a)
        if ty.k == "vec":
            return Vec([self.zeroval(ty.b)] * ty.a)
        if ty.k == "arr":
            return Agg([self.zeroval(ty.b)] * ty.a)
        if ty.k in ("struct", "pstruct"):
            return Agg([self.zeroval(e) for e in ty.a])
        if ty.k == "ptr":
            return Ptr("null", 0)
        raise Unsupported("zero %r" % ty)

    # ------------------------------------------------------------ memory
    def globcells(self, r):
        g = self.m.globals.get(r[5:])
        if g is None:
            raise Unsupported("unknown global " + r)
        p = Parser(tokenize(g), self.m)
        while p.peek() not in ("constant", "global"):
            if p.peek() == "(":
                p.skip_parens()
            else:
                p.next()
        p.next()
        ty = p.type()
        v = p.value(ty)
        if v[0] == "cstr":
            raise Unsupported("string global")
        self.sizes[r] = self.m.size(ty)
        if r in self.globinit:
            return dict(self.globinit[r])
        cells = {}
        self.put(cells, 0, ty, self.val(v, ty))
        return cells

    def later(self, st):
        """contents of static storage after this call, as an earlier call with arguments of its own leaves them
        (every argument component renamed); None when the call leaves static storage alone"""
        out, memo = {}, {}
        for r, cells in st.items():
            if not r.startswith("glob:") or r in self.globinit:
                continue
            init = self.globcells(r)
            lay = {o: s for o, (s, _) in cells.items()}
            if lay == {o: s for o, (s, _) in init.items()} and all(cells[o][1] is init[o][1] for o in lay):
                continue
            out[r] = {o: (s, v if isinstance(v, (Ptr, PIte)) else rename(v, "'", memo)) for o, (s, v) in cells.items()}
        return out or None

    def put(self, cells, off, ty, v):
        """store typed value into cells as scalar pieces"""
        ty = self.m.resolve(ty)
        if isinstance(v, Vec):
            if ty.k in ("vec", "arr"):
                if ty.k == "vec" and ty.b.k == "i" and ty.b.a % 8:
                    if ty.b.a != 1:
                        raise Unsupported("odd vector store")
                    t = concat(list(v.e))
                    if t.ty % 8:
                        t = zext(t, (t.ty + 7) // 8 * 8)
                    self.put1(cells, off, t.ty // 8, t)
                    return
                st = self.m.size(ty.b) if ty.k == "vec" else self.m.asize(ty.b)
                for i, e in enumerate(v.e):
                    self.put(cells, off + i * st, ty.b, e)
            else:
                for i, e in enumerate(v.e):
                    o, t = self.m.field(ty, i)
                    self.put(cells, off + o, t, e)
            return
        sz = self.m.size(ty)
        if ty.k == "i" and ty.a % 8:
            v = zext(v, sz * 8)
        self.put1(cells, off, sz, v)

    def put1(self, cells, off, sz, v):
        for o in [o for o, (s, _) in cells.items() if o < off + sz and off < o + s]:
            s, old = cells[o]
            if o >= off and o + s <= off + sz:
                del cells[o]
                continue
            # partial overlap: keep the remaining bytes
            del cells[o]
            b = self.asint(old, s)
            if o < off:
                cells[o] = (off - o, mkslice(b, 0, 8 * (off - o)))
            if o + s > off + sz:
                k = off + sz
                cells[k] = (o + s - k, mkslice(b, 8 * (k - o), 8 * (o + s - k)))
        cells[off] = (sz, v)

    def asint(self, v, sz):
        if isinstance(v, (Ptr, PIte)):
            raise Unsupported("pointer reinterpretation")
        if v.ty == "f":
            if sz != 4:
                raise Unsupported("double reinterpretation")
            return fbits(v)
        return v

    def getbits(self, cells, off, sz):
        parts = []
        pos = off
        while pos < off + sz:
            hit = None
            for o, (s, v) in cells.items():
                if o <= pos < o + s:
                    hit = (o, s, v)
                    break
            if hit is None:
                parts.append(undef(8))
                pos += 1
                continue
            o, s, v = hit
            end = min(o + s, off + sz)
            parts.append(mkslice(self.asint(v, s), 8 * (pos - o), 8 * (end - pos)))
            pos = end
        return concat(parts)

    def get(self, cells, off, ty):
        ty = self.m.resolve(ty)
        if ty.k == "vec":
            if ty.b.k == "i" and ty.b.a % 8:
                raise Unsupported("odd vector load")
            st = self.m.size(ty.b)
            return Vec([self.get(cells, off + i * st, ty.b) for i in range(ty.a)])
        if ty.k == "arr":
            st = self.m.asize(ty.b)
            return Agg([self.get(cells, off + i * st, ty.b) for i in range(ty.a)])
        if ty.k in ("struct", "pstruct"):
            return Agg([self.get(cells, off + self.m.field(ty, i)[0], e) for i, e in enumerate(ty.a)])
        sz = self.m.size(ty)
        c = cells.get(off)
        if c and c[0] == sz:
            v = c[1]
            if ty.k == "ptr":
                if isinstance(v, (Ptr, PIte)):
                    return v
                raise Unsupported("load of non-pointer as pointer")
            if ty.k == "f":
                if isinstance(v, (Ptr, PIte)):
                    raise Unsupported("ptr as float")
                return v if v.ty == "f" else bitf(v)
            if ty.k == "i":
                v = self.asint(v, sz)
                return mkslice(v, 0, ty.a) if ty.a != v.ty else v
        if ty.k == "ptr":
            raise Unsupported("unaligned pointer load")
        b = self.getbits(cells, off, sz)
        if ty.k == "f":
            return bitf(b)
        return mkslice(b, 0, ty.a) if ty.a != b.ty else b

    def cells_of(self, st, r):
        if r not in st:
            if r.startswith("glob:"):
                st[r] = self.globcells(r)
                self.global_loads.add(r)
            elif r in ("null", "undef"):
                raise OOB(r, 0, 0, "access through a %s pointer" % r, None)
            else:
                raise Unsupported("region " + r)
        return st[r]

    def bounds(self, p, sz, kind, dbg):
        lim = self.sizes.get(p.r)
        if lim is not None and (p.o < 0 or p.o + sz > lim):
            self.oob.append((p.r, p.o, sz, lim, kind, dbg, self.guard))

    def load(self, st, p, ty, dbg):
        if isinstance(p, PIte):
            g, c = self.guard, p.c
            self.guard = andb(g, c)
            a = self.load(st, p.a, ty, dbg) if self.guard is not FALSE else None
            self.guard = andb(g, notb(c))
            b = self.load(st, p.b, ty, dbg) if self.guard is not FALSE else None
            self.guard = g
            return b if a is None else a if b is None else self.iteval(c, a, b)
        cells = self.cells_of(st, p.r)
        self.bounds(p, self.m.size(ty), "read", dbg)
        return self.get(cells, p.o, ty)

    def store(self, st, p, ty, v, dbg):
        self.stores += 1
        if isinstance(p, PIte):
            self.condstore(st, p, ty, v, dbg, self.guard, TRUE)
            return
        if p.r.startswith("glob:"):
            # first-call semantics of static storage; that later calls behave alike is property C27
            self.global_stores.add(p.r)
        cells = self.cells_of(st, p.r)
        self.bounds(p, self.m.size(ty), "write", dbg)
        self.put(cells, p.o, ty, v)

    def condstore(self, st, p, ty, v, dbg, g, c):
        if isinstance(p, PIte):
            self.condstore(st, p.a, ty, v, dbg, g, andb(c, p.c))
            self.condstore(st, p.b, ty, v, dbg, g, andb(c, notb(p.c)))
            return
        if c is FALSE:
            return
        self.guard = andb(g, c)
        old = self.get(self.cells_of(st, p.r), p.o, ty)
        self.store(st, p, ty, v if c is TRUE else self.iteval(c, v, old), dbg)
        self.guard = g

    # ------------------------------------------------------------ merging
    def iteval(self, c, a, b):
        if a is b:
            return a
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if isinstance(a, (Ptr, PIte)):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r and a.o == b.o:
                return a
            return PIte(c, a, b)
        if isinstance(a, Vec):
            if isinstance(c, Vec):
                return type(a)([self.iteval(x, y, z) for x, y, z in zip(c.e, a.e, b.e)])
            return type(a)([self.iteval(c, y, z) for y, z in zip(a.e, b.e)])
        return ite(c, a, b)

    def mergeval(self, c, a, b):
        """like iteval but keeps undef (memory may legitimately be uninitialised on one path)"""
        if a is b:
            return a
        if isinstance(a, (Ptr, PIte)) or isinstance(a, Vec):
            return self.iteval(c, a, b)
        return ite(c, a, b)

    def mergestate(self, ins):
        """ins: list of (cond, state); conditions are exclusive and exhaustive given block entry"""
        if len(ins) == 1:
            return {r: dict(c) for r, c in ins[0][1].items()}
        out = {}
        regs = set()
        for _, s in ins:
            regs |= set(s)
        for r in regs:
            sts = []
            for c, s in ins:
                sts.append((c, s.get(r)))
            if any(x is None for _, x in sts):
                # region is only alive (alloca / constant) on some paths
                live = [x for _, x in sts if x is not None]
                if r.startswith("glob:"):
                    sts = [(c, x if x is not None else self.globcells(r)) for c, x in sts]
                sts = [(c, x if x is not None else {}) for c, x in sts]
            allk = set()
            for _, x in sts:
                allk |= {(o, s) for o, (s, _) in x.items()}
            # harmonise layout
            cuts = sorted({o for o, _ in allk} | {o + s for o, s in allk})
            conflict = any(o < c < o + s for o, s in allk for c in cuts)
            res = {}
            if conflict:
                pieces = [(a, b - a) for a, b in zip(cuts, cuts[1:])]
                for o, s in pieces:
                    vs = [(c, self.getbits(x, o, s)) for c, x in sts]
                    v = vs[-1][1]
                    for c, y in reversed(vs[:-1]):
                        v = self.mergeval(c, y, v)
                    res[o] = (s, v)
            else:
                for o, s in allk:
                    vs = []
                    tys = set()
                    for c, x in sts:
                        y = x[o][1] if o in x else None
                        vs.append((c, y))
                        if y is not None:
                            tys.add("p" if isinstance(y, (Ptr, PIte)) else y.ty)
                    if len(tys) > 1:
                        vs = [(c, None if y is None else self.asint(y, s)) for c, y in vs]
                        tys = {8 * s}
                    ty = next(iter(tys))
                    if ty == "p":
                        vs = [(c, Ptr("undef", 0) if y is None else y) for c, y in vs]
                    else:
                        vs = [(c, undef(ty) if y is None else y) for c, y in vs]
                    v = vs[-1][1]
                    for c, y in reversed(vs[:-1]):
                        v = self.mergeval(c, y, v)
                    res[o] = (s, v)
            out[r] = res
        return out

    # ------------------------------------------------------------ main
    def run(self):
        f = self.f
        order, succ = self.topo()
        guard = {f.order[0]: TRUE}
        edge = {}           # (p,b) -> cond (relative to entry)
        ins = {}            # b -> list of (pred, cond, state)
        ins[f.order[0]] = [(None, TRUE, {r: dict(c) for r, c in self.init.items()})]
        rets = []
        for b in order:
            if b not in ins:
                continue
            inc = ins[b]
            g = FALSE
            for _, c, _s in inc:
                g = orb(g, c)
            if len(inc) > 1 and self.dominating_true(inc):
                pass
            self.guard = g
            st = self.mergestate([(c, s) for _, c, s in inc])
            # phis evaluated in parallel
            newv = {}
            for I in f.blocks[b]:
                if I.op != "phi":
                    continue
                byp = {pb: v for v, pb in I.a}
                v = None
                for pb, c, _s in reversed(inc):
                    x = self.val(byp[pb], I.ty)
                    v = x if v is None else self.iteval(c, x, v)
                newv[I.res] = v
            self.env.update(newv)
            dead = False
            for I in f.blocks[b]:
                if I.op == "phi":
                    continue
                self.ninstr += 1
                if I.op in ("br", "cbr", "switch", "ret", "unreachable"):
                    break
                if self.step(I, st) == "noreturn":
                    self.aborts = orb(self.aborts, g)
                    dead = True
                    break
            if dead:
                continue
            if I.op == "br":
                ins.setdefault(I.a[0], []).append((b, g, st))
            elif I.op == "cbr":
                c = self.val(I.a[0], None)
                if I.a[1] == I.a[2]:
                    ins.setdefault(I.a[1], []).append((b, g, st))
                else:
                    if c is not FALSE:
                        ins.setdefault(I.a[1], []).append((b, andb(g, c), st))
                    if c is not TRUE:
                        ins.setdefault(I.a[2], []).append((b, andb(g, notb(c)), st))
            elif I.op == "switch":
                v = self.val(I.a[0], I.ty)
                rest = g
                tgt = {}
                for cv, lb in I.a[2]:
                    e = mk("icmp", ("eq", v, ic(cv[2], cv[1])), 1)
                    tgt[lb] = orb(tgt.get(lb, FALSE), andb(g, e))
                    rest = andb(rest, notb(e))
                d = I.a[1]
                tgt[d] = orb(tgt.get(d, FALSE), rest)
                for lb, c in tgt.items():
                    ins.setdefault(lb, []).append((b, c, st))
            elif I.op == "ret":
                rets.append((g, st))
            elif I.op == "unreachable":
                pass
        if not rets:
            return None
        return self.mergestate(rets)

    def dominating_true(self, inc):
        return False

    def topo(self):
        f = self.f
        succ = {}
        for b in f.order:
            t = f.blocks[b][-1]
            if t.op == "br":
                succ[b] = [t.a[0]]
            elif t.op == "cbr":
                succ[b] = [t.a[1], t.a[2]]
            elif t.op == "switch":
                succ[b] = [t.a[1]] + [x for _, x in t.a[2]]
            else:
                succ[b] = []
        color, out = {}, []
        stack = [(f.order[0], iter(succ[f.order[0]]))]
        color[f.order[0]] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if color.get(s) == 1:
                    raise Unsupported("data-dependent loop in " + f.name)
                if s not in color:
                    color[s] = 1
                    stack.append((s, iter(succ[s])))
                    break
            else:
                color[b] = 2
                out.append(b)
                stack.pop()
        out.reverse()
        return out, succ

    # ------------------------------------------------------------ instructions
    def ew(self, fn, *vs):
        """element-wise lift"""
        if any(isinstance(v, Vec) for v in vs):
            n = len(next(v for v in vs if isinstance(v, Vec)).e)
            return Vec([fn(*[v.e[i] if isinstance(v, Vec) else v for v in vs]) for i in range(n)])
        return fn(*vs)

    def step(self, I, st):
        op = I.op
        if op in ("store",):
            self.store(st, self.val(I.a[1], PTR), I.ty, self.val(I.a[0], I.ty), I.dbg)
            return
        if op == "load":
            r = self.load(st, self.val(I.a[0], PTR), I.ty, I.dbg)
        elif op == "alloca":
            nm = "alloca:" + I.res
            st[nm] = {}
            self.sizes[nm] = self.m.asize(I.ty) * I.a[0]
            r = Ptr(nm, 0)
        elif op == "getelementptr":
            base = self.val(I.a[0], PTR)
            idx = [self.val(v, t) for t, v in I.a[1]]

            def addp(p, off):
                if isinstance(p, PIte):
                    return PIte(p.c, addp(p.a, off), addp(p.b, off))
                return Ptr(p.r, p.o + off)

            def gep(done, rest):
                if not rest:
                    return addp(base, self.m.gep(I.ty, done))
                return self.choose(rest[0], lambda k: gep(done + [k], rest[1:]))
            r = gep([], idx)
        elif op in ("fadd", "fsub", "fmul", "fdiv"):
            o = op[1:]
            r = self.ew(lambda a, b: self.fbin(o, a, b), self.val(I.a[0], I.ty), self.val(I.a[1], I.ty))
        elif op == "frem":
            r = self.ew(lambda a, b: mk("call", ("fmod", a, b), "f"), self.val(I.a[0], I.ty), self.val(I.a[1], I.ty))
        elif op == "fneg":
            r = self.ew(lambda a: undef("f") if a.op == "undef" else mk("neg", (a,), "f"), self.val(I.a[0], I.ty))
        elif op == "freeze":
            r = self.val(I.a[0], I.ty)
        elif op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr", "and", "or", "xor"):
            dis = "disjoint" in I.flags
            r = self.ew(lambda a, b: self.ibin(op, a, b, dis), self.val(I.a[0], I.ty), self.val(I.a[1], I.ty))
        elif op in ("fcmp", "icmp"):
            pred = I.a[0]
            a, b = self.val(I.a[1], I.ty), self.val(I.a[2], I.ty)
            if isinstance(a, (Ptr, PIte)) or isinstance(b, (Ptr, PIte)):
                r = self.ptrcmp(pred, a, b)
            else:
                r = self.ew(lambda x, y: self.cmp(op, pred, x, y), a, b)
        elif op == "select":
            c = self.val(I.a[1], I.a[0])
            a, b = self.val(I.a[2], I.ty), self.val(I.a[3], I.ty)
            r = self.iteval(c, a, b)
        elif op in ("zext", "sext", "trunc", "fpext", "fptrunc", "sitofp", "uitofp", "fptosi", "fptoui", "bitcast"):
            v = self.val(I.a[1], I.a[0])
            r = self.cast(op, I.a[0], I.ty, v)
        elif op == "extractelement":
            v = self.val(I.a[0], I.ty)
            r = v.e[self.signed(self.val(I.a[1], None))]
        elif op == "insertelement":
            v = self.val(I.a[0], I.ty)
            e = list(v.e)
            e[self.signed(self.val(I.a[2], None))] = self.val(I.a[1], I.ty.b)
            r = Vec(e)
        elif op == "shufflevector":
            v, w = self.val(I.a[0], I.ty), self.val(I.a[1], I.ty)
            mk_ = I.a[3]
            if mk_[0] == "zero":
                idx = [0] * mk_[1].a
            elif mk_[0] == "undef":
                idx = [None] * mk_[1].a
            else:
                idx = [x[2] if x[0] == "int" else None for _, x in mk_[2]]
            al = v.e + w.e
            r = Vec([self.undefval(I.ty.b) if i is None else al[i] for i in idx])
        elif op == "extractvalue":
            r = self.val(I.a[0], I.ty)
            for i in I.a[1]:
                r = r.e[i]
        elif op == "insertvalue":
            v, e = self.val(I.a[0], I.ty), self.val(I.a[2], I.a[1])

            def ins(v, path):
                if not path:
                    return e
                l = list(v.e)
                l[path[0]] = ins(l[path[0]], path[1:])
                return Agg(l)
            r = ins(v, I.a[3])
        elif op == "call":
            r = self.call(I, st)
            if r == "noreturn":
                return r
        else:
            raise Unsupported(op)
        if I.res:
            self.env[I.res] = r
            if I.dbg:
                for t in (r.e if isinstance(r, Vec) else (r,)):
                    if isinstance(t, T) and t.loc is None and t.op not in ("sym", "fc", "ic"):
                        t.loc = I.dbg

    def fbin(self, o, a, b):
        if a.op == "undef" or b.op == "undef":
            return undef("f")
        return mk(o, (a, b), "f")

    def cmp(self, op, pred, x, y):
        if x.op == "undef" or y.op == "undef":
            return undef(1)
        if op == "fcmp":
            if pred in ("true", "false"):
                return bc(pred == "true")
            if x.op == "fc":
                swap = {"gt": "lt", "lt": "gt", "ge": "le", "le": "ge"}
                if pred[1:] in swap:
                    pred, x, y = pred[0] + swap[pred[1:]], y, x
            b = x
            while b.op in ("fabs", "neg"):
                b = b.a[0]
            if b.op == "sym" and y.op == "fc" and y.a[0] in (FLT_MAX, -FLT_MAX):
                # only an infinity is beyond the largest finite value
                beyond = ("gt", "le") if y.a[0] > 0 else ("lt", "ge")
                if pred[1:] in beyond:
                    pred = pred[0] + ("eq" if pred[1:] == beyond[0] else "ne")
                    y = fc("inf" if y.a[0] > 0 else "-inf")
            return mk("fcmp", (pred, x, y), 1)
        if x.op == "ic" and y.op == "ic":
            u, v = (self.signed(x), self.signed(y)) if pred[0] == "s" else (x.a[0], y.a[0])
            return bc({"eq": u == v, "ne": u != v, "lt": u < v, "gt": u > v, "le": u <= v, "ge": u >= v}[pred if pred in ("eq", "ne") else pred[1:]])
        if x.ty == 1:
            if pred == "eq":
                return notb(xorb(x, y))
            if pred == "ne":
                return xorb(x, y)
            raise Unsupported("icmp i1 " + pred)
        # a choice between constants compared with a constant is a boolean formula
        for u, v, p in ((x, y, pred), (y, x, SWAPPRED[pred])):
            if v.op == "ic" and u.op == "ite":
                r = self.constladder(p, u, v.a[0])
                if r is not None:
                    return r
        # unsigned range tests that only look at the upper lanes of a packed word
        if pred in ("ult", "ugt", "ule", "uge"):
            if x.op == "ic" and y.op != "ic":
                x, y = y, x
                pred = {"ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}[pred]
            if y.op == "ic":
                c = y.a[0] + (1 if pred in ("ugt", "ule") else 0)
                if c and c & (c - 1) == 0 and c.bit_length() - 1 < x.ty and (x.op == "concat" or x.op in ("xor", "or")):
                    k = c.bit_length() - 1
                    hi = mkslice(x, k, x.ty - k)
                    return self.cmp("icmp", "eq" if pred in ("ult", "ule") else "ne", hi, ic(0, hi.ty))
        # compare of a packed boolean with a constant -> boolean formula
        if pred in ("eq", "ne"):
            r = self.packed_eq(x, y)
            if r is not None:
                return r if pred == "eq" else notb(r)
        return mk("icmp", (pred, x, y), 1)

    def constladder(self, pred, x, k):
        memo = {}

        def go(t):
            if t.op == "ic":
                a, b, w = t.a[0], k, t.ty
                if pred[0] == "s":
                    a, b = [v - (1 << w) if v >> (w - 1) else v for v in (a & ((1 << w) - 1), b & ((1 << w) - 1))]
                else:
                    a, b = a & ((1 << w) - 1), b & ((1 << w) - 1)
                q = pred[-2:]
                return bc({"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[q])
            if t.op != "ite" or len(memo) > 64:
                return None
            if t in memo:
                return memo[t]
            u, v = go(t.a[1]), go(t.a[2])
            r = None
            if u is not None and v is not None:
                r = orb(andb(t.a[0], u), andb(notb(t.a[0]), v)) if u is not v else u
            memo[t] = r
            return r
        return go(x)

    def packed_eq(self, x, y):
        def bits1(t):
            """list of (bool term | const) if t is made only of 1-bit pieces and constants"""
            if t.op == "concat":
                out = []
                for p in t.a:
                    q = bits1(p)
                    if q is None:
                        return None
                    out += q
                return out
            if t.op == "ic":
                return [bc((t.a[0] >> i) & 1) for i in range(t.ty)]
            if t.ty == 1:
                return [t]
            return None
        if x.op == "ic":
            x, y = y, x
        if y.op == "ic" and y.a[0] == 0 and x.op == "xor":
            return self.cmp("icmp", "eq", x.a[0], x.a[1])
        a, b = bits1(x), bits1(y)
        if a is None or b is None:
            cuts = set()
            for t in (x, y):
                if t.op == "concat":
                    pos = 0
                    for p in t.a:
                        pos += p.ty
                        cuts.add(pos)
            if not cuts or len(cuts) < 2:
                return None
            lo, r = 0, TRUE
            for hi in sorted(cuts):
                r = andb(r, self.cmp("icmp", "eq", mkslice(x, lo, hi - lo), mkslice(y, lo, hi - lo)))
                lo = hi
            return r
        r = TRUE
        for p, q in zip(a, b):
            r = andb(r, notb(xorb(p, q)))
        return r

    def ptrcmp(self, pred, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and pred in ("eq", "ne"):
            same = (a.r == b.r and a.o == b.o)
            return bc(same == (pred == "eq"))
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r:
            u, v = a.o, b.o
            return bc({"lt": u < v, "le": u <= v, "gt": u > v, "ge": u >= v}[pred[-2:]])
        raise Unsupported("pointer comparison")

    def ibin(self, op, a, b, dis=False):
        w = a.ty
        if a.op == "undef" or b.op == "undef":
            return undef(w)
        if op in ("and", "or", "xor"):
            return mk_bit(op, a, b)
        if w == 1:
            if op in ("add", "sub"):
                return xorb(a, b)
            if op == "mul":
                return andb(a, b)
        if a.op == "ic" and b.op == "ic":
            x, y = a.a[0], b.a[0]
            if op in ("add", "sub", "mul"):
                return ic({"add": x + y, "sub": x - y, "mul": x * y}[op], w)
            if op in ("sdiv", "udiv", "srem", "urem") and y:
                if op[0] == "s":
                    sx, sy = self.signed(a), self.signed(b)
                    q = abs(sx) // abs(sy) * (1 if (sx < 0) == (sy < 0) else -1)
                    return ic(q if op == "sdiv" else sx - q * sy, w)
                return ic(x // y if op == "udiv" else x % y, w)
            if op == "ashr" and y < w:
                return ic(self.signed(a) >> y, w)
        if op == "shl" and b.op == "ic":
            k = b.a[0]
            if k >= w:
                return undef(w)
            if k and w == 32 and a.op not in ("concat", "slice", "fbits", "xor", "and", "or", "ite"):
                return mk_ring("mul", a, ic(1 << k, w))
            return concat([ic(0, k), mkslice(a, 0, w - k)]) if k else a
        if op == "lshr" and b.op == "ic":
            k = b.a[0]
            if k >= w:
                return undef(w)
            return concat([mkslice(a, k, w - k), ic(0, k)]) if k else a
        if op == "ashr" and b.op == "ic" and 0 < b.a[0] < w and a.op == "concat":
            hi = mkslice(a, b.a[0], w - b.a[0])
            return mk("sext", (hi,), w)
        if op in ("add", "sub", "mul"):
            return mk_ring(op, a, b)
        if op == "shl":
            k = lowzeros(a)
            if k == w:
                return a
            if k:       # packed pair of lanes: the shift amount is below the lane width by precondition
                return concat([ic(0, k), mk("shl", (mkslice(a, k, w - k), mkslice(b, 0, w - k)), w - k)])
        return mk(op, (a, b), w)

    def cast(self, op, fty, tty, v):
        tty, fty = self.m.resolve(tty), self.m.resolve(fty)
        if op == "bitcast":
            if fty == tty:
                return v
            parts = v.e if isinstance(v, Vec) else (v,)
            if any(isinstance(p, (Ptr, PIte)) for p in parts):
                raise Unsupported("bitcast ptr")
            b = concat([fbits(p) if p.ty == "f" else p for p in parts])

            def mkty(ty, t):
                if ty.k == "f":
                    return bitf(t)
                if ty.k == "i":
                    return t
                n = ty.b.a
                return Vec([mkty(ty.b, mkslice(t, i * n, n)) for i in range(ty.a)])
            return mkty(tty, b)
        te = tty.b if tty.k == "vec" else tty

        def one(x):
            if x.op == "undef":
                return undef("f" if te.k == "f" else te.a)
            if op in ("fpext", "fptrunc"):
                # between float and double the value is the same real number; half precision is not a rounding detail
                return fcall("half", x) if te.a < 32 and not (x.op == "call" and x.a[0] == "half") else x
            if op == "zext":
                return zext(x, te.a)
            if op == "sext":
                if x.ty == 1:
                    return ite(x, ic(-1, te.a), ic(0, te.a))
                return self.one_sext(x, te.a)
            if op == "trunc":
                return mkslice(x, 0, te.a)
            if op in ("sitofp", "uitofp"):
                if x.ty == 1:
                    return ite(x, fc(1 if op == "uitofp" else -1), fc(0))
                if x.op == "ite":
                    return ite(x.a[0], one(x.a[1]), one(x.a[2]))
                if x.op == "ic":
                    k = x.a[0]
                    if op == "sitofp" and k >> (x.ty - 1):
                        k -= 1 << x.ty
                    return fc(k)
                if x.op == "concat" and x.a[-1].op == "ic" and len(x.a) == 2 and x.a[1].a[0] == 0:
                    if x.a[0].ty == 1:
                        return ite(x.a[0], fc(1), fc(0))
                return mk(op, (x,), "f")
            return mk(op, (x,), te.a)
        return self.ew(one, v)

    def call(self, I, st):
        self.calls += 1
        callee = I.a[0]
        if callee[0] != "@":
            raise Unsupported("indirect call")
        n = callee[1:]
        args = I.a[1]
        if n in NORETURN:
            return "noreturn"
        if n == "__cxa_guard_acquire":
            return ic(1, 32)
        if n == "__cxa_guard_release":
            p = self.val(args[0][1], args[0][0])
            self.store(st, p, I8, ic(1, 8), I.dbg)
            return None
        if n == "__cxa_guard_abort":
            return None
        if n in ("malloc", "_Znwm", "_Znam"):
            # (that the library allocates is a matter of property C27)
            k = self.val(args[0][1], args[0][0])
            self.heap += 1
            r = "alloca:heap%d" % self.heap
            st[r] = {}
            self.sizes[r] = self.signed(k)
            return Ptr(r, 0)
        if n in ("free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm"):
            return None
        base = n
        if n.startswith("llvm."):
            parts = n.split(".")
            base = ".".join(parts[:2])
            if base in ("llvm.assume", "llvm.dbg", "llvm.lifetime", "llvm.prefetch", "llvm.donothing"):
                return None
            if base == "llvm.threadlocal":
                return self.val(args[0][1], args[0][0])
            if base == "llvm.invariant":
                return Ptr("undef", 0)
            if base in ("llvm.memcpy", "llvm.memmove"):
                d, s, ln = [self.val(v, t) for t, v in args[:3]]
                return self.memcpy(st, d, s, self.signed(ln), I.dbg)
            if base == "llvm.memset":
                d, c, ln = [self.val(v, t) for t, v in args[:3]]
                if isinstance(d, PIte):
                    raise Unsupported("memset through conditional pointer")
                k = self.signed(ln)
                self.bounds(d, k, "write", I.dbg)
                for i in range(k):
                    self.put1(self.cells_of(st, d.r), d.o + i, 1, c)
                return None
            vs = [self.val(v, t) for t, v in args]
            if base in INTRIN1:
                return self.ew(lambda x: fcall(INTRIN1[base], x), vs[0])
            if base in INTRIN2:
                return self.ew(lambda x, y: fcall(INTRIN2[base], x, y), vs[0], vs[1])
            if base in ("llvm.fma", "llvm.fmuladd"):
                return self.ew(lambda x, y, z: fcall("fma", x, y, z), *vs)
            if base in ("llvm.smin", "llvm.smax", "llvm.umin", "llvm.umax"):
                pr = {"llvm.smin": "slt", "llvm.smax": "sgt", "llvm.umin": "ult", "llvm.umax": "ugt"}[base]
                return self.ew(lambda x, y: ite(mk("icmp", (pr, x, y), 1), x, y), vs[0], vs[1])
            if base == "llvm.abs":
                return self.ew(lambda x: ite(mk("icmp", ("slt", x, ic(0, x.ty)), 1),
                                             mk("sub", (ic(0, x.ty), x), x.ty), x), vs[0])
            if base in ("llvm.fshl", "llvm.fshr"):
                def fsh(a, b, c):
                    if c.op != "ic":
                        raise Unsupported("variable funnel shift")
                    w = a.ty
                    k = c.a[0] % w
                    if base == "llvm.fshl":
                        cat = concat([b, a])
                        return mkslice(cat, w - k, w)
                    return mkslice(concat([b, a]), k, w)
                return self.ew(fsh, *vs)
            if base == "llvm.is":           # llvm.is.fpclass
                mask = self.signed(vs[1])
                return self.ew(lambda x: self.fpclass(x, mask), vs[0])
            if base == "llvm.vector":
                red = parts[3] if parts[2] == "reduce" else None
                if red in ("add", "mul", "and", "or", "xor"):
                    e = list(vs[0].e)
                    r = e[0]
                    for x in e[1:]:
                        r = self.ibin(red, r, x)
                    return r
                if red in ("fadd", "fmul"):
                    r = vs[0]
                    for x in vs[1].e:
                        r = self.fbin(red[1:], r, x)
                    return r
                raise Unsupported(n)
            if base == "llvm.ctpop":
                return self.ew(lambda x: mk("ctpop", (x,), x.ty), vs[0])
            raise Unsupported("intrinsic " + n)
        if n in UNARY and len(args) == 1:
            return fcall(UNARY[n], self.val(args[0][1], args[0][0]))
        if n in BINARY and len(args) == 2:
            return fcall(BINARY[n], *[self.val(v, t) for t, v in args])
        if n in TERNARY and len(args) == 3:
            return fcall(TERNARY[n], *[self.val(v, t) for t, v in args])
        if n in ("sincosf",):
            x, p, q = [self.val(v, t) for t, v in args]
            self.store(st, p, FLOAT, fcall("sin", x), I.dbg)
            self.store(st, q, FLOAT, fcall("cos", x), I.dbg)
            return None
        if n in ("memcpy", "memmove"):
            d, s, ln = [self.val(v, t) for t, v in args]
            self.memcpy(st, d, s, self.signed(ln), I.dbg)
            return d
        if n in TOINT:
            x = self.val(args[0][1], args[0][0])
            return mk("fptosi", (fcall(TOINT[n], x),), I.ty.a)
        if n in ("ldexpf", "ldexp", "scalbnf", "scalbn"):
            x, e = [self.val(v, t) for t, v in args]
            return mk("mul", (x, fcall("exp2", mk("sitofp", (e,), "f"))), "f")
        if n in ("fdimf", "fdim"):
            x, y = [self.val(v, t) for t, v in args]
            return ite(mk("fcmp", ("ogt", x, y), 1), mk("sub", (x, y), "f"), fc(0))
        if n in ("memcmp", "bcmp"):
            p, q, ln = [self.val(v, t) for t, v in args]
            return self.memcmp(st, p, q, self.signed(ln), I.dbg)
        if n in ("abs", "labs"):
            x = self.val(args[0][1], args[0][0])
            return ite(mk("icmp", ("slt", x, ic(0, x.ty)), 1), mk("sub", (ic(0, x.ty), x), x.ty), x)
        raise Unsupported("call to " + n)

    def fpclass(self, x, mask):
        r = FALSE
        if mask & 3 == 3:
            r = orb(r, mk("fcmp", ("uno", x, x), 1))
            mask &= ~3
        if mask & 0x204 == 0x204:
            r = orb(r, mk("fcmp", ("oeq", mk("fabs", (x,), "f"), fc("inf")), 1))
            mask &= ~0x204
        if mask & 0x4:
            r = orb(r, mk("fcmp", ("oeq", x, fc("-inf")), 1))
            mask &= ~4
        if mask & 0x200:
            r = orb(r, mk("fcmp", ("oeq", x, fc("inf")), 1))
            mask &= ~0x200
        if mask:
            raise Unsupported("fpclass mask %#x" % mask)
        return r

    def memcmp(self, st, p, q, n, dbg):
        """the sign of the first difference between two byte ranges (the magnitude is unspecified: 1)"""
        if isinstance(p, PIte) or isinstance(q, PIte) or n > 64:
            raise Unsupported("memcmp through a conditional pointer")
        self.bounds(p, n, "read", dbg)
        self.bounds(q, n, "read", dbg)
        a = self.copycells(self.cells_of(st, p.r), p.o, n)
        b = self.copycells(self.cells_of(st, q.r), q.o, n)
        cuts = sorted({0, n} | {o for c in (a, b) for o in c} | {o + s for c in (a, b) for o, (s, _) in c.items()})
        res = ic(0, 32)
        for lo, hi in reversed(list(zip(cuts, cuts[1:]))):
            x, y = self.getbits(a, lo, hi - lo), self.getbits(b, lo, hi - lo)
            sign = ic(1, 32)
            for k in reversed(range(0, x.ty, 8)):
                u, v = mkslice(x, k, 8), mkslice(y, k, 8)
                lt = self.cmp("icmp", "ult", u, v)
                sign = ite(lt, ic(-1, 32), ic(1, 32)) if k + 8 >= x.ty else \
                    ite(self.cmp("icmp", "eq", u, v), sign, ite(lt, ic(-1, 32), ic(1, 32)))
            res = ite(self.cmp("icmp", "eq", x, y), res, sign)
        return res

    def memcpy(self, st, d, s, n, dbg):
        if n == 0:
            return None
        if isinstance(d, PIte):
            def each(p, c):
                if isinstance(p, PIte):
                    each(p.a, andb(c, p.c))
                    each(p.b, andb(c, notb(p.c)))
                    return
                old = dict(self.cells_of(st, p.r))
                new = {p.r: dict(old)}
                for r in st:
                    new.setdefault(r, st[r])
                g, self.guard = self.guard, andb(self.guard, c)
                self.memcpy(new, p, s, n, dbg)
                self.guard = g
                st[p.r] = self.mergestate([(c, {"x": new[p.r]}), (TRUE, {"x": old})])["x"]
            each(d, TRUE)
            return None
        if isinstance(s, PIte):
            def pick(p, g):
                if isinstance(p, PIte):
                    a, b = pick(p.a, andb(g, p.c)), pick(p.b, andb(g, notb(p.c)))
                    return self.mergestate([(p.c, {"x": a}), (TRUE, {"x": b})])["x"]
                src = self.cells_of(st, p.r)
                old, self.guard = self.guard, g
                self.bounds(p, n, "read", dbg)
                self.guard = old
                return self.copycells(src, p.o, n)
            src, so = pick(s, self.guard), 0
        else:
            src, so = self.cells_of(st, s.r), s.o
            self.bounds(s, n, "read", dbg)
            src, so = self.copycells(src, so, n), 0
        self.bounds(d, n, "write", dbg)
        dst = self.cells_of(st, d.r)
        # clear destination
        self.put1(dst, d.o, n, undef(8 * n))
        del dst[d.o]
        for o, (sz, v) in src.items():
            self.put1(dst, d.o + o, sz, v)
        return None

    def copycells(self, cells, off, n):
        out = {}
        for o, (s, v) in list(cells.items()):
            if o >= off and o + s <= off + n:
                out[o - off] = (s, v)
            elif o < off + n and off < o + s:
                a, b = max(o, off), min(o + s, off + n)
                out[a - off] = (b - a, mkslice(self.asint(v, s), 8 * (a - o), 8 * (b - a)))
        return out
