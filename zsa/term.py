"""Hash-consed value-flow terms.

type tags: 'f' (float/double, real semantics), 1 (bool), other ints = bit width.
"""
from fractions import Fraction


class T:
    __slots__ = ("op", "a", "ty", "id", "loc")
    pool = {}
    cnt = 0

    def __repr__(self):
        return show(self)

    # spec-side operator sugar --------------------------------------
    def __add__(s, o):
        return arith("add", s, o)

    def __radd__(s, o):
        return arith("add", o, s)

    def __sub__(s, o):
        return arith("sub", s, o)

    def __rsub__(s, o):
        return arith("sub", o, s)

    def __mul__(s, o):
        return arith("mul", s, o)

    def __rmul__(s, o):
        return arith("mul", o, s)

    def __truediv__(s, o):
        return arith("div" if (s.ty == "f") else "sdiv", s, o)

    def __rtruediv__(s, o):
        return arith("div" if (s.ty == "f") else "sdiv", o, s)

    def __neg__(s):
        return mk("neg", (s,), "f") if s.ty == "f" else mk("sub", (ic(0, s.ty), s), s.ty)


def mk(op, a, ty, loc=None):
    key = (op, a, ty)
    t = T.pool.get(key)
    if t is None:
        t = object.__new__(T)
        t.op, t.a, t.ty, t.loc = op, a, ty, loc
        T.cnt += 1
        t.id = T.cnt
        T.pool[key] = t
    return t


def rename(t, suffix, memo):
    """the term with every input symbol renamed"""
    todo = [t]
    while todo:
        x = todo[-1]
        if x in memo:
            todo.pop()
            continue
        kids = [y for y in x.a if isinstance(y, T)]
        open_ = [y for y in kids if y not in memo]
        if open_:
            todo += open_
            continue
        todo.pop()
        if x.op == "sym":
            memo[x] = mk("sym", (x.a[0] + suffix,) + tuple(x.a[1:]), x.ty)
        elif kids:
            memo[x] = mk(x.op, tuple(memo[y] if isinstance(y, T) else y for y in x.a), x.ty, x.loc)
        else:
            memo[x] = x
    return memo[t]


def fc(x):
    if isinstance(x, float):
        x = Fraction(x)
    if isinstance(x, Fraction) and x.denominator == 1:
        x = int(x)
    return mk("fc", (x,), "f")


def ic(v, w):
    return mk("ic", (v & ((1 << w) - 1),), w)


def bc(v):
    return mk("ic", (1 if v else 0,), 1)


TRUE, FALSE = bc(True), bc(False)


def sym(name, ty):
    return mk("sym", (name,), ty)


def undef(ty):
    return mk("undef", (), ty)


def lift(x, like):
    if isinstance(x, T):
        return x
    if like == "f":
        return fc(Fraction(x) if not isinstance(x, str) else x)
    return ic(int(x), like)


def arith(op, a, b):
    like = a.ty if isinstance(a, T) else b.ty
    a, b = lift(a, like), lift(b, like)
    return mk(op, (a, b), like)


def ite(c, a, b):
    if not isinstance(a, T) and not isinstance(b, T):
        a = fc(a)
    if not isinstance(a, T):
        a = lift(a, b.ty)
    if not isinstance(b, T):
        b = lift(b, a.ty)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return mk("ite", (c, a, b), a.ty)


def notb(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.a[0]
    return mk("not", (a,), 1)


def _parts(t, op):
    out, todo = [], [t]
    while todo:
        x = todo.pop()
        if x.op == op:
            todo += reversed(x.a)
        else:
            out.append(x)
    return out


def andb(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is b:
        return a
    pa, pb = _parts(a, "band"), _parts(b, "band")
    if len(pa) + len(pb) <= 40:
        sa = set(pa)
        for x in pb:
            if notb(x) in sa:
                return FALSE
        keep = [x for x in pb if x not in sa]
        if len(keep) < len(pb):
            r = a
            for x in keep:
                r = mk("band", (r, x), 1)
            return r
    return mk("band", (a, b), 1)


def _conj(xs):
    r = TRUE
    for x in xs:
        r = x if r is TRUE else mk("band", (r, x), 1)
    return r


def orb(a, b):
    if a is TRUE or b is TRUE:
        return TRUE
    if a is FALSE:
        return b
    if b is FALSE:
        return a
    if a is b:
        return a
    pa, pb = _parts(a, "band"), _parts(b, "band")
    if len(pa) + len(pb) <= 60:
        sb = set(pb)
        common = [x for x in pa if x in sb]
        sc = set(common)
        ra, rb = [x for x in pa if x not in sc], [x for x in pb if x not in sc]
        if not ra or not rb:
            return _conj(common)
        for _ in range(2):
            # (d1 | d2 ..) | (!d1 & rest)  ->  (d1 | d2 ..) | rest
            da = set(_parts(_conj(ra), "bor"))
            rb2 = [x for x in rb if notb(x) not in da]
            if not rb2:
                return _conj(common)
            rb = rb2
            ra, rb = rb, ra
        return _conj(common + [mk("bor", (_conj(ra), _conj(rb)), 1)])
    return mk("bor", (a, b), 1)


def xorb(a, b):
    return ite(a, notb(b), b)


def call(f, *args):
    return mk("call", (f,) + tuple(lift(x, "f") for x in args), "f")


def _cmp(pf, pi):
    def g(a, b):
        like = a.ty if isinstance(a, T) else b.ty
        a, b = lift(a, like), lift(b, like)
        return mk("fcmp", (pf, a, b), 1) if like == "f" else mk("icmp", (pi, a, b), 1)
    return g


lt, gt, le, ge = _cmp("olt", "slt"), _cmp("ogt", "sgt"), _cmp("ole", "sle"), _cmp("oge", "sge")
eq, ne = _cmp("oeq", "eq"), _cmp("une", "ne")


# ------------------------------------------------------- int structure
def width(t):
    return t.ty


def concat(parts):
    """parts low first"""
    flat = []
    for p in parts:
        if p.ty == 0:
            continue
        if p.op == "concat":
            flat.extend(p.a)
        else:
            flat.append(p)
    out = []
    for p in flat:
        if out:
            q = out[-1]
            if p.op == "ic" and q.op == "ic":
                out[-1] = ic(q.a[0] | (p.a[0] << q.ty), q.ty + p.ty)
                continue
            if p.op == "slice" and q.op == "slice" and p.a[0] is q.a[0] and q.a[1] + q.ty == p.a[1]:
                out[-1] = mkslice(q.a[0], q.a[1], q.ty + p.ty)
                continue
            if p.op == "undef" and q.op == "undef":
                out[-1] = undef(q.ty + p.ty)
                continue
        out.append(p)
    if len(out) == 1:
        return out[0]
    return mk("concat", tuple(out), sum(p.ty for p in out))


def mkslice(t, lo, w):
    if lo == 0 and t.ty == w:
        return t
    op = t.op
    if op == "ic":
        return ic(t.a[0] >> lo, w)
    if op == "undef":
        return undef(w)
    if op == "slice":
        return mkslice(t.a[0], t.a[1] + lo, w)
    if op == "concat":
        out, pos = [], 0
        for p in t.a:
            a, b = max(lo, pos), min(lo + w, pos + p.ty)
            if a < b:
                out.append(mkslice(p, a - pos, b - a))
            pos += p.ty
        return concat(out)
    if op in ("and", "or", "xor"):
        return mk_bit(op, mkslice(t.a[0], lo, w), mkslice(t.a[1], lo, w))
    if op == "ite":
        return ite(t.a[0], mkslice(t.a[1], lo, w), mkslice(t.a[2], lo, w))
    if op == "freeze":
        return mkslice(t.a[0], lo, w)
    if lo == 0 and op in ("add", "sub", "mul"):      # low bits of ring ops
        return mk_ring(op, mkslice(t.a[0], 0, w), mkslice(t.a[1], 0, w))
    if op == "sext":
        b = t.a[0]
        if lo + w <= b.ty:
            return mkslice(b, lo, w)
    return mk("slice", (t, lo), w)


def mk_bit(op, a, b):
    w = a.ty
    if w == 1:
        return {"and": andb, "or": orb, "xor": xorb}[op](a, b)
    for x, y in ((a, b), (b, a)):
        if x.op == "ic":
            v = x.a[0]
            full = (1 << w) - 1
            if y.op == "ic":
                u = y.a[0]
                return ic(u & v if op == "and" else u | v if op == "or" else u ^ v, w)
            if op == "and":
                if v == 0:
                    return x
                if v == full:
                    return y
            elif v == 0:
                return y
            if op == "or" and v == full:
                return x
    # split along constant structure so that packing idioms fold
    cuts = set()
    for x in (a, b):
        if x.op == "concat":
            pos = 0
            for p in x.a:
                cuts.add(pos)
                pos += p.ty
        elif x.op == "ic":
            v, pos = x.a[0], 0
            last = None
            for i in range(w):
                bit = (v >> i) & 1
                if last is not None and bit != last:
                    cuts.add(i)
                last = bit
    cuts.discard(0)
    if cuts and (a.op in ("concat", "ic", "slice", "sym", "ite", "and", "or", "xor") and
                 b.op in ("concat", "ic", "slice", "sym", "ite", "and", "or", "xor")) and \
            (a.op == "concat" or b.op == "concat" or op in ("and", "or") or (a.op == "ic" or b.op == "ic")):
        cs = sorted(cuts) + [w]
        if len(cs) <= 17:
            out, lo = [], 0
            for hi in cs:
                out.append(mk_bit(op, mkslice(a, lo, hi - lo), mkslice(b, lo, hi - lo)))
                lo = hi
            return concat(out)
    return mk(op, (a, b), w)


def lowzeros(t):
    if t.op == "ic":
        v = t.a[0]
        return t.ty if v == 0 else (v & -v).bit_length() - 1
    if t.op == "concat" and t.a[0].op == "ic":
        k = lowzeros(t.a[0])
        return k
    return 0


def mk_ring(op, a, b):
    """add/sub/mul on machine words; separates lanes packed into one word"""
    w = a.ty
    if op == "mul":
        for x, y in ((a, b), (b, a)):
            if x.op == "ic" and x.a[0] == 1:
                return y
            if x.op == "ic" and y.op == "concat" and y.a[-1].op == "ic" and y.a[-1].a[0] == 0 and bin(x.a[0]).count("1") > 1:
                n = w - y.a[-1].ty          # a narrow value replicated into lanes
                at = [i for i in range(w) if (x.a[0] >> i) & 1]
                if all(q - p >= n for p, q in zip(at, at[1:])):
                    v, out, pos = mkslice(y, 0, n), [], 0
                    for i in at:
                        out += [ic(0, i - pos), v if i + n <= w else mkslice(v, 0, w - i)]
                        pos = min(i + n, w)
                    return concat(out + [ic(0, w - pos)])
        k = lowzeros(a) + lowzeros(b)
        if k >= w:
            return ic(0, w)
        if k and (a.op == "concat" or b.op == "concat"):
            ka, kb = lowzeros(a), lowzeros(b)
            return concat([ic(0, k), mk_ring("mul", mkslice(a, ka, w - k), mkslice(b, kb, w - k))])
        return mk(op, (a, b), w)
    ka, kb = lowzeros(a), lowzeros(b)
    if kb == w:
        return a
    if op == "add" and ka == w:
        return b
    if kb and (a.op == "concat" or b.op == "concat"):
        return concat([mkslice(a, 0, kb), mk_ring(op, mkslice(a, kb, w - kb), mkslice(b, kb, w - kb))])
    if ka and op == "add" and (a.op == "concat" or b.op == "concat"):
        return mk_ring(op, b, a)
    return mk(op, (a, b), w)


def zext(t, w):
    if t.ty == w:
        return t
    return concat([t, ic(0, w - t.ty)])


def fbits(t):
    if t.op == "bitf":
        return t.a[0]
    if t.op == "undef":
        return undef(32)
    if t.op == "ite":
        return ite(t.a[0], fbits(t.a[1]), fbits(t.a[2]))
    return mk("fbits", (t,), 32)


def bitf(t):
    if t.op == "fbits":
        return t.a[0]
    if t.op == "undef":
        return undef("f")
    if t.op == "ic":
        import struct
        return fconst(struct.unpack(">f", struct.pack(">I", t.a[0]))[0])
    if t.op == "ite":
        return ite(t.a[0], bitf(t.a[1]), bitf(t.a[2]))
    return mk("bitf", (t,), "f")


def fconst(d):
    if d != d:
        return fc("nan")
    if d == float("inf"):
        return fc("inf")
    if d == float("-inf"):
        return fc("-inf")
    if d == 0.0 and str(d).startswith("-"):
        return fc("-0")
    return fc(Fraction(d))


INFIX = {"add": "+", "sub": "-", "mul": "*", "div": "/", "sdiv": "/", "and": "&", "or": "|", "xor": "^",
         "srem": "%", "shl": "<<", "ashr": ">>", "lshr": ">>>", "band": "&&", "bor": "||"}
PRED = {"olt": "<", "ogt": ">", "ole": "<=", "oge": ">=", "oeq": "==", "une": "!=", "slt": "<", "sgt": ">",
        "sle": "<=", "sge": ">=", "eq": "==", "ne": "!="}


def show(t, depth=0, lim=7):
    if depth > lim:
        return "..."
    op = t.op
    if op in ("fc", "ic"):
        v = t.a[0]
        if isinstance(v, Fraction):
            return "%.9g" % float(v)
        if op == "ic" and isinstance(t.ty, int) and t.ty > 1 and v >> (t.ty - 1):
            return str(v - (1 << t.ty))
        return str(v)
    if op == "sym":
        return t.a[0]
    if op in INFIX:
        return "(%s %s %s)" % (show(t.a[0], depth + 1, lim), INFIX[op], show(t.a[1], depth + 1, lim))
    if op in ("fcmp", "icmp"):
        return "(%s %s %s)" % (show(t.a[1], depth + 1, lim), PRED.get(t.a[0], t.a[0]), show(t.a[2], depth + 1, lim))
    if op == "call":
        return "%s(%s)" % (t.a[0], ", ".join(show(x, depth + 1, lim) for x in t.a[1:]))
    if op == "ite":
        return "(%s ? %s : %s)" % tuple(show(x, depth + 1, lim) for x in t.a)
    if op == "neg":
        return "-" + show(t.a[0], depth + 1, lim)
    if op == "not":
        return "!" + show(t.a[0], depth + 1, lim)
    return "%s(%s)" % (op, ", ".join(show(x, depth + 1, lim) if isinstance(x, T) else str(x) for x in t.a))


def chain(t, memo):
    """key of a float term up to the order of sums and products; None if it contains a choice between values"""
    r = memo.get(t.id, 0)
    if r != 0:
        return r

    def parts(x, op, sign):
        if op == "add" and x.op in ("add", "sub", "neg"):
            if x.op == "neg":
                return parts(x.a[0], op, -sign)
            return parts(x.a[0], op, sign) + parts(x.a[1], op, sign if x.op == "add" else -sign)
        if op == "mul" and x.op == "mul":
            return parts(x.a[0], op, 1) + parts(x.a[1], op, 1)
        if op == "mul" and x.op == "neg":
            return parts(x.a[0], op, 1) + [("neg", 1)]
        if x.op == "fc" and x.a[0] == "-0" and op == "add":
            return [("-0", sign)]
        if x.op == "fc" and not isinstance(x.a[0], str) and x.a[0] < 0:
            m = chain(mk("fc", (-x.a[0],), "f"), memo)
            return [(m, -sign)] if op == "add" else [("neg", 1)] + [(m, 1)] * (x.a[0] != -1)
        if op == "mul" and x.op == "fc" and x.a[0] == 1:
            return []
        return [(chain(x, memo), sign)]
    if t.op in ("add", "sub", "neg"):
        ks = [(k, g) for k, g in parts(t, "add", 1) if (k, g) != ("-0", 1)]
        if len(ks) == 1 and ks[0][1] < 0:
            k = ("mul", tuple(sorted([ks[0][0], "neg"], key=repr)))
        else:
            k = ("sum", tuple(sorted(ks, key=repr)))
        bad = any(x is None for x, _ in ks)
    elif t.op == "mul":
        ks = parts(t, "mul", 1)
        neg = sum(1 for x, _ in ks if x == "neg") % 2
        bad = any(x is None for x, _ in ks)
        k = ("mul", tuple(sorted([x for x, _ in ks if x != "neg"] + ["neg"] * neg, key=repr)))
    else:
        ks = [chain(x, memo) if isinstance(x, T) else x for x in t.a]
        if t.op == "call" and t.a[0] == "fma":
            ks[1:3] = sorted(ks[1:3], key=repr)
        bad = t.op == "ite" or any(x is None for x in ks)
        k = (t.op, str(t.ty), tuple(ks))
    if k[0] == "mul" and len(k[1]) == 1 and k[1][0] != "neg":
        r = k[1][0]
    else:
        r = None if bad else memo.setdefault(("n", k), "#%d" % len(memo))
    memo[t.id] = r
    return r
