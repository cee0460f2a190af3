"""Normal forms.

float terms  -> rational functions over atoms (inputs, libm applications)
int terms    -> polynomials mod 2^w over atoms / GF(2) bit polynomials
comparisons  -> sign atoms; a finite case split over their outcomes
`decide()` compares an implementation term with a reference term in every
feasible ordering of the quantities they compare.
"""
import math
from fractions import Fraction
from .term import *

ONE = ()


def F(x):
    if isinstance(x, Fraction) and x.denominator == 1:
        return x.numerator
    return x


class Undefined(Exception):
    """an undefined (never written) value reaches the result"""

    def __init__(self, t):
        self.t = t


class Split(Exception):
    def __init__(self, atom, outcomes):
        self.atom, self.outcomes = atom, outcomes


class TooBig(Exception):
    pass


# ------------------------------------------------------------ polynomials
def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def pmul(a, b):
    if len(a) * len(b) > 400000:
        raise TooBig()
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v == 0:
                r.pop(k, None)
            else:
                r[k] = v
    return r


def pscale(a, k):
    if k == 0:
        return {}
    return {m: F(c * k) for m, c in a.items()}


def pconst(c):
    return {} if c == 0 else {ONE: c}


def pkey(p):
    return tuple(sorted(p.items()))


def plead(p):
    return max(p, key=lambda m: (sum(e for _, e in m), tuple((-v, e) for v, e in m)))


def pdivmod(a, b):
    """multivariate division of a by single b (graded order); returns q, r"""
    lb = max(b, key=mono_order)
    cb = Fraction(b[lb])
    q, r, a = {}, {}, dict(a)
    steps = 0
    while a:
        steps += 1
        if steps > 5000:
            raise TooBig()
        la = max(a, key=mono_order)
        ca = a[la]
        m = mdiv(la, lb)
        if m is None:
            r[la] = ca
            del a[la]
        else:
            k = F(ca / cb)
            q[m] = k
            for n, c in b.items():
                t = mmul(m, n)
                v = F(a.get(t, 0) - k * c)
                if v == 0:
                    a.pop(t, None)
                else:
                    a[t] = v
    return q, r


def mono_order(m):
    """lexicographic on (atom id, exp) with smaller id first significant -- a true monomial order"""
    return tuple((-v, e) for v, e in m) if False else _lex(m)


def _lex(m):
    # lex order via dense-ish encoding: compare highest atom id first
    return tuple(sorted(((v, e) for v, e in m), reverse=True))


def mdiv(a, b):
    d = dict(a)
    for v, e in b:
        x = d.get(v, 0) - e
        if x < 0:
            return None
        if x == 0:
            d.pop(v)
        else:
            d[v] = x
    return tuple(sorted(d.items()))


# ------------------------------------------------------------ rationals
class Rat:
    """num / prod(f^e);  den: dict key-> (poly, exp); polys monic-ish"""
    __slots__ = ("n", "d")

    def __init__(self, n, d=None):
        self.n, self.d = n, d or {}


NAN = object()


class Atoms:
    """global atom table (per process)"""

    def __init__(self):
        self.info = []          # id -> ('sym',name) | ('fn',name,args)
        self.syms = {}
        self.fns = {}           # name -> list of (args, id)
        self.dep = []           # id -> set of sym ids it depends on

    def sym(self, name):
        i = self.syms.get(name)
        if i is None:
            i = len(self.info)
            self.info.append(("sym", name))
            self.dep.append({i})
            self.syms[name] = i
        return i

    def new(self, info, dep):
        i = len(self.info)
        self.info.append(info)
        self.dep.append(dep)
        return i


A = Atoms()


def rconst(c):
    return Rat(pconst(F(c)))


def ratom(i):
    return Rat({((i, 1),): 1})


def factor_den(p):
    """split polynomial into (const, {key:(poly,exp)}) : monomial content is split off"""
    out = {}
    # common monomial content
    ms = list(p)
    common = dict(ms[0])
    for m in ms[1:]:
        dm = dict(m)
        for v in list(common):
            e = min(common[v], dm.get(v, 0))
            if e == 0:
                del common[v]
            else:
                common[v] = e
        if not common:
            break
    if common:
        cm = tuple(sorted(common.items()))
        p = {mdiv(m, cm): c for m, c in p.items()}
        for v, e in cm:
            q = {((v, 1),): 1}
            out[pkey(q)] = (q, e)
    c = 1
    if len(p) == 1 and ONE in p:
        return p[ONE], out
    lead = p[max(p, key=mono_order)]
    q = pscale(p, Fraction(1) / lead)
    out[pkey(q)] = (q, 1)
    return lead, out


def rmul(a, b):
    d = {}
    for x in (a.d, b.d):
        for k, (p, e) in x.items():
            if k in d:
                d[k] = (p, d[k][1] + e)
            else:
                d[k] = (p, e)
    r = Rat(pmul(a.n, b.n), d)
    return rreduce(r)


def rcancel(r):
    """cheap cancellation: single-atom factors, and whole-poly factors"""
    if not r.n:
        return Rat({})
    for k, (p, e) in list(r.d.items()):
        if len(p) == 1:
            m = next(iter(p))
            v = m[0][0]
            mn = min(dict(x).get(v, 0) for x in r.n)
            c = min(mn, e)
            if c:
                sub = ((v, c),)
                r = Rat({mdiv(x, sub): cc for x, cc in r.n.items()}, dict(r.d))
                if e == c:
                    del r.d[k]
                else:
                    r.d[k] = (p, e - c)
        elif len(r.n) <= 300:
            while e > 0:
                # exact division only
                if len(r.n) < 1:
                    break
                try:
                    q, rem = pdivmod(r.n, p)
                except TooBig:
                    break
                if rem:
                    break
                e -= 1
                r = Rat(q, dict(r.d))
                if e == 0:
                    del r.d[k]
                else:
                    r.d[k] = (p, e)
    return r


def issqrt(v):
    i = A.info[v]
    return i[0] == "fn" and i[1] == "sqrt"


def squarefn(v):
    i = A.info[v]
    return i[0] == "fn" and i[1] in ("sqrt", "sin")


def rreduce(r):
    """replace sqrt(p)^2 by p"""
    hit = None
    for m in r.n:
        for v, e in m:
            if e >= 2 and squarefn(v):
                hit = v
                break
        if hit is not None:
            break
    if hit is None:
        for k, (p, e) in r.d.items():
            if len(p) == 1 and e >= 2:
                v = next(iter(p))[0][0]
                if issqrt(v):
                    arg = A.info[v][2][0]
                    d = dict(r.d)
                    del d[k]
                    if e % 2:
                        d[k] = (p, 1)
                    x = Rat(r.n, d)
                    inv = rinv(arg)
                    for _ in range(e // 2):
                        x = rmul(x, inv)
                    return rreduce(x)
            elif len(p) > 1:
                for m in p:
                    for v, ee in m:
                        if ee >= 2 and issqrt(v):
                            pr = rreduce(Rat(p))
                            d = dict(r.d)
                            del d[k]
                            x = Rat(r.n, d)
                            inv = rinv(pr)
                            for _ in range(e):
                                x = rmul(x, inv)
                            return rreduce(x)
        return rcancel(r)
    v = hit
    arg = A.info[v][2][0]
    if A.info[v][1] == "sin":
        cc = mkfn("cos", (arg,))
        arg = radd(rconst(1), rmul(cc, cc), -1)
    groups = {}
    for m, c in r.n.items():
        e = dict(m).get(v, 0)
        h = e // 2
        base = mdiv(m, ((v, 2 * h),)) if h else m
        groups.setdefault(h, {})[base] = c
    acc = Rat({})
    for h, p in groups.items():
        x = Rat(p)
        for _ in range(h):
            x = rmul(x, arg)
        acc = radd(acc, x)
    d = dict(r.d)
    x = Rat(acc.n, dict(acc.d))
    for k, (p, e) in d.items():
        if k in x.d:
            x.d[k] = (p, x.d[k][1] + e)
        else:
            x.d[k] = (p, e)
    return rreduce(x)


def expand(d):
    p = {ONE: 1}
    for _, (q, e) in d.items():
        for _ in range(e):
            p = pmul(p, q)
    return p


def radd(a, b, k=1):
    if not a.n:
        return Rat(pscale(b.n, k), b.d) if k != 1 else b
    if not b.n:
        return a
    if a.d.keys() == b.d.keys() and all(a.d[x][1] == b.d[x][1] for x in a.d):
        return rcancel(Rat(padd(a.n, b.n, k), a.d))
    lcm = dict(a.d)
    for x, (p, e) in b.d.items():
        if x not in lcm or lcm[x][1] < e:
            lcm[x] = (p, e)
    ma = {x: (p, e - (a.d[x][1] if x in a.d else 0)) for x, (p, e) in lcm.items()}
    mb = {x: (p, e - (b.d[x][1] if x in b.d else 0)) for x, (p, e) in lcm.items()}
    na, nb = pmul(a.n, expand(ma)), pmul(b.n, expand(mb))
    r = Rat(padd(na, nb, k), lcm)
    return rreduce(r)


def rinv(r):
    c, d = factor_den(r.n)
    n = expand(r.d)
    return rreduce(Rat(pscale(n, Fraction(1) / c), d))


def rneg(a):
    return Rat({m: -c for m, c in a.n.items()}, a.d)


def riszero(r):
    return not r.n


def rkey(r):
    return (pkey(r.n), tuple(sorted((k, e) for k, (p, e) in r.d.items())))


def requal(a, b, tol=0.0):
    if rkey(a) == rkey(b):
        return True
    d = radd(a, b, -1)
    if not d.n:
        return True
    if tol:
        n1 = Rat(pmul(a.n, expand({k: v for k, v in b.d.items()})))
        n2 = Rat(pmul(b.n, expand({k: v for k, v in a.d.items()})))
        n1, n2 = rreduce(n1), rreduce(n2)
        if n1.d or n2.d:
            return False
        n1, n2 = n1.n, n2.n
        if n1.keys() != n2.keys():
            return False
        for m in n1:
            x, y = n1[m], n2[m]
            if abs(x - y) > tol * max(abs(x), abs(y)):
                return False
        return True
    return False


TOL = Fraction(4, 10 ** 7)

EVEN = {"cos", "cosh"}
ODD = {"sin", "tan", "asin", "atan", "sinh", "tanh", "asinh", "atanh", "cbrt", "round", "rint"}
POSITIVE = {"exp", "exp2"}
NONNEG = {"sqrt", "acos"}


def fsqrt(c):
    import math
    if c < 0:
        return None
    p, q = math.isqrt(c.numerator), math.isqrt(c.denominator)
    return Fraction(p, q) if p * p == c.numerator and q * q == c.denominator else None


def psqrt(n):
    """polynomial square root (up to sign) or None"""
    lm = max(n, key=mono_order)
    if any(e % 2 for _, e in lm):
        return None
    c = fsqrt(Fraction(n[lm]))
    if not c:
        return None
    l0 = tuple((v, e // 2) for v, e in lm)
    q = {l0: F(c)}
    for _ in range(24):
        r = padd(n, pmul(q, q), -1)
        if not r:
            return q
        m = max(r, key=mono_order)
        t = mdiv(m, l0)
        if t is None or t in q:
            return None
        q[t] = F(Fraction(r[m]) / (2 * c))
    return None


def isint(r):
    """certainly an integer: plus or minus the result of a rounding function"""
    if r.d or len(r.n) != 1:
        return False
    m, c = next(iter(r.n.items()))
    return abs(c) == 1 and len(m) == 1 and m[0][1] == 1 and A.info[m[0][0]][0] == "fn" and A.info[m[0][0]][1] in ("floor", "round", "rint")


def mkfn(name, args):
    """intern function application; returns Rat"""
    sgn = 1
    if name in EVEN or name in ODD:
        a = args[0]
        if a.n:
            lead = a.n[max(a.n, key=mono_order)]
            if lead < 0:
                args = (rneg(a),) + tuple(args[1:])
                if name in ODD:
                    sgn = -1
        elif name in ODD:
            return rconst(0)
    if name == "sqrt":
        a = args[0]
        if not a.d and (not a.n or (len(a.n) == 1 and ONE in a.n)):
            c = Fraction(a.n.get(ONE, 0))
            if c >= 0:
                import math
                p, q = math.isqrt(c.numerator), math.isqrt(c.denominator)
                if p * p == c.numerator and q * q == c.denominator:
                    return rconst(Fraction(p, q))
    lst = A.fns.setdefault((name, len(args)), [])
    for xs, i in lst:
        if all(requal(x, y, TOL) for x, y in zip(xs, args)):
            r = ratom(i)
            return r if sgn == 1 else rneg(r)
    dep = set()
    for x in args:
        for v in ratoms(x):
            dep |= A.dep[v]
    i = A.new(("fn", name, tuple(args)), dep)
    lst.append((tuple(args), i))
    r = ratom(i)
    return r if sgn == 1 else rneg(r)


def ratoms(r):
    s = set()
    for m in r.n:
        for v, _ in m:
            s.add(v)
    for _, (p, e) in r.d.items():
        for m in p:
            for v, _ in m:
                s.add(v)
    return s


def alldeps(r):
    s = set()
    for v in ratoms(r):
        s |= A.dep[v]
    return s


# ------------------------------------------------------------ printing
def sfrac(c):
    if isinstance(c, int):
        return str(c)
    f = float(c)
    return "%.9g" % f


def sp(p):
    if not p:
        return "0"
    out = []
    for m in sorted(p, key=mono_order):
        c = p[m]
        t = "*".join(satom(v) + ("^%d" % e if e > 1 else "") for v, e in m)
        if not t:
            out.append(sfrac(c))
        elif c == 1:
            out.append(t)
        elif c == -1:
            out.append("-" + t)
        else:
            out.append(sfrac(c) + "*" + t)
    s = " + ".join(out).replace("+ -", "- ")
    return s if len(s) < 600 else s[:600] + "..."


def satom(v):
    i = A.info[v]
    if i[0] == "sym":
        return str(i[1])
    return "%s(%s)" % (i[1], ", ".join(sr(x) if isinstance(x, Rat) else str(x) for x in i[2]))


def sr(r):
    if r is NAN:
        return "NaN"
    if not r.d:
        return sp(r.n)
    return "(%s)/(%s)" % (sp(r.n), "*".join("(%s)%s" % (sp(p), "^%d" % e if e > 1 else "") for p, e in r.d.values()))


# ------------------------------------------------------------ ints
class IV:
    """int normal form: polynomial mod 2^w (dict) over int atoms"""
    __slots__ = ("w", "p", "_k")

    def __init__(self, w, p):
        M = 1 << w
        self.w = w
        self.p = {m: c % M for m, c in p.items() if c % M}
        self._k = None

    def key(self):
        if self._k is None:
            self._k = ("I", self.w, pkey(self.p))
        return self._k

    def const(self):
        if not self.p:
            return 0
        if len(self.p) == 1 and ONE in self.p:
            return self.p[ONE]
        return None


IA = {}
IAinfo = []


def iatom(key):
    i = IA.get(key)
    if i is None:
        i = len(IAinfo)
        IA[key] = i
        IAinfo.append(key)
    return i


def si(v):
    if isinstance(v, IV):
        c = v.const()
        if c is not None:
            return str(c - (1 << v.w) if v.w > 1 and c >> (v.w - 1) else c)
        out = []
        for m, c in sorted(v.p.items()):
            if c >> (v.w - 1):
                c -= 1 << v.w
            t = "*".join(sia(IAinfo[x]) + ("^%d" % e if e > 1 else "") for x, e in m)
            out.append(t if t and c == 1 else ("-" + t if t and c == -1 else (str(c) + ("*" + t if t else ""))))
        s = " + ".join(out)
        return s if len(s) < 500 else s[:500] + "..."
    return str(v)


def sia(k):
    if k[0] == "sym":
        return k[1]
    if k[0] == "op":
        return "%s(%s)" % (k[1], ", ".join(sikey(x) for x in k[2:]))
    if k[0] == "fbits":
        return "bits(float)"
    if k[0] == "bits":
        return "bits[%d]" % len(k[1])
    return str(k)[:120]


def sikey(k):
    if isinstance(k, tuple) and k and k[0] == "I":
        return si(IV(k[1], dict(k[2])))
    return str(k)[:120]


# ------------------------------------------------------------ context
class Ctx:
    """one cell of the case split"""

    def __init__(self):
        self.sgn = []        # list of (Rat canonical, outcome) outcome in -1,0,1
        self.bools = {}      # bool sym -> bool
        self.other = {}      # opaque atom key -> outcome
        self.sub = {}        # sym atom id -> Rat   (float equalities)
        self.isub = {}       # int atom id -> IV
        self.nan = frozenset()
        self.zeros = []      # polys known zero (not eliminated)
        self.memo = {}
        self.bmemo = {}
        self.cons = []       # linear constraints: (dict var->coef, rel) rel in '<','<=','='  meaning  lin rel 0
        self.divs = []
        self.trace = []
        self.facts = []      # a-priori facts (preconditions) evaluated by caller

    def fork(self):
        c = Ctx()
        c.sgn = list(self.sgn)
        c.bools = dict(self.bools)
        c.other = dict(self.other)
        c.sub = dict(self.sub)
        c.isub = dict(self.isub)
        c.nan = self.nan
        c.zeros = list(self.zeros)
        c.cons = list(self.cons)
        c.trace = list(self.trace)
        c.facts = self.facts
        return c

    # ------------------------------------------------ floats
    def num(self, t):
        r = self.memo.get(t)
        if r is not None:
            return r
        # iterative deepening is unnecessary: terms are shallow after normal inlining
        r = self._num(t)
        self.memo[t] = r
        return r

    def _num(self, t):
        op = t.op
        if op == "fc":
            v = t.a[0]
            if v == "nan":
                return NAN
            if v == "-0":
                return rconst(0)
            if v == "inf":
                return ratom(A.sym("INF"))
            if v == "-inf":
                return rneg(ratom(A.sym("INF")))
            return rconst(v)
        if op == "sym":
            i = A.sym(t.a[0])
            if t.a[0] in self.nan:
                return NAN
            if i in self.sub:
                return self.sub[i]
            return ratom(i)
        if op in ("add", "sub", "mul", "div"):
            a, b = self.num(t.a[0]), self.num(t.a[1])
            if a is NAN or b is NAN:
                return NAN
            if op == "add":
                return radd(a, b)
            if op == "sub":
                return radd(a, b, -1)
            if op == "mul":
                return rmul(a, b)
            if not b.n:
                if not a.n:
                    return mkfn("0/0", (a,))
                return mkfn("div0", (a,))
            if ratoms(b):
                self.divs.append(b)
            return rmul(a, rinv(b))
        if op == "neg":
            a = self.num(t.a[0])
            return a if a is NAN else rneg(a)
        if op == "fabs":
            a = self.num(t.a[0])
            if a is NAN:
                return NAN
            s = self.sign(a)
            return a if s >= 0 else rneg(a)
        if op == "ite":
            return self.num(t.a[1] if self.boolv(t.a[0]) else t.a[2])
        if op == "undef":
            raise Undefined(t)
        if op == "call":
            f = t.a[0]
            args = [self.num(x) for x in t.a[1:]]
            if f in ("fmin", "fmax"):
                a, b = args
                if a is NAN:
                    return b
                if b is NAN:
                    return a
                s = self.sign(radd(a, b, -1))
                return (a if s <= 0 else b) if f == "fmin" else (a if s >= 0 else b)
            if f == "copysign":
                # magnitude of a with the sign of b (b == 0 keeps an opaque sign)
                a, b = args
                if a is not NAN and b is not NAN:
                    if not a.n:
                        return a
                    sa, sb = self.sign(a), self.sign(b)
                    if sb == 0:
                        return mkfn("copysign0", (a,)) if sa else rconst(0)
                    m = a if sa >= 0 else rneg(a)
                    return m if sb > 0 else rneg(m)
            if any(x is NAN for x in args):
                return NAN
            if f == "fma":
                return radd(rmul(args[0], args[1]), args[2])
            if f == "fmod":
                if not args[1].n:
                    return mkfn("fmod0", (args[0],))
                q = rmul(args[0], rinv(args[1]))
                if ratoms(args[1]):
                    self.divs.append(args[1])
                k = self.floorv(q) if self.sign(q) >= 0 else rneg(self.floorv(rneg(q)))
                return radd(args[0], rmul(args[1], k), -1)
            if f == "hypot":
                return self.sqrtv(radd(rmul(args[0], args[0]), rmul(args[1], args[1])))
            if f == "sqrt":
                return self.sqrtv(args[0])
            if f in ("floor", "ceil", "trunc", "round", "rint") and not ratoms(args[0]):
                import math
                c = Fraction(args[0].n.get(ONE, 0))
                if f == "floor":
                    return rconst(math.floor(c))
                if f == "ceil":
                    return rconst(math.ceil(c))
                if f == "trunc":
                    return rconst(math.trunc(c))
                if f == "rint":
                    return rconst(round(c))
                if f == "round":
                    return rconst(math.floor(abs(c) + Fraction(1, 2)) * (1 if c >= 0 else -1))
            if f in ("floor", "ceil", "trunc", "round", "rint") and isint(args[0]):
                return args[0]
            if f == "trunc":
                f = "floor" if self.sign(args[0]) >= 0 else "ceil"
            if f == "ceil":
                return rneg(mkfn("floor", (rneg(args[0]),)))
            if f in ("sin", "tan", "asin", "atan", "sinh", "tanh") and not args[0].n:
                return rconst(0)
            if f in ("cos", "cosh", "exp", "exp2") and not args[0].n:
                return rconst(1)
            if f == "tan":
                return rmul(mkfn("sin", tuple(args)), rinv(mkfn("cos", tuple(args))))
            if f == "pow" and not ratoms(args[1]):
                k = Fraction(args[1].n.get(ONE, 0))
                if k.denominator == 1 and -4 <= k <= 4 and (k > 0 or args[0].n):
                    r = rconst(1)
                    for _ in range(abs(int(k))):
                        r = rmul(r, args[0])
                    return r if k >= 0 else rinv(r)
                if k == Fraction(1, 2):
                    return self.sqrtv(args[0])
            return mkfn(f, tuple(args))
        if op in ("sitofp", "uitofp"):
            a = self.intv(t.a[0])
            c = a.const()
            if c is not None:
                if op == "sitofp" and a.w > 1 and c >> (a.w - 1):
                    c -= 1 << a.w
                return rconst(c)
            return self.ifn(op, a.key())
        if op == "bitf":
            a = self.intv(t.a[0])
            k = a.key()
            # bits of a float read back
            if len(a.p) == 1:
                m, c = next(iter(a.p.items()))
                if c == 1 and len(m) == 1 and m[0][1] == 1:
                    inf = IAinfo[m[0][0]]
                    if inf[0] == "fbits":
                        return inf[2].r
            return self.ifn("bitf", k)
        raise NotImplementedError("float op " + op)

    def floorv(self, q):
        if not ratoms(q):
            return rconst(math.floor(Fraction(q.n.get(ONE, 0))))
        return q if isint(q) else mkfn("floor", (q,))

    def sqrtv(self, a):
        """sqrt of a rational: squares are pulled out (with their sign resolved)"""
        if not a.n:
            return rconst(0)
        out = rconst(1)
        pend = {}
        for k, (p, e) in a.d.items():
            for _ in range(e // 2):
                out = rmul(out, rinv(self.absr(Rat(p))))
            if e % 2:
                if len(p) > 1 and nonneg_poly(p):     # a non-zero sum of squares
                    out = rmul(out, rinv(mkfn("sqrt", (Rat(p),))))
                else:
                    pend[k] = (p, 1)
        n = a.n
        _, fs = factor_den(n)
        common = {}
        for k, (p, e) in fs.items():
            if len(p) == 1 and e >= 2:
                v = next(iter(p))[0][0]
                common[v] = e // 2
        for v, h in common.items():
            n = {mdiv(m, ((v, 2 * h),)): c for m, c in n.items()}
            for _ in range(h):
                out = rmul(out, self.absr(ratom(v)))
        if len(n) > 1 and not pend:
            q = psqrt(n)
            if q is not None:
                return rmul(out, self.absr(Rat(q)))
        lead = n[max(n, key=mono_order)]
        s = fsqrt(Fraction(lead))
        if s is not None and s != 1 and not pend:
            n = pscale(n, Fraction(1) / (s * s))
            out = rmul(out, rconst(s))
        return rmul(out, mkfn("sqrt", (Rat(n, pend),)))

    def absr(self, r):
        return r if self.sign(r) >= 0 else rneg(r)

    def ifn(self, name, key):
        lst = A.fns.setdefault((name, key), [])
        if not lst:
            lst.append((None, A.new(("fn", name, (key,)), {("int",)})))
        return ratom(lst[0][1])

    # ------------------------------------------------ sign atoms
    def sign(self, r):
        """sign of rational r: -1,0,1 or raises Split"""
        if not r.n:
            return 0
        n, flip = r.n, 1
        dd = {}
        for k, (p, e) in r.d.items():
            if pos_poly(p):
                continue
            if e % 2 == 0:
                continue
            dd[k] = (p, 1)
        if dd:
            # a quotient has the sign of numerator times denominator wherever it is defined
            f = 1
            for k, (p, e) in sorted(dd.items(), key=lambda kv: kv[0]):
                f *= self.sign(Rat(p))
            if f:
                return f * self.sign(Rat(n))
        # strip positive monomial content from the numerator
        n, c = strip_pos(n)
        if not dd and len(n) == 1 and ONE in n:
            return 1 if n[ONE] > 0 else -1
        lead = n[max(n, key=mono_order)]
        flip = 1 if lead > 0 else -1
        n = pscale(n, Fraction(1) / lead)
        key = (pkey(n), tuple(sorted(dd)))
        q = Rat(n, dd)
        for k, (q0, o) in self.sgnmap().items():
            if k == key:
                return o * flip
        if not dd:
            if nonneg_poly(n):
                if pos_poly(n) or self.nonzero_term(n):
                    return flip
                outs = [0, 1]
            else:
                neg = {m: -c for m, c in n.items()}
                if nonneg_poly(neg):
                    if pos_poly(neg) or self.nonzero_term(neg):
                        return -flip
                    outs = [0, -1]
                else:
                    outs = [-1, 0, 1]
        else:
            outs = [-1, 0, 1]
        # implied by constraints?
        feas = [o for o in outs if self.feasible(n, dd, o)]
        if len(feas) == 1:
            self._record(key, q, feas[0])
            return feas[0] * flip
        raise Split(("sgn", key, q), feas)

    def nonzero_term(self, n):
        """n is a sum of non-negative terms; is one of them known not to vanish?"""
        sm = self.sgnmap()
        for m in n:
            ok = True
            for v, _ in m:
                k = sm.get((((((v, 1),), 1),), ()))
                if not (k and k[1]) and not pos_atom(v):
                    ok = False
                    break
            if ok:
                return True
        return False

    def sgnmap(self):
        return self.__dict__.setdefault("_sm", {})

    def _record(self, key, q, o):
        self.sgnmap()[key] = (q, o)

    def lin(self, n):
        return dict(n)

    def feasible(self, n, dd, o):
        if dd:
            return True
        if o == 0:
            extra = [(n, "=")]
        elif o < 0:
            extra = [(n, "<")]
        else:
            extra = [({m: -c for m, c in n.items()}, "<")]
        cons = self.cons + extra
        # relevant: connected by monomials
        return fm_feasible(cons)

    # ------------------------------------------------ booleans
    def boolv(self, t):
        r = self.bmemo.get(t)
        if r is None:
            r = self._bool(t)
            self.bmemo[t] = r
        return r

    def _bool(self, t):
        op = t.op
        if op == "ic":
            return bool(t.a[0])
        if op == "sym":
            k = t.a[0]
            if k in self.bools:
                return self.bools[k]
            raise Split(("bool", k), [False, True])
        if op == "not":
            return not self.boolv(t.a[0])
        if op == "band":
            # evaluate the already decidable side first
            try:
                if not self.boolv(t.a[0]):
                    return False
            except Split as s:
                try:
                    if not self.boolv(t.a[1]):
                        return False
                except Split:
                    pass
                raise s
            return self.boolv(t.a[1])
        if op == "bor":
            try:
                if self.boolv(t.a[0]):
                    return True
            except Split as s:
                try:
                    if self.boolv(t.a[1]):
                        return True
                except Split:
                    pass
                raise s
            return self.boolv(t.a[1])
        if op == "ite":
            return self.boolv(t.a[1] if self.boolv(t.a[0]) else t.a[2])
        if op == "fcmp":
            return self.fcmp(t.a[0], t.a[1], t.a[2])
        if op == "icmp":
            return self.icmp(t.a[0], t.a[1], t.a[2])
        if op == "slice":
            b = self.bit(t.a[0], t.a[1])
            return self.decidebit(b)
        if op == "undef":
            raise Undefined(t)
        if op == "xor":
            return self.boolv(t.a[0]) != self.boolv(t.a[1])
        raise NotImplementedError("bool op " + op)

    def decidebit(self, b):
        if b == frozenset():
            return False
        if b == frozenset([frozenset()]):
            return True
        k = ("bitexpr", b)
        if k in self.other:
            return self.other[k]
        inv = ("bitexpr", b ^ frozenset([frozenset()]))
        if inv in self.other:
            return not self.other[inv]
        raise Split(k, [False, True])

    def fcmp(self, pred, ta, tb):
        a, b = self.num(ta), self.num(tb)
        if a is NAN or b is NAN:
            return pred[0] == "u"
        if pred == "ord":
            return True
        if pred == "uno":
            return False
        inf = A.syms.get("INF")
        if inf is not None:
            ia, ib = inf in ratoms(a), inf in ratoms(b)
            if ia or ib:
                s = self.infcmp(a, b, inf)
                return {"eq": s == 0, "ne": s != 0, "lt": s < 0, "gt": s > 0, "le": s <= 0, "ge": s >= 0}[pred[1:]]
        s = self.sign(radd(a, b, -1))
        return {"eq": s == 0, "ne": s != 0, "lt": s < 0, "gt": s > 0, "le": s <= 0, "ge": s >= 0}[pred[1:]]

    def infcmp(self, a, b, inf):
        """comparison against an infinity: inputs may themselves be +-inf -> opaque 3-way atom"""
        pinf, ninf = rkey(ratom(inf)), rkey(rneg(ratom(inf)))
        for x, y, f in ((a, b, 1), (b, a, -1)):
            k = rkey(y)
            if k in (pinf, ninf):
                kx = rkey(x)
                if kx in (pinf, ninf):
                    sx, sy = (1 if kx == pinf else -1), (1 if k == pinf else -1)
                    return f * ((sx > sy) - (sx < sy))
                if not ratoms(x):
                    return f * (-1 if k == pinf else 1)
                # canonical up to sign
                lead = x.n[max(x.n, key=mono_order)]
                sg = 1 if lead > 0 else -1
                xx = x if sg == 1 else rneg(x)
                key = ("infcls", rkey(xx))
                cls = self.other.get(key)
                if cls is None:
                    sx = self.sign(xx)
                    raise Split(key, [0, sx] if sx else [0])
                cls *= sg          # -1: x=-inf, 0 finite, 1: +inf
                s = (cls > 1) - (cls < 1) if k == pinf else (cls > -1) - (cls < -1)
                return f * s
        raise Split(("infother", rkey(a), rkey(b)), [-1, 0, 1]) if ("infother", rkey(a), rkey(b)) not in self.other \
            else Undefined(None)

    # ------------------------------------------------ ints
    def intv(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._int(t)
            self.memo[t] = r
        return r

    def ivatom(self, w, key):
        i = iatom(key)
        if i in self.isub:
            return self.isub[i]
        return IV(w, {((i, 1),): 1})

    def _int(self, t):
        op, w = t.op, t.ty
        if w == 1:
            return IV(1, pconst(1 if self.boolv(t) else 0))
        if op == "ic":
            return IV(w, pconst(t.a[0]))
        if op == "sym":
            return self.ivatom(w, ("sym", t.a[0]))
        if op in ("add", "sub", "mul"):
            a, b = self.intv(t.a[0]), self.intv(t.a[1])
            if op == "add":
                return IV(w, padd(a.p, b.p))
            if op == "sub":
                return IV(w, padd(a.p, b.p, -1))
            return IV(w, pmul(a.p, b.p))
        if op == "ite":
            return self.intv(t.a[1] if self.boolv(t.a[0]) else t.a[2])
        if op in ("sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr"):
            a, b = self.intv(t.a[0]), self.intv(t.a[1])
            ca, cb = a.const(), b.const()
            if op == "shl" and cb is not None and cb < w:
                return IV(w, pscale(a.p, 1 << cb))
            if ca is not None and cb is not None and (cb or op in ("shl", "lshr", "ashr")):
                M = 1 << w
                sa = ca - M if ca >> (w - 1) else ca
                sb = cb - M if cb >> (w - 1) else cb
                if op == "sdiv":
                    return IV(w, pconst(int(abs(sa) // abs(sb)) * (1 if (sa < 0) == (sb < 0) else -1)))
                if op == "srem":
                    return IV(w, pconst((abs(sa) % abs(sb)) * (-1 if sa < 0 else 1)))
                if op == "udiv":
                    return IV(w, pconst(ca // cb))
                if op == "urem":
                    return IV(w, pconst(ca % cb))
                if cb < w:
                    return IV(w, pconst({"lshr": ca >> cb, "ashr": sa >> cb}[op]))
            if op in ("sdiv", "udiv") and cb == 1:
                return a
            if a.key() == b.key():          # wherever the operation is defined at all
                if op in ("sdiv", "udiv"):
                    return IV(w, pconst(1))
                if op in ("srem", "urem", "ashr", "lshr"):
                    return IV(w, pconst(0))
            return self.ivatom(w, ("op", op, a.key(), b.key()))
        if op == "undef":
            raise Undefined(t)
        if op == "fbits":
            r = self.num(t.a[0])
            if r is NAN:
                return self.ivatom(w, ("nanbits",))
            return self.ivatom(w, ("fbits", FB(r), FB(r)))
        if op in ("fptosi", "fptoui"):
            r = self.num(t.a[0])
            return self.ivatom(w, ("fcast", op, FB(r)))
        if op == "concat" and w == 32 and len(t.a) == 2 and t.a[0].op == "ic" and t.a[0].a[0] == 0 and \
                t.a[1].op == "slice" and t.a[1].a[1] == 0 and t.a[1].a[0].ty == w:
            return IV(w, pscale(self.intv(t.a[1].a[0]).p, 1 << t.a[0].ty))
        if op in ("and", "or", "xor", "concat", "slice", "sext"):
            bits = tuple(self.bit(t, i) for i in range(w))
            return self.frombits(w, bits)
        if op == "ctpop":
            return self.ivatom(w, ("op", "ctpop", self.intv(t.a[0]).key()))
        raise NotImplementedError("int op " + op)

    def frombits(self, w, bits):
        zero, one = frozenset(), frozenset([frozenset()])
        if all(b == zero or b == one for b in bits):
            return IV(w, pconst(sum(1 << i for i, b in enumerate(bits) if b == one)))

        def single(b):
            if len(b) == 1:
                m = next(iter(b))
                if len(m) == 1:
                    return next(iter(m))
            return None

        def contiguous(bs, inv=False):
            s0 = single(bs[0] ^ one if inv else bs[0])
            if s0 is None or s0[1] != 0:
                return None
            iv = s0[0]
            if iv[1] < len(bs):
                return None
            for i, b in enumerate(bs):
                if single(b ^ one if inv else b) != (iv, i):
                    return None
            return iv
        iv = contiguous(bits)
        if iv is not None and iv[1] == w:
            return IV(w, dict(iv[2]))
        if iv is None:
            iv = contiguous(bits, True)
            if iv is not None and iv[1] == w:     # ~x = -x-1
                return IV(w, padd(pconst(-1), dict(iv[2]), -1))
        return self.ivatom(w, ("bits", bits))

    def bit(self, t, i):
        """bit i of term t as GF(2) polynomial (frozenset of frozensets of (ivkey,i))"""
        zero, one = frozenset(), frozenset([frozenset()])
        if t.ty == 1 and t.op != "slice":
            return one if self.boolv(t) else zero
        key = ("bit", t, i)
        r = self.memo.get(key)
        if r is not None:
            return r
        r = self._bit(t, i, zero, one)
        self.memo[key] = r
        return r

    def _bit(self, t, i, zero, one):
        op = t.op
        if op == "ic":
            return one if (t.a[0] >> i) & 1 else zero
        if op == "concat":
            for p in t.a:
                if i < p.ty:
                    return self.bit(p, i)
                i -= p.ty
        if op == "slice":
            return self.bit(t.a[0], i + t.a[1])
        if op == "xor":
            return self.bit(t.a[0], i) ^ self.bit(t.a[1], i)
        if op in ("and", "or"):
            a, b = self.bit(t.a[0], i), self.bit(t.a[1], i)
            pr = gfmul(a, b)
            return pr if op == "and" else a ^ b ^ pr
        if op == "ite":
            return self.bit(t.a[1] if self.boolv(t.a[0]) else t.a[2], i)
        if op == "sext":
            return self.bit(t.a[0], min(i, t.a[0].ty - 1))
        if op == "undef":
            raise Undefined(t)
        if op == "ashr" and t.a[1].op == "ic" and t.a[1].a[0] < t.ty:
            return self.bit(t.a[0], min(i + t.a[1].a[0], t.ty - 1))
        v = self.intv(t)
        c = v.const()
        if c is not None:
            return one if (c >> i) & 1 else zero
        # an IV that is itself exactly a bit tuple
        if len(v.p) == 1:
            m, cc = next(iter(v.p.items()))
            if cc == 1 and len(m) == 1 and m[0][1] == 1:
                inf = IAinfo[m[0][0]]
                if inf[0] == "bits":
                    return inf[1][i]
        if i == v.w - 1 and i:
            s = self.knownsign(v)
            if s is not None:
                return one if s else zero
        return frozenset([frozenset([(v.key(), i)])])

    def knownsign(self, v):
        """is the plain integer v negative, as far as the case settles it"""
        la = self.ilin(v)
        if not la or ONE in la:
            return None
        m = next(iter(la))
        if not any(m in p for p, _ in self.cons):
            return None
        if not fm_feasible(self.cons + [({m: 1, ONE: 1}, "<=")]):
            return False
        if not fm_feasible(self.cons + [({m: -1}, "<=")]):
            return True
        return None

    def icmp(self, pred, ta, tb):
        if ta is tb:
            return pred in ("eq", "ule", "uge", "sle", "sge")
        a, b = self.intv(ta), self.intv(tb)
        w = a.w
        M = 1 << w
        ca, cb = a.const(), b.const()
        sg = (lambda x: x - M if x >> (w - 1) else x)
        if ca is not None and cb is not None:
            x, y = (sg(ca), sg(cb)) if pred[0] == "s" else (ca, cb)
            return {"eq": x == y, "ne": x != y, "lt": x < y, "gt": x > y, "le": x <= y, "ge": x >= y}[
                pred if pred in ("eq", "ne") else pred[1:]]
        if pred in ("eq", "ne"):
            d = IV(w, padd(a.p, b.p, -1))
            if not d.p:
                return pred == "eq"
            # linear in one unit variable against the rest -> order atom if both plain
            la, lb = self.ilin(a), self.ilin(b)
            if la is not None and lb is not None:
                s = self.isign(la, lb)
                return (s == 0) == (pred == "eq")
            k = d.key()
            n = IV(w, {m: -c for m, c in d.p.items()}).key()
            k = min(k, n)
            z = self.other.get(("ieq", k))
            if z is None:
                raise Split(("ieq", k), [True, False])
            return z == (pred == "eq")
        if pred[0] == "s":
            la, lb = self.ilin(a), self.ilin(b)
            if la is not None and lb is not None:
                s = self.isign(la, lb)
            else:
                s = self.opq("scmp", a, b)
        else:
            s = self.opq("ucmp", a, b)
        return {"lt": s < 0, "gt": s > 0, "le": s <= 0, "ge": s >= 0}[pred[1:]]

    def opq(self, kind, a, b):
        d = IV(a.w, padd(a.p, b.p, -1))
        if not d.p:
            return 0
        ka, kb = a.key(), b.key()
        flip = 1
        if ka > kb:
            ka, kb, flip = kb, ka, -1
        k = (kind, ka, kb)
        if k not in self.other:
            raise Split(k, [-1, 0, 1])
        return self.other[k] * flip

    def ilin(self, a):
        """plain variable or constant (signed) as linear form without wraparound"""
        c = a.const()
        if c is not None:
            M = 1 << a.w
            return {ONE: c - M if a.w > 1 and c >> (a.w - 1) else c} if c else {}
        if len(a.p) == 1:
            m, k = next(iter(a.p.items()))
            if k == 1 and len(m) == 1 and m[0][1] == 1:
                return {(("i", m[0][0]),): 1}
        return None

    def isign(self, la, lb):
        d = padd(la, lb, -1)
        if not d:
            return 0
        if len(d) == 1 and ONE in d:
            return 1 if d[ONE] > 0 else -1
        vs = sorted(m for m in d if m != ONE)
        flip = 1 if d[vs[0]] > 0 else -1
        n = d if flip == 1 else {m: -c for m, c in d.items()}
        key = ("I", pkey(n))
        sm = self.sgnmap()
        if key in sm:
            return sm[key][1] * flip
        feas = []
        for o in (-1, 0, 1):
            if o == 0:
                e = [(n, "=")]
            elif o < 0:
                e = [(padd(n, {ONE: 1}), "<=")]
            else:
                e = [(padd({m: -c for m, c in n.items()}, {ONE: 1}), "<=")]
            if fm_feasible(self.cons + e):
                feas.append(o)
        if len(feas) == 1:
            sm[key] = (None, feas[0])
            return feas[0] * flip
        raise Split(("isgn", key, n), feas)

    # ------------------------------------------------ extend
    def extend(self, atom, o):
        c = self.fork()
        c._sm = dict(self.sgnmap())
        kind = atom[0]
        if kind == "bool":
            c.bools[atom[1]] = o
            c.trace.append("%s=%s" % (atom[1], o))
        elif kind == "sgn":
            _, key, q = atom
            c.sgnmap()[key] = (q, o)
            c.trace.append("%s %s 0" % (sr(q), {-1: "<", 0: "==", 1: ">"}[o]))
            if not q.d:
                n = q.n
                if o == 0:
                    c.cons.append((n, "="))
                    c.eliminate(n)
                elif o < 0:
                    c.cons.append((n, "<"))
                else:
                    c.cons.append(({m: -x for m, x in n.items()}, "<"))
            elif o == 0:
                c.cons.append((q.n, "="))
                c.eliminate(q.n)
        elif kind == "isgn":
            _, key, n = atom
            c.sgnmap()[key] = (None, o)
            c.trace.append("%s %s 0" % (silin(n), {-1: "<", 0: "==", 1: ">"}[o]))
            if o == 0:
                c.cons.append((n, "="))
                vs = [m for m in n if m != ONE]
                m = vs[-1]
                v = m[0][1]
                if v not in c.isub:
                    k = n[m]        # +-1
                    rest = {}
                    for mm, cc in n.items():
                        if mm == m:
                            continue
                        rest[ONE if mm == ONE else ((mm[0][1], 1),)] = -cc * k
                    w = 32
                    c.isub[v] = IV(w, rest)
                    for u in list(c.isub):
                        if u != v:
                            p = c.isub[u].p
                            if ((v, 1),) in p:
                                kk = p[((v, 1),)]
                                np_ = {m2: c2 for m2, c2 in p.items() if m2 != ((v, 1),)}
                                c.isub[u] = IV(w, padd(np_, pscale(rest, kk)))
            elif o < 0:
                c.cons.append((padd(n, {ONE: 1}), "<="))
            else:
                c.cons.append((padd({m: -x for m, x in n.items()}, {ONE: 1}), "<="))
        else:
            c.other[atom] = o
            c.trace.append("%s -> %s" % (str(atom)[:100], o))
        return c

    def eliminate(self, n):
        """n == 0: if linear in a symbol that occurs nowhere else, substitute"""
        occ = {}
        for m in n:
            for v, e in m:
                occ.setdefault(v, []).append((m, e))
        for v in sorted(occ, reverse=True):
            if A.info[v][0] != "sym":
                continue
            if len(occ[v]) != 1 or occ[v][0][1] != 1 or len(occ[v][0][0]) != 1:
                continue
            if any(v in A.dep[u] for u in occ if u != v):
                continue
            k = n[((v, 1),)]
            rest = {m: F(Fraction(-c) / k) for m, c in n.items() if m != ((v, 1),)}
            r = Rat(rest)
            if v in self.sub:
                continue
            if any(u in self.sub for m in rest for u, _ in m):
                continue
            # apply to existing substitutions
            for u in list(self.sub):
                self.sub[u] = substitute(self.sub[u], v, r)
            self.sub[v] = r
            cons = []
            for p, rel in self.cons:
                if any(isinstance(u, int) and u == v for m in p for u, _ in m if m and not isinstance(m[0][0], str)):
                    q = substitute(Rat(p), v, r)
                    if q.d:
                        continue
                    p = q.n
                cons.append((p, rel))
            self.cons = cons
            # rewrite known signs under the substitution lazily: drop (they are kept as constraints)
            return
        self.zeros.append(n)


class FB:
    """hashable wrapper around a Rat, equality is semantic key"""
    __slots__ = ("r", "k")

    def __init__(self, r):
        self.r = r
        self.k = rkey(r) if r is not NAN else "nan"

    def __eq__(self, o):
        return isinstance(o, FB) and self.k == o.k

    def __lt__(self, o):
        return self.k < o.k

    def __gt__(self, o):
        return self.k > o.k

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return "FB(%s)" % sr(self.r)


def silin(n):
    return " + ".join("%s%s" % ("" if c == 1 and m != ONE else "%s*" % c if m != ONE else c,
                                sia(IAinfo[m[0][1]]) if m != ONE else "") for m, c in n.items())


def substitute(r, v, val):
    if v not in ratoms(r):
        return r

    def subp(p):
        acc = Rat({})
        for m, c in p.items():
            e = dict(m).get(v, 0)
            if not e:
                acc = radd(acc, Rat({m: c}))
            else:
                x = Rat({mdiv(m, ((v, e),)): c})
                for _ in range(e):
                    x = rmul(x, val)
                acc = radd(acc, x)
        return acc
    x = subp(r.n)
    for _, (p, e) in r.d.items():
        q = rinv(subp(p))
        for _ in range(e):
            x = rmul(x, q)
    return x


def gfmul(a, b):
    if not a or not b:
        return frozenset()
    r = set()
    for x in a:
        for y in b:
            r ^= {x | y}
    return frozenset(r)


def pos_atom(v):
    i = A.info[v]
    return i[0] == "fn" and i[1] in POSITIVE


def nonneg_atom(v):
    i = A.info[v]
    return i[0] == "fn" and (i[1] in POSITIVE or i[1] in NONNEG)


def nonneg_poly(p):
    for m, c in p.items():
        if c < 0:
            return False
        for v, e in m:
            if e % 2 and not nonneg_atom(v):
                return False
    return True


def pos_poly(p):
    """certainly > 0 wherever the defining operations are meaningful.  sqrt as a
    divisor counts as positive (it is >= 0, and 0 would be a division by zero)."""
    if len(p) == 1:
        m, c = next(iter(p.items()))
        if c > 0 and m and all(pos_atom(v) for v, e in m):
            return True
    return nonneg_poly(p) and p.get(ONE, 0) > 0


def strip_pos(n):
    """divide out common positive monomial content (exp(..), sqrt(..)>0 in divisors)"""
    ms = list(n)
    common = dict(ms[0])
    for m in ms[1:]:
        dm = dict(m)
        for v in list(common):
            e = min(common[v], dm.get(v, 0))
            if e:
                common[v] = e
            else:
                del common[v]
    common = {v: e for v, e in common.items() if pos_atom(v)}
    if common:
        cm = tuple(sorted(common.items()))
        n = {mdiv(m, cm): c for m, c in n.items()}
    return n, common


def intmono(m):
    """a product of integers"""
    for f in m:
        if not (isinstance(f, tuple) and len(f) == 2 and isinstance(f[0], int) and isinstance(f[1], int) and f[1] > 0):
            return False
        k = A.info[f[0]]
        if k[0] != "fn" or k[1] not in ("floor", "round", "rint"):
            return False
    return True


def tighten(p, r):
    """the constraint p < 0 or p <= 0 sharpened where p is an integer plus a constant"""
    k = Fraction(p.get(ONE, 0))
    q = [(m, c) for m, c in p.items() if m != ONE]
    if not q or not all(Fraction(c).denominator == 1 and intmono(m) for m, c in q):
        return p, r
    n = dict(q)
    n[ONE] = math.floor(k) + 1 if r == "<" else math.ceil(k)
    return n, "<="


def fm_feasible(cons):
    """Fourier-Motzkin emptiness test over monomials-as-variables (abstract polyhedra)"""
    vs = set()
    for p, _ in cons:
        for m in p:
            if m != ONE:
                vs.add(m)
    cons = list(cons)
    # background facts: even monomials and nonneg atoms
    for m in vs:
        if m and isinstance(m[0], tuple) and len(m[0]) == 2 and m[0][0] != "i":
            if nonneg_poly({m: 1}):
                cons.append(({m: -1}, "<="))
    # a square root of a sum of squares is at least each of the roots of the summands
    for m in vs:
        if len(m) == 1 and isinstance(m[0], tuple) and len(m[0]) == 2 and m[0][1] == 1 and isinstance(m[0][0], int) and issqrt(m[0][0]):
            r = A.info[m[0][0]][2][0]
            if r.d or not nonneg_poly(r.n):
                continue
            for q, c in r.n.items():
                k = len(q) == 1 and q[0][1] == 2 and fsqrt(Fraction(c))
                if k and ((q[0][0], 1),) in vs:
                    cons += [({((q[0][0], 1),): k, m: -1}, "<="), ({((q[0][0], 1),): -k, m: -1}, "<=")]
        # floor(r) <= r < floor(r) + 1, and floor(r) is an integer
        if len(m) == 1 and isinstance(m[0], tuple) and len(m[0]) == 2 and m[0][1] == 1 and isinstance(m[0][0], int):
            k = A.info[m[0][0]]
            if k[0] == "fn" and k[1] == "floor" and not k[2][0].d:
                p = k[2][0].n
                cons += [(padd({m: 1}, p, -1), "<="), (padd(padd(p, {m: 1}, -1), {ONE: 1}, -1), "<")]
                for q, r in list(cons):
                    if r == "<" and m in q and len(q) == 1 + (ONE in q):
                        c, b = q[m], Fraction(q.get(ONE, 0)) / abs(q[m])
                        cons.append(({m: 1 if c > 0 else -1, ONE: math.floor(b) + 1}, "<="))
    # y * floor(x / y) likewise, between x - |y| and x
    for v in {f[0] for m in vs for f in m if isinstance(f, tuple) and len(f) == 2 and isinstance(f[0], int)}:
        k = A.info[v]
        if k[0] == "fn" and k[1] == "floor" and len(k[2][0].d) == 1:
            (p, e), = k[2][0].d.values()
            y = next(iter(p))
            if e == 1 and len(p) == 1 and p[y] == 1:
                for q, r in list(cons):
                    if r == "<" and len(q) == 1 and y in q:
                        s = -1 if q[y] > 0 else 1       # sign of the divisor
                        t = padd({mmul(y, ((v, 1),)): 1}, k[2][0].n, -1)
                        cons += [(pscale(t, s), "<="), (pscale(padd(t, {y: 1}), -s), "<")]
                        break
    # products of quantities whose signs are facts
    sg = {}
    for p, r in cons:
        if len(p) == 1 and r != "<=":
            m, c = next(iter(p.items()))
            if m != ONE and len(m) == 1 and isinstance(m[0], tuple) and len(m[0]) == 2 and m[0][1] == 1:
                sg[m[0][0]] = 0 if r == "=" else (-1 if c > 0 else 1)
    if sg:
        for m in vs:
            if len(m) < 2 or not all(isinstance(f, tuple) and len(f) == 2 and isinstance(f[1], int) for f in m):
                continue
            s, strict = 1, True
            for v, e in m:
                k = sg.get(v)
                if k == 0:
                    s = 0
                    break
                if k is None:
                    strict = False
                    if e % 2 and not nonneg_atom(v):
                        s = None
                        break
                elif e % 2:
                    s *= k
            if s == 0:
                cons.append(({m: 1}, "="))
            elif s is not None:
                cons.append(({m: -s}, "<" if strict else "<="))
    # eliminate equalities first
    cons = [(dict(p), r) for p, r in cons]
    guard = 0
    while True:
        eqs = [(p, i) for i, (p, r) in enumerate(cons) if r == "="]
        if not eqs:
            break
        p, i = eqs[0]
        cons.pop(i)
        vars_ = [m for m in p if m != ONE]
        if not vars_:
            if p:
                return False
            continue
        v = next((m for m in vars_ if not intmono(m)), vars_[0])
        k = Fraction(p[v])
        new = []
        for q, r in cons:
            if v in q:
                q = padd(q, pscale(p, -Fraction(q[v]) / k))
                q.pop(v, None)
            new.append((q, r))
        cons = new
    cons = [(p, r) if r == "=" else tighten(p, r) for p, r in cons]
    while True:
        guard += 1
        consts = [(p, r) for p, r in cons if all(m == ONE for m in p)]
        for p, r in consts:
            c = p.get(ONE, 0)
            if r == "<" and not c < 0:
                return False
            if r == "<=" and not c <= 0:
                return False
        cons = [(p, r) for p, r in cons if any(m != ONE for m in p)]
        if not cons:
            return True
        if len(cons) > 120 or guard > 40:
            return True     # give up: keep the case (sound: never drops a real case)
        # pick variable with least products
        cnt = {}
        for p, r in cons:
            for m, c in p.items():
                if m != ONE:
                    a = cnt.setdefault(m, [0, 0])
                    a[0 if c > 0 else 1] += 1
        v = min(cnt, key=lambda m: cnt[m][0] * cnt[m][1])
        up, lo, rest = [], [], []
        for p, r in cons:
            c = p.get(v, 0)
            (up if c > 0 else lo if c < 0 else rest).append((p, r))
        seen = set()
        for p, r in up:
            for q, s in lo:
                z = padd(pscale(p, Fraction(1) / p[v]), pscale(q, Fraction(-1) / q[v]))
                z.pop(v, None)
                rel = "<" if "<" in (r, s) and (r == "<" or s == "<") else "<="
                z, rel = tighten(z, rel)
                k = (pkey(z), rel)
                if k not in seen:
                    seen.add(k)
                    rest.append((z, rel))
        cons = rest


def saturate(cons):
    """consequences of the equalities among the path constraints; None when the
    constraints contradict each other, else a list of (symbol, value) rewrites"""
    if any(not isinstance(v, int) for p, _ in cons for m in p for v, _ in m):
        return [] if fm_feasible(cons) else None
    eqs = [dict(p) for p, r in cons if r == "="]
    ineq = [(dict(p), r) for p, r in cons if r != "="]
    if not eqs:
        return []
    subs = []
    for _ in range(24):
        # row echelon form over monomials
        rows = []
        for p in eqs:
            for q, lead in rows:
                if lead in p:
                    p = padd(p, pscale(q, -Fraction(p[lead]) / q[lead]))
                    p.pop(lead, None)
            p = {m: c for m, c in p.items() if c}
            if not p:
                continue
            if all(m == ONE for m in p):
                return None
            lead = max(p, key=mono_order)
            rows = [(q if lead not in q else {m: c for m, c in padd(q, pscale(p, -Fraction(q[lead]) / p[lead])).items() if c}, l) for q, l in rows]
            rows.append((p, lead))
        eqs = [p for p, _ in rows if p]
        nonz = set()
        for p, r in ineq:
            if r == "<" and len(p) == 1:
                nonz |= {v for v, _ in next(iter(p))}
        sub = None
        extra = []
        for p in eqs:
            if len(p) == 1:
                m = next(iter(p))
                left = [v for v, _ in m if v not in nonz]
                if not left:
                    return None
                if len(left) == 1 and A.info[left[0]][0] == "sym":
                    sub = (left[0], {})
                    break
                continue
            for q in (p, {m: -c for m, c in p.items()}):
                if nonneg_poly(q):
                    if ONE in q:
                        return None
                    extra += [{m: 1} for m in q]
            if sub is None:
                occ = {}
                for m in p:
                    for v, e in m:
                        occ.setdefault(v, []).append((m, e))
                for v in sorted(occ, reverse=True):
                    if A.info[v][0] == "sym" and len(occ[v]) == 1 and occ[v][0][1] == 1 and len(occ[v][0][0]) == 1 \
                            and not any(v in A.dep[u] for u in occ if u != v):
                        k = Fraction(p[((v, 1),)])
                        sub = (v, {m: F(-c / k) for m, c in p.items() if m != ((v, 1),)})
                        break
        if sub is not None:
            v, val = sub
            subs.append((v, Rat(val)))
            st = lambda p: substitute(Rat(p), v, Rat(val)).n if any(u == v for m in p for u, _ in m) else p
            eqs = [st(p) for p in eqs]
            ineq = [(st(p), r) for p, r in ineq]
            if any(not p for p, r in ineq if r == "<"):
                return None
            continue
        new = [e for e in extra if e not in eqs]
        if not new:
            break
        eqs += new
    if not fm_feasible([(p, "=") for p in eqs] + ineq):
        return None
    return subs


# ------------------------------------------------------------ deciding
class Mismatch:
    def __init__(self, why, trace, impl, spec, at=None):
        self.why, self.trace, self.impl, self.spec, self.at = why, trace, impl, spec, at

    def text(self):
        return "%s when [%s]: implementation = %s ; required = %s" % (
            self.why, ", ".join(self.trace) or "always", self.impl, self.spec)


class Stats:
    def __init__(self):
        self.leaves = 0
        self.splits = 0


def zero_mod(r, zeros):
    n = r.n
    for z in zeros:
        try:
            _, n = pdivmod(n, z)
        except TooBig:
            return False
        if not n:
            return True
    return False


def div_ok(d, specdivs):
    """every zero of divisor d is a zero of some reference divisor"""
    p = d.n
    # remove atoms/factors known harmless
    _, fs = factor_den(p)
    for k, (q, e) in fs.items():
        if pos_poly(q):
            continue
        q = unsqrt(q)
        if q is None:
            continue
        ok = False
        for s in specdivs:
            if divides_some_power(q, s):
                ok = True
                break
        if not ok:
            return False
    return True


def unsqrt(q):
    if len(q) == 1:
        m = next(iter(q))
        if len(m) == 1 and issqrt(m[0][0]):
            arg = A.info[m[0][0]][2][0]
            if not ratoms(arg):
                return None
            _, fs = factor_den(arg.n)
            r = {ONE: 1}
            for _, (p, e) in fs.items():
                r = pmul(r, p)
            return r
    return q


def divides_some_power(q, s):
    try:
        _, r = pdivmod(s, q)
        if not r:
            return True
        s2 = rreduce(Rat(pmul(s, s)))
        if not s2.d:
            _, r = pdivmod(s2.n, q)
            if not r:
                return True
        # q = c * s^k
        cur = q
        for _ in range(4):
            a, r = pdivmod(cur, s)
            if r:
                break
            cur = a
            if all(m == ONE for m in cur):
                return True
    except TooBig:
        return True
    return False


def decide(impl, spec, ctx, stats, pre=None, abort=None, checkdiv=True, tol=TOL, limit=20000, divs=(), wellcond=None, cond=()):
    """compare terms under ctx; returns None or Mismatch.
    pre: bool term, cases where it is false are skipped.
    abort: bool term, must be false.
    cond: all the components of the reference result; where they vanish together, cancellation in impl is judged."""
    if cond and impl.ty == "f" and impl is not spec:
        from . import cancel
        t = cancel.check_tests(impl, cond)
        if t is not None:
            return Mismatch("the case is decided by a power of the operands higher than any in the definition, which underflows where the definition does not",
                            ctx.trace, "tests %s" % show(t, 0, 4)[:200], "", t)
    todo = [ctx]
    while todo:
        c = todo.pop()
        stats.splits += 1
        if stats.splits > limit:
            raise TooBig()
        try:
            if pre is not None and not c.boolv(pre):
                continue
            if abort is not None:
                try:
                    if c.boolv(abort):
                        return Mismatch("an assertion/abort is reached", c.trace, "abort", "a value")
                except Undefined:
                    return Mismatch("control depends on an uninitialised value", c.trace, "?", "?")
            c.divs = []
            want = c.value(spec)
            if divs and checkdiv:
                c.divs += [c.num(d) for d in divs]
            sdivs = [x for x in (unsqrt_all(d) for d in c.divs) if x is not None]
            c.divs = []
            try:
                got = c.value(impl)
            except Undefined:
                return Mismatch("an uninitialised value reaches the result", c.trace, "undefined", c.render(want))
            idivs = c.divs
        except Split as s:
            for o in s.outcomes:
                todo.append(c.extend(s.atom, o))
            continue
        stats.leaves += 1
        if not same(got, want, c, tol):
            subs = saturate(c.cons)
            if subs is None:
                stats.leaves -= 1
                continue            # contradictory case
            if subs and isinstance(got, Rat) and isinstance(want, Rat):
                d = radd(got, want, -1)
                for v, val in subs:
                    d = substitute(Rat(d.n), v, val)
                if riszero(d):
                    continue
            if isinstance(got, Rat) and isinstance(want, Rat) and got is not NAN and want is not NAN and got is not want:
                d = radd(got, want, -1)
                if len(d.n) <= 8 and not fm_feasible(list(c.cons) + [(d.n, "<")]) and not fm_feasible(list(c.cons) + [(pscale(d.n, -1), "<")]):
                    continue
            return Mismatch("result differs", c.trace, c.render(got), c.render(want))
        if checkdiv:
            for d in idivs:
                if not div_ok(d, sdivs):
                    return Mismatch("extra division that can be by zero", c.trace, "divides by " + sr(d), c.render(want))
        if cond and stats.leaves <= 24 and isinstance(got, Rat) and got is not NAN:
            from . import cancel
            r = cancel.check(impl, spec, c, cond)
            if r and r[0] == "rounded":
                return Mismatch("the result is one of the operands, but is rounded on the way", c.trace, "passes through %s" % show(r[1], 0, 4)[:200], c.render(want), r[1])
            if r and r[0] == "overflow":
                return Mismatch("passes through a power of the operands higher than any in the definition, which overflows where the definition does not",
                                c.trace, show(r[1], 0, 4)[:200], c.render(want), r[1])
            if r:
                return Mismatch("digits are lost to cancellation near %s, where the value is zero and so are all terms of the definition" % r[0],
                                c.trace, "passes through %s" % show(r[1], 0, 4)[:200], c.render(want), r[1])
        if wellcond:
            for d in idivs:
                if not bounded_below(d, wellcond, c.cons):
                    return Mismatch("division by a quantity that is not bounded away from zero", c.trace, "divides by " + sr(d),
                                    "a divisor whose square is at least %s on unit input" % wellcond)
    return None


def degree(p):
    """common degree of a polynomial whose sqrt atoms count half the degree of their argument; None if it is not homogeneous"""
    ds = set()
    for m in p:
        t = Fraction(0)
        for v, e in m:
            k = A.info[v]
            if k[0] == "sym":
                t += e
            elif issqrt(v):
                x = rdegree(k[2][0])
                if x is None:
                    return None
                t += e * x / 2
            else:
                return None
        ds.add(t)
    return ds.pop() if len(ds) == 1 else None


def rdegree(r):
    n = degree(r.n)
    for k, (p, e) in r.d.items():
        d = degree(p)
        if d is None or n is None:
            return None
        n -= d * e
    return n


def bounded_below(d, k, cons):
    """the path constraints imply d^2 >= k, for a divisor of homogeneous degree 0 (others are not judged)"""
    if rdegree(d) != 0 or not ratoms(d):
        return True
    s = radd(rreduce(rmul(d, d)), rconst(k), -1)
    for _, (p, e) in s.d.items():
        if not pos_poly(p) and not nonneg_poly(p) and e % 2:
            return True
    return not fm_feasible(list(cons) + [(s.n, "<")])


def unsqrt_all(d):
    _, fs = factor_den(d.n)
    r = {ONE: 1}
    for _, (q, e) in fs.items():
        q2 = unsqrt(q)
        if q2 is None:
            continue
        r = pmul(r, q2)
    if all(m == ONE for m in r):
        return None
    return r


def _value(self, t):
    if t.ty == "f":
        return self.num(t)
    if t.ty == 1:
        return self.boolv(t)
    return self.intv(t)


def _render(self, v):
    if isinstance(v, Rat) or v is NAN:
        return sr(v)
    return si(v)


Ctx.value = _value
Ctx.render = _render


def same(a, b, c, tol):
    if a is NAN or b is NAN:
        return a is b
    if isinstance(a, Rat):
        if requal(a, b, tol):
            return True
        if c.zeros:
            d = radd(a, b, -1)
            if zero_mod(d, c.zeros):
                return True
        return False
    if isinstance(a, IV):
        return a.key() == b.key()
    return a == b
