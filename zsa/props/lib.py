"""Shared vocabulary for the property modules."""
from fractions import Fraction
from ..ob import *
from ..term import *
from ..term import undef as UNDEF

NS = (2, 3, 4)
VEC = {n: "vec%d" % n for n in NS}
IVEC = {n: "ivec%d" % n for n in NS}
BVEC = {n: "bvec%d" % n for n in NS}
MAT = {n: "mat%d" % n for n in NS}


def size(t):
    return 1 if t in SC else 4 if t == "quat" else int(t[-1])


def L(v):
    """component list of a scalar or vector view"""
    return [v] if isinstance(v, T) else list(v)


def zipw(f, *vs):
    """componentwise application with scalar broadcast"""
    n = max(len(L(v)) for v in vs)
    cols = [L(v) if not isinstance(v, T) else [v] * n for v in vs]
    return [f(*c) for c in zip(*cols)]


def bit(op, a, b):
    return mk(op, (a, b), a.ty)


FOPS = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b}
IOPS = dict(FOPS)
IOPS.update({"%": lambda a, b: bit("srem", a, b), "&": lambda a, b: bit("and", a, b), "|": lambda a, b: bit("or", a, b),
             "^": lambda a, b: bit("xor", a, b), "<<": lambda a, b: bit("shl", a, b), ">>": lambda a, b: bit("ashr", a, b)})
OPN = {"+": "add", "-": "sub", "*": "mul", "/": "div", "%": "rem", "&": "and", "|": "or", "^": "xor", "<<": "shl", ">>": "shr",
       "==": "eq", "!=": "ne", "<": "lt", "<=": "le", ">": "gt", ">=": "ge", "&&": "land", "||": "lor"}


def ops(t):
    return IOPS if t.startswith("ivec") else FOPS


def scalar(t):
    return "int" if t.startswith("ivec") else "bool" if t.startswith("bvec") else "float"


def f32(x):
    """the single-precision neighbour of x, exactly"""
    import struct
    return Fraction(struct.unpack("f", struct.pack("f", x))[0])


def total(xs):
    xs = list(xs)
    r = xs[0]
    for x in xs[1:]:
        r = r + x
    return r


def dotp(a, b):
    return total(x * y for x, y in zip(L(a), L(b)))


def crossp(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def sqrt(x):
    return call("sqrt", x)


def scalev(v, s):
    return [x * s for x in v]


def addv(a, b):
    return [x + y for x, y in zip(a, b)]


def subv(a, b):
    return [x - y for x, y in zip(a, b)]


def normv(v):
    l = sqrt(dotp(v, v))
    return [x / l for x in v]


def fmin(a, b):
    return ite(lt(b, a), b, a)


def fmax(a, b):
    return ite(lt(a, b), b, a)


def absf(x):
    return ite(lt(x, fc(0)), -x, x)


def ident(n):
    return [[1 if i == j else 0 for i in range(n)] for j in range(n)]


def matmul(a, b):
    """column major: (a*b)[c][r]"""
    n = len(a)
    return [[total(a[k][r] * b[c][k] for k in range(n)) for r in range(n)] for c in range(n)]


def matvec(m, v):
    n = len(m)
    return [total(m[k][r] * v[k] for k in range(n)) for r in range(n)]


def vecmat(v, m):
    n = len(m)
    return [total(v[k] * m[c][k] for k in range(n)) for c in range(n)]


def minor(m, c, r):
    return [[m[i][j] for j in range(len(m)) if j != r] for i in range(len(m)) if i != c]


def det(m):
    if len(m) == 1:
        return m[0][0]
    t = None
    for c in range(len(m)):
        x = m[c][0] * det(minor(m, c, 0))
        if c & 1:
            x = -x
        t = x if t is None else t + x
    return t


def adj(m):
    """adjugate, column major"""
    n = len(m)
    out = [[None] * n for _ in range(n)]
    for c in range(n):
        for r in range(n):
            x = det(minor(m, c, r)) if n > 1 else fc(1)
            out[r][c] = -x if (c + r) & 1 else x
    return out


def transposem(m):
    n = len(m)
    return [[m[r][c] for r in range(n)] for c in range(n)]


def qmul(p, q):
    """views are x y z w"""
    px, py, pz, pw = p
    qx, qy, qz, qw = q
    return [pw * qx + px * qw + py * qz - pz * qy,
            pw * qy + py * qw + pz * qx - px * qz,
            pw * qz + pz * qw + px * qy - py * qx,
            pw * qw - px * qx - py * qy - pz * qz]


def qconj(q):
    return [-q[0], -q[1], -q[2], q[3]]


def qrot(q, v):
    """v + 2w(u x v) + 2 u x (u x v)"""
    u = q[:3]
    t = crossp(u, v)
    t2 = crossp(u, t)
    return [v[i] + 2 * (q[3] * t[i] + t2[i]) for i in range(3)]


def qmat(q):
    x, y, z, w = q
    return [[1 - 2 * (y * y + z * z), 2 * (x * y + w * z), 2 * (x * z - w * y)],
            [2 * (x * y - w * z), 1 - 2 * (x * x + z * z), 2 * (y * z + w * x)],
            [2 * (x * z + w * y), 2 * (y * z - w * x), 1 - 2 * (x * x + y * y)]]


PI = Fraction("3.14159265358979323846264338327950288419716939937510582097494459")


def twin(name, params, n, code, pre=None, limit=20000, **kw):
    """two computations of the same n floats in one caller: o[0..n) must equal o[n..2n) in every case"""
    from .. import algebra
    from ..check import Violation

    def custom(ob, fb, st, outs, views, res, di):
        pr = pre(**views) if pre else None
        for i in range(n):
            res.components += 1
            stt = algebra.Stats()
            mm = algebra.decide(outs[i][1], outs[i + n][1], algebra.Ctx(), stt, pre=pr, abort=None if fb.aborts is FALSE else fb.aborts,
                                checkdiv=False, limit=limit)
            res.cases += stt.leaves
            if mm:
                res.violations.append(Violation("%s[%d]" % (ob.name, i), mm.text(), None))
                break
        res.sample = "%s: %d component pairs agree" % (ob.name, n)
    return Ob(name, params, "float[%d]" % (2 * n), code, None, custom=custom, **kw)


def samesteps(name, params, n, code, **kw):
    """two computations of the same n floats in one caller round alike: they are the same operations up to the order of sums and products"""
    from ..check import Violation, where_text, loc_of
    from ..term import chain

    def custom(ob, fb, st, outs, views, res, di):
        memo = {}
        for i in range(n):
            res.components += 1
            res.cases += 1
            x, y = outs[i][1], outs[i + n][1]
            a, b = chain(x, memo), chain(y, memo)
            if a is not None and b is not None and a != b:
                res.violations.append(Violation("%s[%d]" % (ob.name, i), "the compound form computes %s, the binary operator %s: they round differently"
                                                % (show(x, 0, 5)[:160], show(y, 0, 5)[:160]), where_text(di, loc_of(x))))
                return
        res.sample = "%s: %d component pairs are the same operations" % (ob.name, n)
    return Ob(name, params, "float[%d]" % (2 * n), code, None, custom=custom, **kw)
