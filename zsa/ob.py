"""Obligations: a one-expression user program plus the reference value of every
component of its result."""
import re
from .term import *
from .term import ic as _ic, concat as _cat

SC = {"float": ("f", 4), "int": (32, 4), "unsigned": (32, 4), "int32_t": (32, 4), "uint32_t": (32, 4),
      "bool": (1, 1), "size_t": (64, 8), "int64_t": (64, 8), "double": ("f", 8)}
LAY = {}
for n in (2, 3, 4):
    for t, e in (("vec", "float"), ("ivec", "int"), ("bvec", "bool")):
        ty, sz = SC[e]
        LAY["%s%d" % (t, n)] = (n * sz, [("." + "xyzw"[i], i * sz, sz, ty) for i in range(n)])
LAY["quat"] = (16, [("." + "xyzw"[i], i * 4, 4, "f") for i in range(4)])
for n in (2, 3, 4):
    LAY["mat%d" % n] = (n * n * 4, [("[%d][%d]" % (c, r), (c * n + r) * 4, 4, "f") for c in range(n) for r in range(n)])
for s, (ty, sz) in SC.items():
    LAY[s] = (sz, [("", 0, sz, ty)])


def layout(t):
    if t in LAY:
        return LAY[t]
    if t.endswith("]"):             # scalar array  float[16]
        e, n = t[:-1].split("[")
        sz0, cs0 = layout(e)
        n = int(n)
        cs = []
        for i in range(n):
            for nm, off, sz, ty in cs0:
                cs.append(("[%d]%s" % (i, nm), i * sz0 + off, sz, ty))
        return (n * sz0, cs)
    raise KeyError(t)


def rcomps(t):
    return layout(t)[1]


class V(list):
    """vector-like view of an input for reference terms"""
    x = property(lambda s: s[0])
    y = property(lambda s: s[1])
    z = property(lambda s: s[2])
    w = property(lambda s: s[3])


def cells(name, t):
    size, cs = layout(t)
    out = []
    syms = []
    for nm, off, sz, ty in cs:
        s = sym(name + nm, ty)
        syms.append(s)
        out.append((off, sz, _cat([s, _ic(0, 7)]) if ty == 1 else s))
    return size, out, syms


def view(t, syms):
    if t in SC:
        return syms[0]
    if t.startswith("mat"):
        n = int(t[3])
        return V([V(syms[c * n:(c + 1) * n]) for c in range(n)])
    return V(syms)


def flat(v):
    if isinstance(v, T) or not isinstance(v, (list, tuple)):
        return [v]
    out = []
    for x in v:
        out += flat(x)
    return out


class Ob:
    """name; params: [(name, type)], out: type; code: C++ expression (or '{...}' statements assigning `o`);
    spec: callable(**views)-> nested list of terms; kind of extras below."""
    __slots__ = ("name", "params", "out", "code", "spec", "pre", "nan", "alias", "inout", "divcheck", "tol", "group",
                 "custom", "configs", "must_abort", "what", "divs", "indep", "wellcond", "cond", "steps", "tests")

    def __init__(self, name, params, out, code, spec=None, pre=None, nan=(), inout=(), alias=None, divcheck=True,
                 tol=None, group=None, custom=None, configs=None, must_abort=False, what=None, divs=None):
        self.name, self.params, self.out, self.code, self.spec = name, list(params), out, code, spec
        self.pre, self.nan, self.inout, self.alias = pre, nan, tuple(inout), alias
        self.divcheck, self.tol, self.group, self.custom, self.configs = divcheck, tol, group or name, custom, configs
        self.must_abort = must_abort
        self.what = what
        self.wellcond = None    # lower bound for the square of divisors of degree 0
        # float results must not lose digits the reference keeps (where the reference is the definition of one operation)
        self.cond = code.count("(") <= 1 and not re.search(r"\b\d", code)
        self.tests = None       # highest degree of the terms cases are distinguished by; "exact": these are not computed with rounding
        self.steps = False      # float results must be the very operations of their reference, up to the order of sums and products
        self.indep = False      # float results may be computed only from the inputs their reference mentions
        self.divs = divs        # further terms the library may divide by

    def cpp(self, fn):
        ps, pro = [], ""
        for n, t in self.params:
            if self.alias and n in self.alias:
                continue
            if "[" in t:
                e = t[:t.index("[")]
                ps.append("%s%s* %s" % ("" if n in self.inout else "const ", e, n))
                continue
            ps.append("%s%s* p_%s" % ("" if n in self.inout else "const ", t, n))
        for n, t in self.params:
            src = n
            if self.alias and n in self.alias:
                src = self.alias[n]
            if "[" in t:
                continue
            pro += "%s%s& %s = *p_%s; " % ("" if n in self.inout else "const ", t, n, src)
        if self.out:
            if "[" in self.out:
                ps.append("%s* o" % self.out[:self.out.index("[")])
            else:
                ps.append("%s* p_o" % self.out)
                pro += "%s& o = *p_o; " % self.out
        body = self.code if self.code.startswith("{") else "o = (%s);" % self.code
        return 'extern "C" void %s(%s) { %s%s }' % (fn, ", ".join(ps), pro, body)
