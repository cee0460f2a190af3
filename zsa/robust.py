"""Domains of partial functions under rounding.

An interval domain over the value-flow terms in which every operation is rounded (correct rounding is monotone, so rounding the end points is
exact), refined by the comparisons on the path to the operation -- a comparison constrains the very value it compared, whatever its rounding --
and, for sums, by linear inequalities between compared values with explicit rounding slack (abstract polyhedra).
"""
import math
import struct
from fractions import Fraction
from .term import *
from .algebra import fm_feasible, ONE, TooBig

INF = float("inf")
ULP = 2.0 ** -22
MONO = {"sqrt": (math.sqrt, 0.0, INF), "floor": (math.floor, -INF, INF), "ceil": (math.ceil, -INF, INF), "trunc": (math.trunc, -INF, INF),
        "exp": (math.exp, -INF, 80.0), "exp2": (lambda x: 2.0 ** x, -INF, 120.0), "atan": (math.atan, -INF, INF),
        "asin": (math.asin, -1.0, 1.0), "log": (math.log, 1e-45, INF), "cbrt": (lambda x: math.copysign(abs(x) ** (1 / 3), x), -INF, INF)}
RANGE = {"sin": (-1.0, 1.0), "cos": (-1.0, 1.0), "atan2": (-3.1415930, 3.1415930), "acos": (0.0, 3.1415930), "cosh": (1.0, INF),
         "acosh": (0.0, INF), "tanh": (-1.0, 1.0), "pow": (0.0, INF), "asin": (-1.5707970, 1.5707970), "atan": (-1.5707970, 1.5707970),
         "exp": (0.0, INF), "exp2": (0.0, INF), "sqrt": (0.0, INF), "hypot": (0.0, INF)}
# argument, lower and upper bound of the domain
DOMAIN = {"sqrt": (0, 0.0, INF), "asin": (0, -1.0, 1.0), "acos": (0, -1.0, 1.0), "log": (0, 0.0, INF), "log2": (0, 0.0, INF),
          "log10": (0, 0.0, INF), "acosh": (0, 1.0, INF), "atanh": (0, -1.0, 1.0), "pow": (0, 0.0, INF), "log1p": (0, -1.0, INF)}


def f32(x):
    if x in (INF, -INF):
        return x
    try:
        return struct.unpack("f", struct.pack("f", x))[0]
    except OverflowError:
        return INF if x > 0 else -INF


def below(x):
    """the largest single-precision number less than x (an end point of an interval of rounded values)"""
    if x in (INF, -INF):
        return x
    y = f32(x)
    if y >= x:
        k = struct.unpack("i", struct.pack("f", y))[0]
        y = struct.unpack("f", struct.pack("i", k - 1 if y > 0 else k + 1 if y < 0 else -0x7fffffff))[0]
    return y


def out(lo, hi):
    """enclosure of the rounded results of exact values in [lo, hi] (given in double precision)"""
    l2 = math.nextafter(lo, -INF) if lo not in (INF, -INF, 0.0) else lo
    h2 = math.nextafter(hi, INF) if hi not in (INF, -INF, 0.0) else hi
    if lo == float(f32(lo)):
        l2 = lo
    if hi == float(f32(hi)):
        h2 = hi
    return min(l2, f32(l2)), max(h2, f32(h2))


def mulend(a, b):
    if a == 0 or b == 0:
        return 0.0
    return a * b


def selection(x):
    """a case distinction among the summands of x"""
    if x.op == "concat" and x.a[0].ty == 1 and all(y.op == "ic" for y in x.a[1:]):
        v = sum(y.a[0] << sum(z.ty for z in x.a[:i + 1]) for i, y in enumerate(x.a[1:]))
        return mk("ite", (x.a[0], ic(v | 1, x.ty), ic(v, x.ty)), x.ty)
    if x.op == "ite":
        return x
    if x.op in ("add", "sub", "neg"):
        for y in x.a:
            g = selection(y)
            if g is not None:
                return g
    return None


def replace(x, g, y):
    if x is g or x.op == "concat":
        return y
    return mk(x.op, tuple(replace(z, g, y) for z in x.a), x.ty) if x.op in ("add", "sub", "neg") else x


def rebuild(c, i, x):
    a = c.a[:i] + (x,) + c.a[i + 1:]
    if c.op == "icmp" and all(isinstance(y, T) and y.op == "ic" for y in a[1:]):
        x, y, w = a[1].a[0], a[2].a[0], a[1].ty
        sg = lambda v: v - (1 << w) if v >> (w - 1) else v
        if a[0][0] == "s":
            x, y = sg(x), sg(y)
        return TRUE if {"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[a[0] if a[0] in ("eq", "ne")
                                                                                                 else a[0][1:]] else FALSE
    return mk(c.op, a, c.ty)


class Robust:
    def __init__(self, box, squares=()):
        """box: symbol -> (lo, hi); squares: groups of symbols whose squares sum to one up to 0.002"""
        self.box, self.squares = box, squares
        self.memo = {}
        self.adds = {}

    # ---------------------------------------------------------- contexts
    def assume(self, ctx, c, pol):
        """the contexts (conjunctions of atomic conditions) in which c has the truth value pol"""
        if c is TRUE or c is FALSE:
            return [ctx] if (c is TRUE) == pol else []
        if c.op == "not":
            return self.assume(ctx, c.a[0], not pol)
        if c.op in ("band", "bor"):
            a, b = c.a
            if (c.op == "band") == pol:
                return [y for x in self.assume(ctx, a, pol) for y in self.assume(x, b, pol)]
            return self.assume(ctx, a, pol) + [y for x in self.assume(ctx, a, not pol) for y in self.assume(x, b, pol)]
        if c.op == "ite":
            return [y for p in (True, False) for x in self.assume(ctx, c.a[0], p) for y in self.assume(x, c.a[1 if p else 2], pol)]
        for i, x in enumerate(c.a):
            # a comparison of a selected value is decided case by case
            g = selection(x) if isinstance(x, T) else None
            if g is not None:
                return [z for k, p in ((1, True), (2, False)) for y in self.assume(ctx, g.a[0], p)
                        for z in self.assume(y, rebuild(c, i, replace(x, g, g.a[k])), pol)]
        if (c, not pol) in ctx or self.refuted(c, pol):
            return []
        return [ctx | {(c, pol)}]

    def refuted(self, c, pol):
        return False

    def facts(self, ctx):
        """comparisons a <= b (rel '<=') and a < b that hold in ctx"""
        for c, pol in ctx:
            if c.op != "fcmp":
                continue
            p, a, b = c.a
            p = p[1:]
            if not pol:
                p = {"lt": "ge", "ge": "lt", "gt": "le", "le": "gt", "eq": "ne", "ne": "eq"}.get(p)
            if p in ("lt", "le"):
                yield a, b, p == "lt"
            elif p in ("gt", "ge"):
                yield b, a, p == "gt"
            elif p == "eq":
                yield a, b, False
                yield b, a, False

    # ---------------------------------------------------------- intervals
    def rng(self, t, ctx, depth=0):
        k = (t, ctx)
        r = self.memo.get(k)
        if r is None:
            if depth > 400:
                raise TooBig("interval depth")
            r = self.rng1(t, ctx, depth + 1)
            if t.op not in ("fc", "sym") or ctx:
                lo, hi = r
                for a, b, strict in self.facts(ctx):
                    if a is t and b is not t:
                        x = self.quick(b, depth)[1]
                        hi = min(hi, below(x) if strict else x)
                    if b is t and a is not t:
                        x = self.quick(a, depth)[0]
                        lo = max(lo, -below(-x) if strict else x)
                if lo > hi:
                    lo, hi = hi, lo       # contradictory context; any enclosure does
                r = (lo, hi)
            self.memo[k] = r
        return r

    def quick(self, t, depth):
        return self.rng(t, frozenset(), depth)

    def rng1(self, t, ctx, d):
        op, a = t.op, t.a
        if op == "fc":
            x = a[0]
            if isinstance(x, str):
                return {"inf": (INF, INF), "-inf": (-INF, -INF)}.get(x, (-INF, INF)) if x != "nz" else (0.0, 0.0)
            return (float(x), float(x))
        if op == "sym":
            return self.box.get(a[0], (-INF, INF))
        if op == "neg":
            lo, hi = self.rng(a[0], ctx, d)
            return -hi, -lo
        if op == "fabs":
            lo, hi = self.rng(a[0], ctx, d)
            return (lo, hi) if lo >= 0 else (-hi, -lo) if hi <= 0 else (0.0, max(-lo, hi))
        if op in ("add", "sub"):
            l1, h1 = self.rng(a[0], ctx, d)
            l2, h2 = self.rng(a[1], ctx, d)
            if op == "sub":
                l2, h2 = -h2, -l2
            lo = -INF if -INF in (l1, l2) else l1 + l2
            hi = INF if INF in (h1, h2) else h1 + h2
            return out(lo, hi)
        if op == "mul":
            if a[0] is a[1]:
                lo, hi = self.rng(a[0], ctx, d)
                m = self.awayfrom0(a[0], ctx, lo, hi)
                return out(mulend(m, m), max(mulend(lo, lo), mulend(hi, hi)))
            for x, y in ((a[0], a[1]), (a[1], a[0])):
                if y.op == "div" and y.a[0].op == "fc" and self.isnorm(x, y.a[1]):
                    c = abs(float(y.a[0].a[0]))
                    return (-c * (1 + 8 * ULP), c * (1 + 8 * ULP))
            l1, h1 = self.rng(a[0], ctx, d)
            l2, h2 = self.rng(a[1], ctx, d)
            e = [mulend(x, y) for x in (l1, h1) for y in (l2, h2)]
            return out(min(e), max(e))
        if op == "div":
            if self.isnorm(a[0], a[1]):
                return (-1 - 8 * ULP, 1 + 8 * ULP)
            l1, h1 = self.rng(a[0], ctx, d)
            l2, h2 = self.rng(a[1], ctx, d)
            if l2 > 0 or h2 < 0:
                e = [0.0 if y in (INF, -INF) and x not in (INF, -INF) else x / y if not (x in (INF, -INF) and y in (INF, -INF)) else None
                     for x in (l1, h1) for y in (l2, h2)]
                if None not in e:
                    return out(min(e), max(e))
            if l1 >= 0 and l2 >= 0:
                return (0.0, INF)
            return (-INF, INF)
        if op == "ite":
            rs = [self.rng(a[i], c, d) for i, p in ((1, True), (2, False)) for c in self.assume(ctx, a[0], p)]
            if not rs:
                return (-INF, INF)
            return min(r[0] for r in rs), max(r[1] for r in rs)
        if op == "call":
            f = a[0]
            if f in ("fmin", "fmax"):
                (l1, h1), (l2, h2) = self.rng(a[1], ctx, d), self.rng(a[2], ctx, d)
                return (min(l1, l2), min(h1, h2)) if f == "fmin" else (max(l1, l2), max(h1, h2))
            if f in ("acos",):
                lo, hi = self.rng(a[1], ctx, d)
                lo, hi = max(lo, -1.0), min(hi, 1.0)
                if lo <= hi:
                    x, y = math.acos(hi), math.acos(lo)
                    return x * (1 - 4 * ULP), y * (1 + 4 * ULP)
            if f == "sin":
                lo, hi = self.rng(a[1], ctx, d)
                if 0 <= lo and hi <= 3.1415926:
                    m = min(math.sin(lo), math.sin(hi))
                    return m * (1 - 4 * ULP), 1.0
            if f in MONO:
                g, l0, h0 = MONO[f]
                lo, hi = self.rng(a[1], ctx, d)
                lo, hi = max(lo, l0), min(hi, h0)
                base = RANGE.get(f, (-INF, INF))
                if lo <= hi:
                    try:
                        x = base[0] if lo == -INF else g(lo)
                        y = base[1] if hi in (INF, h0) and h0 != 1.0 else g(hi)
                        w = 1 if f in ("floor", "ceil", "trunc") else 1 + 4 * ULP
                        return (x / w if x > 0 else x * w), (y * w if y > 0 else y / w)
                    except (ValueError, OverflowError):
                        pass
                return base
            return RANGE.get(f, (-INF, INF))
        if op in ("sitofp", "uitofp"):
            w = a[0].ty
            return (-2.0 ** (w - 1), 2.0 ** (w - 1)) if op == "sitofp" else (0.0, 2.0 ** w)
        return (-INF, INF)

    def awayfrom0(self, x, ctx, lo, hi):
        m = max(0.0, lo, -hi)
        for u, v, _ in self.facts(ctx):
            if v.op == "fabs" and v.a[0] is x:
                m = max(m, self.quick(u, 0)[0])
            if v.op == "mul" and v.a[0] is x and v.a[1] is x:
                k = self.quick(u, 0)[0]
                if k > 0:
                    m = max(m, math.sqrt(k) * (1 - ULP))
        return m

    def isnorm(self, x, n):
        """is n the square root of a sum of squares among which is x*x?"""
        if n.op != "call" or n.a[0] != "sqrt":
            return False
        todo, hit = [n.a[1]], False
        while todo:
            y = todo.pop()
            if y.op == "add":
                todo += y.a
            elif y.op == "mul" and y.a[0] is y.a[1]:
                hit |= y.a[0] is x
            elif y.op != "fc" or isinstance(y.a[0], str) or y.a[0] < 0:
                return False
        return hit

    # ---------------------------------------------------------- linear forms
    def leaves(self, t, ctx, budget):
        """t without its additive-level case distinctions: [(term, context)]"""
        budget[0] -= 1
        if budget[0] < 0:
            raise TooBig("case distinctions in an argument")
        if t.op == "ite":
            return [z for i, p in ((1, True), (2, False)) for c in self.assume(ctx, t.a[0], p) for z in self.leaves(t.a[i], c, budget)]
        if t.op in ("add", "sub") or (t.op == "mul" and "fc" in (t.a[0].op, t.a[1].op)):
            return [(mk(t.op, (u, v), "f"), c2) for u, c1 in self.leaves(t.a[0], ctx, budget) for v, c2 in self.leaves(t.a[1], c1, budget)]
        if t.op == "neg":
            return [(mk("neg", (u,), "f"), c) for u, c in self.leaves(t.a[0], ctx, budget)]
        return [(t, ctx)]

    def linear(self, t, ctx):
        """(coefficients over atoms, bound of the accumulated rounding error)"""
        def num(x):
            return Fraction(x.a[0]) if x.op == "fc" and not isinstance(x.a[0], str) else None
        if t.op == "fc" and num(t) is not None:
            return {ONE: num(t)}, 0.0
        if t.op == "neg":
            p, e = self.linear(t.a[0], ctx)
            return {m: -c for m, c in p.items()}, e
        if t.op in ("add", "sub"):
            p, e = self.linear(t.a[0], ctx)
            q, f = self.linear(t.a[1], ctx)
            s = 1 if t.op == "add" else -1
            r = dict(p)
            for m, c in q.items():
                r[m] = r.get(m, 0) + s * c
            lo, hi = self.rng(t, ctx)
            return {m: c for m, c in r.items() if c}, e + f + max(abs(lo), abs(hi)) * ULP
        if t.op == "mul":
            for x, y in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
                k = num(x)
                if k is not None:
                    p, e = self.linear(y, ctx)
                    lo, hi = self.rng(t, ctx)
                    return {m: c * k for m, c in p.items()}, e * abs(float(k)) + max(abs(lo), abs(hi)) * ULP
        if t.op == "mul" and t.a[0].op == "sym" and t.a[1].op == "sym":
            lo, hi = self.rng(t, ctx)
            key = ((("i",) + tuple(sorted((t.a[0].a[0], t.a[1].a[0]))) + (0,)),)
            self.used[key] = (t, ctx)
            return {key: Fraction(1)}, max(abs(lo), abs(hi)) * ULP
        key = (("i", "#%d" % t.id, "", 0),)
        self.used[key] = (t, ctx)
        return {key: Fraction(1)}, 0.0

    def polyhedral(self, t, ctx, bound, upper):
        """do the comparisons in ctx force t >= bound (or t <= bound), rounding included?"""
        self.used = {}
        cons = []

        def add(p, e, k=0):
            if e == INF or e != e:
                return
            p = dict(p)
            p[ONE] = p.get(ONE, 0) - Fraction(e) + k
            cons.append((p, "<="))
        p, e = self.linear(t, ctx)
        if e == INF or e != e:
            return False
        s = -1 if upper else 1
        # negation of the goal: s*t < s*bound + e
        q = {m: s * c for m, c in p.items()}
        q[ONE] = q.get(ONE, 0) - s * Fraction(bound) - Fraction(e)
        cons.append((q, "<="))
        for a, b, _ in self.facts(ctx):
            pa, ea = self.linear(a, ctx)
            pb, eb = self.linear(b, ctx)
            r = dict(pa)
            for m, c in pb.items():
                r[m] = r.get(m, 0) - c
            add({m: c for m, c in r.items() if c}, ea + eb)
        for g in self.squares:
            r = {}
            for x in g:
                key = (("i", x, x, 0),)
                r[key] = Fraction(1)
            cons.append(({**r, ONE: Fraction(-1002, 1000)}, "<="))
            cons.append(({**{m: -c for m, c in r.items()}, ONE: Fraction(998, 1000)}, "<="))
            for x in g:
                cons.append(({(("i", x, x, 0),): Fraction(-1)}, "<="))
        for key, (u, c) in list(self.used.items()):
            lo, hi = self.rng(u, c)
            if lo != -INF:
                cons.append(({key: Fraction(-1), ONE: Fraction(lo)}, "<="))
            if hi != INF:
                cons.append(({key: Fraction(1), ONE: -Fraction(hi)}, "<="))
        return not fm_feasible(cons)

    def holds(self, t, ctx, lo, hi):
        """t lies in [lo, hi] in every case of ctx; returns None or (leaf, interval)"""
        a, b = self.rng(t, ctx)
        if a >= lo and b <= hi:
            return None
        for u, c in self.leaves(t, ctx, [3000]):
            a, b = self.rng(u, c)
            if a < lo and not self.atleast(u, c, lo):
                return u, (a, b), c
            if b > hi and not self.atmost(u, c, hi):
                return u, (a, b), c
        return None

    def nonzero(self, t, ctx):
        """t stays away from zero in every case of ctx"""
        lo, hi = self.rng(t, ctx)
        if lo > 0 or hi < 0:
            return True
        if t.op == "neg":
            return self.nonzero(t.a[0], ctx)
        if t.op == "mul" and "fc" in (t.a[0].op, t.a[1].op):
            x, k = t.a if t.a[1].op == "fc" else t.a[::-1]
            return abs(k.a[0]) >= 1e-3 and self.nonzero(x, ctx) if not isinstance(k.a[0], str) else False
        if t.op == "call" and t.a[0] == "sqrt" and self.holds(t.a[1], ctx, 1e-12, INF) is None:
            return True
        if t.op == "ite":
            return all(self.nonzero(t.a[i], c) for i, p in ((1, True), (2, False)) for c in self.assume(ctx, t.a[0], p))
        return self.covered(t, ctx)

    def covered(self, t, ctx, budget=6000):
        """t stays away from zero on every cell of an adaptive partition of the inputs"""
        names, todo, seen = set(), [t] + [c for c, _ in ctx], set()
        while todo:
            x = todo.pop()
            if x.id not in seen:
                seen.add(x.id)
                if x.op == "sym":
                    names.add(x.a[0])
                todo += [y for y in x.a if isinstance(y, T)]
        names = sorted(names)
        if not 0 < len(names) <= 4 or any(INF in map(abs, self.box.get(n, (INF, INF))) for n in names):
            return False
        groups = [g for g in self.squares if set(g) <= set(names)]
        cells = [(tuple(self.box[n] for n in names), (), ctx)]
        while cells:
            budget -= 1
            if budget < 0:
                return False
            cell, pins, ctx = cells.pop()
            b = dict(zip(names, cell))
            if any(sum(max(x * x for x in b[n]) for n in g) < 0.998 or
                   sum(0.0 if b[n][0] <= 0 <= b[n][1] else min(x * x for x in b[n]) for n in g) > 1.002 for g in groups):
                continue
            r = Cell(b, pins)
            if any(r.refuted(c, p) for c, p in ctx if c.op == "fcmp"):
                continue
            lo, hi = r.rng(t, ctx)
            if lo > 1e-4 or hi < -1e-4 or r.empty:
                continue
            steps = [(x, p) for x, p in r.steps if x not in [y for y, _ in pins]]
            if steps:
                x, (lo, hi) = steps[0]
                if hi - lo <= 2:
                    cells += [(cell, pins + ((x, (float(k), float(k))),), ctx) for k in range(int(lo), int(hi) + 1)]
                    continue
            open_ = [c for c in r.undecided if (c, True) not in ctx and (c, False) not in ctx]
            if open_:
                cells += [(cell, pins, c) for p in (True, False) for c in self.assume(ctx, open_[0], p)]
                continue
            w, i = max((hi - lo, i) for i, (lo, hi) in enumerate(cell))
            if w < 2.0 ** -9:
                return False
            lo, hi = cell[i]
            m = (lo + hi) / 2
            cells += [(cell[:i] + (h,) + cell[i + 1:], pins, ctx) for h in ((lo, m), (m, hi))]
        return True

    def atleast(self, u, c, lo):
        return self.rng(u, c)[0] >= lo or self.polyhedral(u, c, lo, False)

    def atmost(self, u, c, hi):
        if self.rng(u, c)[1] <= hi:
            return True
        if u.op == "call" and u.a[0] == "sqrt" and hi >= 0:
            return self.holds(u.a[1], c, -INF, hi * hi) is None
        return self.polyhedral(u, c, hi, True)

    # ---------------------------------------------------------- collection
    def partial_ops(self, terms, divs=False):
        """(operation, context) for every partial operation a value can pass through"""
        todo, seen, found = [(t, frozenset()) for t in terms], set(), []
        while todo:
            t, c = todo.pop()
            if (t, c) in seen:
                continue
            seen.add((t, c))
            if len(seen) > 60000:
                raise TooBig("too many contexts")
            if t.op in ("band", "bor"):
                todo += [(t.a[0], c)] + [(t.a[1], x) for x in self.assume(c, t.a[0], t.op == "band")]
                continue
            if t.op == "ite":
                todo.append((t.a[0], c))
                for i, p in ((1, True), (2, False)):
                    todo += [(t.a[i], x) for x in self.assume(c, t.a[0], p)]
                continue
            if t.op == "call" and t.a[0] in DOMAIN or divs and t.op == "div":
                found.append((t, c))
            todo += [(x, c) for x in t.a if isinstance(x, T)]
        return found


class Cell(Robust):
    """interval evaluation on one cell of the input space; pins fix the value of step functions"""

    def __init__(self, box, pins):
        Robust.__init__(self, box)
        self.pins = dict(pins)
        self.inner = {x.a[1]: (p[0], p[0] + 1) for x, p in pins}
        self.steps, self.empty, self.undecided = [], False, []

    def rng1(self, t, ctx, d):
        if t in self.pins:
            return self.pins[t]
        lo, hi = Robust.rng1(self, t, ctx, d)
        if t.op == "call" and t.a[0] == "floor" and hi > lo:
            self.steps.append((t, (lo, hi)))
        if t in self.inner:
            a, b = self.inner[t]
            if a > hi or b < lo:
                self.empty = True
                return (a, b)
            lo, hi = max(lo, a), min(hi, b)
        return lo, hi

    def refuted(self, c, pol):
        if c.op != "fcmp":
            return False
        p, a, b = c.a
        (l1, h1), (l2, h2) = self.rng(a, frozenset()), self.rng(b, frozenset())
        if p[1:] in ("gt", "ge"):
            l1, h1, l2, h2 = l2, h2, l1, h1
        elif p[1:] not in ("lt", "le"):
            return False
        r = (l1 >= h2, h1 < l2) if p[1:] in ("lt", "gt") else (l1 > h2, h1 <= l2)
        if not any(r):
            self.undecided.append(c)
        return r[0] if pol else r[1]
