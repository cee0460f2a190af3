"""Avoidable cancellation.

The first-order rounding error of an expression is the sum, over its operations, of the operation's value times the derivative of the result with
respect to it. Where the whole result (every component of the vector, quaternion or matrix: a component alone may be small next to the others) is
zero and all those products vanish for the reference, so that its error vanishes with its value, they must also vanish
for the implementation: otherwise it passes through quantities that do not become small and cancel each other, and no multiple of the reference's
error bounds its own. The places looked at are a fixed list of linear subspaces of the operand space: a vanishing operand, two equal or opposite
operands, a weight of zero or one.
"""
from . import algebra as al
from .algebra import A, Ctx, Rat, Split, TooBig, NAN, ONE, radd, rmul, rneg, rinv, rconst, ratom, mkfn, fm_feasible
from .term import *

EXACT = {"floor", "ceil", "trunc", "round", "rint", "nearbyint", "roundeven"}


class Unknown(Exception):
    pass


def resolve(t, c, memo):
    """t in the case c: no selections, absolute values, minima or maxima"""
    r = memo.get(t)
    if r is not None:
        return r
    op, a = t.op, t.a
    if len(memo) > 900:
        raise Unknown()
    if op == "ite":
        r = resolve(a[1] if c.boolv(a[0]) else a[2], c, memo)
    elif op == "fabs":
        r = resolve(a[0], c, memo)
        if c.sign(c.num(a[0])) < 0:
            r = mk("neg", (r,), "f")
    elif op == "call" and a[0] in ("fmin", "fmax"):
        s = c.sign(radd(c.num(a[1]), c.num(a[2]), -1))
        r = resolve(a[1] if (s <= 0) == (a[0] == "fmin") else a[2], c, memo)
    elif op in ("add", "sub", "mul", "div", "neg"):
        r = mk(op, tuple(resolve(x, c, memo) for x in a), "f", t.loc)
    elif op == "call" and all(x.ty == "f" for x in a[1:]):
        r = mk(op, (a[0],) + tuple(resolve(x, c, memo) for x in a[1:]), "f", t.loc)
    elif op in ("fc", "sym"):
        r = t
    else:
        raise Unknown()
    memo[t] = r
    return r


def exact(op, a, c):
    """operations that do not round"""
    if op == "call":
        return a[0] in EXACT
    x, y = c.num(a[0]), c.num(a[1])
    if op in ("add", "sub"):
        return not x.n or not y.n
    for z in (x, y)[op == "div":]:
        k = abs(z.n.get(ONE, 0)) if not z.d and not al.ratoms(z) else None
        if k is not None and (k == 0 or bin(int(k.numerator)).count("1") == 1 == bin(int(k.denominator)).count("1")):
            return True
    return op == "div" and not x.n


def contributions(t, c, c0):
    """[(operation, its value times the derivative of t with respect to it)] in the context c"""
    order, seen = [], set()

    def visit(x):
        if x in seen:
            return
        seen.add(x)
        for y in x.a:
            if isinstance(y, T):
                visit(y)
        order.append(x)
    visit(t)
    adj, out = {t: rconst(1)}, []

    def give(x, r):
        if r.n and x.op not in ("fc", "sym"):
            adj[x] = radd(adj[x], r) if x in adj else r
            if len(adj[x].n) > 400:
                raise Unknown()
    for x in reversed(order):
        d = adj.get(x)
        if d is None or not d.n:
            continue
        op, a = x.op, x.a
        if op in ("fc", "sym"):
            continue
        v = c.num(x)
        if v is NAN:
            raise Unknown()
        if op == "neg":
            give(a[0], rneg(d))
            continue
        if not exact(op, a, c0):
            out.append((x, rmul(d, v)))
        if op == "add":
            give(a[0], d)
            give(a[1], d)
        elif op == "sub":
            give(a[0], d)
            give(a[1], rneg(d))
        elif op == "mul":
            give(a[0], rmul(d, c.num(a[1])))
            give(a[1], rmul(d, c.num(a[0])))
        elif op == "div":
            b = c.num(a[1])
            if not b.n:
                raise Unknown()
            i = rinv(b)
            give(a[0], rmul(d, i))
            give(a[1], rneg(rmul(rmul(d, v), i)))
        elif a[0] == "sqrt":
            if not v.n:
                if all(y.op in ("fc", "sym") for y in a[1:]):
                    continue
                # the square root of something that vanishes: judge the argument with an unbounded weight
                give(a[1], rmul(d, mkfn("d_sqrt0", ())))
            else:
                give(a[1], rmul(d, rinv(radd(v, v))))
        else:
            for i, y in enumerate(a[1:]):
                give(y, rmul(d, mkfn("d%d_%s" % (i, a[0]), tuple(c.num(z) for z in a[1:]))))
    return out


def places(names):
    """linear subspaces: [(description, {symbol: value})]"""
    groups = {}
    for n in names:
        g = n
        for ch in ".[":
            g = g.split(ch)[0]
        groups.setdefault(g, []).append(n)
    r = []
    for g, ns in sorted(groups.items()):
        r.append(("%s = 0" % g, {n: rconst(0) for n in ns}))
        if len(ns) == 1:
            r.append(("%s = 1" % g, {ns[0]: rconst(1)}))
    gs = sorted(groups)
    for i, g in enumerate(gs):
        for h in gs[i + 1:]:
            m = {n: g + n[len(h):] for n in groups[h]}
            if sorted(m.values()) == sorted(groups[g]):
                r.append(("%s = %s" % (h, g), {n: ratom(A.sym(x)) for n, x in m.items()}))
                r.append(("%s = -%s" % (h, g), {n: rneg(ratom(A.sym(x))) for n, x in m.items()}))
    for g in gs:
        if len(groups[g]) == 1:
            for h in gs:
                if h != g:
                    r.append(("%s = %s = 0" % (g, h), {n: rconst(0) for n in groups[g] + groups[h]}))
    if len(gs) > 1:
        r.append(("all operands = 0", {n: rconst(0) for n in names}))
    return r


def symbols(t):
    seen, out, todo = set(), set(), [t]
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            if x.op == "sym" and x.ty == "f":
                out.add(x.a[0])
            todo += [y for y in x.a if isinstance(y, T)]
    return out


def reaches(cons, sub):
    """does the closure of the case meet the subspace?"""
    out = []
    for p, r in cons:
        q = Rat(dict(p))
        for v in al.ratoms(q):
            if v not in sub and any(u in sub for u in A.dep[v]):
                return False
        for v, val in sub.items():
            q = al.substitute(q, v, val)
        if q.d:
            return False
        out.append((q.n, "=" if r == "=" else "<="))
    return fm_feasible(out)


def degree(t):
    """highest degree in the operands among the intermediate values of t"""
    memo, top = {}, 0

    def deg(x):
        nonlocal top
        r = memo.get(x)
        if r is None:
            op, a = x.op, x.a
            if op == "sym":
                r = (1, 1)
            elif op == "fc":
                r = (0, 0)
            elif op == "neg":
                r = deg(a[0])
            elif op in ("add", "sub", "mul", "div"):
                (l1, h1), (l2, h2) = deg(a[0]), deg(a[1])
                r = (l1 + l2, h1 + h2) if op == "mul" else (l1 - h2, h1 - l2) if op == "div" else (min(l1, l2), max(h1, h2))
            else:
                ds = [deg(y) for y in a[1:]]
                r = (ds[0][0] / 2, ds[0][1] / 2) if a[0] == "sqrt" else ds[0] if a[0] in EXACT else (0, 0)
            memo[x] = r
            top = max(top, r[1])
        return r
    deg(t)
    return top


def powers(ts):
    """(highest degree in the operands among all float terms of ts, the same among those that a selection depends on, such a term)"""
    memo, top, tested, seen = {}, 0, (0, None), set()

    def deg(x):
        r = memo.get(x)
        if r is None:
            op, a = x.op, x.a
            if len(memo) > 20000:
                raise Unknown()
            if op == "sym":
                r = (1, 1) if x.ty == "f" else (0, 0)
            elif op == "neg" or op == "fabs":
                r = deg(a[0])
            elif op in ("add", "sub", "mul", "div"):
                (l1, h1), (l2, h2) = deg(a[0]), deg(a[1])
                r = (l1 + l2, h1 + h2) if op == "mul" else (l1 - h2, h1 - l2) if op == "div" else (min(l1, l2), max(h1, h2))
            elif op == "ite":
                (l1, h1), (l2, h2) = deg(a[1]), deg(a[2])
                r = min(l1, l2), max(h1, h2)
            elif op == "call" and len(a) > 1 and all(isinstance(y, T) for y in a[1:]):
                ds = [deg(y) for y in a[1:]]
                r = ((ds[0][0] / 2, ds[0][1] / 2) if a[0] == "sqrt" else ds[0] if a[0] in EXACT else
                     (min(x[0] for x in ds), max(x[1] for x in ds)) if a[0] in ("fmin", "fmax") else (0, 0))
            else:
                r = (0, 0)
            memo[x] = r
        return r

    todo = [(t, False) for t in ts]
    while todo:
        x, inside = todo.pop()
        if (x, inside) in seen:
            continue
        seen.add((x, inside))
        if x.ty == "f":
            d = deg(x)[1]
            top = max(top, d)
            if inside and d > tested[0]:
                tested = d, x
        for i, y in enumerate(x.a):
            if isinstance(y, T):
                todo.append((y, inside or x.ty == 1 or x.op == "ite" and i == 0))
    return top, tested[0], tested[1]


def check_tests(impl, whole):
    """None, or a term of higher degree than anything in the definition that a selection of impl depends on"""
    try:
        top = powers(whole)[0]
        _, d, t = powers([impl])
    except (Unknown, RecursionError):
        return None
    return t if top and d > top else None


def high_test(t, limit):
    """a term of higher degree than limit that a selection or truth value of t depends on"""
    try:
        _, d, x = powers([t])
    except (Unknown, RecursionError):
        return None
    return x if d > limit else None


def rounded_test(t):
    """a rounding operation below t"""
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.ty == "f" and (x.op in ("add", "sub", "mul", "div", "fma") or x.op == "call" and x.a[0] not in EXACT and x.a[0] not in ("fmin", "fmax")):
            return x
        todo += [y for y in x.a if isinstance(y, T)]
    return None


def check(impl, spec, c, whole):
    """None, or (place, operation, its contribution); the place is "rounded" where the definition selects an operand and
    the operation rounds, "overflow" where an intermediate value grows faster than all of the definition"""
    if c.sub or c.isub or c.nan or impl.ty != "f" or spec.ty != "f" or impl is spec:
        return None
    try:
        memo = {}
        ri, rs = resolve(impl, c, memo), resolve(spec, c, memo)
    except (Split, Unknown, TooBig, NotImplementedError, RecursionError):
        return None
    try:
        ws = [rs] + [resolve(w, c, memo) for w in whole if w is not spec]
    except (Split, Unknown, TooBig, NotImplementedError, RecursionError):
        ws = None
    if ri is rs or ri.op in ("fc", "sym") or rs.op == "fc":
        return None
    if rs.op == "sym" or rs.op == "neg" and rs.a[0].op == "sym":
        try:
            for x, v in contributions(ri, c, Ctx()):
                if v.n:
                    return "rounded", x, v
        except (Split, Unknown, TooBig, NotImplementedError, AttributeError):
            pass
        return None
    d = degree(ri)
    if d > 1 and d > max(degree(rs), min(powers(whole)[0], 2)):
        return "overflow", ri, None
    if ws is None:
        return None
    c0 = Ctx()
    for text, sub in places(symbols(ri) | symbols(rs)):
        c2 = Ctx()
        c2.sub = {A.sym(n): v for n, v in sub.items()}
        try:
            if any(c2.num(w).n for w in ws) or not reaches(c.cons, c2.sub) or any(v.n for _, v in contributions(rs, c2, c0)):
                continue
            for x, v in contributions(ri, c2, c0):
                if v.n:
                    return text, x, v
        except (Split, Unknown, TooBig, NotImplementedError, AttributeError):
            continue
    return None
