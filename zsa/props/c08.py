from .lib import *
from .. import algebra
from ..check import Violation

RULE = ("The hash of every hashable type is extracted as a machine-word expression over the bits of the components (xor/and/or/shift/"
        "concatenation in GF(2) normal form, products kept as atoms). Three facts are decided: in every case where a float component "
        "compares equal to zero the expression does not depend on that component's bit pattern (so +0 and -0 hash alike; all other equal "
        "values have equal bits); after normalisation every component still occurs in the expression, with bool components "
        "giving different expressions for true and false; and std::hash of the type is the same expression as zcm::hash.")
ASSUME = ["a component that occurs in the normalised expression is taken to influence the hash; collision rates are not bounded"]
FLOOR = 40
TYPES = ["float", "bool", "int", "unsigned"] + list(BVEC.values()) + list(IVEC.values()) + list(VEC.values()) + ["quat"] + list(MAT.values())


def raw(t, memo):
    """replace the bit pattern of every float by a free 32-bit word, keeping comparisons on the float itself"""
    if not isinstance(t, T):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == "fbits":
        x = t.a[0]
        if x.op == "sym":
            r = sym("bits:" + x.a[0], 32)
        else:
            zero = x.op == "add" and any(y.op == "fc" and y.a[0] == 0 for y in x.a)
            r = t if zero or x.op == "fc" else sym("bits:" + "+".join(sorted(symbols(x))), 32)
    elif any(isinstance(x, T) for x in t.a):
        a = tuple(raw(x, memo) for x in t.a)
        r = t if all(x is y for x, y in zip(a, t.a)) else mk(t.op, a, t.ty)
    else:
        r = t
    memo[t] = r
    return r


def symbols(t, out=None):
    out = set() if out is None else out
    if t.op == "sym":
        out.add(t.a[0])
    for x in t.a:
        if isinstance(x, T):
            symbols(x, out)
    return out


def atoms(k, out):
    """names of the symbols in an integer normal form"""
    if isinstance(k, tuple):
        if len(k) == 3 and k[0] == "I":
            for mono, _ in k[2]:
                for i, _e in mono:
                    atoms(algebra.IAinfo[i], out)
            return out
        if len(k) == 2 and k[0] == "sym":
            out.add(k[1])
            return out
        for x in k:
            atoms(x, out)
    elif isinstance(k, frozenset):
        for x in k:
            atoms(x, out)
    elif isinstance(k, algebra.FB):
        for v in algebra.ratoms(k.r):
            i = algebra.A.info[v] if hasattr(algebra.A, "info") else None
            out.add("fb:" + algebra.satom(v))
    return out


def cases(t, pre):
    todo, n = [algebra.Ctx()], 0
    while todo:
        c = todo.pop()
        n += 1
        if n > 4000:
            raise algebra.TooBig()
        try:
            if pre is not None and not c.boolv(pre):
                continue
            v = c.intv(t)
        except algebra.Split as s:
            for o in s.outcomes:
                todo.append(c.extend(s.atom, o))
            continue
        yield c, v


TABLE = {}


def localise(t, memo, sup, bad):
    """every maximal subterm that looks at one float component only is replaced by one word named after the component and the
    subterm's case table; `bad` collects components whose zero does not lose its sign bit there"""
    if not isinstance(t, T):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    s = support(t, sup)
    if len(s) == 1 and t.ty != 1 and t.ty != "f" and t.op != "sym" and branches(t, {}) and not next(iter(s)).startswith("bool:"):
        c = next(iter(s))
        tab = []
        for ctx, v in cases(raw(t, {}), None):
            tab.append((tuple(ctx.trace), v.key()))
        for ctx, v in cases(raw(t, {}), eq(sym(c, "f"), 0)):
            if any(c in x[5:].split("+") for x in atoms(v.key(), set()) if x.startswith("bits:")):
                bad.add(c)
        k = TABLE.setdefault(repr((c, t.ty, sorted(tab, key=repr))), len(TABLE))
        r = sym("bits:%s" % c if c in bad else "word%d:%s" % (k, c), t.ty)
    elif any(isinstance(x, T) for x in t.a):
        a = tuple(localise(x, memo, sup, bad) for x in t.a)
        r = t if all(x is y for x, y in zip(a, t.a)) else mk(t.op, a, t.ty)
    else:
        r = t
    memo[t] = r
    return r


def support(t, sup):
    r = sup.get(t)
    if r is None:
        r = frozenset([t.a[0] if t.ty == "f" else "bool:" + t.a[0]]) if t.op == "sym" else frozenset()
        for x in t.a:
            if isinstance(x, T):
                r |= support(x, sup)
        sup[t] = r
    return r


def branches(t, memo):
    if t not in memo:
        memo[t] = t.op == "ite" or any(isinstance(x, T) and branches(x, memo) for x in t.a)
    return memo[t]


def samecheck(ob, fb, st, outs, views, res, di):
    res.components += 1
    (n0, x, _), (n1, y, _) = outs
    x, y = localise(x, {}, {}, set()), localise(y, {}, {}, set())
    res.sample = "%s is %s" % (ob.code, show(x, 0, 5)[:160])
    if x is y:
        return
    mm = algebra.decide(x, y, algebra.Ctx(), algebra.Stats())
    if mm:
        res.violations.append(Violation(ob.name, "the two hashes differ: " + mm.text()[:500], None))


def hashcheck(ob, fb, st, outs, views, res, di):
    (nm, got, ty), = outs
    h = raw(localise(got, {}, {}, set()), {})
    comps = flat(list(views.values()))
    names = [c.a[0] for c in comps]
    res.sample = "hash = %s" % show(h, 0, 6)[:200]
    # 1: zero components
    for c in comps:
        res.components += 1
        if c.ty != "f":
            continue
        for ctx, v in cases(h, eq(c, 0)):
            res.cases += 1
            s = atoms(v.key(), set())
            if any(c.a[0] in x[5:].split("+") for x in s if x.startswith("bits:")):
                res.violations.append(Violation(ob.name + "/zero:" + c.a[0], "where %s == 0 the hash still depends on the sign bit of the zero: "
                                                "objects that compare equal (+0 and -0) hash differently" % c.a[0], None))
                break
    # 2: influence
    for c in comps:
        res.components += 1
        if c.ty == 1:
            vals = []
            for b in (TRUE, FALSE):
                g = T_sub(h, c, b)
                vals.append([(tuple(x.trace), v.key()) for x, v in cases(g, None)])
            if sorted(map(repr, vals[0])) == sorted(map(repr, vals[1])):
                res.violations.append(Violation(ob.name + "/unused:" + c.a[0], "the hash does not depend on component %s" % c.a[0], None))
            continue
        pre = None
        for d in comps:
            if d.ty == "f":
                pre = gt(d, 0) if pre is None else andb(pre, gt(d, 0))
        for ctx, v in cases(h, pre):
            res.cases += 1
            s = atoms(v.key(), set())
            if not any(c.a[0] in (x.split(":", 1)[1] if x.startswith(("bits:", "word")) else x[3:] if x.startswith("fb:") else x).replace("+", " ").split() for x in s):
                res.violations.append(Violation(ob.name + "/unused:" + c.a[0], "component %s cancels out of the hash: objects that differ only there always collide"
                                                % c.a[0], None))
                break


def T_sub(t, a, b, memo=None):
    memo = {} if memo is None else memo
    if t is a:
        return b
    if not any(isinstance(x, T) for x in t.a):
        return t
    if t not in memo:
        args = tuple(T_sub(x, a, b, memo) if isinstance(x, T) else x for x in t.a)
        if t.op == "ite":
            memo[t] = ite(*args)
        elif t.op == "not":
            memo[t] = notb(args[0])
        else:
            memo[t] = mk(t.op, args, t.ty)
    return memo[t]


def obligations():
    obs = []
    for t in TYPES:
        obs.append(Ob("hash." + t, [("a", t)], "size_t", "zcm::hash(a)", None, custom=hashcheck))
        if t not in SC:
            obs.append(Ob("stdhash." + t, [("a", t)], "size_t[2]", "{ o[0] = std::hash<%s>{}(a); o[1] = zcm::hash(a); }" % t, None, custom=samecheck))
            obs.append(Ob("hasheq." + t, [("a", t)], "size_t[2]", "{ o[0] = zcm::hash(a); o[1] = zcm::hash(%s(a)); }" % t, None, custom=samecheck))
    return obs
