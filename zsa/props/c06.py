from .lib import *

RULE = ("Every bool-vector operator (!, &&, ||, ^ with vector or scalar on either side), all/any, the component-wise relational "
        "functions and isnan/isinf are used in minimal callers; the truth value that flows into every result component is "
        "extracted as a decision over comparisons of the inputs and must agree with the IEEE definition in every ordering "
        "case of the operands, including cases in which single components are NaN or infinite.")
ASSUME = []
FLOOR = 80
REL = {"lessThan": ("olt", "<"), "lessThanEqual": ("ole", "<="), "greaterThan": ("ogt", ">"), "greaterThanEqual": ("oge", ">=")}


def nans(*names):
    return [{x} for x in names]


def obligations():
    obs = []
    for n in NS:
        b, v = BVEC[n], VEC[n]
        for op, f in (("&&", andb), ("||", orb), ("^", xorb)):
            nm = "%s.%s" % (b, OPN[op])
            sp = lambda a, b, f=f: zipw(f, a, b)
            obs.append(Ob(nm + ".vv", [("a", b), ("b", b)], b, "a %s b" % op, sp))
            obs.append(Ob(nm + ".vs", [("a", b), ("b", "bool")], b, "a %s b" % op, sp))
            obs.append(Ob(nm + ".sv", [("a", "bool"), ("b", b)], b, "a %s b" % op, sp))
        obs.append(Ob(b + ".not", [("a", b)], b, "!a", lambda a: [notb(x) for x in a]))
        obs.append(Ob(b + ".all", [("a", b)], "bool", "all(a)", lambda a: red(andb, a)))
        obs.append(Ob(b + ".any", [("a", b)], "bool", "any(a)", lambda a: red(orb, a)))
        obs.append(Ob(b + ".equal", [("a", b), ("b", b)], b, "equal(a,b)", lambda a, b: zipw(lambda x, y: notb(xorb(x, y)), a, b)))
        obs.append(Ob(b + ".notEqual", [("a", b), ("b", b)], b, "notEqual(a,b)", lambda a, b: zipw(xorb, a, b)))
        ns = [{"%s.%s" % (x, "xyzw"[i])} for x in "ab" for i in range(n)] + [{"a.x", "b.x"}]
        for fn, (p, _) in REL.items():
            obs.append(Ob("%s.%s" % (v, fn), [("a", v), ("b", v)], b, "%s(a,b)" % fn,
                          lambda a, b, p=p: zipw(lambda x, y: mk("fcmp", (p, x, y), 1), a, b), nan=ns))
            obs.append(Ob("%s.%s.self" % (v, fn), [("a", v)], b, "%s(a,a)" % fn,
                          lambda a, p=p: zipw(lambda x, y: mk("fcmp", (p, x, y), 1), a, a), nan=[{"a.x"}, {"a.y"}]))
    for n, v, b in [(n, VEC[n], BVEC[n]) for n in NS] + [(4, "quat", "bvec4"), (1, "float", "bool")]:
        comps = ["." + "xyzw"[i] for i in range(n)] if n > 1 else [""]
        ns = [{x + c} for x in "ab" for c in comps] + [{"a" + comps[0], "b" + comps[0]}]
        if n > 1:
            for fn, p in (("equal", "oeq"), ("notEqual", "une")):
                obs.append(Ob("%s.%s" % (v, fn), [("a", v), ("b", v)], b, "%s(a,b)" % fn,
                              lambda a, b, p=p: zipw(lambda x, y: mk("fcmp", (p, x, y), 1), a, b), nan=ns))
        ns = [{"a" + c} for c in comps]
        obs.append(Ob("%s.isnan" % v, [("a", v)], b, "isnan(a)", lambda a: [mk("fcmp", ("uno", x, x), 1) for x in L(a)], nan=ns))
        obs.append(Ob("%s.isinf" % v, [("a", v)], b, "isinf(a)",
                      lambda a: [orb(eq(x, fc("inf")), eq(x, fc("-inf"))) for x in L(a)], nan=ns))
    return obs


def red(f, xs):
    r = xs[0]
    for x in xs[1:]:
        r = f(r, x)
    return r
