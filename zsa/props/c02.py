from .lib import *

RULE = ("For every compound assignment (vector and scalar right-hand side, including the object itself as operand) and for "
        "prefix/postfix ++ and --, the value flowing into each component of the modified object and of the returned value "
        "is extracted from the flattened call tree and must equal the corresponding binary operator applied to the old "
        "components; no other cell may change. "
        "The compound form must further be the same floating-point operations as the binary operator, up to the order of sums. "
        "A float component may be computed only from operand cells its definition mentions.")
ASSUME = ["float terms are compared as real-number expressions"]


def obligations():
    obs = []
    for n in NS:
        for t in (VEC[n], IVEC[n]):
            s = scalar(t)
            for op, f in ops(t).items():
                nm = "%s.%sassign" % (t, OPN[op])
                obs.append(Ob(nm + ".v", [("a", t), ("b", t)], None, "{ a %s= b; }" % op, lambda a, b, f=f: zipw(f, a, b), inout=["a"]))
                obs.append(Ob(nm + ".s", [("a", t), ("b", s)], None, "{ a %s= b; }" % op, lambda a, b, f=f: zipw(f, a, b), inout=["a"]))
                obs.append(Ob(nm + ".self", [("a", t)], None, "{ a %s= a; }" % op, lambda a, f=f: zipw(f, a, a), inout=["a"]))
                for i in range(n):
                    obs.append(Ob("%s.part%d" % (nm, i), [("a", t)], None, "{ a %s= a[%d]; }" % (op, i),
                                  lambda a, f=f, i=i: zipw(f, a, a[i]), inout=["a"]))
            for op, d in (("++", 1), ("--", -1)):
                nm = t + (".inc" if d > 0 else ".dec")
                new = lambda a, d=d: [x + d for x in a]
                obs.append(Ob(nm + ".pre", [("a", t)], t, "%sa" % op, lambda a, f=new: f(a) + f(a), inout=["a"]))
                obs.append(Ob(nm + ".post", [("a", t)], t, "a%s" % op, lambda a, f=new: list(a) + f(a), inout=["a"]))
                obs.append(Ob(nm + ".lval", [("a", t)], None, "{ %s(%sa); }" % (op, op), lambda a, d=d: [x + 2 * d for x in a], inout=["a"]))
    for n in NS:
        t = BVEC[n]
        fs = {"&": andb, "|": orb, "^": xorb}
        for op, f in fs.items():
            nm = "%s.%sassign" % (t, OPN[op])
            obs.append(Ob(nm + ".v", [("a", t), ("b", t)], None, "{ a %s= b; }" % op, lambda a, b, f=f: zipw(f, a, b), inout=["a"]))
            obs.append(Ob(nm + ".s", [("a", t), ("b", "bool")], None, "{ a %s= b; }" % op, lambda a, b, f=f: zipw(f, a, b), inout=["a"]))
            obs.append(Ob(nm + ".self", [("a", t)], None, "{ a %s= a; }" % op, lambda a, f=f: zipw(f, a, a), inout=["a"]))
            for i in range(n):
                obs.append(Ob("%s.part%d" % (nm, i), [("a", t)], None, "{ a %s= a[%d]; }" % (op, i),
                              lambda a, f=f, i=i: zipw(f, a, a[i]), inout=["a"]))
    q = "quat"
    for i in range(4):
        obs.append(Ob("quat.mulassign.part%d" % i, [("a", q)], None, "{ a *= a[%d]; }" % i, lambda a, i=i: zipw(FOPS["*"], a, a[i]), inout=["a"]))
        obs.append(Ob("quat.divassign.part%d" % i, [("a", q)], None, "{ a /= a[%d]; }" % i, lambda a, i=i: zipw(FOPS["/"], a, a[i]), inout=["a"]))
    for op in "+-":
        obs.append(Ob("quat.%sassign" % OPN[op], [("a", q), ("b", q)], None, "{ a %s= b; }" % op, lambda a, b, f=FOPS[op]: zipw(f, a, b), inout=["a"]))
        obs.append(Ob("quat.%sassign.self" % OPN[op], [("a", q)], None, "{ a %s= a; }" % op, lambda a, f=FOPS[op]: zipw(f, a, a), inout=["a"]))
    obs.append(Ob("quat.mulassign", [("a", q), ("b", q)], None, "{ a *= b; }", lambda a, b: qmul(a, b), inout=["a"]))
    obs.append(Ob("quat.mulassign.self", [("a", q)], None, "{ a *= a; }", lambda a: qmul(a, a), inout=["a"]))
    obs.append(Ob("quat.mulassign.s", [("a", q), ("b", "float")], None, "{ a *= b; }", lambda a, b: zipw(FOPS["*"], a, b), inout=["a"]))
    obs.append(Ob("quat.divassign.s", [("a", q), ("b", "float")], None, "{ a /= b; }", lambda a, b: zipw(FOPS["/"], a, b), inout=["a"]))
    for n in NS:
        t = MAT[n]
        for op in "+-":
            obs.append(Ob("%s.%sassign" % (t, OPN[op]), [("a", t), ("b", t)], None, "{ a %s= b; }" % op,
                          lambda a, b, f=FOPS[op]: [zipw(f, x, y) for x, y in zip(a, b)], inout=["a"]))
            obs.append(Ob("%s.%sassign.self" % (t, OPN[op]), [("a", t)], None, "{ a %s= a; }" % op,
                          lambda a, f=FOPS[op]: [zipw(f, x, x) for x in a], inout=["a"]))
        obs.append(Ob(t + ".mulassign", [("a", t), ("b", t)], None, "{ a *= b; }", lambda a, b: matmul(a, b), inout=["a"]))
        obs.append(Ob(t + ".mulassign.self", [("a", t)], None, "{ a *= a; }", lambda a: matmul(a, a), inout=["a"]))
        obs.append(Ob(t + ".divassign", [("a", t), ("b", t)], None, "{ a /= b; }",
                      lambda a, b: matmul(a, [[x / det(b) for x in c] for c in adj(b)]), inout=["a"]))
        obs.append(Ob(t + ".divassign.self", [("a", t)], None, "{ a /= a; }", lambda a: ident(len(a)), inout=["a"], divcheck=False))
    # the two forms round alike
    def both(nm, t, u, op, n, get):
        obs.append(samesteps(nm + ".steps", [("a", t), ("b", u)], n, "{ zcm::%s r = a %s b; zcm::%s s = a; s %s= b; %s%s}" % (
            t, op, t, op, "".join("o[%d] = %s;" % (i, get("s", i)) for i in range(n)), "".join("o[%d] = %s;" % (n + i, get("r", i)) for i in range(n)))))
    for n in NS:
        for op in "+-*/":
            for u in (VEC[n], "float"):
                both("%s.%sassign.%s" % (VEC[n], OPN[op], u), VEC[n], u, op, n, lambda v, i: "%s[%d]" % (v, i))
        m = MAT[n]
        for op in "+-":         # a product or quotient of matrices is a formula, which may be evaluated in different orders
            both("%s.%sassign" % (m, OPN[op]), m, m, op, n * n, lambda v, i, n=n: "%s[%d][%d]" % (v, i // n, i % n))
    for op, us in (("+", (q,)), ("-", (q,)), ("*", ("float",)), ("/", ("float",))):
        for u in us:
            both("quat.%sassign.%s" % (OPN[op], u), q, u, op, 4, lambda v, i: "%s.%s" % (v, "xyzw"[i]))
    return obs


FLOOR = 180
