from .lib import *

RULE = ("Every matrix operator (sum, difference, product, quotient, negation, scalar forms on either side, matrix-vector and vector-matrix "
        "product and quotient, component-wise product) is called in a minimal caller; the value flowing into each element is extracted as a "
        "rational expression over the elements of the operands and must equal the column-major linear-algebra definition as an identity.")
ASSUME = ["float terms are compared as real-number expressions", "quotients are compared where the divisor matrix is invertible"]
FLOOR = 50


def invm(b):
    d = det(b)
    return [[x / d for x in c] for c in adj(b)]


def obligations():
    obs = []
    for n in NS:
        m, v = MAT[n], VEC[n]
        mm = [("a", m), ("b", m)]
        for op in "+-":
            f = FOPS[op]
            obs.append(Ob("%s.%s" % (m, OPN[op]), mm, m, "a %s b" % op, lambda a, b, f=f: [zipw(f, x, y) for x, y in zip(a, b)]))
        obs.append(Ob(m + ".neg", [("a", m)], m, "-a", lambda a: [[-x for x in c] for c in a]))
        obs.append(Ob(m + ".plus", [("a", m)], m, "+a", lambda a: a))
        obs.append(Ob(m + ".mul", mm, m, "a * b", matmul_ab))
        obs.append(Ob(m + ".mul.self", [("a", m)], m, "a * a", lambda a: matmul(a, a)))
        obs.append(Ob(m + ".div", mm, m, "a / b", lambda a, b: matmul(a, invm(b))))
        obs.append(Ob(m + ".mul.s", [("a", m), ("s", "float")], m, "a * s", lambda a, s: [[x * s for x in c] for c in a]))
        obs.append(Ob(m + ".s.mul", [("a", m), ("s", "float")], m, "s * a", lambda a, s: [[x * s for x in c] for c in a]))
        obs.append(Ob(m + ".div.s", [("a", m), ("s", "float")], m, "a / s", lambda a, s: [[x / s for x in c] for c in a]))
        obs.append(Ob(m + ".s.div", [("a", m), ("s", "float")], m, "s / a", lambda a, s: [[s / x for x in c] for c in a]))
        obs.append(Ob(m + ".mv", [("a", m), ("v", v)], v, "a * v", lambda a, v: matvec(a, v)))
        obs.append(Ob(m + ".vm", [("a", m), ("v", v)], v, "v * a", lambda a, v: vecmat(v, a)))
        obs.append(Ob(m + ".mv.div", [("a", m), ("v", v)], v, "a / v", lambda a, v: matvec(invm(a), v)))
        obs.append(Ob(m + ".vm.div", [("a", m), ("v", v)], v, "v / a", lambda a, v: vecmat(v, invm(a))))
        obs.append(Ob(m + ".compmult", mm, m, "zcm::matrixCompMult(a,b)", lambda a, b: [zipw(FOPS["*"], x, y) for x, y in zip(a, b)]))
        obs.append(Ob(m + ".ident.l", [("a", m)], m, "%s() * a" % m, lambda a: a))
        obs.append(Ob(m + ".ident.r", [("a", m)], m, "a * %s(1.f)" % m, lambda a: a))
    return obs


def matmul_ab(a, b):
    return matmul(a, b)
