from .lib import *
from .c13 import nz

RULE = ("Every quaternion operator, conjugate, inverse, quaternion-vector rotation in both orders and the conversions to matrices are called in "
        "minimal callers; the value flowing into each component is extracted as a rational expression over the components and must equal the "
        "Hamilton-algebra definition as an identity. Operations that are meaningful for unit quaternions only are decided on a caller that "
        "builds the quaternion as a/|a| from free components.")
ASSUME = ["float terms are compared as real-number expressions", "inverse is compared for non-zero quaternions; rotations for unit quaternions"]
FLOOR = 22
UNIT = "{ float l = __builtin_sqrtf(a.x*a.x + a.y*a.y + a.z*a.z + a.w*a.w); quat q(a.w/l, a.x/l, a.y/l, a.z/l); "


def unit(a):
    return normv(a)


def obligations():
    q, v = "quat", "vec3"
    ab = [("a", q), ("b", q)]
    a, s = ("a", q), ("s", "float")
    lift4 = lambda m: [c + [fc(0)] for c in m] + [[fc(0), fc(0), fc(0), fc(1)]]
    ok = lambda a, **k: nz(a)
    U = lambda c: UNIT + "o = (%s); }" % c
    return [
        Ob("add", ab, q, "a + b", lambda a, b: addv(a, b)),
        Ob("sub", ab, q, "a - b", lambda a, b: subv(a, b)),
        Ob("mul", ab, q, "a * b", lambda a, b: qmul(a, b)),
        Ob("mul.self", [a], q, "a * a", lambda a: qmul(a, a)),
        Ob("neg", [a], q, "-a", lambda a: [-x for x in a]),
        Ob("pos", [a], q, "+a", lambda a: list(a)),
        Ob("mul.s", [a, s], q, "a * s", lambda a, s: scalev(a, s)),
        Ob("s.mul", [a, s], q, "s * a", lambda a, s: scalev(a, s)),
        Ob("div.s", [a, s], q, "a / s", lambda a, s: [x / s for x in a]),
        Ob("s.div", [a, s], q, "s / a", lambda a, s: [s / x for x in a]),
        Ob("conjugate", [a], q, "zcm::conjugate(a)", lambda a: qconj(a)),
        Ob("inverse", [a], q, "zcm::inverse(a)", lambda a: [x / dotp(a, a) for x in qconj(a)], pre=nz),
        Ob("inverse.left", [a], q, "zcm::inverse(a) * a", lambda a: [0, 0, 0, 1], pre=nz, divcheck=False),
        Ob("inverse.right", [a], q, "a * zcm::inverse(a)", lambda a: [0, 0, 0, 1], pre=nz, divcheck=False),
        Ob("norm.mul", ab, "float", "zcm::dot(a*b,a*b)", lambda a, b: dotp(a, a) * dotp(b, b)),
        Ob("rotate.vec", [a, ("v", v)], v, U("q * v"), lambda a, v: qrot(unit(a), v), pre=ok, divcheck=False),
        Ob("vec.rotate", [a, ("v", v)], v, U("v * q"), lambda a, v: qrot(qconj(unit(a)), v), pre=ok, divcheck=False),
        Ob("rotate.back", [a, ("v", v)], v, U("(q * v) * q"), lambda a, v: list(v), pre=ok, divcheck=False),
        Ob("rotate.len", [a, ("v", v)], "float", U("zcm::length2(q * v)"), lambda a, v: dotp(v, v), pre=ok, divcheck=False),
        Ob("mat3_cast", [a], "mat3", U("zcm::mat3_cast(q)"), lambda a: qmat(unit(a)), pre=ok, divcheck=False),
        Ob("mat4_cast", [a], "mat4", U("zcm::mat4_cast(q)"), lambda a: lift4(qmat(unit(a))), pre=ok, divcheck=False),
        Ob("mat3_cast.vec", [a, ("v", v)], v, U("zcm::mat3_cast(q) * v"), lambda a, v: qrot(unit(a), v), pre=ok, divcheck=False),
        Ob("mat3_cast.det", [a], "float", U("zcm::determinant(zcm::mat3_cast(q))"), lambda a: fc(1), pre=ok, divcheck=False),
        Ob("rotate.mul", ab + [("v", v)], v, UNIT + "float k = __builtin_sqrtf(b.x*b.x + b.y*b.y + b.z*b.z + b.w*b.w); quat r(b.w/k, b.x/k, b.y/k, b.z/k); o = (q * r) * v; }",
           lambda a, b, v: qrot(unit(a), qrot(unit(b), v)), pre=lambda a, b, v: andb(nz(a), nz(b)), divcheck=False),
    ]
