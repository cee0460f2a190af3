from .lib import *

RULE = ("dot, length, length2, distance, distance2 and normalize are called in minimal callers for every scalar, vector and quaternion form "
        "offered. The value flowing into the result is extracted as a polynomial/radical expression over the components and must "
        "equal the Euclidean definition as a real-number identity in every sign case; no division other than by the length may be introduced.")
ASSUME = ["float terms are compared as real-number expressions", "normalize is compared for inputs of non-zero length"]
FLOOR = 30


def nz(a):
    r = FALSE
    for x in L(a):
        r = orb(r, ne(x, 0))
    return r


def norm(a):
    # of a scalar: the magnitude itself, which neither under- nor overflows on the way
    if len(L(a)) == 1:
        x = L(a)[0]
        return ite(lt(x, 0), -x, x)
    return sqrt(dotp(a, a))


def obligations():
    obs = []
    for t in ["float"] + list(VEC.values()) + ["quat"]:
        obs.append(Ob("dot." + t, [("a", t), ("b", t)], "float", "zcm::dot(a,b)", lambda a, b: dotp(a, b)))
        obs.append(Ob("dot.self." + t, [("a", t)], "float", "zcm::dot(a,a)", lambda a: dotp(a, a)))
        obs.append(Ob("length." + t, [("a", t)], "float", "zcm::length(a)", norm))
        obs.append(Ob("length2." + t, [("a", t)], "float", "zcm::length2(a)", lambda a: dotp(a, a)))
        obs.append(Ob("length.nonneg." + t, [("a", t)], "bool", "zcm::length(a) >= 0 && zcm::length2(a) >= 0", lambda a: TRUE))
        if t != "quat":
            d = lambda a, b: zipw(lambda x, y: x - y, a, b)
            obs.append(Ob("distance." + t, [("a", t), ("b", t)], "float", "zcm::distance(a,b)", lambda a, b: norm(d(a, b))))
            obs.append(Ob("distance2." + t, [("a", t), ("b", t)], "float", "zcm::distance2(a,b)", lambda a, b: dotp(d(a, b), d(a, b))))
            obs.append(Ob("distance.self." + t, [("a", t)], "float", "zcm::distance(a,a)", lambda a: fc(0)))
        if t != "float":
            obs.append(Ob("normalize." + t, [("a", t)], t, "zcm::normalize(a)", lambda a: normv(a), pre=nz))
            obs.append(Ob("normalize.unit." + t, [("a", t)], "float", "zcm::length2(zcm::normalize(a))", lambda a: fc(1), pre=nz, divcheck=False))
    return obs
