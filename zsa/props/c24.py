from .lib import *
from .c13 import nz
from .c22 import UNIT

RULE = ("lerp, nlerp and slerp of quaternions are called in minimal callers; the value flowing into each component is extracted as a gated "
        "trigonometric expression and must equal the definition (linear mix; normalised mix; great-arc interpolation along the shorter arc, with "
        "the linear mix only where the two are within rounding of each other) in every ordering case; the end points t=0 and t=1 are decided on "
        "composed call trees.")
ASSUME = ["float terms are compared as real-number expressions", "lerp is compared for 0<=t<=1, nlerp where the mix is not the zero quaternion"]
FLOOR = 8
EPS = 2 ** -23


def mixq(x, y, t):
    return [p * (1 - t) + r * t for p, r in zip(x, y)]


def slerp(x, y, t):
    d = dotp(x, y)
    neg = lt(d, fc(0))
    z = [ite(neg, -r, r) for r in y]
    c = ite(neg, -d, d)
    a = call("acos", c)
    far = [(call("sin", (1 - t) * a) * p + call("sin", t * a) * r) / call("sin", a) for p, r in zip(x, z)]
    near = [p * (1 - t) + r * t for p, r in zip(x, z)]
    close = gt(c, fc(1) - fc(Fraction(EPS)))
    return [ite(close, n, f) for n, f in zip(near, far)]


def obligations():
    q = "quat"
    xy = [("x", q), ("y", q)]
    t = ("t", "float")
    in01 = lambda t, **k: andb(ge(t, fc(0)), le(t, fc(1)))
    return [
        Ob("lerp", xy + [t], q, "zcm::lerp(x,y,t)", mixq, pre=in01),
        Ob("lerp.0", xy, q, "zcm::lerp(x,y,0.f)", lambda x, y: list(x)),
        Ob("lerp.1", xy, q, "zcm::lerp(x,y,1.f)", lambda x, y: list(y)),
        Ob("nlerp", xy + [t], q, "zcm::nlerp(x,y,t)", lambda x, y, t: normv(mixq(x, y, t)), pre=lambda x, y, t: andb(in01(t), nz(mixq(x, y, t)))),
        Ob("slerp", xy + [t], q, "zcm::slerp(x,y,t)", slerp, pre=in01),
        Ob("slerp.0", xy, q, "zcm::slerp(x,y,0.f)", lambda x, y: list(x), divcheck=False),
        Ob("slerp.1", xy, q, "zcm::slerp(x,y,1.f)", lambda x, y: [ite(lt(dotp(x, y), fc(0)), -r, r) for r in y], divcheck=False),
        Ob("slerp.same", [("a", q), t], q, UNIT + "o = zcm::slerp(q,q,t); }", lambda a, t: normv(a), pre=lambda a, t: andb(nz(a), in01(t)), divcheck=False),
        Ob("slerp.neg", xy + [t], "bool", "zcm::slerp(x,y,t) == zcm::slerp(x,-y,t)", lambda x, y, t: TRUE,
           pre=lambda x, y, t: andb(in01(t), ne(dotp(x, y), fc(0))), divcheck=False),
    ]
