from .. import vflow
from .lib import *

RULE = ("abs, sign, signNotZero, floor, ceil, trunc, round, roundEven, fract, mod and fma are called in minimal callers for every "
        "scalar and vector form. The value flowing into each component is extracted as a gated expression over the inputs and must "
        "equal the definition of the function on that component in every sign/ordering case of the inputs. "
        "A float component may be computed only from operand cells its definition mentions; fma is the one fused operation.")
ASSUME = ["the C math library rounding functions compute the mathematical function of their name under the default rounding mode",
          "finite inputs; the smallest int has no absolute value"]
FLOOR = 55
FV = ["float"] + list(VEC.values())
IVS = ["int"] + list(IVEC.values())


def obligations():
    vflow.KEEP_FMA = True
    obs = []

    def lift1(fn, ts, f, **k):
        for t in ts:
            obs.append(Ob("%s.%s" % (fn, t), [("a", t)], t, "zcm::%s(a)" % fn, lambda a, f=f: zipw(f, a), **k))

    def sgn(x):
        return ite(lt(x, 0), lift(-1, x.ty), ite(gt(x, 0), lift(1, x.ty), lift(0, x.ty)))
    lift1("abs", FV + IVS, lambda x: ite(lt(x, 0), -x, x))
    lift1("sign", FV + IVS, sgn)
    lift1("signNotZero", FV + IVS, lambda x: ite(lt(x, 0), lift(-1, x.ty), lift(1, x.ty)))
    for fn, c in (("floor", "floor"), ("ceil", "ceil"), ("trunc", "trunc"), ("round", "round"), ("roundEven", "rint")):
        lift1(fn, FV, lambda x, c=c: call(c, x))
    lift1("fract", FV, lambda x: x - call("floor", x))
    for t in FV:
        md = lambda x, y: x - y * call("floor", x / y)
        obs.append(Ob("mod." + t, [("x", t), ("y", t)], t, "zcm::mod(x,y)", lambda x, y: zipw(md, x, y)))
        if t != "float":
            obs.append(Ob("mod.s." + t, [("x", t), ("y", "float")], t, "zcm::mod(x,y)", lambda x, y: zipw(md, x, y)))
        obs.append(Ob("fma." + t, [("a", t), ("b", t), ("c", t)], t, "zcm::fma(a,b,c)",
                      lambda a, b, c: zipw(lambda x, y, z: call("fma", x, y, z), a, b, c)))
        obs[-1].steps = "all"       # rounded once
    return obs
