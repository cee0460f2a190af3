from .lib import *

RULE = ("min, max, clamp, mix (scalar, vector and bool selector), step and smoothstep are called in minimal callers for every scalar and "
        "vector form. The value flowing into each component is extracted as a gated expression over the inputs and must equal "
        "the definition on that component in every ordering case of the operands (for min/max also with the second operand NaN). "
        "A float component may be computed only from operand cells its definition mentions.")
ASSUME = ["clamp is compared where the lower bound does not exceed the upper; smoothstep where the first edge is below the second",
          "float terms are compared as real-number expressions"]
FLOOR = 45
FV = ["float"] + list(VEC.values())
IVS = ["int"] + list(IVEC.values())


def conj(xs):
    r = TRUE
    for x in xs:
        r = andb(r, x)
    return r


def obligations():
    obs = []
    for t in FV + IVS:
        n = size(t)
        comps = [""] if n == 1 else ["." + "xyzw"[i] for i in range(n)]
        ns = [{"b" + c} for c in comps] if t in FV else []
        obs.append(Ob("min." + t, [("a", t), ("b", t)], t, "zcm::min(a,b)", lambda a, b: zipw(fmin, a, b), nan=ns))
        obs.append(Ob("max." + t, [("a", t), ("b", t)], t, "zcm::max(a,b)", lambda a, b: zipw(fmax, a, b), nan=ns))
        obs.append(Ob("min.self." + t, [("a", t)], t, "zcm::min(a,a)", lambda a: L(a)))
        obs.append(Ob("clamp." + t, [("x", t), ("lo", t), ("hi", t)], t, "zcm::clamp(x,lo,hi)",
                      lambda x, lo, hi: zipw(lambda a, l, h: ite(lt(a, l), l, ite(gt(a, h), h, a)), x, lo, hi),
                      pre=lambda x, lo, hi: conj(zipw(le, lo, hi))))
    for t in FV:
        mx = lambda x, y, t: x + t * (y - x)
        obs.append(Ob("mix.s." + t, [("x", t), ("y", t), ("t", "float")], t, "zcm::mix(x,y,t)", lambda x, y, t: zipw(mx, x, y, t)))
        if t != "float":
            obs.append(Ob("mix.v." + t, [("x", t), ("y", t), ("t", t)], t, "zcm::mix(x,y,t)", lambda x, y, t: zipw(mx, x, y, t)))
        bt = "bool" if t == "float" else "bvec%d" % size(t)
        obs.append(Ob("mix.b." + t, [("x", t), ("y", t), ("t", bt)], t, "zcm::mix(x,y,t)",
                      lambda x, y, t: zipw(lambda p, q, c: ite(c, q, p), x, y, t)))
        obs.append(Ob("step." + t, [("e", t), ("x", t)], t, "zcm::step(e,x)",
                      lambda e, x: zipw(lambda p, q: ite(lt(q, p), fc(0), fc(1)), e, x)))

        def ss(a, b, x):
            u = (x - a) / (b - a)
            u = ite(lt(u, 0), fc(0), ite(gt(u, 1), fc(1), u))
            return u * u * (3 - 2 * u)
        obs.append(Ob("smoothstep." + t, [("a", t), ("b", t), ("x", t)], t, "zcm::smoothstep(a,b,x)",
                      lambda a, b, x: zipw(ss, a, b, x), pre=lambda a, b, x: conj(zipw(lt, a, b))))
    return obs
