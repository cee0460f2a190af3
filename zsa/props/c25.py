from .lib import *

RULE = ("The sRGB conversions are called in minimal callers for vec3 and vec4, with default and explicit gamma; the value flowing into each "
        "component is extracted as a gated expression and must be the piecewise transfer function of that same component (linear segment below the "
        "threshold, power segment above it, encode with exponent 1/gamma and decode with gamma), alpha untouched, in every ordering case. "
        "A float component may be computed only from operand cells its definition mentions.")
ASSUME = ["float terms are compared as real-number expressions", "the default linear-to-sRGB conversion is a fixed three-root fit; its distance from "
          "the standard curve is a numerical question and not decided"]
FLOOR = 8
FR = Fraction


def enc(c, g):
    k = fmin(fmax(c, fc(0)), fc(1))
    return ite(lt(k, fc(f32(0.0031308))), k * fc(FR("12.92")), call("pow", k, 1 / g) * fc(FR("1.055")) - fc(FR("0.055")))


def dec(c, g):
    return ite(le(c, fc(f32(0.04045))), c * fc(1 / FR("12.92")), call("pow", (c + fc(FR("0.055"))) * fc(1 / FR("1.055")), g))


def fit(c):
    a = sqrt(c)
    b = sqrt(a)
    d = sqrt(b)
    return fc(FR("0.662002687")) * a + fc(FR("0.684122060")) * b - fc(FR("0.323583601")) * d - fc(FR("0.0225411470")) * c


def obligations():
    obs = []
    for t in ("vec3", "vec4"):
        al = lambda f, c: [f(x) for x in c[:3]] + list(c[3:])
        obs.append(Ob("encode.gamma." + t, [("c", t), ("g", "float")], t, "zcm::convertLinearToSRGB(c,g)", lambda c, g: al(lambda x: enc(x, g), c)))
        obs.append(Ob("encode." + t, [("c", t)], t, "zcm::convertLinearToSRGB(c)", lambda c: al(fit, c), tol=Fraction(1, 10 ** 5)))
        obs.append(Ob("decode.gamma." + t, [("c", t), ("g", "float")], t, "zcm::convertSRGBToLinear(c,g)", lambda c, g: al(lambda x: dec(x, g), c)))
        obs.append(Ob("decode." + t, [("c", t)], t, "zcm::convertSRGBToLinear(c)", lambda c: al(lambda x: dec(x, fc(FR("2.4"))), c)))
    return obs
