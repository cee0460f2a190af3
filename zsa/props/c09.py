from .lib import *

RULE = ("Each exponential, logarithm, power, root and trigonometric function is called in a minimal caller for its scalar, vec2, "
        "vec3, vec4 and (where offered) quat form. The value flowing into each result component must be the mathematical "
        "function of that name applied to the same component of the argument(s), in the right argument order; calls into the C math "
        "library are the interpreted function symbols. "
        "A float component may be computed only from operand cells its definition mentions.")
ASSUME = ["the C math library functions compute the mathematical function of their name",
          "float terms are compared as real-number expressions"]
FLOOR = 100

UN = {"exp": lambda x: call("exp", x), "exp2": lambda x: call("exp2", x), "log": lambda x: call("log", x),
      "log2": lambda x: call("log2", x), "sqrt": lambda x: call("sqrt", x), "cbrt": lambda x: call("cbrt", x),
      "inversesqrt": lambda x: 1 / call("sqrt", x)}
TRIG = {f: (lambda x, f=f: call(f, x)) for f in
        ("cos", "sin", "tan", "acos", "asin", "atan", "cosh", "sinh", "tanh", "acosh", "asinh", "atanh")}
TRIG["degrees"] = lambda x: x * fc(Fraction(180) / PI)
TRIG["radians"] = lambda x: x * fc(PI / 180)
FV = ["float"] + list(VEC.values())


def obligations():
    obs = []
    for fn, f in UN.items():
        for t in FV + ["quat"]:
            obs.append(Ob("%s.%s" % (fn, t), [("a", t)], t, "zcm::%s(a)" % fn, lambda a, f=f: zipw(f, a)))
    for fn, f in TRIG.items():
        for t in FV:
            obs.append(Ob("%s.%s" % (fn, t), [("a", t)], t, "zcm::%s(a)" % fn, lambda a, f=f: zipw(f, a)))
    for t in FV:
        obs.append(Ob("atan2.%s" % t, [("y", t), ("x", t)], t, "zcm::atan(y,x)", lambda y, x: zipw(lambda p, q: call("atan2", p, q), y, x)))
        obs.append(Ob("pow.%s" % t, [("x", t), ("y", t)], t, "zcm::pow(x,y)", lambda x, y: zipw(lambda p, q: call("pow", p, q), x, y)))
        obs.append(Ob("deg_rad.%s" % t, [("x", t)], t, "zcm::degrees(zcm::radians(x))", lambda x: L(x)))
    obs.append(Ob("pow.quat", [("x", "quat"), ("y", "float")], "quat", "zcm::pow(x,y)", lambda x, y: [call("pow", p, y) for p in x]))
    return obs
