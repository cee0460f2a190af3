"""Rounding does not lead out of the domain of a partial function."""
from ..check import Violation, where_text, loc_of
from ..robust import Robust, DOMAIN, INF
from .lib import *

RULE = ("For every operation that contains a square root, inverse sine/cosine, logarithm or power of a computed value, the value-flow terms of all "
        "its results are searched for those operations, each with the comparisons on the paths leading to it. In an interval domain with every "
        "operation rounded, the argument must lie in the function's domain: by its structure (sums of squares, absolute values, clamping), by a "
        "comparison of that very value, or by linear inequalities between compared values with room for the rounding errors. For spherical "
        "interpolation the divisor must likewise stay away from zero. Inputs range over boxes that include rounding excess.")
ASSUME = ["basic operations and sqrt are correctly rounded, libm within 4 units", "no intermediate overflow or underflow"]
FLOOR = 45
# their divisors vanish for arguments outside the property: zero vectors, coincident points, zero exponents, opposite quaternions
OWN = ("normalize", "decompose", "linear2srgb.gamma", "lookAt", "quatLookAt", "nlerp", "quat.between", "rotate", "quat_cast.mat")
U = (-1.001, 1.001)


def obligation(name, params, out, code, box=None, unit=(), inout=()):
    o = Ob(name, params, out, code, None, inout=inout)
    o.custom = lambda *a: custom(box or {}, unit, not name.startswith(OWN), *a)
    return o


def names(view):
    return [x.a[0] for x in flat(view)]


def custom(box, unit, divs, ob, fb, st, outs, views, res, di):
    b = {}
    for p, r in box.items():
        for n in names(views[p]):
            b[n] = r
    rb = Robust(b, [names(views[p]) for p in unit])
    ops = rb.partial_ops([got for _, got, ty in outs if ty == "f"], divs)
    res.components += 1
    for t, c in ops:
        res.cases += 1
        if t.op == "div":
            if rb.nonzero(t.a[1], c):
                continue
            why = "divides by %s, which rounding may make zero" % show(t.a[1], 0, 4)[:120]
        else:
            k, lo, hi = DOMAIN[t.a[0]]
            x = t.a[1 + k]
            if x.op == "sym" and x.a[0] not in b:
                continue            # the caller's own argument
            bad = rb.holds(x, c, lo, hi)
            if bad is None:
                continue
            why = "takes %s of %s, which is only known to lie in [%.9g, %.9g]" % (t.a[0], show(bad[0], 0, 4)[:120], bad[1][0], bad[1][1])
            cs = ["%s%s" % ("" if p else "not ", show(q, 0, 3)[:60]) for q, p in sorted(bad[2], key=lambda z: z[0].id)][:4]
            if cs:
                why += " when [%s]" % ", ".join(cs)
        res.violations.append(Violation(ob.name, why, where_text(di, loc_of(t))))
        continue
    if res.sample is None and ops:
        res.sample = "%d partial operations, e.g. %s" % (len(ops), show(ops[0][0], 0, 4)[:150])


def obligations():
    obs = []
    O = lambda *a, **k: obs.append(obligation(*a, **k))
    for t in list(VEC.values()) + ["quat"]:
        O("normalize." + t, [("a", t)], t, "zcm::normalize(a)")
        O("length." + t, [("a", t)], "float", "zcm::length(a)")
        if t != "quat":
            O("distance." + t, [("a", t), ("b", t)], "float", "zcm::distance(a,b)")
    for t in ["float"] + list(VEC.values()):
        O("refract." + t, [("I", t), ("N", t), ("e", "float")], t, "zcm::refract(I,N,e)", {"I": U, "N": U, "e": (0.0, 8.0)})
        O("reflect." + t, [("I", t), ("N", t)], t, "zcm::reflect(I,N)", {"I": U, "N": U})
    O("encode_octahedral", [("v", "vec3")], "vec2", "zcm::encode_octahedral(v)", {"v": U}, unit=("v",))
    O("octahedral.roundtrip", [("v", "vec3")], "vec3", "zcm::decode_octahedral(zcm::encode_octahedral(v))", {"v": U}, unit=("v",))
    O("decode_octahedral", [("e", "vec2")], "vec3", "zcm::decode_octahedral(e)", {"e": U})
    for f in ("orthogonal", "orthogonal_branchless"):
        O(f, [("v", "vec3")], "vec3", "zcm::normalize(zcm::%s(v))" % f, {"v": U}, unit=("v",))
    for f in ("lookAtLH", "lookAtRH"):
        O(f, [("e", "vec3"), ("c", "vec3"), ("u", "vec3")], "mat4", "zcm::%s(e,c,u)" % f)
    for f in ("quatLookAtLH", "quatLookAtRH"):
        O(f, [("d", "vec3"), ("u", "vec3")], "quat", "zcm::%s(d,u)" % f, {"d": U})
    for n in (3, 4):
        O("quat_cast.mat%d" % n, [("m", "mat%d" % n)], "quat", "zcm::quat_cast(m)", {"m": U})
    O("mat3_cast.quat_cast", [("q", "quat")], "quat", "zcm::quat_cast(zcm::mat3_cast(q))", {"q": U}, unit=("q",))
    O("decompose", [("m", "mat4"), ("s", "vec3"), ("q", "quat"), ("t", "vec3")], None, "{ zcm::decompose_orthogonal(m, s, q, t); }",
      {"m": (-1e6, 1e6)}, inout=("s", "q", "t"))
    O("rotate.mat4", [("m", "mat4"), ("a", "float"), ("v", "vec3")], "mat4", "zcm::rotate(m,a,v)")
    for f in ("angle", "pitch", "yaw", "roll"):
        O(f, [("q", "quat")], "float", "zcm::%s(q)" % f, {"q": U}, unit=("q",))
    O("axis", [("q", "quat")], "vec3", "zcm::axis(q)", {"q": U}, unit=("q",))
    O("eulerAngles", [("q", "quat")], "vec3", "zcm::eulerAngles(q)", {"q": U}, unit=("q",))
    O("angleAxis", [("a", "float"), ("v", "vec3")], "quat", "zcm::angleAxis(a,v)", {"v": U})
    O("quat.between", [("u", "vec3"), ("v", "vec3")], "quat", "zcm::quat(u,v)")
    O("quat.euler", [("v", "vec3")], "quat", "zcm::quat(v)")
    O("rotate.quat", [("q", "quat"), ("a", "float"), ("v", "vec3")], "quat", "zcm::rotate(q,a,v)", {"q": U})
    O("slerp", [("x", "quat"), ("y", "quat"), ("t", "float")], "quat", "zcm::slerp(x,y,t)", {"x": U, "y": U, "t": (0.0, 1.0)})
    O("slerp.self", [("x", "quat"), ("t", "float")], "quat", "zcm::slerp(x,x,t)", {"x": U, "t": (0.0, 1.0)})
    O("slerp.opposite", [("x", "quat"), ("t", "float")], "quat", "zcm::slerp(x,-x,t)", {"x": U, "t": (0.0, 1.0)})
    O("nlerp", [("x", "quat"), ("y", "quat"), ("t", "float")], "quat", "zcm::nlerp(x,y,t)", {"x": U, "y": U, "t": (0.0, 1.0)})
    for n in (3, 4):
        v = "vec%d" % n
        O("linear2srgb.gamma.%s" % v, [("c", v), ("g", "float")], v, "zcm::convertLinearToSRGB(c,g)", {"c": U})
        O("linear2srgb.%s" % v, [("c", v)], v, "zcm::convertLinearToSRGB(c)", {"c": (0.0, 1.001)})
        O("srgb2linear.gamma.%s" % v, [("c", v), ("g", "float")], v, "zcm::convertSRGBToLinear(c,g)", {"c": U})
        O("srgb2linear.%s" % v, [("c", v)], v, "zcm::convertSRGBToLinear(c)", {"c": U})
    return obs


def check(ck):
    ck.obs(obligations(), floor=FLOOR)
