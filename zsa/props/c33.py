"""Agreement with GLM, the library zcm declares itself compatible with."""
import os
import re
from .. import algebra
from ..check import AnalysisError, Violation
from .lib import *
from .c13 import nz
from .c23 import between

RULE = ("Every operation zcm shares with GLM is called in one minimal caller next to GLM's operation of the same name on the same free operands. "
        "The values flowing into corresponding result components of the two flattened call trees must be equal in every ordering case; "
        "GLM's own headers, compiled in the same translation unit, are the reference.")
ASSUME = ["float terms are compared as real-number expressions", "GLM 0.9.9.8 as installed, in its portable (non-SIMD) form"]
FLOOR = 350
GLM = "/usr/include/glm/glm.hpp"

TYPES = [("vec%d" % n, "float", n) for n in NS] + [("ivec%d" % n, "int", n) for n in NS] + [("bvec%d" % n, "bool", n) for n in NS]


def prelude():
    t = ["#define GLM_FORCE_PURE", "#define GLM_ENABLE_EXPERIMENTAL", "#include <stdint.h>"]
    from ..check import HEADERS
    t += ["#include <zcm/%s.hpp>" % h for h in HEADERS]
    t += ["#include <glm/%s.hpp>" % h for h in ("glm", "gtc/constants", "gtc/matrix_transform", "gtc/matrix_inverse", "gtc/quaternion", "gtc/color_space",
                                                 "gtc/type_ptr", "gtc/round", "gtx/norm", "gtx/component_wise", "gtx/quaternion", "gtx/matrix_decompose",
                                                 "ext/matrix_clip_space", "ext/quaternion_exponential")]
    for ty, e, n in TYPES:
        cs = "xyzw"[:n]
        idx = ", ".join("v.%s" % c for c in cs)
        o = "int" if e == "bool" else e
        t.append("static inline glm::%s G(const zcm::%s& v) { return glm::%s(%s); }" % (ty, ty, ty, idx))
        for ns in ("zcm", "glm"):
            t.append("static inline void P(%s* o, const %s::%s& v) { %s }" % (o, ns, ty, " ".join("o[%d] = v.%s;" % (i, c) for i, c in enumerate(cs))))
    for n in NS:
        t.append("static inline glm::mat%d G(const zcm::mat%d& m) { return glm::mat%d(%s); }" % (n, n, n, ", ".join("m[%d][%d]" % (c, r) for c in range(n) for r in range(n))))
        for ns in ("zcm", "glm"):
            t.append("static inline void P(float* o, const %s::mat%d& m) { %s }" % (ns, n, " ".join("o[%d] = m[%d][%d];" % (c * n + r, c, r) for c in range(n) for r in range(n))))
    t.append("static inline glm::quat G(const zcm::quat& q) { return glm::quat(q.w, q.x, q.y, q.z); }")
    for ns in ("zcm", "glm"):
        t.append("static inline void P(float* o, const %s::quat& v) { o[0] = v.x; o[1] = v.y; o[2] = v.z; o[3] = v.w; }" % ns)
    for s, o in (("float", "float"), ("int", "int"), ("bool", "int"), ("unsigned", "unsigned")):
        t.append("static inline %s G(const %s& v) { return v; }" % (s, s))
        t.append("static inline void P(%s* o, const %s& v) { o[0] = v; }" % (o, s))
    return "\n".join(t) + "\nusing zcm::vec2; using zcm::vec3; using zcm::vec4; using zcm::ivec2; using zcm::ivec3; using zcm::ivec4; using zcm::bvec2; " \
        "using zcm::bvec3; using zcm::bvec4; using zcm::mat2; using zcm::mat3; using zcm::mat4; using zcm::quat;\n"


def width(t):
    return 1 if t in SC else 4 if t == "quat" else int(t[-1]) ** 2 if t.startswith("mat") else int(t[-1])


def both(name, params, out, expr, pre=None, gexpr=None, setup="", gsetup=None, limit=20000, tol=None, outer=False):
    """expr with @ for the namespace; parameters keep their names"""
    n = width(out)
    elem = "int" if scalar(out) in ("int", "bool") or out in ("int", "bool") else "float"
    names = [p for p, _ in params]

    def g(x):
        for p in names:
            x = re.sub(r'\b%s\b' % p, "g_" + p, x)
        return x.replace("@", "glm::")
    zx, gx = expr.replace("@", "zcm::"), g(gexpr if gexpr is not None else expr)
    code = "{ " + "".join("auto g_%s = G(%s); " % (p, p) for p in names)
    code += "{ %s %s r = (%s); P(o, r); } { %s auto r = (%s); P(o + %d, r); } }" % (
        setup.replace("@", "zcm::"), out if out in SC else "zcm::" + out, zx, g(gsetup if gsetup is not None else setup), gx, n)

    def custom(ob, fb, st, outs, views, res, di):
        pr = pre(**views) if pre else None
        first, second = [o[1] for o in outs[:n]], [o[1] for o in outs[n:]]
        if outer:
            first, second = [[a * b for a in v for b in v] for v in (first, second)]
        for i in range(len(first)):
            res.components += 1
            stt = algebra.Stats()
            mm = algebra.decide(first[i], second[i], algebra.Ctx(), stt, pre=pr, abort=None if fb.aborts is FALSE else fb.aborts, checkdiv=False,
                                limit=limit, tol=tol if tol is not None else algebra.TOL)
            res.cases += stt.leaves
            if mm:
                res.violations.append(Violation("%s[%d]" % (ob.name, i), "result component %d is not GLM's: %s" % (i, mm.text()), None))
                break
        if not res.violations:
            res.sample = "%s: %d components equal to GLM's" % (ob.name, n)
    return Ob(name, params, "%s[%d]" % (elem, 2 * n), code, None, custom=custom)


def obligations():
    obs = []
    add = lambda *a, **k: obs.append(both(*a, **k))
    FV, IV, BV = list(VEC.values()), list(IVEC.values()), list(BVEC.values())
    f = "float"
    # operators
    for t in FV + IV:
        s = scalar(t)
        for op in ops(t):
            for k, (l, r) in {"vv": (t, t), "vs": (t, s), "sv": (s, t)}.items():
                add("op.%s.%s.%s" % (t, OPN[op], k), [("a", l), ("b", r)], t, "a %s b" % op)
            for k, r in (("v", t), ("s", s)):
                add("assign.%s.%s.%s" % (t, OPN[op], k), [("a", t), ("b", r)], t, "c", setup="auto c = a; c %s= b;" % op)
        for op in "+-":
            add("op.%s.un%s" % (t, OPN[op]), [("a", t)], t, "%sa" % op)
        for k, e in (("preinc", "++c"), ("predec", "--c"), ("postinc", "c++"), ("postdec", "c--")):
            add("op.%s.%s" % (t, k), [("a", t)], t, e, setup="auto c = a;")
        for op in ("==", "!="):
            add("op.%s.%s" % (t, OPN[op]), [("a", t), ("b", t)], "bool", "a %s b" % op)
    for t in BV:
        for op in ("==", "!="):
            add("op.%s.%s" % (t, OPN[op]), [("a", t), ("b", t)], "bool", "a %s b" % op)
        add("any." + t, [("a", t)], "bool", "@any(a)")
        add("all." + t, [("a", t)], "bool", "@all(a)")
        for fn in ("equal", "notEqual"):
            add(fn + "." + t, [("a", t), ("b", t)], t, "@%s(a,b)" % fn)
    # component-wise functions
    for t in [f] + FV:
        bt = "bool" if t == f else "b" + t
        for fn in ("abs", "sign", "floor", "ceil", "trunc", "fract", "isnan", "isinf", "exp", "exp2", "log", "log2", "sqrt", "inversesqrt",
                   "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "degrees", "radians"):
            add("%s.%s" % (fn, t), [("a", t)], bt if fn.startswith("is") else t, "@%s(a)" % fn)
        for fn in ("mod", "min", "max", "pow", "step", "atan"):
            add("%s2.%s" % (fn, t), [("a", t), ("b", t)], t, "@%s(a,b)" % fn)
        add("clamp." + t, [("x", t), ("lo", t), ("hi", t)], t, "@clamp(x,lo,hi)")
        add("smoothstep." + t, [("x", t), ("lo", t), ("hi", t)], t, "@smoothstep(lo,hi,x)", pre=lambda x, lo, hi: nz(zipw(lambda a, b: a - b, lo, hi)))
        add("mix." + t, [("x", t), ("y", t), ("k", t)], t, "@mix(x,y,k)")
        add("mixb." + t, [("x", t), ("y", t), ("k", bt)], t, "@mix(x,y,k)")
        add("fma." + t, [("x", t), ("y", t), ("k", t)], t, "@fma(x,y,k)", gexpr=None if t == f else "x * y + k")
        add("dot." + t, [("a", t), ("b", t)], f, "@dot(a,b)")
        add("length." + t, [("a", t)], f, "@length(a)")
        add("length2." + t, [("a", t)], f, "@length2(a)")
        add("distance." + t, [("a", t), ("b", t)], f, "@distance(a,b)")
        add("distance2." + t, [("a", t), ("b", t)], f, "@distance2(a,b)")
        add("faceforward." + t, [("N", t), ("I", t), ("R", t)], t, "@faceforward(N,I,R)")
        add("reflect." + t, [("I", t), ("N", t)], t, "@reflect(I,N)")
        add("refract." + t, [("I", t), ("N", t), ("eta", f)], t, "@refract(I,N,eta)")
    for t in FV:
        add("normalize." + t, [("a", t)], t, "@normalize(a)", pre=lambda a: nz(a))
        add("mod.s." + t, [("a", t), ("b", f)], t, "@mod(a,b)")
        add("mix.s." + t, [("x", t), ("y", t), ("k", f)], t, "@mix(x,y,k)")
        for fn in ("lessThan", "lessThanEqual", "greaterThan", "greaterThanEqual", "equal", "notEqual"):
            add(fn + "." + t, [("a", t), ("b", t)], "b" + t, "@%s(a,b)" % fn)
        for fn in ("compAdd", "compMul", "compMin", "compMax"):
            add(fn + "." + t, [("a", t)], f, "@%s(a)" % fn)
    for t in IV:
        add("abs." + t, [("a", t)], t, "@abs(a)")
        add("min2." + t, [("a", t), ("b", t)], t, "@min(a,b)")
        add("max2." + t, [("a", t), ("b", t)], t, "@max(a,b)")
        add("clamp." + t, [("x", t), ("lo", t), ("hi", t)], t, "@clamp(x,lo,hi)")
        for fn in ("compAdd", "compMul", "compMin", "compMax"):
            add(fn + "." + t, [("a", t)], "int", "@%s(a)" % fn)
    add("cross.vec3", [("a", "vec3"), ("b", "vec3")], "vec3", "@cross(a,b)")
    # matrices
    for n in NS:
        m, v = MAT[n], VEC[n]
        reg = lambda a=None, b=None, **k: TRUE
        for op in "+-*":
            add("op.%s.%s" % (m, OPN[op]), [("a", m), ("b", m)], m, "a %s b" % op)
            add("assign.%s.%s" % (m, OPN[op]), [("a", m), ("b", m)], m, "c", setup="auto c = a; c %s= b;" % op)
        add("op.%s.neg" % m, [("a", m)], m, "-a")
        for op in "*/":
            add("op.%s.%s.s" % (m, OPN[op]), [("a", m), ("s", f)], m, "a %s s" % op)
            add("op.s.%s.%s" % (OPN[op], m), [("a", m), ("s", f)], m, "s %s a" % op)
        add("op.%s.mv" % m, [("a", m), ("v", v)], v, "a * v")
        add("op.%s.vm" % m, [("a", m), ("v", v)], v, "v * a")
        for op in ("==", "!="):
            add("op.%s.%s" % (m, OPN[op]), [("a", m), ("b", m)], "bool", "a %s b" % op)
        add("compmult." + m, [("a", m), ("b", m)], m, "@matrixCompMult(a,b)", gexpr="@matrixCompMult(a,b)")
        add("transpose." + m, [("a", m)], m, "@transpose(a)")
        add("determinant." + m, [("a", m)], f, "@determinant(a)")
        add("inverse." + m, [("a", m)], m, "@inverse(a)")
        if n > 2:       # GLM 0.9.9.8 forgets the transposition for mat2
            add("inverseTranspose." + m, [("a", m)], m, "@inverseTranspose(a)")
        add("ident." + m, [("s", f)], m, "@%s(s)" % m)
        add("default." + m, [("s", f)], m, "@%s()" % m, gexpr="@%s(1.f)" % m)
    for n in (3, 4):
        add("div.%s" % MAT[n], [("a", MAT[n]), ("b", MAT[n])], MAT[n], "a / b", limit=60000)
        add("div.mv.%s" % MAT[n], [("a", MAT[n]), ("v", VEC[n])], VEC[n], "a / v")
        add("div.vm.%s" % MAT[n], [("a", MAT[n]), ("v", VEC[n])], VEC[n], "v / a")
    add("widen.mat3", [("a", "mat2")], "mat3", "@mat3(a)")
    add("widen.mat4", [("a", "mat3")], "mat4", "@mat4(a)")
    add("narrow.mat3", [("a", "mat4")], "mat3", "@mat3(a)")
    add("narrow.mat2", [("a", "mat3")], "mat2", "@mat2(a)")
    # transforms
    add("translate", [("m", "mat4"), ("v", "vec3")], "mat4", "@translate(m,v)")
    add("rotate", [("m", "mat4"), ("t", f), ("v", "vec3")], "mat4", "@rotate(m,t,v)", pre=lambda m, t, v: nz(v))
    add("scale", [("m", "mat4"), ("v", "vec3")], "mat4", "@scale(m,v)")
    lk = lambda eye, c, up: andb(nz([x - y for x, y in zip(c, eye)]), nz(crossp([x - y for x, y in zip(c, eye)], up)))
    for h in ("LH", "RH"):
        add("lookAt" + h, [("eye", "vec3"), ("c", "vec3"), ("up", "vec3")], "mat4", "@lookAt%s(eye,c,up)" % h, pre=lk)
        for z in ("ZO", "NO"):
            six = [(x, f) for x in ("x0", "x1", "y0", "y1", "z0", "z1")]
            add("ortho%s_%s" % (h, z), six, "mat4", "@ortho%s_%s(x0,x1,y0,y1,z0,z1)" % (h, z))
            add("perspective%s_%s" % (h, z), [("fovy", f), ("asp", f), ("n", f), ("f", f)], "mat4", "@perspective%s_%s(fovy,asp,n,f)" % (h, z),
                pre=lambda fovy, asp, n, f: gt(asp, fc(1)))
    add("ortho", six[:4], "mat4", "@ortho(x0,x1,y0,y1)")
    # quaternions
    q, v3 = "quat", "vec3"
    for op in "+-*":
        add("op.quat.%s" % OPN[op], [("a", q), ("b", q)], q, "a %s b" % op)
    for op in "*/":
        add("op.quat.%s.s" % OPN[op], [("a", q), ("s", f)], q, "a %s s" % op)
    add("op.s.quat", [("a", q), ("s", f)], q, "s * a")
    add("op.quat.neg", [("a", q)], q, "-a")
    add("op.quat.vec3", [("a", q), ("v", v3)], v3, "a * v")
    add("op.vec3.quat", [("a", q), ("v", v3)], v3, "v * a", pre=lambda a, v: nz(a))
    for op in ("==", "!="):
        add("op.quat.%s" % OPN[op], [("a", q), ("b", q)], "bool", "a %s b" % op)
    add("dot.quat", [("a", q), ("b", q)], f, "@dot(a,b)")
    add("length.quat", [("a", q)], f, "@length(a)")
    add("length2.quat", [("a", q)], f, "@length2(a)")
    add("normalize.quat", [("a", q)], q, "@normalize(a)", pre=lambda a: gt(sqrt(dotp(a, a)), fc(0)))
    add("conjugate", [("a", q)], q, "@conjugate(a)")
    add("inverse.quat", [("a", q)], q, "@inverse(a)", pre=lambda a: nz(a))
    add("lerp", [("a", q), ("b", q), ("t", f)], q, "@lerp(a,b,t)", pre=lambda a, b, t: andb(ge(t, fc(0)), le(t, fc(1))))
    add("slerp", [("a", q), ("b", q), ("t", f)], q, "@slerp(a,b,t)")
    off = lambda a: gt(absf(2 * (a[1] * a[2] + a[3] * a[0])), fc(f32(1e-5)))
    add("pitch", [("a", q)], f, "@pitch(a)", pre=off)
    add("yaw", [("a", q)], f, "@yaw(a)", pre=lambda a: nz(a))
    add("roll", [("a", q)], f, "@roll(a)", pre=lambda a: nz(a))
    add("eulerAngles", [("a", q)], v3, "@eulerAngles(a)", pre=off)
    add("mat3_cast", [("a", q)], "mat3", "@mat3_cast(a)")
    add("mat4_cast", [("a", q)], "mat4", "@mat4_cast(a)")
    add("quat_cast.mat3", [("m", "mat3")], q, "@quat_cast(m)")
    add("quat_cast.mat4", [("m", "mat4")], q, "@quat_cast(m)")
    add("angleAxis", [("t", f), ("v", v3)], q, "@angleAxis(t,v)")
    add("axis", [("a", q)], v3, "@axis(a)")
    add("angle", [("a", q)], f, "@angle(a)", pre=lambda a: andb(le(a[3], fc(f32(0.87))), ge(a[3], fc(f32(-0.87)))))
    add("rotate.quat", [("a", q), ("t", f), ("v", v3)], q, "@rotate(a,t,v)", pre=lambda a, t, v: gt(sqrt(dotp(v, v)), fc(f32(1.01))))
    add("euler.ctor", [("e", v3)], q, "@quat(e)")
    add("between.ctor", [("u", v3), ("w", v3)], q, "@quat(u,w)", 
        pre=lambda u, w: andb(ge(between(u, w)[1], fc(f32(1e-6)) * between(u, w)[0]), gt(sqrt(dotp(crossp(u, w) + [between(u, w)[1]], crossp(u, w) + [between(u, w)[1]])), fc(0))))
    for h in ("LH", "RH"):
        add("quatLookAt" + h, [("d", v3), ("up", v3)], q, "@quatLookAt%s(d,up)" % h, 
            pre=lambda d, up: gt(dotp(crossp(d, up), crossp(d, up)), fc(f32(1e-3))))
    # colour, constants
    for t in ("vec3", "vec4"):
        add("convertSRGBToLinear." + t, [("c", t)], t, "@convertSRGBToLinear(c)")
        for fn in ("convertLinearToSRGB", "convertSRGBToLinear"):
            add("%s.gamma.%s" % (fn, t), [("c", t), ("k", f)], t, "@%s(c,k)" % fn)
    for c in ("epsilon zero one pi two_pi root_pi half_pi three_over_two_pi quarter_pi one_over_pi one_over_two_pi two_over_pi four_over_pi "
              "two_over_root_pi one_over_root_two root_half_pi root_two_pi root_ln_four e euler root_two root_three root_five ln_two ln_ten "
              "ln_ln_two third two_thirds golden_ratio").split():
        add("const." + c, [("s", f)], f, "@%s()" % c, gexpr="@%s<float>()" % c)
    return obs


def check(ck):
    if not os.path.exists(GLM):
        raise AnalysisError("GLM's headers are not installed at " + GLM)
    ck.obs(obligations(), headers=prelude(), floor=FLOOR)
