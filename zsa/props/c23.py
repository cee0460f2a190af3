from .lib import *
from .c13 import nz
from .c22 import UNIT

RULE = ("Conversions between quaternions and matrices, axis/angle, Euler angles, vector pairs and view directions are called in minimal callers "
        "on unit quaternions built as a/|a| from free components (or on free vectors). The extracted expressions must equal the conversion's "
        "definition in every ordering case; quat_cast is decided through the composed call tree quat_cast(mat_cast(q)), whose result must "
        "be q or -q (compared through the products of its components) in each of its branches, with every scale-free divisor bounded away from "
        "zero by the branch's own conditions (Fourier-Motzkin over the ordering facts).")
ASSUME = ["float terms are compared as real-number expressions", "matrices passed to quat_cast are rotations; directions are unit vectors not parallel to up"]
FLOOR = 17
UV = "{ float l = __builtin_sqrtf(a.x*a.x + a.y*a.y + a.z*a.z); vec3 u(a.x/l, a.y/l, a.z/l); "


def unit(a):
    return normv(a)


def outer(r):
    return [x * y for x in r for y in r]


OUTER = " ".join("o[%d] = r.%s * r.%s;" % (i * 4 + j, "xyzw"[i], "xyzw"[j]) for i in range(4) for j in range(4)) + " }"


def pitch(q):
    x, y, z, w = q
    s, c = 2 * (y * z + w * x), w * w - x * x - y * y + z * z
    return ite(andb(eq(s, 0), eq(c, 0)), 2 * call("atan2", x, w), call("atan2", s, c))


def yaw(q):
    x, y, z, w = q
    return call("asin", fmin(fmax(-2 * (x * z - w * y), fc(-1)), fc(1)))


def roll(q):
    x, y, z, w = q
    return call("atan2", 2 * (x * y + w * z), w * w + x * x - y * y - z * z)


def euler(e):
    c = [call("cos", x / 2) for x in e]
    s = [call("sin", x / 2) for x in e]
    ax = [fc(0)] * 3
    q = [[s[i] if j == i else c[i] if j == 3 else fc(0) for j in range(4)] for i in range(3)]
    return qmul(qmul(q[2], q[1]), q[0])


def axis(q):
    x, y, z, w = q
    k = 1 - w * w
    r = sqrt(k)
    return [ite(le(k, 0), d, p / r) for p, d in ((x, fc(0)), (y, fc(0)), (z, fc(1)))]


def between(u, v):
    n = sqrt(dotp(u, u) * dotp(v, v))
    return n, n + dotp(u, v)


def obligations():
    q, v, m3, m4 = "quat", "vec3", "mat3", "mat4"
    a = ("a", q)
    ok = lambda a, **k: nz(a)
    U = lambda c: UNIT + "o = (%s); }" % c
    kw = dict(pre=ok, divcheck=False)
    obs = [
        Ob("quat_cast.mat3", [a], "float[16]", UNIT + "quat r = zcm::quat_cast(zcm::mat3_cast(q)); " + OUTER, lambda a: outer(unit(a)), **kw),
        Ob("quat_cast.mat4", [a], "float[16]", UNIT + "quat r = zcm::quat_cast(zcm::mat4_cast(q)); " + OUTER, lambda a: outer(unit(a)), **kw),
        Ob("pitch", [a], "float", U("zcm::pitch(q)"), lambda a: pitch(unit(a)), **kw),
        Ob("yaw", [a], "float", U("zcm::yaw(q)"), lambda a: yaw(unit(a)), **kw),
        Ob("roll", [a], "float", U("zcm::roll(q)"), lambda a: roll(unit(a)), **kw),
        Ob("eulerAngles", [a], v, U("zcm::eulerAngles(q)"), lambda a: [f(unit(a)) for f in (pitch, yaw, roll)], **kw),
        Ob("euler.ctor", [("e", v)], q, "quat(e)", euler),
        Ob("euler.unit", [("e", v)], "float", "zcm::length2(quat(e))", lambda e: fc(1)),
        Ob("axis", [a], v, U("zcm::axis(q)"), lambda a: axis(unit(a)), **kw),
        Ob("angle", [a], "float", U("zcm::angle(q)"), lambda a: 2 * call("acos", unit(a)[3]), **kw),
        Ob("angleAxis", [("t", "float"), ("a", v)], q, UV + "o = zcm::angleAxis(t, u); }",
           lambda t, a: scalev(unit(a), call("sin", t / 2)) + [call("cos", t / 2)], **kw),
        Ob("angleAxis.vec", [("t", "float"), ("a", v), ("p", v)], v, UV + "o = zcm::angleAxis(t, u) * p; }",
           lambda t, a, p: qrot(scalev(unit(a), call("sin", t / 2)) + [call("cos", t / 2)], p), **kw),
        Ob("rotate", [("x", q), ("t", "float"), ("a", v)], q, "zcm::rotate(x,t,a)",
           lambda x, t, a: qmul(x, scalev(unit(a), call("sin", t / 2)) + [call("cos", t / 2)]), pre=ok, divs=lambda a, **k: dotp(a, a)),
    ]
    uv = [("u", v), ("w", v)]
    far = lambda u, w: andb(andb(nz(u), nz(w)), ge(between(u, w)[1], fc(f32(1e-6)) * between(u, w)[0]))
    near = lambda u, w: andb(andb(nz(u), nz(w)), lt(between(u, w)[1], fc(f32(1e-6)) * between(u, w)[0]))
    obs += [
        Ob("between", uv, q, "quat(u,w)", lambda u, w: normv(crossp(u, w) + [between(u, w)[1]]), pre=far, divcheck=False),
        Ob("between.opposite.w", uv, "float", "quat(u,w).w", lambda u, w: fc(0), pre=near, divcheck=False),
        Ob("between.opposite.perp", uv, "float", "{ quat q(u,w); o = q.x*u.x + q.y*u.y + q.z*u.z; }", lambda u, w: fc(0), pre=near, divcheck=False),
        Ob("between.opposite.unit", uv, "float", "{ quat q(u,w); o = q.x*q.x + q.y*q.y + q.z*q.z + q.w*q.w; }", lambda u, w: fc(1), pre=near, divcheck=False),
    ]
    d = [("a", v), ("up", v)]
    dpre = lambda a, up: andb(nz(a), nz(crossp(a, up)))
    for h, sg in (("LH", ""), ("RH", "-")):
        obs.append(twin("quatLookAt" + h, d, 4, UV + "quat p = zcm::quatLookAt%s(u, up); vec3 f(%su.x, %su.y, %su.z); "
                        "vec3 s(up.y*f.z - up.z*f.y, up.z*f.x - up.x*f.z, up.x*f.y - up.y*f.x); float k = __builtin_sqrtf(s.x*s.x + s.y*s.y + s.z*s.z); "
                        "vec3 r(s.x/k, s.y/k, s.z/k); vec3 t(f.y*r.z - f.z*r.y, f.z*r.x - f.x*r.z, f.x*r.y - f.y*r.x); "
                        "quat q = zcm::quat_cast(mat3(r, t, f)); o[0] = p.x; o[1] = p.y; o[2] = p.z; o[3] = p.w; o[4] = q.x; o[5] = q.y; o[6] = q.z; o[7] = q.w; }"
                        % (h, sg, sg, sg), pre=dpre))
    for o in obs:
        if o.name.startswith("quat_cast"):
            o.wellcond = Fraction(1, 16)
    return obs
