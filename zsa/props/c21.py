from .lib import *

RULE = ("ortho, orthoLH/RH_ZO/NO and perspectiveLH/RH_ZO/NO are called in minimal callers; the value flowing into each element is extracted as a "
        "rational/trigonometric expression of the parameters and must equal the projection of that handedness and depth range; in addition the "
        "images of the frustum's corners (near/far plane, left/right/top/bottom edges) after perspective division are decided on the composed "
        "call trees.")
ASSUME = ["float terms are compared as real-number expressions", "non-degenerate volumes; the aspect ratio is positive"]
FLOOR = 20
R = ["left", "right", "bottom", "top", "zNear", "zFar"]


def orth(l, r, b, t, n, f, rh, zo):
    z = (-1 if rh else 1) * ((1 if zo else 2) / (f - n))
    w = -(n / (f - n)) if zo else -((f + n) / (f - n))
    return [[2 / (r - l), 0, 0, 0], [0, 2 / (t - b), 0, 0], [0, 0, z, 0], [-((r + l) / (r - l)), -((t + b) / (t - b)), w, 1]]


def persp(fovy, aspect, n, f, rh, zo):
    h = call("tan", fovy / 2)
    sgn = -1 if rh else 1
    z = sgn * (f / (f - n)) if zo else sgn * ((f + n) / (f - n))
    w = -((f * n) / (f - n)) if zo else -((2 * f * n) / (f - n))
    return [[1 / (aspect * h), 0, 0, 0], [0, 1 / h, 0, 0], [0, 0, z, sgn], [0, 0, w, 0]]


def obligations():
    obs = []
    r4 = [(x, "float") for x in R[:4]]
    obs.append(Ob("ortho", r4, "mat4", "zcm::ortho(left,right,bottom,top)",
                  lambda left, right, bottom, top: [[2 / (right - left), 0, 0, 0], [0, 2 / (top - bottom), 0, 0], [0, 0, -1, 0],
                                                    [-((right + left) / (right - left)), -((top + bottom) / (top - bottom)), 0, 1]]))
    pp = [("fovy", "float"), ("aspect", "float"), ("zNear", "float"), ("zFar", "float")]
    pre = lambda fovy, aspect, zNear, zFar: gt(aspect, fc(2 ** -20))
    for h in ("LH", "RH"):
        for z in ("ZO", "NO"):
            rh, zo = h == "RH", z == "ZO"
            ar = ",".join(R)
            f = "zcm::ortho%s_%s(%s)" % (h, z, ar)
            obs.append(Ob("ortho%s_%s" % (h, z), [(x, "float") for x in R], "mat4", f,
                          lambda left, right, bottom, top, zNear, zFar, rh=rh, zo=zo: orth(left, right, bottom, top, zNear, zFar, rh, zo)))
            s = "-" if rh else ""
            for nm, x, y, zz, w in (("near", "left", "bottom", "zNear", (-1, -1, 0 if zo else -1, 1)), ("far", "right", "top", "zFar", (1, 1, 1, 1))):
                obs.append(Ob("ortho%s_%s.%s" % (h, z, nm), [(q, "float") for q in R], "vec4", f + " * vec4(%s,%s,%s%s,1.f)" % (x, y, s, zz),
                              lambda w=w, **k: list(w), divcheck=False))
            g = "zcm::perspective%s_%s(fovy,aspect,zNear,zFar)" % (h, z)
            obs.append(Ob("perspective%s_%s" % (h, z), pp, "mat4", g,
                          lambda fovy, aspect, zNear, zFar, rh=rh, zo=zo: persp(fovy, aspect, zNear, zFar, rh, zo), pre=pre))
            for nm, zz, d in (("near", "zNear", 0 if zo else -1), ("far", "zFar", 1)):
                obs.append(Ob("perspective%s_%s.%s" % (h, z, nm), pp, "vec2", "{ auto p = %s * vec4(0.f,0.f,%s%s,1.f); o = vec2(p.z / p.w, p.w); }" % (g, s, zz),
                              lambda fovy, aspect, zNear, zFar, d=d, zz=zz: [d, zNear if zz == "zNear" else zFar], pre=pre, divcheck=False))
    return obs
