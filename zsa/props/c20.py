from .lib import *
from .c13 import nz

RULE = ("lookAtLH and lookAtRH are called in minimal callers; the value flowing into each element is extracted as a radical expression over eye, "
        "centre and up and must equal the change of basis to the (side, up, +-forward) frame as an identity; the image of the eye point and of "
        "the centre is decided on the composed call trees.")
ASSUME = ["float terms are compared as real-number expressions", "eye and centre differ and up is not parallel to the view direction"]
FLOOR = 6


def view(eye, center, up, rh):
    f = normv(subv(center, eye))
    s = normv(crossp(f, up) if rh else crossp(up, f))
    u = crossp(s, f) if rh else crossp(f, s)
    b = [-x for x in f] if rh else f
    m = [[s[i], u[i], b[i], fc(0)] for i in range(3)]
    m.append([-dotp(s, eye), -dotp(u, eye), -dotp(b, eye), fc(1)])
    return m


def pre(eye, center, up):
    d = subv(center, eye)
    return andb(nz(d), nz(crossp(d, up)))


def obligations():
    ps = [("eye", "vec3"), ("center", "vec3"), ("up", "vec3")]
    obs = []
    for h in ("RH", "LH"):
        f = "zcm::lookAt%s(eye,center,up)" % h
        obs.append(Ob("lookAt" + h, ps, "mat4", f, lambda eye, center, up, h=h: view(eye, center, up, h == "RH"), pre=pre))
        obs.append(Ob("lookAt%s.eye" % h, ps, "vec4", f + " * vec4(eye.x,eye.y,eye.z,1.f)", lambda eye, center, up: [0, 0, 0, 1], pre=pre, divcheck=False))
        obs.append(Ob("lookAt%s.center" % h, ps, "vec4", f + " * vec4(center.x,center.y,center.z,1.f)",
                      lambda eye, center, up, h=h: [0, 0, (-1 if h == "RH" else 1) * sqrt(dotp(subv(center, eye), subv(center, eye))), 1], pre=pre, divcheck=False))
    return obs
