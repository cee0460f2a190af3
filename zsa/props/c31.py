from .lib import *
from .c13 import nz
from .c22 import UNIT
from .c23 import unit

RULE = ("decompose_orthogonal is called in a minimal caller on the matrix translation * rotation * scale assembled from free translation and "
        "scale components and the free unit quaternion a/|a|, once per pattern of scale signs. The extracted translation must be the given one, "
        "the extracted scale the given one up to a common sign that makes the frame right-handed, and the rotation matrix of the extracted "
        "quaternion the frame left after dividing by that scale, in every ordering case (all four branches of the quaternion extraction), "
        "with every scale-free divisor bounded away from zero by the branch's conditions.")
ASSUME = ["float terms are compared as real-number expressions", "no scale component is zero"]
FLOOR = 16


def obligations():
    a = ("a", "quat")
    v = "vec3"
    obs = []
    # rigid motion with signed scale: m = T R S is taken apart into parts that multiply back to m
    build = (UNIT + "float x=q.x,y=q.y,z=q.z,w=q.w; mat4 m(s.x*(1-2*(y*y+z*z)), s.x*(2*(x*y+w*z)), s.x*(2*(x*z-w*y)), 0.f, "
             "s.y*(2*(x*y-w*z)), s.y*(1-2*(x*x+z*z)), s.y*(2*(y*z+w*x)), 0.f, "
             "s.z*(2*(x*z+w*y)), s.z*(2*(y*z-w*x)), s.z*(1-2*(x*x+y*y)), 0.f, t.x, t.y, t.z, 1.f); "
             "vec3 sc, tr; quat r; zcm::decompose_orthogonal(m, sc, r, tr); ")
    ps = [a, ("s", v), ("t", v)]
    for k in range(8):
        sg = [1 if k >> i & 1 == 0 else -1 for i in range(3)]
        cond = lambda a, s, t, sg=sg: andb(nz(a), andb(andb(*[gt(s[i] if sg[i] > 0 else -s[i], fc(0)) for i in (0, 1)]), gt(s[2] if sg[2] > 0 else -s[2], fc(0))))
        nm = "".join("+" if x > 0 else "-" for x in sg)
        flip = -1 if sg[0] * sg[1] * sg[2] < 0 else 1

        def frame(a, s, t, sg=sg, flip=flip):
            m = qmat(unit(a))
            return [x * (g * flip) for c, g in zip(m, sg) for x in c]
        obs.append(Ob("decompose.st" + nm, ps, "float[6]", build + "o[0]=sc.x; o[1]=sc.y; o[2]=sc.z; o[3]=tr.x; o[4]=tr.y; o[5]=tr.z; }",
                      lambda a, s, t, sg=sg, flip=flip: [s[i] * (sg[i] * flip) for i in range(3)] + list(t), pre=cond, divcheck=False))
        obs.append(Ob("decompose.r" + nm, ps, "float[9]", build + "mat3 f = zcm::mat3_cast(r); " +
                      " ".join("o[%d]=f[%d][%d];" % (i, i // 3, i % 3) for i in range(9)) + " }", frame, pre=cond, divcheck=False))
    for o in obs:
        if ".r" in o.name:
            o.wellcond = Fraction(1, 16)
    return obs
