from .lib import *
from .c13 import nz

RULE = ("translate, rotate and scale are called in minimal callers on a matrix with free elements; the value flowing into each element of the "
        "result is extracted as a rational/radical/trigonometric expression and must equal the product of the argument with the elementary "
        "transform (Rodrigues rotation about the normalised axis) as an identity; the points they send the origin, the axis and a vector to "
        "are decided on the composed call trees.")
ASSUME = ["float terms are compared as real-number expressions", "rotation axes are not the zero vector"]
FLOOR = 8


def rotm(angle, n):
    c, s = call("cos", angle), call("sin", angle)
    t = [x * (1 - c) for x in n]
    return [[c + t[0] * n[0], t[0] * n[1] + s * n[2], t[0] * n[2] - s * n[1], 0],
            [t[1] * n[0] - s * n[2], c + t[1] * n[1], t[1] * n[2] + s * n[0], 0],
            [t[2] * n[0] + s * n[1], t[2] * n[1] - s * n[0], c + t[2] * n[2], 0],
            [0, 0, 0, 1]]


def hom(m):
    return [[x if isinstance(x, T) else fc(x) for x in c] for c in m]


def obligations():
    m, v = ("m", "mat4"), ("v", "vec3")
    tr = lambda v: hom([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [v.x, v.y, v.z, 1]])
    sc = lambda v: hom([[v.x, 0, 0, 0], [0, v.y, 0, 0], [0, 0, v.z, 0], [0, 0, 0, 1]])
    axis = lambda v, **k: nz(v)
    return [
        Ob("translate", [m, v], "mat4", "zcm::translate(m,v)", lambda m, v: matmul(m, tr(v))),
        Ob("scale", [m, v], "mat4", "zcm::scale(m,v)", lambda m, v: matmul(m, sc(v))),
        Ob("rotate", [m, ("angle", "float"), v], "mat4", "zcm::rotate(m,angle,v)", lambda m, angle, v: matmul(m, hom(rotm(angle, normv(v)))), pre=axis, divs=lambda v, **k: dotp(v, v)),
        Ob("translate.id", [v], "mat4", "zcm::translate(mat4(1.f),v)", tr),
        Ob("scale.id", [v], "mat4", "zcm::scale(mat4(1.f),v)", sc),
        Ob("rotate.id", [("angle", "float"), v], "mat4", "zcm::rotate(mat4(1.f),angle,v)", lambda angle, v: hom(rotm(angle, normv(v))), pre=axis, divs=lambda v, **k: dotp(v, v)),
        Ob("rotate.zero", [m, v], "mat4", "zcm::rotate(m,0.f,v)", lambda m, v: m, pre=axis, divs=lambda v, **k: dotp(v, v)),
        Ob("rotate.fixaxis", [("angle", "float"), v], "vec4", "zcm::rotate(mat4(1.f),angle,v) * vec4(v.x,v.y,v.z,0.f)",
           lambda angle, v: list(v) + [fc(0)], pre=axis, divs=lambda v, **k: dotp(v, v)),
        Ob("translate.point", [v, ("p", "vec3")], "vec4", "zcm::translate(mat4(1.f),v) * vec4(p.x,p.y,p.z,1.f)",
           lambda v, p: addv(p, v) + [fc(1)]),
        Ob("rotate.z.quarter", [], "vec4", "zcm::rotate(mat4(1.f),0.f,vec3(0.f,0.f,1.f)) * vec4(1.f,2.f,3.f,1.f)",
           lambda: [1, 2, 3, 1]),
    ]
