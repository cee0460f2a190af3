from .lib import *
from .c13 import nz

RULE = ("cross is compared component by component with the determinant definition; cross, orthogonal and orthogonal_branchless results are "
        "fed through the flattened call tree into a dot product with the arguments, which must normalise to the zero polynomial in every "
        "ordering case; orthogonal of a non-zero vector must have a component that is not zero in every case.")
ASSUME = ["float terms are compared as real-number expressions"]
FLOOR = 8


def obligations():
    v = "vec3"
    ab = [("a", v), ("b", v)]
    obs = [
        Ob("cross", ab, v, "zcm::cross(a,b)", lambda a, b: crossp(a, b)),
        Ob("cross.a", ab, "float", "zcm::dot(zcm::cross(a,b), a)", lambda a, b: fc(0)),
        Ob("cross.b", ab, "float", "zcm::dot(zcm::cross(a,b), b)", lambda a, b: fc(0)),
        Ob("cross.self", [("a", v)], v, "zcm::cross(a,a)", lambda a: [0, 0, 0]),
        Ob("cross.anti", ab, v, "zcm::cross(a,b) + zcm::cross(b,a)", lambda a, b: [0, 0, 0]),
        Ob("cross.len", ab, "float", "zcm::length2(zcm::cross(a,b))", lambda a, b: dotp(a, a) * dotp(b, b) - dotp(a, b) * dotp(a, b)),
        Ob("orthogonal.perp", [("a", v)], "float", "zcm::dot(zcm::orthogonal(a), a)", lambda a: fc(0)),
        Ob("orthogonal.nonzero", [("a", v)], "bool", "zcm::orthogonal(a) != vec3(0.f)", lambda a: TRUE, pre=nz),
        Ob("orthogonal_branchless.perp", [("a", v)], "float", "zcm::dot(zcm::orthogonal_branchless(a), a)", lambda a: fc(0)),
        Ob("orthogonal_branchless.axis", [], "bool",
           "zcm::orthogonal_branchless(vec3(1.f,0.f,0.f)) != vec3(0.f) && zcm::orthogonal_branchless(vec3(0.f,1.f,0.f)) != vec3(0.f) && "
           "zcm::orthogonal_branchless(vec3(0.f,0.f,1.f)) != vec3(0.f)", lambda: TRUE),
    ]
    for o in obs:
        if o.name == "orthogonal.nonzero":
            o.tests = 1     # a choice by products of components would find them equal where these underflow
    return obs
