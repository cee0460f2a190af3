from .lib import *
from .c13 import nz

RULE = ("encode_octahedral and decode_octahedral are extracted as gated rational/radical expressions over the components. In every sign case: "
        "the code equals the folded octahedral projection, both code components lie in [-1,1] (linear feasibility of the negation), decoding "
        "an encoded direction gives back that direction normalised, and the decoder of any code has unit length.")
ASSUME = ["float terms are compared as real-number expressions", "the zero vector has no direction"]
FLOOR = 5


def enc(a):
    s = absf(a.x) + absf(a.y) + absf(a.z)
    px, py = a.x / s, a.y / s
    sg = lambda x: ite(lt(x, 0), fc(-1), fc(1))
    return [ite(le(a.z, 0), (1 - absf(py)) * sg(px), px), ite(le(a.z, 0), (1 - absf(px)) * sg(py), py)]


def dec(e):
    z = 1 - absf(e.x) - absf(e.y)
    sg = lambda x: ite(lt(x, 0), fc(-1), fc(1))
    x = ite(lt(z, 0), (1 - absf(e.y)) * sg(e.x), e.x)
    y = ite(lt(z, 0), (1 - absf(e.x)) * sg(e.y), e.y)
    return normv([x, y, z])


def obligations():
    v = [("a", "vec3")]
    return [
        Ob("encode", v, "vec2", "zcm::encode_octahedral(a)", enc, pre=nz),
        Ob("encode.range", v, "bool",
           "[&]{ auto e = zcm::encode_octahedral(a); return e.x <= 1.f && e.x >= -1.f && e.y <= 1.f && e.y >= -1.f; }()", lambda a: TRUE, pre=nz, divcheck=False),
        Ob("decode", [("e", "vec2")], "vec3", "zcm::decode_octahedral(e)", dec, divcheck=False),
        Ob("decode.unit", [("e", "vec2")], "float", "zcm::length2(zcm::decode_octahedral(e))", lambda e: fc(1), divcheck=False),
        Ob("roundtrip", v, "vec3", "zcm::decode_octahedral(zcm::encode_octahedral(a))", lambda a: normv(a), pre=nz, divcheck=False),
    ]
