from .lib import *

RULE = ("reflect, refract and faceforward are called in minimal callers for float, vec2, vec3 and vec4. The value flowing into each component is "
        "extracted as a gated expression and must equal the optical definition: I-2(N.I)N; the Snell vector when k=1-eta^2(1-(N.I)^2) is not "
        "negative and the zero vector otherwise; N or -N by the sign of Nref.I - in every sign case.")
ASSUME = ["float terms are compared as real-number expressions"]
FLOOR = 12


def obligations():
    obs = []
    for t in ["float"] + list(VEC.values()):
        def sc(v, f):
            return [f(x) for x in L(v)]

        def refr(I, N, eta):
            d = dotp(N, I)
            k = 1 - eta * eta * (1 - d * d)
            return [ite(lt(k, 0), fc(0), eta * i - (eta * d + sqrt(k)) * n) for i, n in zip(L(I), L(N))]

        obs.append(Ob("reflect." + t, [("I", t), ("N", t)], t, "zcm::reflect(I,N)",
                      lambda I, N: [i - 2 * dotp(N, I) * n for i, n in zip(L(I), L(N))]))
        obs.append(Ob("refract." + t, [("I", t), ("N", t), ("eta", "float")], t, "zcm::refract(I,N,eta)", refr))
        obs.append(Ob("faceforward." + t, [("N", t), ("I", t), ("R", t)], t, "zcm::faceforward(N,I,R)",
                      lambda N, I, R: [ite(lt(dotp(R, I), 0), n, -n) for n in L(N)]))
        obs.append(Ob("reflect.twice." + t, [("I", t), ("M", t)], "bool" if False else t,
                      "zcm::reflect(zcm::reflect(I,M / zcm::length(M)), M / zcm::length(M))" if t != "float" else "zcm::reflect(zcm::reflect(I,1.f),1.f)",
                      lambda I, M: L(I), pre=(lambda I, M: nz(M)) if t != "float" else None, divcheck=False))
    return obs


def nz(a):
    r = FALSE
    for x in L(a):
        r = orb(r, ne(x, 0))
    return r
