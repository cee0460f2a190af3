from .lib import *

RULE = ("compAdd, compMul, compMin and compMax are called in minimal callers for every float and integer vector; the value flowing into "
        "the scalar result must be the sum, product, least or greatest of exactly the components, in every ordering case.")
ASSUME = ["float terms are compared as real-number expressions"]
FLOOR = 24


def fold(f):
    def g(a):
        r = a[0]
        for x in a[1:]:
            r = f(r, x)
        return r
    return g


def obligations():
    obs = []
    for n in NS:
        for t, s in ((VEC[n], "float"), (IVEC[n], "int")):
            for fn, f in (("compAdd", lambda x, y: x + y), ("compMul", lambda x, y: x * y), ("compMin", fmin), ("compMax", fmax)):
                obs.append(Ob("%s.%s" % (fn, t), [("a", t)], s, "%s(a)" % fn, lambda a, f=f: fold(f)(list(a))))
    return obs
