from .lib import *

RULE = ("== and != of every type are extracted as decisions over component comparisons and must be the conjunction of "
        "component equality and its exact negation in every ordering case (NaN components included for float types). "
        "<, <=, >, >= of integer vectors must be the lexicographic order of the components in every ordering case, from which "
        "irreflexivity, transitivity, totality and mutual consistency follow.")
ASSUME = []
FLOOR = 40


def allof(xs):
    r = TRUE
    for x in xs:
        r = andb(r, x)
    return r


def lex(a, b, last):
    r = last
    for x, y in reversed(list(zip(a, b))):
        r = ite(eq(x, y), r, lt(x, y))
    return r


def obligations():
    obs = []
    for t in list(VEC.values()) + list(IVEC.values()) + list(BVEC.values()) + ["quat"] + list(MAT.values()):
        n = size(t)
        if t.startswith("bvec"):
            e = lambda a, b: allof(notb(xorb(x, y)) for x, y in zip(a, b))
        else:
            e = lambda a, b: allof(eq(x, y) for x, y in zip(flat(a), flat(b)))
        ns = []
        if t in VEC.values() or t == "quat":
            ns = [{"%s.%s" % (v, "xyzw"[i])} for v in "ab" for i in range(n)] + [{"a.x", "b.x"}]
        elif t.startswith("mat"):
            ns = [{"a[%d][%d]" % (c, r)} for c in range(n) for r in range(n)]
        obs.append(Ob(t + ".eq", [("a", t), ("b", t)], "bool", "a == b", e, nan=ns))
        obs.append(Ob(t + ".ne", [("a", t), ("b", t)], "bool", "a != b", lambda a, b, e=e: notb(e(a, b)), nan=ns))
        self = [{"a" + c} for c in ([".x"] if not t.startswith("mat") else ["[0][0]"])] if ns else []
        obs.append(Ob(t + ".eq.self", [("a", t)], "bool", "a == a", lambda a, e=e: e(a, a), nan=self))
        obs.append(Ob(t + ".ne.self", [("a", t)], "bool", "a != a", lambda a, e=e: notb(e(a, a)), nan=self))
    for n in NS:
        t = IVEC[n]
        obs.append(Ob(t + ".lt", [("a", t), ("b", t)], "bool", "a < b", lambda a, b: lex(a, b, FALSE)))
        obs.append(Ob(t + ".le", [("a", t), ("b", t)], "bool", "a <= b", lambda a, b: lex(a, b, TRUE)))
        obs.append(Ob(t + ".gt", [("a", t), ("b", t)], "bool", "a > b", lambda a, b: lex(b, a, FALSE)))
        obs.append(Ob(t + ".ge", [("a", t), ("b", t)], "bool", "a >= b", lambda a, b: lex(b, a, TRUE)))
        obs.append(Ob(t + ".lt.self", [("a", t)], "bool", "a < a", lambda a: FALSE))
        obs.append(Ob(t + ".tri", [("a", t), ("b", t)], "bool", "(a < b) == (b > a) && (a <= b) == (b >= a) && (a <= b) == (a < b || a == b)",
                      lambda a, b: TRUE))
    return obs
