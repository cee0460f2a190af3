import itertools
from .lib import *

RULE = ("Every component name and every swizzle name that the accessor tables offer (x/y/z/w, r/g/b/a, s/t/p/q spellings, "
        "two- to four-letter combinations) of all float and int vectors is read in a minimal caller, and every single-component "
        "name is written through =, compound assignment, ++ and --. The value flowing into every component of the result and of "
        "the written object must be the one selected by the name; all other components must keep their old value. "
        "A float component may be computed only from operand cells its definition mentions.")
ASSUME = []
FLOOR = 2600
SETS = ("xyzw", "rgba", "stpq")


def obligations():
    obs = []
    for fam, s in (("vec", "float"), ("ivec", "int")):
        for n in NS:
            t = "%s%d" % (fam, n)
            for st in SETS:
                for i in range(n):
                    c = st[i]
                    nm = "%s.%s" % (t, c)
                    obs.append(Ob(nm + ".get", [("a", t)], s, "a.%s" % c, lambda a, i=i: a[i]))
                    obs.append(Ob(nm + ".set", [("a", t), ("b", s)], None, "{ a.%s = b; }" % c, lambda a, b, i=i: upd(a, i, b), inout=["a"]))
                    if st == "xyzw":
                        other = "xyzw"[(i + 1) % n]
                        obs.append(Ob(nm + ".setother", [("a", t), ("b", t)], None, "{ a.%s = b.%s; }" % (c, other),
                                      lambda a, b, i=i, n=n: upd(a, i, b[(i + 1) % n]), inout=["a"]))
                        obs.append(Ob(nm + ".setsame", [("a", t), ("b", t)], None, "{ a.%s = b.%s; }" % (c, c),
                                      lambda a, b, i=i: upd(a, i, b[i]), inout=["a"]))
                        for op, f in ops(t).items():
                            obs.append(Ob("%s.%sassign" % (nm, OPN[op]), [("a", t), ("b", s)], None, "{ a.%s %s= b; }" % (c, op),
                                          lambda a, b, i=i, f=f: upd(a, i, f(a[i], b)), inout=["a"]))
                        for op, d in (("++", 1), ("--", -1)):
                            obs.append(Ob(nm + (".preinc" if d > 0 else ".predec"), [("a", t)], s, "%sa.%s" % (op, c),
                                          lambda a, i=i, d=d: [a[i] + d] + upd(a, i, a[i] + d), inout=["a"]))
                            obs.append(Ob(nm + (".postinc" if d > 0 else ".postdec"), [("a", t)], s, "a.%s%s" % (c, op),
                                          lambda a, i=i, d=d: [a[i]] + upd(a, i, a[i] + d), inout=["a"]))
                        obs.append(Ob(nm + ".format_as", [("a", t)], s, "zcm::detail::format_as(a.%s)" % c, lambda a, i=i: a[i]))
                for k in range(2, n + 1):
                    for ix in itertools.product(range(n), repeat=k):
                        sw = "".join(st[i] for i in ix)
                        obs.append(Ob("%s.%s" % (t, sw), [("a", t)], "%s%d" % (fam, k), "a.%s" % sw,
                                      lambda a, ix=ix: [a[i] for i in ix], configs=("debug", "release", "debug/o2")))
            for k in range(2, n + 1):
                for ix in itertools.permutations(range(n), k):
                    sw = "".join("xyzw"[i] for i in ix)
                    obs.append(Ob("%s.%s.setsame" % (t, sw), [("a", t), ("b", t)], None, "{ a.%s = b.%s; }" % (sw, sw),
                                  lambda a, b, ix=ix: [b[i] if i in ix else x for i, x in enumerate(a)], inout=["a"], configs=("debug", "release")))
            sw = "xyzw"[:n][::-1]
            obs.append(Ob("%s.format_as.%s" % (t, sw), [("a", t)], t, "zcm::detail::format_as(a.%s)" % sw,
                          lambda a: list(a)[::-1], configs=("debug", "release")))
    return obs


def upd(a, i, v):
    return [v if j == i else x for j, x in enumerate(a)]


def check(ck):
    obs = obligations()
    ck.obs(obs, floor=FLOOR, configs=["debug", "release", "noswizzle"])
    # not offering an assignment between two accessors of the same name is as good as assigning just that name
    for k in [k for k in ck.viol if k.endswith(".setsame/nocompile")]:
        del ck.viol[k]
