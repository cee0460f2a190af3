from .lib import *

RULE = ("Every constructor, factory function, conversion operator, raw-pointer view and constant-index access of every type "
        "is used in a minimal caller; the value that flows into each component of the result (or of the written object) is "
        "extracted from the flattened call tree and must be exactly the documented argument, memory cell or constant. "
        "Components left indeterminate count as mismatches. "
        "A float component may be computed only from operand cells its definition mentions.")
ASSUME = ["an int argument converted to float is the real-number value of the int"]
FLOOR = 230


def obligations():
    obs = []

    def add(nm, params, out, code, spec, **k):
        obs.append(Ob(nm, params, out, code, spec, **k))
    for fam, s in (("vec", "float"), ("ivec", "int"), ("bvec", "bool")):
        for n in NS:
            t = "%s%d" % (fam, n)
            v2, v3 = fam + "2", fam + "3"
            zero = FALSE if s == "bool" else 0
            add(t + ".default", [], t, t + "()", lambda n=n, z=zero: [z] * n)
            add(t + ".valueinit", [], t, t + "{}", lambda n=n, z=zero: [z] * n)
            add(t + ".splat", [("a", s)], t, t + "(a)", lambda a, n=n: [a] * n)
            if s == "float":
                add(t + ".int", [("a", "int")], t, t + "(a)", lambda a, n=n: [mk("sitofp", (a,), "f")] * n)
                add(t + ".intlit", [], t, t + "(3)", lambda n=n: [3] * n)
            names = "abcd"[:n]
            add(t + ".comps", [(c, s) for c in names], t, "%s(%s)" % (t, ",".join(names)),
                lambda names=names, **k: [k[c] for c in names])
            add(t + ".braces", [(c, s) for c in names], t, "%s{%s}" % (t, ",".join(names)),
                lambda names=names, **k: [k[c] for c in names])
            add(t + ".copy", [("a", t)], t, "%s(a)" % t, lambda a: list(a))
            add(t + ".assign", [("a", t), ("b", t)], None, "{ a = b; }", lambda a, b: list(b), inout=["a"])
            add(t + ".make", [("p", "%s[%d]" % (s, n))], t, "make_%s(p)" % t, lambda p: list(p))
            if n == 3:
                add(t + ".xy_z", [("a", v2), ("b", s)], t, t + "(a,b)", lambda a, b: list(a) + [b])
                add(t + ".x_yz", [("a", s), ("b", v2)], t, t + "(a,b)", lambda a, b: [a] + list(b))
            if n == 4:
                add(t + ".xyz_w", [("a", v3), ("b", s)], t, t + "(a,b)", lambda a, b: list(a) + [b])
                add(t + ".x_yzw", [("a", s), ("b", v3)], t, t + "(a,b)", lambda a, b: [a] + list(b))
                add(t + ".xy_zw", [("a", v2), ("b", v2)], t, t + "(a,b)", lambda a, b: list(a) + list(b))
                add(t + ".xy_z_w", [("a", v2), ("b", s), ("c", s)], t, t + "(a,b,c)", lambda a, b, c: list(a) + [b, c])
                add(t + ".x_yz_w", [("a", s), ("b", v2), ("c", s)], t, t + "(a,b,c)", lambda a, b, c: [a] + list(b) + [c])
                add(t + ".x_y_zw", [("a", s), ("b", s), ("c", v2)], t, t + "(a,b,c)", lambda a, b, c: [a, b] + list(c))
            index(add, t, s, n)
            if fam == "ivec":
                add(t + ".tobool", [("a", t)], "bvec%d" % n, "bvec%d(a)" % n, lambda a: [ne(x, 0) for x in a])
                add(t + ".tobool_implicit", [("a", t)], "bvec%d" % n, "a", lambda a: [ne(x, 0) for x in a])
            else:
                ptr(add, t, s, n)
    q = "quat"
    add("quat.default", [], q, "quat()", lambda: [0, 0, 0, 1])
    add("quat.wxyz_ctor", [(c, "float") for c in "wxyz"], q, "quat(w,x,y,z)", lambda w, x, y, z: [x, y, z, w])
    add("quat.wxyz", [(c, "float") for c in "wxyz"], q, "quat::wxyz(w,x,y,z)", lambda w, x, y, z: [x, y, z, w])
    add("quat.s_v", [("s", "float"), ("v", "vec3")], q, "quat(s,v)", lambda s, v: list(v) + [s])
    add("quat.v_s", [("v", "vec3"), ("s", "float")], q, "quat(v,s)", lambda s, v: list(v) + [s])
    add("quat.make", [("p", "float[4]")], q, "make_quat(p)", lambda p: list(p))
    add("quat.copy", [("a", q)], q, "quat(a)", lambda a: list(a))
    for i, c in enumerate("xyzw"):
        add("quat.field." + c, [("a", q)], "float", "a." + c, lambda a, i=i: a[i])
    index(add, q, "float", 4)
    ptr(add, q, "float", 4)
    for n in NS:
        m, v = "mat%d" % n, "vec%d" % n
        add(m + ".default", [], m, m + "()", lambda n=n: ident(n))
        add(m + ".diag", [("a", "float")], m, m + "(a)", lambda a, n=n: [[a if i == j else 0 for i in range(n)] for j in range(n)])
        cols = "abcd"[:n]
        add(m + ".cols", [(c, v) for c in cols], m, "%s(%s)" % (m, ",".join(cols)), lambda cols=cols, **k: [list(k[c]) for c in cols])
        els = ["e%d%d" % (c, r) for c in range(n) for r in range(n)]
        add(m + ".elems", [(e, "float") for e in els], m, "%s(%s)" % (m, ",".join(els)), lambda els=els, **k: [k[e] for e in els])
        add(m + ".make", [("p", "float[%d]" % (n * n))], m, "make_%s(p)" % m, lambda p: list(p))
        add(m + ".copy", [("a", m)], m, "%s(a)" % m, lambda a: a)
        add(m + ".assign", [("a", m), ("b", m)], None, "{ a = b; }", lambda a, b: b, inout=["a"])
        for i in range(n):
            add("%s.col%d" % (m, i), [("a", m)], v, "a[%du]" % i, lambda a, i=i: list(a[i]))
            add("%s.ccol%d" % (m, i), [("a", m)], v, "static_cast<const %s&>(a)[%du]" % (m, i), lambda a, i=i: list(a[i]), inout=["a"] and [])
            add("%s.wcol%d" % (m, i), [("a", m), ("b", v)], None, "{ a[%du] = b; }" % i,
                lambda a, b, i=i: [list(b) if j == i else a[j] for j in range(len(a))], inout=["a"])
            for j in range(n):
                add("%s.el%d%d" % (m, i, j), [("a", m)], "float", "a[%du][%du]" % (i, j), lambda a, i=i, j=j: a[i][j])
                add("%s.wel%d%d" % (m, i, j), [("a", m), ("b", "float")], None, "{ a[%du][%du] = b; }" % (i, j),
                    lambda a, b, i=i, j=j: [[b if (c, r) == (i, j) else a[c][r] for r in range(len(a))] for c in range(len(a))], inout=["a"])
        ptr(add, m, "float", n * n)
    add("mat3.from_mat2", [("a", "mat2")], "mat3", "mat3(a)", lambda a: [list(a[0]) + [0], list(a[1]) + [0], [0, 0, 1]])
    add("mat4.from_mat3", [("a", "mat3")], "mat4", "mat4(a)", lambda a: [list(a[0]) + [0], list(a[1]) + [0], list(a[2]) + [0], [0, 0, 0, 1]])
    add("mat2.from_mat3", [("a", "mat3")], "mat2", "mat2(a)", lambda a: [list(a[0])[:2], list(a[1])[:2]])
    add("mat3.from_mat4", [("a", "mat4")], "mat3", "mat3(a)", lambda a: [list(c)[:3] for c in a[:3]])
    return obs


def index(add, t, s, n):
    for i in range(n):
        add("%s.at%d" % (t, i), [("a", t)], s, "static_cast<const %s&>(a)[%du]" % (t, i), lambda a, i=i: a[i])
        add("%s.mat%d" % (t, i), [("a", t)], s, "a[%du]" % i, lambda a, i=i: [a[i]] + list(a), inout=["a"])
        add("%s.wat%d" % (t, i), [("a", t), ("b", s)], None, "{ a[%du] = b; }" % i,
            lambda a, b, i=i: [b if j == i else x for j, x in enumerate(a)], inout=["a"])


def ptr(add, t, s, n):
    for i in range(n):
        add("%s.ptr%d" % (t, i), [("a", t)], s, "value_ptr(a)[%d]" % i, lambda a, i=i: flat(list(a))[i])
        add("%s.wptr%d" % (t, i), [("a", t), ("b", s)], None, "{ value_ptr(a)[%d] = b; }" % i,
            lambda a, b, i=i: [b if j == i else x for j, x in enumerate(flat(list(a)))], inout=["a"])
