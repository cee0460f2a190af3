"""Type-level contracts: layout, conversions, constness, noexcept."""
import os
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor
from .. import build, decls
from ..check import AnalysisError, demangle, demangle_all
from .c29 import first, VARIANTS
from .lib import *

RULE = ("(1) static_assert witnesses over every public value type, evaluated by the compiler from the current headers: size = number of components x component "
        "size, alignment, trivial copyability, standard layout, trivially destructible, nothrow copy/default construction, and the offset of the first component. "
        "(2) The full table of implicit/explicit convertibility and assignability between all public value types and the scalar types, as static_asserts. "
        "(3) Compile-fail witnesses: programs that mix sizes or kinds, lose precision implicitly, or write through const are type-checked one by one and must be "
        "rejected, each next to a control program, differing only in the offending token, that must be accepted. (4) In the type-checked syntax tree every declared "
        "function must carry a non-throwing exception specification.")
ASSUME = ["x86-64 Linux ABI"]

TYPES = ["%s%d" % (k, n) for k in ("vec", "ivec", "bvec") for n in NS] + ["mat%d" % n for n in NS] + ["quat"]
ELEM = {"vec": ("float", 4), "ivec": ("int32_t", 4), "bvec": ("bool", 1), "mat": ("float", 4), "quat": ("float", 4)}
ALIGN16 = {"vec4", "ivec4", "quat", "mat4"}
SCAL = ["bool", "int32_t", "int64_t", "float", "double"]
# (from, to) -> implicit ; everything else between distinct value types is not
IMPL = {("ivec%d" % n, "bvec%d" % n) for n in NS}
for _n in NS:
    IMPL |= {(s, "vec%d" % _n) for s in ("float", "int32_t", "bool")}
    IMPL |= {(s, "ivec%d" % _n) for s in ("int32_t", "bool")}
EXPL = {("vec3", "quat")} | {(a, b) for a, b in (("mat2", "mat3"), ("mat3", "mat2"), ("mat3", "mat4"), ("mat4", "mat3"))}
for _n in NS:
    EXPL |= {(s, "bvec%d" % _n) for s in ("bool",)}
    EXPL |= {(s, "mat%d" % _n) for s in ("float",)}
# left open: which numeric scalars the explicit bool-vector, matrix and quaternion constructors accept by the language's own conversions,
# and conversions between matrices of different size the library does not offer today
OPEN = {(s, t) for s in SCAL for t in TYPES if t.startswith(("bvec", "mat", "quat"))} | {(a, b) for a in TYPES for b in TYPES if a.startswith("mat") and b.startswith("mat") and a != b}


def base(t):
    return t.rstrip("234")


def layout_asserts():
    out = []

    def a(key, cond):
        out.append((key, cond))
    for t in TYPES:
        e, sz = ELEM[base(t)]
        n = 4 if t == "quat" else int(t[-1]) ** (2 if t.startswith("mat") else 1)
        a(t + ".size", "sizeof(%s) == %d" % (t, n * sz))
        a(t + ".align", "alignof(%s) == %d" % (t, 16 if t in ALIGN16 else sz))
        a(t + ".trivially_copyable", "std::is_trivially_copyable<%s>::value" % t)
        a(t + ".standard_layout", "std::is_standard_layout<%s>::value" % t)
        a(t + ".destructible", "std::is_trivially_destructible<%s>::value" % t)
        a(t + ".copy", "std::is_copy_constructible<%s>::value && std::is_copy_assignable<%s>::value" % (t, t))
        a(t + ".nothrow", "std::is_nothrow_copy_constructible<%s>::value && std::is_nothrow_copy_assignable<%s>::value && std::is_nothrow_default_constructible<%s>::value" % (t, t, t))
        a(t + ".array", "sizeof(%s[3]) == %d" % (t, 3 * n * sz))
        if t == "quat" or t.startswith("bvec"):
            a(t + ".order", " && ".join("__builtin_offsetof(%s, %s) == %d" % (t, c, i * sz) for i, c in enumerate("xyzw"[:n])))
        a(t + ".notpoly", "!std::is_polymorphic<%s>::value && !std::is_empty<%s>::value" % (t, t))
        el = "vec%s" % t[-1] if t.startswith("mat") else "bool" if t.startswith("bvec") else e
        a(t + ".index.const", "is_one_of<decltype(std::declval<const %s&>()[0u]), const %s&, %s>::value" % (t, el, el))
        a(t + ".index.mutable", "std::is_same<decltype(std::declval<%s&>()[0u]), %s&>::value" % (t, el))
        if t.startswith(("vec", "mat", "quat")):
            a(t + ".value_ptr.const", "std::is_same<decltype(zcm::value_ptr(std::declval<const %s&>())), const %s*>::value" % (t, e))
    return out


def conversion_asserts():
    out = []
    for s in SCAL + TYPES:
        for t in TYPES + SCAL:
            if s in SCAL and t in SCAL or s == t:
                continue
            imp = (s, t) in IMPL
            out.append(("%s->%s.implicit" % (s, t), "%sstd::is_convertible<%s, %s>::value" % ("" if imp else "!", s, t)))
            out.append(("%s->%s.assign" % (s, t), "%sstd::is_assignable<%s&, %s>::value" % ("" if imp else "!", t, s)))
            if (s, t) in OPEN and (s, t) not in EXPL:
                continue
            con = imp or (s, t) in EXPL
            out.append(("%s->%s.explicit" % (s, t), "%sstd::is_constructible<%s, %s>::value" % ("" if con else "!", t, s)))
    return out


def witnesses():
    """(key, parameters, accepted statement, rejected statement)"""
    w = []

    def add(key, params, good, bad):
        w.append((key, params, good, bad))
    fams = {"vec": "float", "ivec": "int32_t"}
    for fam, e in fams.items():
        for n in NS:
            t = "%s%d" % (fam, n)
            for m in NS:
                if m != n:
                    for op in "+-*/":
                        add("%s%s%s%d" % (t, op, fam, m), "%s a, %s b, %s%d c" % (t, t, fam, m), "(void)(a %s b);" % op, "(void)(a %s c);" % op)
                    add("%s+=%s%d" % (t, fam, m), "%s& a, %s b, %s%d c" % (t, t, fam, m), "a += b;", "a += c;")
                    add("%s==%s%d" % (t, fam, m), "%s a, %s b, %s%d c" % (t, t, fam, m), "(void)(a == b);", "(void)(a == c);")
                    add("%s=%s%d" % (t, fam, m), "%s& a, %s b, %s%d c" % (t, t, fam, m), "a = b;", "a = c;")
            oth = "ivec" if fam == "vec" else "vec"
            for op in "+-*/":
                add("%s%s%s" % (t, op, oth), "%s a, %s b, %s%d c" % (t, t, oth, n), "(void)(a %s b);" % op, "(void)(a %s c);" % op)
            add("%s=%s" % (t, oth), "%s& a, %s b, %s%d c" % (t, t, oth, n), "a = b;", "a = c;")
            # construction with the wrong number of components
            ok = ", ".join("x" for _ in range(n))
            add("%s.ctor.toomany" % t, "%s x" % e, "%s v(%s); (void)v;" % (t, ok), "%s v(%s, x); (void)v;" % (t, ok))
            if n > 2:
                add("%s.ctor.toofew" % t, "%s x" % e, "%s v(%s); (void)v;" % (t, ok), "%s v(%s); (void)v;" % (t, ok[3:]))
            # constness
            for c in "xyzw"[:n] + "rgba"[:n] + "stpq"[:n]:
                add("%s.const.%s" % (t, c), "%s& a, const %s& b, %s x" % (t, t, e), "a.%s = x;" % c, "b.%s = x;" % c)
                add("%s.const.%s+=" % (t, c), "%s& a, const %s& b, %s x" % (t, t, e), "a.%s += x;" % c, "b.%s += x;" % c)
            add("%s.name.beyond" % t, "%s a" % t, "(void)a.%s;" % "xyzw"[n - 1], "(void)a.%s;" % ("xyzw"[n] if n < 4 else "v"))
        add("%s.lossy" % fam, "%s3& a, float f, int32_t i, double d" % fam, "a = %s;" % ("f" if fam == "vec" else "i"), "a = d;")
    add("ivec.float", "ivec3& a, float f, int32_t i", "a = i;", "a = f;")
    for t in TYPES:
        el = "vec%s" % t[-1] if t.startswith("mat") else ELEM[base(t)][0]
        add(t + ".const.index", "%s& a, const %s& b, %s x" % (t, t, el), "%s& r = a[0]; r = x;" % el, "%s& r = b[0]; r = x;" % el)
        add(t + ".const.assign", "%s& a, const %s& b" % (t, t), "a = b;", "b = a;")
        if not t.startswith("bvec"):
            ops = "+-*/" if not t.startswith("quat") else "+-*"
            for op in ops:
                add("%s.const.%s=" % (t, op), "%s& a, const %s& b" % (t, t), "a %s= b;" % op, "b %s= a;" % op)
        if base(t) in ("vec", "ivec"):
            add(t + ".const.++", "%s& a, const %s& b" % (t, t), "++a;", "++b;")
            add(t + ".rvalue_part", "%s& a" % t, "%s& r = a[0]; (void)r;" % ELEM[base(t)][0], "%s& r = +a; (void)r;" % t)
    for n in NS:
        for m in NS:
            if n != m:
                add("mat%d*vec%d" % (n, m), "mat%d a, vec%d b, vec%d c" % (n, n, m), "(void)(a * b);", "(void)(a * c);")
                add("vec%d*mat%d" % (m, n), "mat%d a, vec%d b, vec%d c" % (n, n, m), "(void)(b * a);", "(void)(c * a);")
                for op in "+-*/":
                    add("mat%d%smat%d" % (n, op, m), "mat%d a, mat%d b, mat%d c" % (n, n, m), "(void)(a %s b);" % op, "(void)(a %s c);" % op)
        add("mat%d=float" % n, "mat%d& a, mat%d b, float c" % (n, n), "a = b;", "a = c;")
        add("bvec%d=bool" % n, "bvec%d& a, bvec%d b, bool c" % (n, n), "a = b;", "a = c;")
    for m in (2, 4):
        add("quat*vec%d" % m, "quat q, vec3 v, vec%d u" % m, "(void)(q * v);", "(void)(q * u);")
    add("quat.implicit.vec3", "quat& q, vec3 v", "q = quat(v);", "q = v;")
    add("quat.lt", "quat a, quat b", "(void)(a == b);", "(void)(a < b);")
    add("mat.lt", "mat3 a, mat3 b", "(void)(a == b);", "(void)(a < b);")
    add("dot.size", "vec3 a, vec3 b, vec2 c", "(void)dot(a, b);", "(void)dot(a, c);")
    add("distance.size", "vec3 a, vec3 b, vec4 c", "(void)distance(a, b);", "(void)distance(a, c);")
    add("cross.size", "vec3 a, vec3 b, vec4 c", "(void)cross(a, b);", "(void)cross(c, c);")
    add("reflect.size", "vec3 a, vec3 b, vec2 c", "(void)reflect(a, b);", "(void)reflect(a, c);")
    add("normalize.kind", "vec3 a, ivec3 b", "(void)normalize(a);", "(void)normalize(b);")
    add("angleAxis.order", "float a, vec3 v, vec4 u", "(void)angleAxis(a, v);", "(void)angleAxis(a, u);")
    add("rotate.axis", "mat4 m, float a, vec3 v, vec2 u", "(void)rotate(m, a, v);", "(void)rotate(m, a, u);")
    add("translate.vec", "mat4 m, vec3 v, vec4 u", "(void)translate(m, v);", "(void)translate(m, u);")
    add("value_ptr.const", "vec3& a, const vec3& b", "*value_ptr(a) = 1.f;", "*value_ptr(b) = 1.f;")
    add("value_ptr.mat.const", "mat4& a, const mat4& b", "*value_ptr(a) = 1.f;", "*value_ptr(b) = 1.f;")
    add("lerp.size", "vec3 a, vec3 b, vec2 c, float t", "(void)mix(a, b, t);", "(void)mix(a, c, t);")
    add("length.kind", "vec3 a, ivec3 b", "(void)length(a);", "(void)length(b);")
    return w


HEAD = "#include <type_traits>\n#include <utility>\n" \
       "template<class T, class A, class B> struct is_one_of { enum { value = std::is_same<T, A>::value || std::is_same<T, B>::value }; };\n"


def check(ck):
    inc = HEAD + "".join("#include <%s>\n" % h for h in decls.headers()) + "using namespace zcm;\n"
    d = build.tmpdir()
    for cfg in VARIANTS:
        flags = build.user_flags(cfg) + ["-fsyntax-only", "-w", "-ferror-limit=0", "-fno-color-diagnostics"]
        ck.configs.append(cfg)
        # (1), (2)
        asserts = layout_asserts() + conversion_asserts()
        lines = inc.count("\n")
        src = os.path.join(d, "c32.%s.cpp" % cfg)
        open(src, "w").write(inc + "".join("static_assert(%s, \"\");\n" % c for _, c in asserts))
        r = build.run([build.CLANG] + flags + [src])
        bad = {}
        for m in re.finditer(r'c32\.\w+\.cpp:(\d+):\d+: error: (.*)', r.stderr):
            i = int(m.group(1)) - lines - 1
            if not 0 <= i < len(asserts):
                raise AnalysisError("witness program: " + m.group(0))
            bad.setdefault(i, m.group(2))
        if r.returncode and not bad:
            raise AnalysisError("witness program does not compile: " + first(r.stderr))
        for i, (k, c) in enumerate(asserts):
            if i in bad:
                ck.fail(k, "the type-level fact `%s` does not hold" % c, None, cfg)
            else:
                ck.ok(1, "%s: %s" % (cfg, c) if i % 97 == 0 else None)
        # (3)
        ws = witnesses()
        if len({w[0] for w in ws}) != len(ws):
            raise AnalysisError("duplicate witness")

        src = os.path.join(d, "c32good.%s.cpp" % cfg)
        open(src, "w").write(inc + "".join("void g%d(%s) { %s }\n" % (i, p, g) for i, (k, p, g, b) in enumerate(ws)))
        r = build.run([build.CLANG] + flags + [src])
        good = set()
        for m in re.finditer(r'c32good\.\w+\.cpp:(\d+):\d+: error: (.*)', r.stderr):
            i = int(m.group(1)) - lines - 1
            if not 0 <= i < len(ws):
                raise AnalysisError("control program: " + m.group(0))
            good.add(i)
            ck.fail(ws[i][0] + "/control", "`%s` with (%s) is rejected: %s" % (ws[i][2], ws[i][1], m.group(2)), None, cfg)
        if r.returncode and not good:
            raise AnalysisError("control program does not compile: " + first(r.stderr))
        src = os.path.join(d, "c32bad.%s.cpp" % cfg)
        # each witness in a function of its own: clang reports every function's error; one that reports none is accepted
        open(src, "w").write(inc + "".join("void g%d(%s) { %s }\n" % (i, p, b) for i, (k, p, g, b) in enumerate(ws)))
        r = build.run([build.CLANG] + flags + [src])
        rejected = {int(m.group(1)) - lines - 1: m.group(2) for m in re.finditer(r'c32bad\.\w+\.cpp:(\d+):\d+: error: (.*)', r.stderr)}
        for i, (k, p, g, b) in enumerate(ws):
            if i not in rejected:
                ck.fail(k, "`%s` with (%s) is accepted by the compiler" % (b, p), None, cfg)
            else:
                ck.ok(2, "%s: `%s` rejected: %s" % (cfg, b, rejected[i]) if i % 61 == 0 else None)
        ck.cov["witnesses"] = ck.cov.get("witnesses", 0) + len(ws)
        ck.cov["static_asserts"] = ck.cov.get("static_asserts", 0) + len(asserts)
        # (4)
        ds = decls.declared(decls.ast(cfg, name="c32d"))
        demangle_all(ds)
        if len(ds) < 800:
            raise AnalysisError("only %d declarations found" % len(ds))
        for m, (q, ty, body, line) in sorted(ds.items()):
            if "detail::" in q:
                continue
            if "noexcept" in ty and "noexcept(false)" not in ty or q.split("::")[-1].startswith("~"):
                ck.ok()
            else:
                ck.fail("noexcept:" + re.sub(r'\s+', '', demangle(m)), "%s may throw according to its declaration" % demangle(m), None, cfg)
        ck.cov["declarations"] = ck.cov.get("declarations", 0) + len(ds)
