"""Declarations of the public headers, resolved by clang (type-checked AST)."""
import glob
import json
import os
from . import build

FN = {"FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXConversionDecl", "CXXDestructorDecl"}


def headers():
    return sorted(os.path.relpath(p, build.REPO + "/include") for p in glob.glob(build.REPO + "/include/zcm/*.hpp"))


def ast(cfg, text=None, name="decls"):
    src = os.path.join(build.tmpdir(), "%s.%s.cpp" % (name, cfg))
    open(src, "w").write(text or "".join("#include <%s>\n" % h for h in headers()))
    r = build.run([build.CLANG] + build.user_flags(cfg) + ["-w", "-fsyntax-only", "-Xclang", "-ast-dump=json", src])
    if r.returncode:
        raise build.BuildError("public headers do not compile together (%s):\n%s" % (cfg, r.stderr[-2000:]))
    return json.loads(r.stdout)


def declared(tree):
    """{mangled: (qualified name, type, has body, line)} for functions of namespace zcm and std::hash specialisations of it"""
    out = {}

    def walk(n, scope, inzcm, pattern):
        k = n.get("kind")
        nm = n.get("name")
        if k == "NamespaceDecl":
            inzcm2 = inzcm or nm == "zcm"
            if not scope and nm not in ("zcm", "std"):
                return
            for c in n.get("inner", ()):
                walk(c, scope + [nm or "(anonymous)"], inzcm2, pattern)
            return
        if k in ("ClassTemplateDecl", "FunctionTemplateDecl"):
            for c in n.get("inner", ()):
                if c.get("kind") in ("ClassTemplateSpecializationDecl",) or (k == "FunctionTemplateDecl" and c.get("kind") in FN and
                                                                            any(x.get("kind") == "TemplateArgument" for x in c.get("inner", ()))):
                    walk(c, scope, inzcm, False)
            return
        if k in ("CXXRecordDecl", "ClassTemplateSpecializationDecl", "LinkageSpecDecl", "UnionDecl"):
            if n.get("isImplicit"):
                return
            for c in n.get("inner", ()):
                walk(c, scope + ([nm] if nm else []), inzcm, pattern)
            return
        if k in FN and not n.get("isImplicit") and n.get("mangledName") and inzcm:
            if n.get("explicitlyDeleted") or n.get("explicitlyDefaulted"):
                return
            body = any(c.get("kind") in ("CompoundStmt", "CXXTryStmt") for c in n.get("inner", ()))
            loc = n.get("loc", {})
            loc = loc.get("expansionLoc", loc)
            old = out.get(n["mangledName"])
            out[n["mangledName"]] = ("::".join(scope + [nm or "?"]), n.get("type", {}).get("qualType", ""), body or (old and old[2]), loc.get("line"))
    for c in tree.get("inner", ()):
        walk(c, [], False, False)
    return out


def defined(cfg):
    lib, _ = build.library(cfg)
    syms = set()
    r = build.run([build.NM, "--defined-only", "--format=just-symbols"] + [b for _, b in lib])
    if r.returncode:
        r = build.run([build.NM, "--defined-only"] + [b for _, b in lib])
        if r.returncode:
            raise build.BuildError("llvm-nm: " + r.stderr[-1000:])
    for ln in r.stdout.split("\n"):
        t = ln.split()
        if t:
            syms.add(t[-1])
    return syms
