"""Including a public header leaves the rest of the program as it was."""
import os
import re
from concurrent.futures import ThreadPoolExecutor
from .. import build, decls
from ..check import AnalysisError
from .c29 import first

RULE = ("For each public header in each build variant: (1) the preprocessor's record of the translation unit (`clang -E -dD`): a macro that a file of the "
        "library leaves defined is named zcm_/ZCM_..., the library redefines and undefines no other macro; every pragma it leaves in the text is inside a "
        "push/pop pair of its kind; (2) the type-checked syntax tree: a declaration outside namespaces whose file belongs to the library is a namespace, "
        "a static assertion or a specialisation of std::hash for a type of the library; a namespace is zcm, or std with such specialisations alone; no "
        "using-directive or -declaration is at file scope; (3) the files read: besides those of the library only ones that the freestanding integer and "
        "size headers read, for hash.hpp also <functional>; (4) the translation unit alone emits no code, no data and no start-up code.")
ASSUME = ["clang's preprocessor and front end", "the C headers of the compiler are not part of the library"]
VARIANTS = ("debug", "release", "noswizzle")
FREE = "stdint.h stddef.h limits.h float.h stdbool.h cstdint cstddef climits cfloat".split()
ALSO = {"hash.hpp": ["functional"]}


def files(flags, text, d, name):
    p = os.path.join(d, name)
    open(p, "w").write(text)
    r = build.run([build.CLANG] + flags + ["-w", "-M", "-MT", "x", p])
    if r.returncode:
        raise AnalysisError("does not preprocess: " + first(r.stderr))
    return {os.path.realpath(f) for f in r.stdout.replace("\\\n", " ").split()[1:]} - {os.path.realpath(p)}


def macros(text, mine):
    """[(file, line, directive, name or text)] of the directives and pragmas found in files of the library"""
    out, cur, ln = [], "", 0
    for s in text.split("\n"):
        m = re.match(r'# (\d+) "((?:[^"\\]|\\.)*)"', s)
        if m:
            ln, cur = int(m.group(1)) - 1, m.group(2)
            continue
        ln += 1
        m = re.match(r'\s*#\s*(define|undef|pragma)\b\s*(.*)', s)
        if m and mine(cur):
            out.append((cur, ln, m.group(1), m.group(2)))
    return out


def check_directives(ck, h, cfg, ds, short):
    own = re.compile(r'_*zcm_', re.I)
    state, stack = {}, []
    for f, ln, d, x in ds:
        at = "%s:%d" % (short(f), ln)
        if d == "pragma":
            w = x.split("(")[0].split()
            kind = " ".join(w[:2]) if w and w[0] in ("GCC", "clang") and len(w) > 1 else w[0] if w else ""
            t = re.sub(r'\s', '', x)
            if kind == "once" or kind in ("GCC system_header", "clang system_header"):
                continue
            if re.search(r'\bpush', x) and kind not in ("push_macro",):
                stack.append((kind, at))
            elif re.search(r'\bpop', x) and kind not in ("pop_macro",):
                if not stack or stack[-1][0].split("_")[0] != kind.split("_")[0]:
                    ck.fail("%s:pragma" % h, "#pragma %s ends a region that it did not begin" % x, at, cfg)
                elif stack:
                    stack.pop()
            elif kind in ("push_macro", "pop_macro", "message", "comment", "GCC poison", "clang poison", "mark", "region", "endregion"):
                pass
            elif not any(k.split("_")[0] == kind.split("_")[0] or k.split()[0] == kind.split()[0] for k, _ in stack):
                ck.fail("%s:pragma" % h, "#pragma %s stays in effect for the rest of the including program" % x, at, cfg)
            continue
        n = re.match(r'\w+', x)
        n = n.group(0) if n else x
        if d == "undef" and n in state and state[n][0] == "define":
            del state[n]        # a helper of the header itself
            continue
        state[n] = (d, at)
    for kind, at in stack:
        ck.fail("%s:pragma" % h, "the region begun by #pragma %s push does not end" % kind, at, cfg)
    for n, (d, at) in sorted(state.items()):
        if not own.match(n):
            if d == "define":
                ck.fail("%s:macro:%s" % (h, n), "leaves the macro %s defined in the including program" % n, at, cfg)
            else:
                ck.fail("%s:macro:%s" % (h, n), "undefines the macro %s of the including program" % n, at, cfg)
        else:
            ck.ok()
    return len(state)


class Located:
    """walks clang's JSON in printing order, which is what its file names (printed only where they change) refer to"""

    def __init__(self):
        self.file = ""

    def loc(self, d):
        """position an object was spelled at; updates the current file"""
        if not isinstance(d, dict):
            return None
        if "spellingLoc" in d or "expansionLoc" in d:
            self.loc(d.get("spellingLoc"))
            return self.loc(d.get("expansionLoc"))
        if "file" in d:
            self.file = d["file"]
        if "line" in d:
            self.line = d["line"]
        return (self.file, getattr(self, "line", 0)) if "offset" in d else None

    def node(self, n):
        """annotates n and everything below with n['at']"""
        n["at"] = None
        for k, v in n.items():
            if k == "loc":
                n["at"] = self.loc(v)
            elif k == "range":
                b = self.loc(v.get("begin"))
                self.loc(v.get("end"))
                n["at"] = n["at"] or b
            elif k == "inner":
                for c in v:
                    self.node(c)
            elif isinstance(v, dict):
                self.sub(v)
            elif isinstance(v, list):
                for c in v:
                    if isinstance(c, dict):
                        self.sub(c)

    def sub(self, d):
        if "offset" in d or "spellingLoc" in d:
            self.loc(d)
        else:
            for v in d.values():
                if isinstance(v, dict):
                    self.sub(v)
                elif isinstance(v, list):
                    for c in v:
                        if isinstance(c, dict):
                            self.sub(c)


def outside(n, mine, where=()):
    """yields (node, complaint) for declarations of the library outside its namespace; (node, None) for the ones that are fine"""
    for c in n.get("inner", ()):
        k, nm, at = c.get("kind"), c.get("name"), c.get("at")
        if c.get("isImplicit") or not k or not at or not mine(at[0]):
            if k == "LinkageSpecDecl" or (k == "NamespaceDecl" and at and not mine(at[0])):
                for x in outside(c, mine, where + ((nm or "extern"),)):
                    yield x
            continue
        if k in ("StaticAssertDecl", "EmptyDecl"):
            yield c, None
        elif k == "NamespaceDecl":
            if not where and nm == "zcm":
                if c.get("isInline"):
                    yield c, "makes namespace zcm part of the global one (inline)"
                for i in c.get("inner", ()):
                    yield i, None
            elif not where and nm in ("std", None) or where and where[0] == "std":
                for x in outside(c, mine, where + (nm or "(anonymous)",)):
                    yield x
            else:
                yield c, "opens the namespace %s" % "::".join(where + (nm,))
        elif k == "LinkageSpecDecl":
            for x in outside(c, mine, where):
                yield x
        elif where and where[0] == "std" and nm == "hash" and k in ("ClassTemplateSpecializationDecl", "ClassTemplatePartialSpecializationDecl"):
            ts = [a.get("type", {}) for a in c.get("inner", ()) if a.get("kind") == "TemplateArgument"]
            ts = [t.get("desugaredQualType", t.get("qualType", "")) for t in ts]
            yield c, None if all("zcm::" in t for t in ts) and ts else "specialises std::hash for %s, which is not a type of the library" % ", ".join(ts)
        elif where and where[0] == "std" and nm == "hash" and k in ("ClassTemplateDecl", "CXXRecordDecl"):
            yield c, None       # the forward declaration of the template
        elif k == "UsingDirectiveDecl":
            yield c, "makes every name of %s visible without qualification" % (c.get("nominatedNamespace", {}).get("name") or "a namespace")
        elif k == "CXXMethodDecl" or k in ("CXXConstructorDecl", "CXXConversionDecl"):
            yield c, None       # a member of a class of the library, defined outside it
        elif k in ("FunctionDecl", "VarDecl") and c.get("parentDeclContextId"):
            yield c, None       # a member of the library's namespace, defined outside it
        else:
            yield c, "declares %s outside namespace zcm%s" % (nm or k, " (in namespace %s)" % "::".join(where) if where else "")


def check(ck):
    hs = decls.headers()
    if len(hs) < 20:
        raise AnalysisError("only %d public headers found" % len(hs))
    d = build.tmpdir()
    inc = os.path.realpath(build.REPO + "/include") + "/"

    def mine(f):
        return bool(f) and os.path.realpath(f).startswith(inc)

    def short(f):
        return "include/" + os.path.realpath(f)[len(inc):]

    def one(job):
        cfg, h = job
        flags = build.user_flags(cfg)
        tag = "c35_%s_%s" % (cfg, h.replace("/", "_").replace(".", "_"))
        src = os.path.join(d, tag + ".cpp")
        open(src, "w").write("#include <%s>\n" % h)
        pp = build.run([build.CLANG] + flags + ["-w", "-E", "-dD", src])
        tree = None
        import json
        a = build.run([build.CLANG] + flags + ["-w", "-fsyntax-only", "-Xclang", "-ast-dump=json", src])
        if a.returncode == 0:
            t = json.loads(a.stdout)
            Located().node(t)
            tree = [((c.get("kind"), c.get("at"), c.get("name")), m) for c, m in outside(t, mine)]
        ll = build.run([build.CLANG] + flags + ["-w", "-O0", "-S", "-emit-llvm", src, "-o", "-"])
        return pp, a, tree, ll, files(flags, "#include <%s>\n" % h, d, tag + "_m.cpp")

    nmac = ndecl = nfile = 0
    for cfg in VARIANTS:
        flags = build.user_flags(cfg)
        free = files(flags, "".join("#include <%s>\n" % x for x in FREE), d, "c35_free_%s.cpp" % cfg)
        jobs = [(cfg, h) for h in hs]
        with ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(one, jobs))
        for (_, h), (pp, a, tree, ll, dep) in zip(jobs, rs):
            b = os.path.basename(h)
            for r in (pp, a, ll):
                if r.returncode:
                    raise AnalysisError("%s does not compile alone (%s): %s" % (h, cfg, first(r.stderr)))
            nmac += check_directives(ck, b, cfg, macros(pp.stdout, mine), short)
            seen = 0
            for (k, at, nm), msg in tree:
                seen += 1
                if msg:
                    ck.fail("%s:scope:%s" % (b, nm or k), msg, "%s:%d" % (short(at[0]), at[1]), cfg)
                else:
                    ck.ok()
            if not seen and b not in ("swizzle.hpp",):
                raise AnalysisError("no declaration found in %s (%s)" % (h, cfg))
            ndecl += seen
            extra = {f for f in dep if not f.startswith(inc)} - free
            if extra and b in ALSO:
                extra -= files(flags, "".join("#include <%s>\n" % x for x in ALSO[b] + FREE), d, "c35_also_%s_%s.cpp" % (cfg, b))
            nfile += len(dep)
            if extra:
                top = direct(flags, d, h, cfg)
                ck.fail("%s:includes" % b, "brings %d file%s of the standard library into the including program, through %s" %
                        (len(extra), "s" * (len(extra) != 1), ", ".join(top) or sorted(os.path.basename(x) for x in extra)[0]), None, cfg)
            else:
                ck.ok()
            made = [m.group(0) for m in re.finditer(r'^(?:define\b[^@]*@[\w.$"]+|@llvm\.global_(?:ctors|dtors)|@[\w.$"]+ = (?!external|linkonce|available)[^\n]{0,60})', ll.stdout, re.M)
                    if not re.match(r'define\b[^@]*\b(linkonce_odr|linkonce|weak_odr|available_externally)\b', m.group(0))]
            if made:
                ck.fail("%s:emits" % b, "code or data is emitted by the mere inclusion: %s" % made[0][:120], None, cfg)
            else:
                ck.ok(1, "%s (%s): %d declarations, %d files" % (b, cfg, seen, len(dep)) if len(ck.samples) < 4 else None)
    ck.cov.update(macros_and_directives=nmac, declarations=ndecl, files_read=nfile)
    ck.configs += list(VARIANTS)


def direct(flags, d, h, cfg):
    """the standard headers that files of the library name in the translation unit"""
    src = os.path.join(d, "c35_h.cpp")
    open(src, "w").write("#include <%s>\n" % h)
    r = build.run([build.CLANG] + flags + ["-w", "-E", "-dI", src])
    inc = os.path.realpath(build.REPO + "/include") + "/"
    out, cur = [], ""
    for s in r.stdout.split("\n"):
        m = re.match(r'# \d+ "((?:[^"\\]|\\.)*)"', s)
        if m:
            cur = m.group(1)
            continue
        m = re.match(r'#\s*include\s*(<[^>]+>)', s)
        if m and cur and os.path.realpath(cur).startswith(inc) and "zcm/" not in m.group(1) and m.group(1)[1:-1] not in FREE and m.group(1) not in out:
            out.append(m.group(1))
    return out
