"""The benchmark's workload is the same program for zcm and for GLM."""
import json
import os
import re
import shutil
from .. import build
from ..check import AnalysisError
from .c35 import Located

RULE = ("The string literals of the benchmark generator (tools/benchgen) are read from its token stream. Each entry of the snippet table is placed, as the "
        "generator does, in a function of its own behind the generator's preamble; clang and g++ type-check the result in C++11, the standard of the "
        "generated build scripts, once for zcm and once with GLM_VARIANT for GLM. A snippet must be accepted for both, and from the type-checked syntax "
        "trees its local variables and the functions it calls must correspond: same names, in zcm and glm respectively, of the same types. The preamble "
        "is a format string with one placeholder and no other brace.")
ASSUME = ["the installed GLM (0.9.9.8) stands for GLM"]
SIMPLE = {"n": "\n", "t": "\t", "\\": "\\", '"': '"', "'": "'", "0": "\0", "r": "\r"}


def tokens(s):
    """(kind, text, line): 'str' with the literal's value (adjacent ones joined), 'id', 'p' for punctuation"""
    out, i, ln = [], 0, 1
    pat = re.compile(r'//[^\n]*|/\*.*?\*/|(?:u8|[uUL])?R"([^\s()\\]{0,16})\(|(?:u8|[uUL])?"((?:[^"\\\n]|\\.)*)"|\'(?:[^\'\\]|\\.)+\'|[A-Za-z_]\w*|\d[\w.\']*|\s+|.', re.S)
    while i < len(s):
        m = pat.match(s, i)
        t = m.group(0)
        j = m.end()
        if m.group(1) is not None:
            e = s.index(")" + m.group(1) + '"', j)
            v, j = s[j:e], e + len(m.group(1)) + 2
            kind = "str"
        elif m.group(2) is not None:
            v, kind = re.sub(r'\\(.)', lambda x: SIMPLE.get(x.group(1), x.group(1)), m.group(2)), "str"
        elif t.startswith(("//", "/*")) or t.isspace():
            kind = v = None
        else:
            kind, v = ("id" if re.match(r'\w', t) else "p"), t
        if kind == "str" and out and out[-1][0] == "str":
            out[-1] = ("str", out[-1][1] + v, out[-1][2])
        elif kind:
            out.append((kind, v, ln))
        ln += s.count("\n", i, j)
        i = j
    return out


def tables(ts):
    """initialiser lists that consist of string literals: [[(text, line)]]"""
    out, i = [], 0
    while i < len(ts):
        if ts[i][:2] == ("p", "{"):
            j, l = i + 1, []
            while j < len(ts) and (ts[j][0] == "str" or ts[j][:2] == ("p", ",")):
                if ts[j][0] == "str":
                    l.append((ts[j][1], ts[j][2]))
                j += 1
            if l and j < len(ts) and ts[j][:2] == ("p", "}"):
                out.append(l)
                i = j
        i += 1
    return out


def norm(t):
    """a type of either library under a common name"""
    t = t.get("desugaredQualType") or t.get("qualType", "")
    t = re.sub(r'\bconst\b|\s|&', '', t)
    f = r'(?:,glm::(?:qualifier::)?\w+)?>'
    t = re.sub(r'glm::vec<(\d),float' + f, r'vec\1', t)
    t = re.sub(r'glm::vec<(\d),int' + f, r'ivec\1', t)
    t = re.sub(r'glm::vec<(\d),bool' + f, r'bvec\1', t)
    t = re.sub(r'glm::mat<(\d),\1,float' + f, r'mat\1', t)
    t = re.sub(r'glm::qua<float' + f, 'quat', t)
    return t.replace("struct", "").replace("zcm::", "")


def uses(cmd, src):
    """{function number: [variables and calls]}"""
    r = build.run(cmd + ["-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=zsa_snippet_", src])
    if r.returncode:
        raise AnalysisError("no syntax tree: " + r.stderr[-300:])
    out, dec, s = {}, json.JSONDecoder(), r.stdout
    i = s.find("{")
    while i >= 0:
        n, e = dec.raw_decode(s, i)
        m = re.match(r'zsa_snippet_(\d+)$', n.get("name", ""))
        if m:
            l = out.setdefault(int(m.group(1)), [])

            def walk(x):
                k = x.get("kind")
                if k == "VarDecl":
                    l.append("variable %s of type %s" % (x.get("name"), norm(x.get("type", {}))))
                if k == "DeclRefExpr" and x.get("referencedDecl", {}).get("kind") in ("FunctionDecl", "CXXMethodDecl"):
                    f = x["referencedDecl"].get("name", "")
                    if not f.startswith("operator"):
                        l.append("call of %s" % f)
                for c in x.get("inner", ()):
                    walk(c)
            walk(n)
        i = s.find("{", e)
    return out


def check(ck):
    top = os.path.join(build.REPO, "tools", "benchgen")
    names = sorted(f for f in os.listdir(top) if re.search(r'\.(h|hpp|cpp|cc|inc)$', f)) if os.path.isdir(top) else []
    lits, tabs = [], []
    for f in names:
        ts = tokens(open(os.path.join(top, f), errors="replace").read())
        lits += [(v, f, ln) for k, v, ln in ts if k == "str"]
        tabs += [(f, l) for l in tables(ts)]
    pre = [x for x in lits if "GLM_VARIANT" in x[0] and "#include <zcm/" in x[0]]
    tabs = [(f, l) for f, l in tabs if len(l) > 4]
    if len(pre) != 1 or not tabs:
        raise AnalysisError("the generator's preamble (%d candidates) or snippet table (%d) was not found" % (len(pre), len(tabs)))
    text, pf, pl = pre[0]
    rest = text.replace("{{", "").replace("}}", "")
    if rest.count("{}") != 1 or "{" in rest.replace("{}", "") or "}" in rest.replace("{}", ""):
        ck.fail("preamble", "is not a format string with exactly one placeholder", "tools/benchgen/%s:%d" % (pf, pl), "c++11")
        return
    ck.ok()
    text = text.replace("{}", "zsa_none.h").replace("{{", "{").replace("}}", "}")
    d = os.path.join(build.tmpdir(), "c36")
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "zsa_none.h"), "w").write("#pragma once\n")
    sn = [(s, "tools/benchgen/%s:%d" % (f, ln)) for f, l in tabs for s, ln in l]
    body, where = text + "\n", {}
    for k, (s, at) in enumerate(sn):
        a = body.count("\n") + 1
        body += "void zsa_snippet_%d()\n{\n%s\n}\n\n" % (k, s)
        for x in range(a, body.count("\n") + 1):
            where[x] = k
    src = os.path.join(d, "snippets.cpp")
    open(src, "w").write(body)
    inc = os.path.join(build.REPO, "include")
    gxx = shutil.which("g++")
    bad = set()
    for lib, flag in (("zcm", []), ("GLM", ["-DGLM_VARIANT=1"])):
        for cc in [build.CLANG, gxx] if gxx else [build.CLANG]:
            lim = "-ferror-limit=0" if cc == build.CLANG else "-fmax-errors=0"
            r = build.run([cc, "-std=c++11", "-w", "-fsyntax-only", lim, "-I" + inc] + flag + [src])
            hits = {}
            for m in re.finditer(r'^(.*?):(\d+):\d+: (?:fatal )?error: (.*)$', r.stderr, re.M):
                if os.path.basename(m.group(1)) == "snippets.cpp":
                    hits.setdefault(where.get(int(m.group(2)), -1), m.group(3))
            # an error inside a header is reported with the line of the snippet in a note
            if r.returncode and not hits:
                ks = [where[int(m.group(1))] for m in re.finditer(r'snippets\.cpp:(\d+):', r.stderr) if int(m.group(1)) in where]
                hits[ks[0] if ks else -1] = r.stderr.strip().split("\n")[0][:200]
            for k, msg in sorted(hits.items()):
                if (k, lib) in bad:
                    continue
                bad.add((k, lib))
                s, at = sn[k] if k >= 0 else ("", "tools/benchgen/%s:%d" % (pf, pl))
                ck.fail("%s:%s" % (lib, "preamble" if k < 0 else key(s)), "does not compile for %s: %s" % (lib, msg), at, "c++11/" + os.path.basename(cc))
            ck.ok(len(sn) - len(hits))
    if bad:
        return
    cmd = [build.CLANG, "-std=c++11", "-w", "-fsyntax-only", "-I" + inc]
    z, g = uses(cmd, src), uses(cmd + ["-DGLM_VARIANT=1"], src)
    n = 0
    for k, (s, at) in enumerate(sn):
        if k not in z or k not in g:
            raise AnalysisError("snippet %d not found in the syntax tree" % k)
        n += len(z[k])
        if sorted(z[k]) != sorted(g[k]):
            a, b = sorted(set(z[k]) - set(g[k])), sorted(set(g[k]) - set(z[k]))
            ck.fail("differs:" + key(s), "is not the same program for zcm (%s) and GLM (%s)" % (", ".join(a[:3]), ", ".join(b[:3])), at, "c++11")
        else:
            ck.ok(1, "%s: %s" % (at, ", ".join(z[k])) if len(ck.samples) < 4 else None)
    if n < 60:
        raise AnalysisError("only %d variables and calls seen in the snippets" % n)
    ck.cov.update(snippets=len(sn), variables_and_calls=n)
    ck.configs += ["c++11/zcm", "c++11/GLM"]


def key(s):
    return re.sub(r'\W+', '_', s).strip("_")[:60]
