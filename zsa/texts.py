"""The program text the sources have under a compiler and its options, conditional directives resolved."""
import os
import re
from concurrent.futures import ThreadPoolExecutor
from . import build, decls

# none of these is part of the library's configuration
VARIANTS = {
    "g++": ["g++", "-O0"],
    "g++ -O3": ["g++", "-O3"],
    "g++ -std=c++11": ["g++", "-std=c++11", "-O2"],
    "g++ -std=c++17": ["g++", "-std=c++17", "-O1"],
    "g++ -std=gnu++20": ["g++", "-std=gnu++20", "-Os"],
    "g++ -march=x86-64-v3 -ffast-math -fopenmp": ["g++", "-march=x86-64-v3", "-ffast-math", "-fopenmp", "-O2"],
    "g++ -fno-exceptions -fno-rtti -pthread": ["g++", "-fno-exceptions", "-fno-rtti", "-pthread", "-fPIC", "-D_DEBUG", "-DDEBUG"],
    "clang -O0": ["clang", "-O0"],
    "clang -std=c++11": ["clang", "-std=c++11", "-O2"],
    "clang -std=c++20": ["clang", "-std=c++20", "-O2"],
}
TOK = re.compile(r'//[^\n]*|/\*.*?\*/|"(?:[^"\\\n]|\\.)*"|\'(?:[^\'\\]|\\.)+\'|[A-Za-z_]\w*|\d[\w.]*|\n|[^\S\n]+|.', re.S)


def parts(text, cwd):
    """{file of the repository: its tokens, as (text, line)}"""
    out, cur, ln, buf = {}, None, 1, {}
    root = os.path.realpath(build.REPO) + "/"
    for l in text.split("\n"):
        m = re.match(r'# (\d+) "((?:[^"\\]|\\.)*)"', l)
        if m:
            ln = int(m.group(1))
            f = m.group(2)
            f = os.path.realpath(f if os.path.isabs(f) else os.path.join(cwd, f))
            cur = buf.setdefault(f[len(root):], []) if f.startswith(root) else None
            continue
        if cur is not None:
            cur.append((ln, l))
        ln += 1
    for f, ls in buf.items():
        if not f.startswith(("src/", "include/")):
            continue
        s = "\n".join(l for _, l in ls)
        nos = [n for n, _ in ls]
        ts, i = [], 0
        for m in TOK.finditer(s):
            t = m.group(0)
            if not (t.isspace() or t.startswith(("//", "/*")) or t == "\\"):
                ts.append((t, nos[i] if i < len(nos) else 0))
            i += t.count("\n")
        out[f] = plain(ts)
    return out


def plain(ts):
    """without attributes"""
    out, i = [], 0
    while i < len(ts):
        t = ts[i][0]
        if t in ("__attribute__", "__declspec") or t == "[" and i + 1 < len(ts) and ts[i + 1][0] == "[":
            o, c = ("[", "]") if t == "[" else ("(", ")")
            d, i = 0, i if t == "[" else i + 1
            while i < len(ts):
                d += (ts[i][0] == o) - (ts[i][0] == c)
                i += 1
                if d == 0:
                    break
            continue
        out.append(ts[i])
        i += 1
    return out


def preprocess(cmd, flags, src):
    flags = [f for f in flags if not f.startswith("-std=")] if any(c.startswith("-std=") for c in cmd) else flags
    r = build.run(cmd + flags + ["-E", "-fdirectives-only", "-w", src])
    return parts(r.stdout, os.getcwd()) if r.returncode == 0 else None


def compare(config, variants):
    """(number of files compared, [(key, text, where)])"""
    bt, extra = build.CONFIGS[config]
    nd = ["-DNDEBUG"] if bt == "Release" else []
    jobs = [(src, flags + extra + nd) for src, flags in build.cmake_db(bt)]
    hs = os.path.join(build.tmpdir(), "texts.%s.cpp" % config)
    open(hs, "w").write("".join("#include <%s>\n" % h for h in decls.headers()))
    jobs.append((hs, jobs[0][1]))
    n, bad, failed = 0, {}, []

    def one(j):
        src, flags = j
        base = preprocess(["clang", "-O1"], flags, src)
        return src, base, [(v, preprocess(cmd, flags, src)) for v, cmd in VARIANTS.items() if v in variants]
    with ThreadPoolExecutor(8) as ex:
        for src, base, vs in ex.map(one, jobs):
            if base is None:
                failed.append("clang: " + src)
                continue
            for v, p in vs:
                if p is None:
                    failed.append(v + ": " + src)
                    continue
                for f in sorted(set(base) | set(p)):
                    n += 1
                    a, b = base.get(f, []), p.get(f, [])
                    if [t for t, _ in a] != [t for t, _ in b]:
                        k = next((k for k, (x, y) in enumerate(zip(a, b)) if x[0] != y[0]), min(len(a), len(b)))
                        ln = (b[k:k + 1] or a[k:k + 1] or [("", 0)])[0][1]
                        show = lambda l: " ".join(t for t, _ in l[k:k + 8]) or "nothing"
                        bad.setdefault(f, ("text:" + f, "the program text depends on the compiler or its options: `%s` under %s, `%s` under clang"
                                           % (show(b), v, show(a)), "%s:%d" % (f, ln)))
    return n, list(bad.values()), failed
