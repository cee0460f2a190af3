"""Turns /repo's current working tree into one canonical LLVM module per configuration.

The sources and flags come from the project's own CMake (compile_commands), the
front end is clang; nothing is executed."""
import atexit
import json
import os
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("ZSA_REPO", "/repo")
CLANG, LINK, OPT, NM = "clang++-18", "llvm-link-18", "opt-18", "llvm-nm-18"
if not shutil.which(CLANG):
    CLANG = "/usr/lib/llvm-18/bin/clang++"
for _n in ("LINK", "OPT", "NM"):
    if not shutil.which(globals()[_n]):
        globals()[_n] = "/usr/lib/llvm-18/bin/" + globals()[_n][:-3]


class BuildError(Exception):
    pass


_tmp = None


def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="zsa.")
        pid = os.getpid()

        def clean(d=_tmp):
            if os.getpid() == pid:
                shutil.rmtree(d, ignore_errors=True)
        atexit.register(clean)
    return _tmp


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


FRONT = ["-include", "stddef.h", "-O2", "-Xclang", "-disable-llvm-passes", "-fno-strict-aliasing",
         "-ffp-contract=off", "-fno-builtin", "-fno-exceptions", "-fno-stack-protector", "-g", "-w",
         "-fwrapv", "-fno-color-diagnostics", "-ferror-limit=0", "-fno-slp-vectorize", "-fno-vectorize"]

CONFIGS = {
    # name: (CMAKE_BUILD_TYPE, extra macros)
    "debug": ("Debug", []),
    "release": ("Release", []),
    "noswizzle": ("Debug", ["-DZCM_DISABLE_SWIZZLE"]),
    "cxx11": ("Debug", ["-std=c++11"]),
    "cxx20": ("Release", ["-std=c++20"]),
}


_db = {}


def cmake_db(build_type):
    if build_type in _db:
        return _db[build_type]
    d = os.path.join(tmpdir(), "cm-" + build_type)
    env = dict(os.environ, CC="/usr/bin/clang-18" if os.path.exists("/usr/bin/clang-18") else "clang",
               CXX=shutil.which(CLANG) or CLANG, HOME=tmpdir())
    r = run(["cmake", "-S", REPO, "-B", d, "-DCMAKE_BUILD_TYPE=" + build_type, "-DZCM_ENABLE_TESTS=OFF",
             "-DZCM_GENERATE_BENCHMARK=OFF", "-DZCM_ENABLE_COVERAGE_IN_DEBUG=OFF",
             "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5",
             "-DCMAKE_EXPORT_NO_PACKAGE_REGISTRY=ON", "-DFETCHCONTENT_FULLY_DISCONNECTED=ON"], env=env)
    p = os.path.join(d, "compile_commands.json")
    if r.returncode or not os.path.exists(p):
        raise BuildError("cmake failed:\n" + r.stdout[-2000:] + r.stderr[-2000:])
    db = json.load(open(p))
    out = []
    for e in db:
        toks = e["command"].split()
        flags = []
        i = 1
        while i < len(toks):
            t = toks[i]
            if t in ("-o", "-c"):
                i += 2 if t == "-o" else 1
                continue
            if t.startswith(("-D", "-U", "-I", "-std=")):
                flags.append(t)
            elif t in ("-isystem", "-include"):
                flags += [t, toks[i + 1]]
                i += 1
            i += 1
        src = os.path.realpath(os.path.join(e["directory"], e["file"]))
        if src.startswith(os.path.realpath(REPO) + "/src/"):
            out.append((src, [f.replace('\\"', '"') for f in flags]))
    if not out:
        raise BuildError("no library sources in compile_commands.json")
    _db[build_type] = out
    return out


_lib = {}


def library(config):
    """list of (source, bitcode) for the configuration"""
    if config in _lib:
        return _lib[config]
    bt, extra = CONFIGS[config]
    db = cmake_db(bt)
    d = os.path.join(tmpdir(), "lib-" + config)
    os.makedirs(d)

    def one(e):
        src, flags = e
        o = os.path.join(d, os.path.basename(src) + ".bc")
        if bt == "Release":
            flags = flags + ["-DNDEBUG"]
        r = run([CLANG] + flags + extra + FRONT + ["-emit-llvm", "-c", src, "-o", o])
        return src, o, flags + extra, r
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(one, db))
    bad = [(s, r.stderr) for s, o, f, r in rs if r.returncode]
    if bad:
        raise BuildError("library source does not compile (%s): %s\n%s" % (config, bad[0][0], bad[0][1][-3000:]))
    _lib[config] = ([(s, o) for s, o, f, r in rs], rs[0][2])
    return _lib[config]


def user_flags(config):
    """flags a program linking against zcm::zcm compiles with"""
    bt, extra = CONFIGS[config]
    if bt not in _uf:
        _uf[bt] = cmake_db(bt)[0][1]
    return [f for f in _uf[bt] if f != "-DNDEBUG"] + extra + (["-DNDEBUG"] if bt == "Release" else [])


_uf = {}


def compile_user(config, name, text, extra=()):
    """compile a user program (wrapper TU); returns (bitcode path | None, stderr, source path)"""
    d = tmpdir()
    src = os.path.join(d, "%s.%s.cpp" % (name, config))
    open(src, "w").write(text)
    o = src + ".bc"
    r = run([CLANG] + user_flags(config) + FRONT + list(extra) + ["-emit-llvm", "-c", src, "-o", o])
    return (o if r.returncode == 0 else None), r.stderr, src


PASSES = {
    "o1": "forceattrs,internalize,globaldce,default<O1>",
    "o2": "forceattrs,internalize,globaldce,default<O2>",
}


def canonical(config, bc, roots, pipeline="o1"):
    """link + internalise + inline everything + unroll + SSA; returns textual IR"""
    lib, _ = library(config)
    o = bc + ".linked.bc"
    r = run([LINK, bc] + [b for _, b in lib] + ["-o", o])
    if r.returncode:
        raise BuildError("llvm-link: " + r.stderr[-2000:])
    api = bc + ".api"
    open(api, "w").write("\n".join(roots) + "\n")
    out = bc + ".%s.ll" % pipeline
    r = run([OPT, "--internalize-public-api-file=" + api, "-passes=" + PASSES[pipeline],
             "-inline-threshold=1000000", "-inline-cold-callsite-threshold=1000000", "-inlinecold-threshold=1000000", "-force-remove-attribute=noinline", "-unroll-threshold=1000000", "-unroll-full-max-count=4096",
             "-vectorize-slp=false", "-vectorize-loops=false", "-S", o, "-o", out])
    if r.returncode:
        raise BuildError("opt: " + r.stderr[-2000:])
    return open(out).read()
