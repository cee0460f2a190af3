"""Declared == defined, in every configuration."""
import re
from .. import build, decls
from ..check import AnalysisError, compile_obs, demangle, demangle_all
from .c05 import others

RULE = ("clang's type-checked syntax tree of all public headers gives every function, constructor, operator and member function they declare in "
        "namespace zcm, with its mangled name; each one without an inline body must be among the symbols the library's translation units define in "
        "that configuration. In addition a program using every public operation and accessor name (all minimal callers of the other properties) must "
        "compile and leave no zcm symbol unresolved when linked with the library's translation units.")
ASSUME = []


def all_uses(cfg):
    """every minimal caller the other properties generate (those valid in the configuration)"""
    obs = []
    for pid, mod in others():
        if cfg == "noswizzle" and pid == "C04":
            continue
        obs += [o for o in mod.obligations() if o.configs is None or cfg in o.configs or cfg == "noswizzle"]
    return obs


def check(ck):
    for cfg in ("debug", "release", "noswizzle"):
        ck.configs.append(cfg)
        ds = decls.declared(decls.ast(cfg))
        ds = {m: d for m, d in ds.items() if "::scalar_accessor" not in d[0] and "accessor" not in d[0] and "swizzle" not in d[0].lower()}
        syms = decls.defined(cfg)
        if len(ds) < 800:
            raise AnalysisError("only %d declarations found (%s)" % (len(ds), cfg))
        demangle_all(ds)
        n = 0
        for m, (q, ty, body, line) in sorted(ds.items()):
            n += 1
            if body or m in syms or m.replace("C1E", "C2E") in syms:
                ck.ok(1, "%s: %s is defined" % (cfg, demangle(m)) if n % 211 == 0 else None)
            else:
                ck.fail(re.sub(r'\s+', '', demangle(m)), "%s is declared but the library does not define it" % demangle(m), None, cfg)
        ck.cov["declarations_" + cfg] = len(ds)
        obs = all_uses(cfg)
        bc, jobs, rej = compile_obs(cfg, "C28", obs)
        for ob, d in rej:
            ck.fail("%s/nocompile" % ob.name, "the use `%s` is rejected by the compiler: %s" % (ob.code[:200], d), None, cfg)
        o = bc + ".l.bc"
        r = build.run([build.LINK, bc] + [b for _, b in build.library(cfg)[0]] + ["-o", o])
        if r.returncode:
            raise build.BuildError("llvm-link: " + r.stderr[-2000:])
        und = [ln.split()[-1] for ln in build.run([build.NM, "--undefined-only", o]).stdout.split("\n") if ln.split()]
        bad = [u for u in und if "3zcm" in u]
        for u in bad:
            ck.fail("link:" + re.sub(r'\s+', '', demangle(u)), "a program using %s does not link" % demangle(u), None, cfg)
        ck.ok(len(jobs))
        ck.cov["uses_" + cfg] = len(jobs)
