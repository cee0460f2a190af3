"""Purity: no state, no hidden effects, no writes through read-only arguments."""
import os
import re
from .. import build, effects
from ..check import AnalysisError, compile_obs, demangle, demangle_all
from .c05 import others

RULE = ("All library translation units plus a user program instantiating the inline parts are linked per build type and brought to register form; an "
        "interprocedural effect analysis classifies every instruction of every function. Reported: a store that may reach an object with static "
        "storage (other than the guarded, argument-independent initialisation of a local static), a store that may reach an object passed by pointer "
        "or reference to const, a call of any external function outside the allow-list (C math, block copy, assertion failure), and atomic, volatile, "
        "indirect, assembly or exception-throwing operations. Start-up code with effects is reported too. A positive example with one instance of each "
        "rule is analysed first and must be reported completely.")
ASSUME = ["the C math library functions are functions of their arguments (errno aside)", "threads do not share a result object they write"]

EXAMPLE = r'''
#include <stdlib.h>
struct V { float x; float get() const; };
float V::get() const { const_cast<V*>(this)->x = 1.f; return x; }
float counter() { static int n; return float(++n); }
float helper(float* p) { *p = 3.f; return 1.f; }
float viaref(const V& v) { return helper(const_cast<float*>(&v.x)); }
float rnd() { return float(rand()); }
float lazy(float a) { static float s = a + 1.f; return s; }
float fine(float a) { static float t = helper(&a); (void)t; return a; }
float boom(float a) { if (a > 1.f) throw 1; return a; }
float apply(float (&f)(float), float a) { return f(a); }
float impure(float a) { static float k; k += a; return k; }
float viafn(float a) { return apply(impure, a); }
float fromtab(int i) { extern float (*table[2])(float); return table[i](1.f); }
struct Keep { float& t; float v; ~Keep() { t = v; } };
float later(float a) { static float last; Keep k{last, a}; return k.v; }
float keeplocal(float a) { float last = 0; { Keep k{last, a}; } return last; }
struct Two { const float& in; float& out; ~Two() { out = in; } };
float two(const float& a) { float r = 0; { Two k{a, r}; } return r; }
struct W { float x[9]; };
float memo(const W& w) { static W last = W(); float r = last.x[0]; last = w; return r; }
float fromstatic(int i) { static W t = W(); return t.x[i]; }
V& outp(V& v) { v.x = 2.f; return v; }
'''
PASS = "mem2reg"


def module(cfg, srcs, name, api=None):
    """link + register promotion; with api, functions not in it become internal and untouched statics constant"""
    o = os.path.join(build.tmpdir(), name + ".bc")
    r = build.run([build.LINK] + srcs + ["-o", o])
    if r.returncode:
        raise build.BuildError("llvm-link: " + r.stderr[-2000:])
    r = build.run([build.OPT, "-passes=function(mem2reg)", "-S", o, "-o", o + ".ll"])
    if r.returncode:
        raise build.BuildError("opt: " + r.stderr[-2000:])
    return effects.Mod(open(o + ".ll").read())


def front(cfg, src, flags, out):
    fr = [f for f in build.FRONT if f not in ("-fno-exceptions",)]
    r = build.run([build.CLANG] + flags + fr + ["-emit-llvm", "-c", src, "-o", out])
    if r.returncode:
        raise build.BuildError("does not compile: %s\n%s" % (src, r.stderr[-2000:]))
    return out


def rel(w):
    if not w:
        return None
    p, _, l = w.rpartition(":")
    return "%s:%s" % (os.path.relpath(p, build.REPO) if p.startswith("/") else p, l)


def analyse(mod):
    """-> (list of (key, text, where), stats)"""
    eff = effects.Effects(mod)
    inits = effects.static_inits(mod, eff)
    out = []
    seen = set()

    def add(key, text, w):
        if key not in seen:
            seen.add(key)
            out.append((key, text, rel(w)))
    nconst = 0
    demangle_all(mod.fns)
    for n, f in mod.fns.items():
        cp = mod.const_params(f)
        nconst += len(cp)
        dm = demangle(n)
        start = "_GLOBAL__sub_I" in n or n.startswith("__cxx_global_var_init")
        for r, (w, via) in eff.writes[n].items():
            v = " through %s" % demangle(via) if via else ""
            if r[0] == "glob":
                if inits.get(r[1]) and not start:
                    continue
                if start and not any(r in eff.writes[k] or r[1] in eff.writes[k] for k in mod.fns if not ("_GLOBAL__sub_I" in k or k.startswith("__cxx_global_var_init"))):
                    continue        # namespace-scope constant initialised once at start-up
                add("static:%s" % demangle(r[1]), "%s writes %s, which outlives the call%s" % (dm, demangle(r[1]), v), w)
            elif r[0] == "arg" and r[1] in cp:
                add("const:%s:%s" % (dm, cp[r[1]]), "%s writes through its read-only argument %s%s" % (dm, cp[r[1]], v), w)
            elif r[0] == "?" and not (via in mod.fns and r in eff.writes[via]):
                add("?unknown:%s" % dm, "%s stores through a pointer of unknown origin (%s)%s" % (dm, r[1], v), w)
        for e, (w, via) in eff.ext[n].items():
            if e in effects.GUARD or e.startswith("__cxa_atexit"):
                continue
            if via is None:
                if e.startswith("_Z") and "3zcm" in e:
                    continue        # declared library function without definition: another property
                add("call:%s:%s" % (dm, demangle(e)), "%s calls %s" % (dm, demangle(e)), w)
        for e, w in eff.odd[n].items():
            add("op:%s:%s" % (dm, e), "%s contains %s" % (dm, e), w)
    return out, {"functions": len(mod.fns), "instructions": eff.ninstr, "const_parameters": nconst, "fixpoint_rounds": eff.rounds,
                 "mutable_statics": [demangle(g) for g in mod.globs if mod.mutable(g)]}


def selftest():
    src = os.path.join(build.tmpdir(), "example.cpp")
    open(src, "w").write(EXAMPLE)
    bc = front("debug", src, ["-std=c++14"], src + ".bc")
    viol, _ = analyse(module("debug", [bc], "example"))
    keys = {k for k, _, _ in viol}
    need = ["static:counter()::n", "const:V::get() const:this", "const:viaref(V const&):v", "call:rnd():rand", "static:lazy(float)::s",
            "call:boom(float):__cxa_throw", "static:impure(float)::k", "op:fromtab(int):indirect call", "static:later(float)::last", "static:memo(W const&)::last"]
    for k in need:
        if k not in keys:
            raise AnalysisError("positive example not reported: %s (got %s)" % (k, sorted(keys)))
    for k in keys:
        if "outp" in k or "fromstatic" in k or "keeplocal" in k or "two" in k or "op:viafn" in k or "op:apply" in k:
            raise AnalysisError("negative example reported: " + k)
    return len(need)


def check(ck):
    n = selftest()
    ck.ok(n)
    obs = []
    for pid, m in others():
        if pid == "C27":
            continue
        obs += [o for o in m.obligations() if not o.must_abort]
    for cfg in ("debug", "release"):
        ck.configs.append(cfg)
        bt, extra = build.CONFIGS[cfg]
        srcs = []
        d = os.path.join(build.tmpdir(), "eff-" + cfg)
        os.makedirs(d)
        from concurrent.futures import ThreadPoolExecutor
        db = build.cmake_db(bt)
        with ThreadPoolExecutor(8) as ex:
            srcs = list(ex.map(lambda e: front(cfg, e[0], e[1] + extra + (["-DNDEBUG"] if bt == "Release" else []),
                                               os.path.join(d, os.path.basename(e[0]) + ".bc")), db))
        bc, jobs, rej = compile_obs(cfg, "C27", [o for o in obs if o.configs is None or cfg in o.configs])
        mod = module(cfg, srcs + [bc], "eff-" + cfg)
        viol, st = analyse(mod)
        if st["functions"] < 3000 or st["const_parameters"] < 1000:
            raise AnalysisError("only %r analysed" % (st,))
        ck.errors += ["[%s] %s -- at %s" % (cfg, t, w) for k, t, w in viol if k.startswith("?")]
        viol = [v for v in viol if not v[0].startswith("?")]
        for k, text, w in viol:
            ck.fail(k, text, w, cfg)
        bad = len(viol)
        ck.ok(st["functions"] - min(bad, st["functions"]))
        ck.cov.setdefault("functions", 0)
        ck.cov["functions"] += st["functions"]
        ck.cov["instructions"] = ck.cov.get("instructions", 0) + st["instructions"]
        ck.cov["const_parameters"] = ck.cov.get("const_parameters", 0) + st["const_parameters"]
        ck.samples.append("%s: statics seen and never written: %s" % (cfg, st["mutable_statics"][:10]))
