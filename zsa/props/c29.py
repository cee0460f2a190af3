"""Headers are self-contained, idempotent, order independent, and usable from several translation units."""
import os
import re
import shutil
from concurrent.futures import ThreadPoolExecutor
from .. import build, decls
from ..check import AnalysisError
from .c28 import all_uses

RULE = ("clang (and, as a second opinion, g++) type-checks synthetic translation units: every public header alone and included twice, under each language "
        "standard and build variant; every ordered pair of public headers; all headers in declaration, reverse and alphabetical order. "
        "Two translation units that each include everything, plus the library, are linked at the bitcode level, where a non-inline definition in a "
        "header is a multiply-defined symbol. The library's own sources are type-checked in every variant and standard. For a pair of inclusion "
        "orders the declared functions (mangled name and type) must be the same set.")
ASSUME = ["the compilers' front ends decide well-formedness"]
VARIANTS = ("debug", "release", "noswizzle")
STDS = ("c++11", "c++14", "c++17", "c++20")


def first(err):
    m = re.search(r'^(.*?(?:fatal )?error: .*)$', err, re.M)
    return (m.group(1) if m else err.strip()[:200]).replace(build.REPO + "/", "")


def check(ck):
    hs = decls.headers()
    if len(hs) < 20:
        raise AnalysisError("only %d public headers found" % len(hs))
    d = build.tmpdir()
    jobs = []            # (key, cfg, description, command)

    def tu(name, text):
        p = os.path.join(d, "c29_" + re.sub(r'\W', '_', name) + ".cpp")
        if not os.path.exists(p):
            open(p, "w").write(text)
        return p

    gxx = shutil.which("g++")

    def add(key, cfg, what, text, std, compilers=("clang",)):
        src = tu(key, text)
        flags = [f for f in build.user_flags(cfg) if not f.startswith("-std=")] + ["-std=" + std, "-fsyntax-only", "-w"]
        for c in compilers:
            exe = build.CLANG if c == "clang" else gxx
            if exe:
                jobs.append((key, cfg + "/" + std + "/" + c, what, [exe] + flags + [src]))

    inc = lambda h: "#include <%s>\n" % h
    for cfg in VARIANTS:
        for std in STDS:
            both = ("clang", "gcc") if std == "c++14" else ("clang",)
            for h in hs:
                add(h + "/alone", cfg, "%s cannot be included on its own" % h, inc(h), std, both)
                add(h + "/twice", cfg, "%s cannot be included twice" % h, inc(h) + inc(h) + "int zsa_after;\n", std)
            add("all/forward", cfg, "the headers cannot be combined", "".join(map(inc, hs)), std, both)
            add("all/reverse", cfg, "the headers cannot be combined in reverse order", "".join(map(inc, reversed(hs))), std, both)
        for a in hs:
            for b in hs:
                if a != b and (cfg == "release" or ck.tier == "thorough" or cfg == "debug"):
                    add("%s+%s" % (a, b), cfg, "%s followed by %s does not compile" % (a, b), inc(a) + inc(b), "c++14")
        for std in STDS if cfg != "release" or ck.tier == "thorough" else STDS[:2]:
            bt, extra = build.CONFIGS[cfg]
            for s, flags in build.cmake_db(bt):
                flags = [f for f in flags if not f.startswith("-std=")] + extra + ["-std=" + std, "-fsyntax-only", "-w"]
                jobs.append(("src/%s" % os.path.basename(s), cfg + "/" + std + "/clang", "the library source does not compile in this variant", [build.CLANG] + flags + [s]))

    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(lambda j: build.run(j[3]), jobs))
    for (key, cfg, what, cmd), r in zip(jobs, rs):
        if r.returncode:
            ck.fail(key, "%s: %s" % (what, first(r.stderr)), None, cfg)
        else:
            ck.ok(1, "%s: accepted (%s)" % (key, cfg) if len(ck.samples) < 4 else None)
    ck.cov["translation_units"] = len(jobs)
    ck.configs += ["%s/%s" % (c, s) for c in VARIANTS for s in STDS]

    if ck.viol:
        return
    # the set of declarations does not depend on the order of inclusion
    for cfg in VARIANTS:
        a = decls.declared(decls.ast(cfg, "".join(map(inc, hs)), "c29f"))
        b = decls.declared(decls.ast(cfg, "".join(map(inc, reversed(hs))), "c29r"))
        a2, b2 = ({m: x[:2] for m, x in t.items()} for t in (a, b))
        for m in sorted(set(a2) | set(b2)):
            if a2.get(m) != b2.get(m):
                ck.fail("order:" + m, "declared differently depending on the order of inclusion: %s / %s" % (a2.get(m), b2.get(m)), None, cfg)
            else:
                ck.ok()
        if len(a2) < 800:
            raise AnalysisError("only %d declarations found" % len(a2))
        # two translation units using everything, and the library, link together
        uses = all_uses(cfg)
        bcs = []
        for k in (1, 2):
            text = "".join(map(inc, hs if k == 1 else reversed(hs))) + "using namespace zcm;\n" + \
                   "\n".join(o.cpp("zsa%d_%d" % (k, i)) for i, o in enumerate(uses)) + "\n"
            bc, err, src = build.compile_user(cfg, "c29u%d" % k, text)
            if not bc:
                raise AnalysisError("the program using everything does not compile (%s): %s" % (cfg, first(err)))
            bcs.append(bc)
        o = os.path.join(d, "c29.%s.bc" % cfg)
        r = build.run([build.LINK] + bcs + [b for _, b in build.library(cfg)[0]] + ["-o", o])
        bad = re.findall(r"symbol multiply defined!?.*|error: .*", r.stderr)
        syms = sorted(set(re.findall(r"'(\w+)': symbol multiply defined", r.stderr)))
        if r.returncode:
            ck.fail("link:" + (syms[0] if syms else "two-units"), "two translation units that include the headers do not link: %s" % (bad[:1] or r.stderr[-300:]), None, cfg)
        else:
            ck.ok(1, "%s: two units with %d uses each link with the library" % (cfg, len(uses)))
        ck.cov["linked_uses_" + cfg] = 2 * len(uses)
