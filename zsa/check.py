"""Driver shared by all properties."""
import importlib
import json
import multiprocessing
import os
import re
import signal
import sys
import time
import traceback

sys.setrecursionlimit(100000)

from . import build, ir, vflow, algebra, cancel
from .ob import Ob, cells, view, flat, layout, V
from .term import *
from .term import mkslice as _slice, undef as _undef

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class AnalysisError(Exception):
    pass


class Violation:
    def __init__(self, key, text, where=None):
        self.key, self.text, self.where = key, text, where


# --------------------------------------------------------------- debug info
class DebugInfo:
    def __init__(self, mod):
        self.m = mod

    def field(self, s, k):
        m = re.search(r'\b%s: (?:"([^"]*)"|(!?[-\w]+))' % k, s)
        return None if not m else (m.group(1) if m.group(1) is not None else m.group(2))

    def sub(self, ref, seen=0):
        """DISubprogram reached from a scope reference"""
        while ref and seen < 50:
            seen += 1
            s = self.m.meta.get(ref[1:] if ref.startswith("!") else ref)
            if s is None:
                return None
            if "DISubprogram" in s:
                return s
            ref = self.field(s, "scope")
        return None

    def file(self, ref):
        s = self.m.meta.get(ref[1:]) if ref else None
        return self.field(s, "filename") if s else None

    def chain(self, loc):
        """[(function, file, line)] innermost first"""
        out = []
        while loc:
            s = self.m.meta.get(loc[1:] if loc.startswith("!") else loc)
            if s is None:
                break
            sp = self.sub(self.field(s, "scope"))
            fn = self.field(sp, "linkageName") or self.field(sp, "name") if sp else "?"
            out.append((fn, self.file(self.field(sp, "file")) if sp else "?", self.field(s, "line")))
            loc = self.field(s, "inlinedAt")
        return out


def where_text(di, loc):
    ch = di.chain(loc) if loc else []
    ch = [c for c in ch if not (c[1] or "").endswith(".obl.cpp")]
    ch = [c for c in ch if c[1] and "/zsa." not in c[1]]
    if not ch:
        return None
    return " <- ".join("%s (%s:%s)" % (demangle(f), os.path.relpath(p, build.REPO) if p and p.startswith("/") else p, l)
                       for f, p, l in ch[:5])


_dm = {}


def demangle(f):
    if f not in _dm:
        import subprocess
        try:
            _dm[f] = subprocess.run(["c++filt", f], stdout=subprocess.PIPE, text=True).stdout.strip() or f
        except OSError:
            _dm[f] = f
    return _dm[f]


def demangle_all(names):
    import subprocess
    names = [n for n in names if n not in _dm]
    if names:
        r = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True).stdout.split("\n")
        if len(r) >= len(names):
            _dm.update(zip(names, r))


# --------------------------------------------------------------- analysis of one wrapper
class Result:
    def __init__(self):
        self.components = 0
        self.cases = 0
        self.violations = []
        self.instrs = 0
        self.calls = 0
        self.error = None
        self.sample = None


def analyse(mod, di, ob, fn, cfg):
    res = Result()
    try:
        _analyse(mod, di, ob, fn, cfg, res)
    except ir.Unsupported as e:
        msg = str(e)
        m = re.search(r'call to (_ZNK?3zcm\S*|_ZNKR?3zcm\S*|_ZN\w*3zcm\S*)', msg)
        if m and m.group(1) not in mod.funcs:
            res.violations.append(Violation(ob.name + "/undefined", "calls %s, which has no definition in the library"
                                            % demangle(m.group(1)), None))
        else:
            res.error = "%s: %s: %s" % (ob.name, type(e).__name__, e)
    except (algebra.TooBig, NotImplementedError, RecursionError, KeyError, AttributeError, TypeError, ValueError,
            IndexError) as e:
        res.error = "%s: %s: %s\n%s" % (ob.name, type(e).__name__, e, traceback.format_exc()[-1500:])
    return res


def _analyse(mod, di, ob, fn, cfg, res):
    regs, views, alls = [], {}, []
    for n, t in ob.params:
        size, cs, syms = cells(n, t)
        if ob.alias and n in ob.alias:
            views[n] = views[ob.alias[n]]
            continue
        regs.append((n, size, cs))
        views[n] = view(t, syms)
    if ob.out:
        osz, olay = layout(ob.out)
        regs.append(("o", osz, [(off, sz, _undef(ty if ty == "f" else sz * 8)) for _, off, sz, ty in olay]))
    fb = vflow.FlowBuilder(mod, fn, regs)
    st = fb.run()
    res.instrs, res.calls = fb.ninstr, fb.calls
    if ob.must_abort:
        # with the precondition violated on purpose no path may return normally
        res.components += 1
        res.cases += 1
        if st is not None:
            res.violations.append(Violation(ob.name, "the call returns instead of being rejected by an assertion", None))
        return
    for r, off, sz, lim, kind, dbg, guard in fb.oob:
        if r.startswith("alloca") or r.startswith("glob") or True:
            ctx = algebra.Ctx()
            if feasible(guard, ctx, ob, views):
                res.violations.append(Violation(ob.name + "/oob", "%s of %d byte(s) at offset %d of %s, an object of %d bytes"
                                                % (kind, sz, off, r, lim), where_text(di, dbg)))
                break
    if st is None:
        res.violations.append(Violation(ob.name + "/noreturn", "never returns normally (assertion failure on every input)", None))
        return
    if res.violations:
        return
    # outputs
    outs, where = [], []
    if ob.out:
        for nm, off, sz, ty in olay:
            where.append(("o", off, _irty(ty, sz)))
            outs.append(("result" + nm, fb.get(st["o"], off, _irty(ty, sz)), ty))
    for n in ob.inout:
        t = dict(ob.params)[n]
        for nm, off, sz, ty in layout(t)[1]:
            where.append((n, off, _irty(ty, sz)))
            outs.append((n + nm, fb.get(st[n], off, _irty(ty, sz)), ty))
    if ob.custom:
        ob.custom(ob, fb, st, outs, views, res, di)
        return
    want = flat(ob.spec(**views))
    if len(want) != len(outs):
        raise TypeError("reference has %d components, result has %d" % (len(want), len(outs)))
    pre = ob.pre(**views) if ob.pre else None
    nanmodes = [frozenset()]
    for nset in ob.nan:
        nanmodes.append(frozenset(nset))
    compare(ob, fb.aborts, outs, want, pre, nanmodes, views, res, di, "")
    later = fb.later(st) if not res.violations else None
    if later is None:
        return
    # the library keeps something between calls: judge a call that follows one with other arguments as well
    fb2 = vflow.FlowBuilder(mod, fn, regs, later)
    st2 = fb2.run()
    res.instrs += fb2.ninstr
    if st2 is None:
        res.violations.append(Violation(ob.name + "/later", "does not return normally on a later call", None))
        return
    outs2 = [(nm, fb2.get(st2[r], off, t), ty) for (nm, _, ty), (r, off, t) in zip(outs, where)]
    if all(x[1] is y[1] for x, y in zip(outs, outs2)) and fb2.aborts is fb.aborts:
        return
    if pre is not None:
        pre = andb(rename(pre, "'", {}), pre)
    compare(ob, fb2.aborts, outs2, want, pre, [frozenset()], views, res, di, "on a later call (after one with arguments a', b', ...) ")


def compare(ob, ab, outs, want, pre, nanmodes, views, res, di, when):
    fl = tuple(w for w in (w if isinstance(w, T) else lift(w, ty) for (_, _, ty), w in zip(outs, want)) if w.ty == "f")
    for (nm, got, ty), w in zip(outs, want):
        res.components += 1
        if not isinstance(w, T):
            w = lift(w, ty)
        if ty == 1:
            got = _slice(got, 0, 1) if got.ty != 1 else got
        if ob.tol is not None:
            tol = ob.tol
        else:
            tol = algebra.TOL
        for ns in nanmodes:
            ctx = algebra.Ctx()
            ctx.nan = ns
            stt = algebra.Stats()
            mm = algebra.decide(got, w, ctx, stt, pre=pre, abort=None if ab is FALSE else ab, checkdiv=ob.divcheck and not ns,
                                tol=tol, divs=flat(ob.divs(**views)) if ob.divs else (), wellcond=ob.wellcond,
                                cond=fl if ob.cond and not ns else ())
            res.cases += stt.leaves
            if mm:
                tr = mm.text()
                if ns:
                    tr = "with %s = NaN, " % ",".join(sorted(ns)) + tr
                res.violations.append(Violation(ob.name + ":" + nm, "%s%s: %s" % (when, nm, tr), where_text(di, loc_of(mm.at or got))))
                break
        if not res.violations and ob.steps and ty == "f" and (ob.steps == "all" or w.op == "call"):
            memo = {}
            x, y = chain(got, memo), chain(w, memo)
            if x is not None and y is not None and x != y:
                res.violations.append(Violation(ob.name + ":" + nm, when + "%s: computed as %s, which rounds differently from %s"
                                                % (nm, show(got, 0, 5)[:160], show(w, 0, 5)[:160]), where_text(di, loc_of(got))))
                break
        if not res.violations and ob.tests:
            x = cancel.rounded_test(got) if ob.tests == "exact" else cancel.high_test(got, ob.tests)
            if x is not None:
                res.violations.append(Violation(ob.name + ":" + nm, when + "%s: decided by %s, which %s" % (
                    nm, show(x, 0, 5)[:160], "is not the operands' value but one computed from them with rounding" if ob.tests == "exact" else
                    "under- or overflows where the operands do not"), where_text(di, loc_of(x))))
                break
        if not res.violations and ob.indep and ty == "f":
            extra = dataleaves(got) - dataleaves(w)
            if extra:
                x = sorted(extra)[0]
                res.violations.append(Violation(ob.name + ":" + nm, when + "%s: the value is computed from %s, on which it must not depend (a NaN or infinite %s spreads to it)"
                                                % (nm, x, x), where_text(di, loc_of(got))))
                break
        if not res.violations and res.sample is None:
            res.sample = "%s = %s" % (nm, show(got, 0, 5)[:200])


# properties whose float results are the operation of their definition itself, rounding included
STEPS = {"C01": "all", "C03": "all", "C04": "all", "C09": "calls"}
# properties whose truth values compare the operands themselves
TESTS = {"C06": "exact", "C07": "exact"}
COMPONENTWISE = ("C01", "C02", "C03", "C04", "C09", "C10", "C11", "C25")


def dataleaves(t, skip=("fcmp", "cmp", "icmp")):
    """names of the inputs whose float value enters the arithmetic of t (not merely a condition)"""
    seen, out, todo = set(), set(), [t]
    while todo:
        x = todo.pop()
        if not isinstance(x, T) or x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "sym":
            out.add(x.a[0])
        elif x.op == "ite":
            todo += x.a[1:]
        elif x.ty != 1 or x.op == "sym":
            todo += [y for y in x.a]
    return out


def loc_of(t, depth=0):
    if t.loc:
        return t.loc
    if depth > 6:
        return None
    for x in t.a:
        if isinstance(x, T):
            l = loc_of(x, depth + 1)
            if l:
                return l
    return None


def feasible(guard, ctx, ob, views):
    """is there any case (respecting the precondition) in which guard holds?"""
    pre = ob.pre(**views) if ob.pre else None
    todo, n = [ctx], 0
    while todo:
        c = todo.pop()
        n += 1
        if n > 5000:
            return True
        try:
            if pre is not None and not c.boolv(pre):
                continue
            if c.boolv(guard):
                return True
        except algebra.Split as s:
            for o in s.outcomes:
                todo.append(c.extend(s.atom, o))
        except algebra.Undefined:
            return True
    return False


def _irty(ty, sz):
    if ty == "f":
        return ir.FLOAT if sz == 4 else ir.DOUBLE
    return ir.INT(sz * 8)


# --------------------------------------------------------------- batches
_G = {}


PER_OB = 240          # seconds one obligation may take
DEADLINE = 820        # seconds after which the run reports what it has
_T0 = time.time()


class OutOfTime(Exception):
    pass


def _alarm(*_):
    raise OutOfTime()


def _work(i):
    mod, di, jobs, cfg = _G["x"]
    ob, fn = jobs[i]
    left = DEADLINE - (time.time() - _T0)
    try:
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(max(1, int(min(PER_OB, left))))
        try:
            return i, analyse(mod, di, ob, fn, cfg)
        finally:
            signal.alarm(0)
    except OutOfTime:
        r = Result()
        r.error = "%s: not decided within the time limit" % ob.name
        return i, r


HEADERS = ["angle_and_trigonometry", "bvec2", "bvec3", "bvec4", "color_space", "common", "component_wise", "constants",
           "exponential", "geometric", "ivec2", "ivec3", "ivec4", "mat2", "mat3", "mat4", "matrix",
           "matrix_transform", "quat", "quaternion", "type_ptr", "vec2", "vec3", "vec4", "hash"]


def prelude(headers=None):
    if isinstance(headers, str):
        return headers
    return "".join("#include <zcm/%s.hpp>\n" % h for h in (headers or HEADERS)) + "using namespace zcm;\n"


def compile_obs(cfg, name, obs, headers=None):
    """-> (bc, [(ob, fn)], [(ob, diagnostic)])"""
    pre = prelude(headers)
    base = pre.count("\n")
    live = list(obs)
    rejected = []
    for attempt in range(4):
        lines = []
        jobs = []
        for i, ob in enumerate(live):
            fn = "zsa_%d" % i
            lines.append(ob.cpp(fn))
            jobs.append((ob, fn))
        bc, err, src = build.compile_user(cfg, "%s.%d.obl" % (name, attempt), pre + "\n".join(lines) + "\n")
        if bc:
            return bc, jobs, rejected
        bad = {}
        for m in re.finditer(r'^(.*?):(\d+):\d+: (?:fatal )?error: (.*)$', err, re.M):
            if os.path.basename(m.group(1)) == os.path.basename(src):
                bad.setdefault(int(m.group(2)) - base - 1, m.group(3))
        # errors inside headers instantiated from a wrapper: attributed through "requested here" notes
        for m in re.finditer(r'^(.*?):(\d+):\d+: note: .*requested here', err, re.M):
            if os.path.basename(m.group(1)) == os.path.basename(src):
                bad.setdefault(int(m.group(2)) - base - 1, "in instantiation")
        bad = {k: v for k, v in bad.items() if 0 <= k < len(live)}
        if not bad or len(bad) > 0.6 * len(live) + 4:
            raise AnalysisError("user program for %s does not compile:\n%s" % (name, err[-3000:]))
        for k in sorted(bad):
            rejected.append((live[k], bad[k]))
        live = [o for i, o in enumerate(live) if i not in bad]
    raise AnalysisError("cannot isolate failing declarations for " + name)


def run_obs(cfg, name, obs, headers=None, pipeline="o1", procs=8):
    obs = [o for o in obs if o.configs is None or cfg in o.configs]
    bc, jobs, rejected = compile_obs(cfg, name, obs, headers)
    results = []
    for ob, d in rejected:
        r = Result()
        r.violations.append(Violation(ob.name + "/nocompile", "the documented use `%s` is rejected by the compiler: %s"
                                      % (ob.code, d), None))
        results.append((ob, r))
    if jobs:
        text = build.canonical(cfg, bc, [fn for _, fn in jobs], pipeline)
        mod = ir.parse_module(text)
        di = DebugInfo(mod)
        _G["x"] = (mod, di, jobs, cfg)
        if procs > 1 and len(jobs) > 16:
            with multiprocessing.get_context("fork").Pool(procs) as pool:
                for i, r in pool.imap_unordered(_work, range(len(jobs)), chunksize=max(1, min(16, len(jobs) // (procs * 4)))):
                    results.append((jobs[i][0], r))
        else:
            for i in range(len(jobs)):
                results.append((jobs[i][0], _work(i)[1]))
    return results


# --------------------------------------------------------------- known findings
def known_findings(pid):
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', ln.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.viol = {}
        self.errors = []
        self.cov = {"obligations": 0, "discharged": 0}
        self.samples = []
        self.rule = ""
        self.assumptions = []
        self.configs = []
        self.functions = set()
        self.level = "other"

    def add_results(self, cfg, results):
        for ob, r in results:
            self.cov["obligations"] += max(1, r.components)
            self.cov["programs_analysed"] = self.cov.get("programs_analysed", 0) + 1
            self.cov["ir_instructions"] = self.cov.get("ir_instructions", 0) + r.instrs
            self.cov["ordering_cases"] = self.cov.get("ordering_cases", 0) + r.cases
            if r.error:
                self.errors.append("[%s] %s" % (cfg, r.error))
                continue
            for v in r.violations:
                if v.key not in self.viol:
                    self.viol[v.key] = (cfg, ob, v)
            if not r.violations:
                self.cov["discharged"] += max(1, r.components)
                if r.sample and len(self.samples) < 12 and hash_pick(ob.name):
                    self.samples.append("%s: %s" % (ob.code, r.sample))

    def violation(self, key, text, where=None, cfg="-"):
        if key not in self.viol:
            self.viol[key] = (cfg, None, Violation(key, text, where))

    def ok(self, n=1, sample=None):
        self.cov["obligations"] += n
        self.cov["discharged"] += n
        if sample and len(self.samples) < 12:
            self.samples.append(sample)

    def fail(self, key, text, where=None, cfg="-"):
        self.cov["obligations"] += 1
        self.violation(key, text, where, cfg)

    def obs(self, obs, headers=None, floor=None, configs=None, name=None):
        for o in obs:
            o.tests = o.tests or TESTS.get(self.pid)
        if self.pid in COMPONENTWISE:
            for o in obs:
                o.steps = o.steps or STEPS.get(self.pid, False)
                o.indep = not any(t.startswith("mat") or t == "quat" for _, t in o.params) or self.pid != "C02"
        if floor is not None and len(obs) < floor:
            raise AnalysisError("only %d obligations generated, expected at least %d" % (len(obs), floor))
        names = set()
        for o in obs:
            if o.name in names:
                raise AnalysisError("duplicate obligation " + o.name)
            names.add(o.name)
        cfgs = configs or (["debug", "release"])
        for c in cfgs:
            pl = ["o1"] + (["o2"] if self.tier == "thorough" else [])
            for p in pl:
                self.configs.append("%s/%s" % (c, p))
                self.add_results("%s/%s" % (c, p), run_obs(c, (name or self.pid) + p, obs, headers, p))

    def finish(self):
        kf = known_findings(self.pid)
        new = {k: v for k, v in self.viol.items() if k not in kf}
        old = {k: v for k, v in self.viol.items() if k in kf}
        evd = os.path.join(VERIF, "evidence")
        os.makedirs(evd, exist_ok=True)
        cov = dict(self.cov)
        cov["rule"] = self.rule
        cov["configurations"] = self.configs
        cov["samples"] = self.samples or ["(none)"]
        cov["explanation"] = self.rule
        cov["checker_cmd"] = "python3 -m zsa %s %s" % (self.pid, self.tier)
        cov["trusted_base"] = ["clang/LLVM 18 front end and mid-level passes", "/verif/zsa"]
        if self.errors:
            cov["errors"] = self.errors[:10]
        ev = {"property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
              "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 3), "violations": len(new)}
        json.dump(ev, open(os.path.join(evd, self.pid + ".json"), "w"), indent=1)
        for k in sorted(old):
            print("KNOWN-FINDING: property=%s %s: %s" % (self.pid, k, kf[k]))
        if new:
            rp = os.path.join(evd, self.pid + ".violation.txt")
            with open(rp, "w") as f:
                for k in sorted(new):
                    cfg, ob, v = new[k]
                    f.write("[%s] %s\n" % (cfg, k))
                    if ob is not None:
                        f.write("  program: %s   (%s)\n" % (ob.code, ", ".join("%s %s" % (t, n) for n, t in ob.params)))
                    f.write("  %s\n" % v.text)
                    if v.where:
                        f.write("  at: %s\n" % v.where)
                    f.write("\n")
            shown = 0
            for k in sorted(new):
                cfg, ob, v = new[k]
                if shown < 12:
                    print("  [%s] %s%s -- %s%s" % (cfg, k, " `%s`" % (ob.code if len(ob.code) < 160 else "..." + ob.code[-120:]) if ob is not None else "", v.text[:700],
                                                   " -- at " + v.where if v.where else ""))
                shown += 1
            if shown > 12:
                print("  ... %d more, see %s" % (shown - 12, rp))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        if self.errors:
            for e in self.errors[:8]:
                print("ANALYSIS-ERROR " + e)
            print("analysis incomplete: %d obligation(s) could not be decided" % len(self.errors))
            return 2
        print("OK property=%s: %d/%d obligations, %s, %.1fs" % (self.pid, self.cov["discharged"], self.cov["obligations"],
              ", ".join("%s=%s" % (k, v) for k, v in self.cov.items() if k not in ("obligations", "discharged")),
              time.time() - self.t0))
        return 0


def hash_pick(s):
    import zlib
    return zlib.crc32(s.encode()) % 7 == 0


def main(argv):
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    mod = importlib.import_module("zsa.props." + pid.lower())
    ck = Check(pid, tier)
    try:
        ck.rule = mod.RULE
        ck.assumptions = list(getattr(mod, "ASSUME", []))
        if hasattr(mod, "check"):
            mod.check(ck)
        else:
            ck.obs(mod.obligations(), floor=mod.FLOOR)
        return ck.finish()
    except (AnalysisError, build.BuildError) as e:
        if ck.viol:
            ck.errors.append(str(e))
            return ck.finish()
        print("ANALYSIS-BROKEN property=%s: %s" % (pid, e))
        return 2
