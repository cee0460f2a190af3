"""The build variants agree: debug, release and swizzle-free builds compute the same values."""
import multiprocessing
import time
from .. import algebra, build, check as chk, ir, texts, vflow
from ..check import AnalysisError, Result, Violation, compile_obs
from ..term import *
from .lib import *
from .c05 import others

RULE = ("Every minimal caller generated for the other properties is compiled together with the library's sources in each build variant (assertions on, "
        "release, swizzle accessors disabled; thorough also as C++11 and C++20). The value of every result component is extracted from the flattened call "
        "tree of each variant; the values must be the same expression, or be equal in every ordering case, whenever no assertion fails. Which program text the preprocessor selects in the library's files is compared between compilers, language "
        "standards and option sets: it may depend on the library's own configuration only.")
ASSUME = ["float terms that are not identical expressions are compared as real-number expressions"]
FLOOR = 1500


def outputs(mod, ob, fn):
    regs, views = [], {}
    for n, t in ob.params:
        size, cs, syms = chk.cells(n, t)
        if ob.alias and n in ob.alias:
            views[n] = views[ob.alias[n]]
            continue
        regs.append((n, size, cs))
        views[n] = chk.view(t, syms)
    if ob.out:
        osz, olay = chk.layout(ob.out)
        regs.append(("o", osz, [(off, sz, chk._undef(ty if ty == "f" else sz * 8)) for _, off, sz, ty in olay]))
    fb = vflow.FlowBuilder(mod, fn, regs)
    st = fb.run()
    outs = []
    if st is not None:
        if ob.out:
            outs += [("result" + nm, fb.get(st["o"], off, chk._irty(ty, sz)), ty) for nm, off, sz, ty in olay]
        for n in ob.inout:
            outs += [(n + nm, fb.get(st[n], off, chk._irty(ty, sz)), ty) for nm, off, sz, ty in chk.layout(dict(ob.params)[n])[1]]
    return fb, st, [(nm, mkslice(g, 0, 1) if ty == 1 and g.ty != 1 else g, ty) for nm, g, ty in outs], views


def canon(t, memo):
    """key of a term up to exchanging the operands of commutative operations; None if it contains a choice between values"""
    if not isinstance(t, T):
        return ("k", t)
    r = memo.get(t.id, 0)
    if r != 0:
        return r
    ks = [canon(x, memo) for x in t.a]
    if t.op == "ite" or any(k is None for k in ks):
        r = None
    else:
        if t.op in COMM:
            ks = sorted(ks, key=repr)
        k = (t.op, str(t.ty), tuple(ks))
        r = memo.setdefault(("n", k), ("#", len(memo)))
    memo[t.id] = r
    return r


COMM = {"add", "mul", "fadd", "fmul", "and", "or", "xor"}


def compare(mods, ob, fns):
    res = Result()
    base = None
    for cfg, mod in mods:
        if fns.get(cfg) is None:
            continue
        fb, st, outs, views = outputs(mod, ob, fns[cfg])
        res.instrs += fb.ninstr
        if base is None:
            base = (cfg, fb, st, outs)
            continue
        bcfg, bfb, bst, bouts = base
        if (st is None) != (bst is None):
            res.components += 1
            res.violations.append(Violation("%s/%s" % (ob.name, cfg), "returns in one of the builds %s, %s only" % (bcfg, cfg), None))
            return res
        ab = bfb.aborts if fb.aborts is FALSE else fb.aborts if bfb.aborts is FALSE else orb(bfb.aborts, fb.aborts)
        for (nm, g1, ty), (_, g2, _) in zip(bouts, outs):
            res.components += 1
            res.cases += 1
            if g1 is g2:
                continue
            stt = algebra.Stats()
            mm = algebra.decide(g2, g1, algebra.Ctx(), stt, pre=ob.pre(**views) if ob.pre else None, abort=None if ab is FALSE else ab, checkdiv=False)
            res.cases += stt.leaves
            if mm:
                res.violations.append(Violation("%s:%s/%s" % (ob.name, nm, cfg), "%s differs between the builds %s and %s: %s" % (nm, cfg, bcfg, mm.text()), None))
                return res
            memo = {}
            k1, k2 = canon(g1, memo), canon(g2, memo)
            if ty == "f" and k1 is not None and k2 is not None and k1 != k2:
                res.violations.append(Violation("%s:%s/%s" % (ob.name, nm, cfg), "%s is computed by different floating-point operations in the builds %s and %s: %s "
                                                "/ %s" % (nm, bcfg, cfg, show(g1, 0, 5)[:150], show(g2, 0, 5)[:150]), None))
                return res
    return res


def _work(i):
    mods, jobs = chk._G["c30"]
    ob, fns = jobs[i]
    import signal
    try:
        signal.signal(signal.SIGALRM, chk._alarm)
        signal.alarm(max(1, int(min(chk.PER_OB, chk.DEADLINE - (time.time() - chk._T0)))))
        try:
            return i, compare(mods, ob, fns)
        finally:
            signal.alarm(0)
    except (ir.Unsupported, algebra.TooBig, chk.OutOfTime, RecursionError, KeyError, AttributeError, TypeError, ValueError, IndexError) as e:
        r = Result()
        r.error = "%s: %s: %s" % (ob.name, type(e).__name__, e)
        return i, r


def check(ck):
    variants = ["debug", "release", "noswizzle"] + (["cxx11", "cxx20"] if ck.tier == "thorough" else [])
    obs, plain = [], set()
    for pid, m in others():
        for ob in m.obligations():
            if ob.must_abort:
                continue
            o = Ob(pid + "." + ob.name, ob.params, ob.out, ob.code, None, pre=ob.pre, inout=ob.inout, alias=ob.alias, configs=ob.configs)
            if pid != "C04":
                plain.add(o.name)
            obs.append(o)
    if len(obs) < FLOOR:
        raise AnalysisError("only %d programs" % len(obs))
    mods, fns = [], {o.name: {} for o in obs}
    for cfg in variants:
        todo = [o for o in obs if (cfg != "noswizzle" or o.name in plain)]
        bc, jobs, rej = compile_obs(cfg, "C30", todo)
        for ob, d in rej:
            ck.errors.append("[%s] `%s` is rejected by the compiler: %s" % (cfg, ob.code[:100], d))
        text = build.canonical(cfg, bc, [fn for _, fn in jobs], "o1")
        mods.append((cfg, ir.parse_module(text)))
        for ob, fn in jobs:
            fns[ob.name][cfg] = fn
        ck.configs.append(cfg)
    jobs = [(o, fns[o.name]) for o in obs if len(fns[o.name]) > 1]
    chk._G["c30"] = (mods, jobs)
    with multiprocessing.get_context("fork").Pool(8) as pool:
        results = [(jobs[i][0], r) for i, r in pool.imap_unordered(_work, range(len(jobs)), chunksize=16)]
    ck.add_results("/".join(variants), results)
    for cfg in ("debug", "release", "noswizzle"):
        sel = texts.VARIANTS if cfg == "debug" or ck.tier == "thorough" else ("g++ -O3",)
        n, bad, failed = texts.compare(cfg, sel)
        for key, text, where in bad:
            ck.fail(key, text, where, cfg)
        ck.errors.extend("[%s] not preprocessed: %s" % (cfg, f) for f in failed)
        ck.ok(n - len(bad))
