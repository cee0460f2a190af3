"""Memory safety: bounds, definedness, no spurious assertion; out-of-range indices rejected."""
import importlib
import os
from .. import algebra
from ..check import Violation, loc_of, where_text
from .lib import *

RULE = ("(1) For every minimal caller generated for the other properties (all public operations, the call tree flattened), a byte-range memory "
        "dataflow tracks each load, store and block copy with the object it designates; an access outside the object, an indeterminate value "
        "that reaches a result, or an assertion reachable under the operation's precondition is reported if its guard condition is feasible. "
        "(2) For every indexable type, a caller using an index at or beyond the number of components must, in the build with assertions, "
        "have no path to a normal return.")
ASSUME = ["objects passed in are valid and of their declared type"]
FLOOR = 2500
OTHERS = None


def reach_undef(t, memo):
    if not isinstance(t, T):
        return False
    r = memo.get(t.id)
    if r is None:
        r = memo[t.id] = t.op == "undef" or any(reach_undef(x, memo) for x in t.a)
    return r


def custom(ob, fb, st, outs, views, res, di):
    pre = ob.pre(**views) if ob.pre else None
    ab = fb.aborts
    memo = {}
    todo_terms = []
    for nm, got, ty in outs:
        res.components += 1
        if ty == 1 and got.ty != 1:
            got = mkslice(got, 0, 1)
        if reach_undef(got, memo):
            todo_terms.append((nm, got))
    if ab is FALSE and not todo_terms:
        res.cases += 1
        return
    todo, n = [algebra.Ctx()], 0
    while todo:
        c = todo.pop()
        n += 1
        if n > 20000:
            raise algebra.TooBig()
        try:
            if pre is not None and not c.boolv(pre):
                continue
            try:
                if ab is not FALSE and c.boolv(ab):
                    if algebra.saturate(c.cons) is None:
                        continue
                    res.violations.append(Violation(ob.name + "/assert", "an assertion fails when [%s]" % (", ".join(c.trace) or "always"), None))
                    return
                for nm, got in todo_terms:
                    c.value(got)
            except algebra.Undefined:
                if algebra.saturate(c.cons) is None:
                    continue
                res.violations.append(Violation(ob.name + "/undef:" + nm, "an uninitialised value reaches %s when [%s]"
                                                % (nm, ", ".join(c.trace) or "always"), where_text(di, loc_of(got))))
                return
        except algebra.Split as s:
            for o in s.outcomes:
                todo.append(c.extend(s.atom, o))
            continue
        res.cases += 1


def others():
    d = os.path.dirname(os.path.abspath(__file__))
    for f in sorted(os.listdir(d)):
        if f.startswith("c") and f.endswith(".py") and f[1:3].isdigit() and f[:-3] not in ("c05", "c33", "c34"):
            m = importlib.import_module("zsa.props." + f[:-3])
            if hasattr(m, "obligations"):
                yield f[:-3].upper(), m


def sweep():
    out = []
    for pid, m in others():
        for ob in m.obligations():
            if ob.must_abort:
                continue
            o = Ob(pid + "." + ob.name, ob.params, ob.out, ob.code, None, pre=ob.pre, inout=ob.inout, alias=ob.alias,
                   configs=ob.configs, custom=custom)
            out.append(o)
    return out


SIZES = [("%s%d" % (t, n), n, e) for t, e in (("vec", "float"), ("ivec", "int"), ("bvec", "bool")) for n in NS] + \
        [("mat%d" % n, n, "vec%d" % n) for n in NS] + [("quat", 4, "float")]


def index_obs():
    obs = []
    for t, n, e in SIZES:
        for k in (n, n + 1, 7, 1 << 16, (1 << 31), (1 << 32) - 1):
            for cst in (0, 1):
                obs.append(Ob("index.%s.%d.%s" % (t, k, "const" if cst else "mut"), [("a", t)], e, "a[%du]" % k,
                              inout=() if cst else ("a",), must_abort=True, configs=("debug",)))
        # writes
        obs.append(Ob("index.%s.%d.write" % (t, n), [("a", t), ("b", e)], None, "{ a[%du] = b; }" % n, inout=("a",), must_abort=True, configs=("debug",)))
        if t.startswith("mat"):
            obs.append(Ob("index.%s.0.%d" % (t, n), [("a", t)], "float", "a[0u][%du]" % n, must_abort=True, configs=("debug",)))
    return obs


def check(ck):
    obs = sweep() + index_obs()
    ck.obs(obs, floor=FLOOR)
    # what belongs to other properties is not reported here
    for k in [k for k in ck.viol if k.endswith(("/nocompile", "/undefined"))]:
        ck.errors.append("%s: %s" % (k, ck.viol[k][2].text))
        del ck.viol[k]
