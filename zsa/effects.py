"""Interprocedural effect analysis over the library's IR (register-promoted, not optimised).

Per function and flow-insensitively: which parameters, globals or unknown
objects it stores to (directly or through callees), which external functions
it reaches, which parameters its result may point into, and which values
depend on its arguments.  Summaries are iterated to a fixpoint."""
import re

PURE_LIBM = set()
for _f in ("sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh exp exp2 expm1 log log2 log10 log1p sqrt cbrt floor ceil trunc "
           "round roundeven rint nearbyint fabs pow atan2 fmod fmin fmax hypot copysign remainder fma fdim ldexp scalbn scalbln logb ilogb "
           "lround llround lrint llrint nextafter nexttoward erf erfc tgamma nan abs labs llabs").split():
    PURE_LIBM |= {_f, _f + "f", _f + "l"}
PURE_LIBM |= {"__isnanf", "__isnan", "__isinff", "__isinf", "__finitef", "__finite", "__fpclassifyf", "__signbitf",
              "memcmp", "bcmp", "strlen", "abs", "__fpclassify", "__signbit"}
WRITES_PTR = {"memcpy": (0,), "memmove": (0,), "memset": (0,), "modff": (1,), "modf": (1,), "frexpf": (1,), "frexp": (1,),
              "sincosf": (1, 2), "sincos": (1, 2), "remquof": (2,), "remquo": (2,), "bzero": (0,)}
ABORTING = {"__assert_fail", "abort", "_ZSt9terminatev", "__clang_call_terminate", "__cxa_begin_catch", "__cxa_end_catch",
            "__gxx_personality_v0", "_Unwind_Resume", "__cxa_pure_virtual", "__assert"}
GUARD = {"__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort"}
PURE_MANGLED = re.compile(r'^_ZSt\d*(move|forward|addressof|__addressof|swap|min|max|sqrt|abs|pow|floor|ceil|trunc|round|fma|isnan|isinf|'
                          r'sin|cos|tan|exp|exp2|log|log2|asin|acos|atan|atan2|sinh|cosh|tanh|asinh|acosh|atanh|cbrt|fmod|fmin|fmax|hypot|copysign|rint|nearbyint)')

TOK = re.compile(r'[%@](?:"[^"]*"|[-A-Za-z0-9_.$]+)')
DEF = re.compile(r'^define\b.*?@("[^"]*"|[-A-Za-z0-9_.$]+)\((.*)\)[^()]*\{')
CALL = re.compile(r'\b(?:call|invoke)\b(.*?)(@"[^"]*"|@[-A-Za-z0-9_.$]+|%[-A-Za-z0-9_.$]+|asm )\s*\(?')


def split_top(s):
    out, d, q, cur = [], 0, False, ""
    for ch in s:
        if ch == '"':
            q = not q
        if not q:
            if ch in "([{<":
                d += 1
            elif ch in ")]}>":
                d -= 1
            elif ch == "," and d == 0:
                out.append(cur)
                cur = ""
                continue
        cur += ch
    if cur.strip():
        out.append(cur)
    return [x.strip() for x in out]


def close(s, i):
    """index just past the parenthesis group opening at i"""
    d, q = 0, False
    for j in range(i, len(s)):
        ch = s[j]
        if ch == '"':
            q = not q
        if not q:
            if ch == "(":
                d += 1
            elif ch == ")":
                d -= 1
                if d == 0:
                    return j + 1
    return len(s)


def norm(p):
    while p and p[-1] == "0":
        p = p[:-1]
    return p


class Fn:
    def __init__(self, name):
        self.name = name
        self.params = []        # %names in order
        self.sret = set()
        self.lines = []
        self.blocks = []


class Mod:
    def __init__(self, text):
        self.fns, self.globs, self.meta, self.decls = {}, {}, {}, set()
        cur = None
        for ln in text.split("\n"):
            if cur is not None:
                if ln.startswith("}"):
                    cur = None
                elif ln and not ln.startswith(";"):
                    m = re.match(r'^("[^"]*"|[-A-Za-z0-9_.$]+):', ln)
                    if m:
                        cur.lines.append(("label", m.group(1)))
                    elif ln.startswith(" "):
                        s = ln.strip()
                        if not s.startswith(("to label", "]", "i32 ", "i64 ", "i8 ", "catch ", "cleanup", "filter ", "unwind")):
                            cur.lines.append(("i", s))
                        elif cur.lines:
                            cur.lines[-1] = (cur.lines[-1][0], cur.lines[-1][1] + " " + s)
                continue
            if ln.startswith("define"):
                m = re.search(r'@("[^"]*"|[-A-Za-z0-9_.$]+)\(', ln)
                cur = Fn(m.group(1).strip('"'))
                ps = ln[m.end():close(ln, m.end() - 1) - 1]
                for k, p in enumerate(split_top(ps)):
                    t = re.findall(r'%(?:"[^"]*"|[-A-Za-z0-9_.$]+)', p)
                    cur.params.append(t[-1] if t and not p.strip().endswith("...") else None)
                    if "sret" in p:
                        cur.sret.add(k)
                self.fns[cur.name] = cur
                cur.head = ln
            elif ln.startswith("declare"):
                m = re.search(r'@("[^"]*"|[-A-Za-z0-9_.$]+)\(', ln)
                self.decls.add(m.group(1).strip('"'))
            elif ln.startswith("@"):
                m = re.match(r'@("[^"]*"|[-A-Za-z0-9_.$]+) = (.*)', ln)
                self.globs[m.group(1).strip('"')] = m.group(2)
            elif ln.startswith("!"):
                m = re.match(r'!(\d+) = (.*)', ln)
                if m:
                    self.meta[m.group(1)] = m.group(2)

    def mutable(self, g):
        d = self.globs.get(g)
        if d is None or g.startswith("llvm."):
            return False
        return re.search(r'(^|\s)global\s', d.split(" align ")[0]) is not None and re.search(r'(^|\s)constant\s', d.split("{")[0].split("[")[0]) is None

    def field(self, s, k):
        m = re.search(r'\b%s: (?:"([^"]*)"|!?([-\w]+))' % k, s or "")
        return None if not m else (m.group(1) if m.group(1) is not None else m.group(2))

    def where(self, ln):
        m = re.search(r'!dbg !(\d+)', ln)
        if not m:
            return None
        s = self.meta.get(m.group(1), "")
        line = self.field(s, "line")
        sc = self.field(s, "scope")
        n = 0
        while sc and n < 30:
            n += 1
            d = self.meta.get(sc, "")
            f = self.field(d, "file")
            if f:
                return "%s:%s" % (self.field(self.meta.get(f, ""), "filename"), line)
            sc = self.field(d, "scope")
        return None

    def const_params(self, fn):
        """IR parameters declared as pointers/references to const"""
        out = {}
        for kind, s in fn.lines:
            if kind != "i" or ("@llvm.dbg.value" not in s and "@llvm.dbg.declare" not in s):
                continue
            m = re.search(r'metadata ptr (%[-A-Za-z0-9_.$]+), metadata !(\d+)', s)
            if not m or m.group(1) not in fn.params:
                continue
            v = self.meta.get(m.group(2), "")
            if "DILocalVariable" not in v or not self.field(v, "arg"):
                continue
            if "@llvm.dbg.value" in s and "!DIExpression()" not in s:
                continue
            t = self.meta.get(self.field(v, "type") or "", "")
            n = 0
            while ("DW_TAG_typedef" in t or "DW_TAG_const_type" in t or "DW_TAG_restrict" in t) and n < 10:
                t = self.meta.get(self.field(t, "baseType") or "", "")
                n += 1
            if "DW_TAG_reference_type" in t or "DW_TAG_pointer_type" in t:
                b = self.meta.get(self.field(t, "baseType") or "", "")
                while "DW_TAG_typedef" in b:
                    b = self.meta.get(self.field(b, "baseType") or "", "")
                if "DW_TAG_const_type" in b:
                    out[fn.params.index(m.group(1))] = self.field(v, "name") or "this"
        return out


class Effects:
    """fixpoint summaries"""

    def __init__(self, mod):
        self.m = mod
        self.writes = {n: {} for n in mod.fns}       # name -> {root: (where, via)}
        self.rets = {n: set() for n in mod.fns}
        self.ext = {n: {} for n in mod.fns}          # external callee -> where
        self.odd = {n: {} for n in mod.fns}          # asm/atomic/volatile/throw
        self.greads = {n: {} for n in mod.fns}
        self.icalls = {n: {} for n in mod.fns}       # parameter called as a function -> where
        self.ninstr = sum(len(f.lines) for f in mod.fns.values())
        self.final = False
        self.cells = {}
        self.direct = {}        # global -> {(function, instruction)} whose own pointer reaches it
        users = {n: set() for n in mod.fns}
        for n, f in mod.fns.items():
            for kind, ln in f.lines:
                if kind == "i" and "@" in ln and "@llvm.dbg" not in ln:
                    for g in re.findall(r'@("[^"]*"|[-A-Za-z0-9_.$]+)', ln):
                        g = g.strip('"')
                        if g in users:
                            users[g].add(n)
        order = {n: i for i, n in enumerate(reversed(list(mod.fns)))}
        work = set(mod.fns)
        self.rounds = 0
        while work and self.rounds < 60:
            self.rounds += 1
            nxt = set()
            for n in sorted(work, key=order.get):
                k = self.size(n)
                self.one(mod.fns[n])
                if k != self.size(n):
                    nxt |= users[n]
            work = nxt
        self.final = True
        for f in mod.fns.values():
            self.one(f)

    def size(self, n):
        return tuple(len(x[n]) for x in (self.writes, self.rets, self.ext, self.odd, self.greads, self.icalls))

    def parse_call(self, s):
        m = re.search(r'\b(call|invoke)\b', s)
        rest = s[m.end():]
        m2 = re.search(r'(@"[^"]*"|@[-A-Za-z0-9_.$]+|%[-A-Za-z0-9_.$]+)\(', rest)
        asm = re.search(r'\basm\b', rest)
        if asm and (not m2 or asm.start() < m2.start()):
            return "asm", []
        if not m2:
            return "?", []
        i = m2.end() - 1
        args = split_top(rest[i + 1:close(rest, i) - 1])
        return m2.group(1).strip('@"'), args

    def one(self, f):
        name = f.name
        roots = {}          # %v -> set of roots
        cells = {}          # alloca -> {field path: roots stored there}
        paths = {}
        for k, p in enumerate(f.params):
            if p:
                roots[p] = {("arg", k)}

        def rt(tok):
            if tok.startswith("@"):
                g = tok[1:].strip('"')
                if g in self.m.fns or g in self.m.decls:
                    return {("fn", g)}
                return {("glob", g)} if g in self.m.globs else set()
            return roots.get(tok, set())

        def path_of(t):
            """constant field path of a pointer operand relative to the object it points into; None when unknown"""
            m = re.findall(r'%(?:"[^"]*"|[-A-Za-z0-9_.$]+)', t)
            if not m:
                return ()
            return paths.get(m[-1], () if m[-1] in f.params or m[-1] in roots and roots[m[-1]] == {("alloca", m[-1])} else None)

        def rt_text(t):
            r = set()
            for tok in TOK.findall(t):
                r |= rt(tok)
            return r

        def put(tok, rs):
            o = roots.setdefault(tok, set())
            if not rs <= o:
                o |= rs
                return True
            return False

        for _ in range(12):
            ch = False
            for kind, s in f.lines:
                if kind != "i":
                    continue
                m = re.match(r'(%(?:"[^"]*"|[-A-Za-z0-9_.$]+)) = (\w+)(.*)', s)
                res, op, rest = (m.group(1), m.group(2), m.group(3)) if m else (None, s.split(" ", 1)[0], s)
                if op in ("tail", "musttail", "notail"):
                    op = "call"
                body = re.sub(r',?\s*![a-zA-Z_.]+ !\d+', '', rest)
                if op == "alloca":
                    ch |= put(res, {("alloca", res)})
                elif op == "getelementptr":
                    parts = split_top(body)
                    base = parts[1] if len(parts) > 1 else body
                    ch |= put(res, rt_text(base))
                    ix = [re.sub(r'^i\d+ ', '', p) for p in parts[2:]]
                    bp = path_of(base)
                    paths[res] = norm(bp + tuple(ix[1:])) if bp is not None and ix and ix[0] == "0" and all(x.isdigit() for x in ix) else None
                elif op in ("phi", "select", "bitcast", "freeze", "addrspacecast"):
                    if "ptr" in body:
                        if op == "phi":
                            vs = re.findall(r'\[ *([^,\]]+),', body)
                            ch |= put(res, rt_text(" ".join(vs)))
                        elif op == "select":
                            ch |= put(res, rt_text(" ".join(split_top(body)[1:])))
                        else:
                            ch |= put(res, rt_text(body))
                elif op == "inttoptr":
                    ch |= put(res, {("?", "integer turned into a pointer")})
                elif op == "load":
                    parts = split_top(body)
                    src = rt_text(parts[1]) if len(parts) > 1 else set()
                    if "volatile" in parts[0] or ("atomic" in parts[0] and "@_ZGV" not in parts[1]):
                        self.odd[name].setdefault("volatile or atomic access", self.m.where(s))
                    for r in src:
                        if r[0] == "glob" and self.m.mutable(r[1]):
                            self.greads[name].setdefault(r[1], self.m.where(s))
                    if parts[0].strip() == "ptr":
                        v = set()
                        for r in src:
                            v |= self.pointees(r, cells, path_of(parts[1]))
                        ch |= put(res, v)
                elif op == "store":
                    parts = split_top(body[len("store"):])
                    val, dst = parts[0], parts[1]
                    if val.startswith(("volatile", "atomic")):
                        self.odd[name].setdefault("volatile or atomic access", self.m.where(s))
                    ds = rt_text(dst)
                    if not ds and self.final:
                        self.write(name, ("?", "unresolved store"), s)
                    for r in ds:
                        self.write(name, r, s)
                        if val.startswith(("ptr", "{ ptr", "[")) or "ptr" in val.split("%")[0]:
                            vr = rt_text(val)
                            if r[0] == "alloca":
                                c = cells.setdefault(r, {}).setdefault(path_of(dst), set())
                                if not vr <= c:
                                    c |= vr
                                    ch = True
                elif op in ("atomicrmw", "cmpxchg", "fence"):
                    self.odd[name].setdefault("volatile or atomic access", self.m.where(s))
                elif op in ("call", "invoke") or re.search(r'\b(call|invoke)\b', s.split("(")[0]):
                    cal, args = self.parse_call(s)
                    self.cells, self.path_of = cells, path_of
                    rs = self.callee(name, cal, args, rt_text, s)
                    if cal.startswith(("llvm.memcpy", "llvm.memmove")) or cal in ("memcpy", "memmove"):
                        sp, dp = path_of(args[1]), path_of(args[0])
                        new = {}
                        for r in rt_text(args[1]):
                            if r[0] == "alloca":
                                for p, v in cells.get(r, {}).items():
                                    new.setdefault(p if sp == () and dp == () else None, set()).update(v)
                            elif r[0] == "arg":
                                new.setdefault(None, set()).add(("argmem", r[1], None))
                        for r in rt_text(args[0]):
                            for p, v in new.items() if r[0] == "alloca" else ():
                                c = cells.setdefault(r, {}).setdefault(p, set())
                                if not v <= c:
                                    c |= v
                                    ch = True
                    if res and rs:
                        ch |= put(res, rs)
                elif op == "ret":
                    if re.match(r'ret ptr', s):
                        self.rets[name] |= {r for r in rt_text(s.split("!dbg")[0]) if r[0] != "alloca"}
                elif op in ("va_arg", "indirectbr"):
                    self.odd[name].setdefault(op, self.m.where(s))
            if not ch:
                break
        return roots

    def pointees(self, r, cells, path=None):
        """roots of the pointers stored in the object r (at the field path, if known)"""
        if r[0] == "alloca":
            out = set()
            for p, v in cells.get(r, {}).items():
                if p is None or path is None or p == path:
                    out |= v
            return out
        if r[0] == "arg":
            return {("argmem", r[1], path)}
        return {("?", "pointer read from memory")}

    def through_arg(self, r, args, rt_text):
        """roots of what a callee's ("argmem", k, path) designates here"""
        out = set()
        if r[1] < len(args):
            p = self.path_of(args[r[1]])
            p = None if p is None or r[2] is None else norm(p + r[2])
            for d in rt_text(args[r[1]]):
                out |= self.pointees(d, self.cells, p)
        return out

    def write(self, name, r, s, via=None, inherited=False):
        if r[0] == "alloca":
            return
        if r[0] == "glob" and not inherited:
            self.direct.setdefault(r[1], set()).add((name, s))
        self.writes[name].setdefault(r, (self.m.where(s), via))

    def through(self, name, r, args, rt_text, s):
        """call of the function a pointer designates"""
        if r[0] == "fn":
            if args is None:
                # arguments are known only inside the callee: any write through a pointer goes somewhere unknown
                if r[1] in self.m.fns:
                    for w in self.writes[r[1]]:
                        self.write(name, w if w[0] == "glob" else ("?", "call through a pointer"), s, r[1])
                    for e, w in self.ext[r[1]].items():
                        self.ext[name].setdefault(e, (w[0], r[1]))
                    for e, w in self.odd[r[1]].items():
                        self.odd[name].setdefault(e, w)
                    return set()
                return self.callee(name, r[1], [], rt_text, s)
            return self.callee(name, r[1], args, rt_text, s)
        if r[0] == "arg":
            self.icalls[name].setdefault(r[1], self.m.where(s))
        else:
            self.odd[name].setdefault("indirect call", self.m.where(s))
        return set()

    def callee(self, name, cal, args, rt_text, s):
        if cal == "asm":
            self.odd[name].setdefault("inline assembly", self.m.where(s))
            return set()
        if cal == "?":
            self.odd[name].setdefault("indirect call", self.m.where(s))
            return set()
        if cal.startswith("%"):
            out = set()
            for r in rt_text(cal) or ({("?", "call target")} if self.final else ()):
                out |= self.through(name, r, args, rt_text, s)
            return out
        if cal.startswith("llvm."):
            if cal.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")):
                for r in rt_text(args[0]):
                    self.write(name, r, s, cal)
            return set()
        if cal in self.m.fns:
            out = set()
            for r, (w, via) in list(self.writes[cal].items()):
                if r[0] == "arg":
                    k = r[1]
                    if k < len(args):
                        ds = rt_text(args[k])
                        for d in ds:
                            self.write(name, d, s, cal)
                elif r[0] == "argmem":
                    for p in self.through_arg(r, args, rt_text):
                        self.write(name, p, s, cal)
                else:
                    self.write(name, r, s, cal, True)
            for r in self.rets[cal]:
                if r[0] == "arg" and r[1] < len(args):
                    out |= rt_text(args[r[1]])
                elif r[0] == "argmem":
                    out |= self.through_arg(r, args, rt_text)
                elif r[0] != "arg":
                    out.add(r)
            for k, w in list(self.icalls[cal].items()):
                for r in (rt_text(args[k]) if k < len(args) else ()):
                    self.through(name, r, None, rt_text, s)
            for e, w in self.ext[cal].items():
                self.ext[name].setdefault(e, (w[0], cal))
            for e, w in self.odd[cal].items():
                self.odd[name].setdefault(e, w)
            for e, w in self.greads[cal].items():
                self.greads[name].setdefault(e, w)
            return out
        if cal in WRITES_PTR:
            for k in WRITES_PTR[cal]:
                if k < len(args):
                    for r in rt_text(args[k]):
                        self.write(name, r, s, cal)
            return rt_text(args[0]) if cal.startswith("mem") else set()
        if cal in PURE_LIBM or cal in ABORTING:
            return set()
        self.ext[name].setdefault(cal, (self.m.where(s), None))
        return {("?", "result of " + cal)}


def static_inits(mod, eff):
    """function-local statics whose initialisation is guarded and independent of the arguments: {global: function}"""
    ok = {}
    for f in mod.fns.values():
        if not any(k == "i" and "@__cxa_guard_acquire" in s for k, s in f.lines):
            continue
        tainted = {p for p in f.params if p}
        for _ in range(20):
            n = len(tainted)
            for k, s in f.lines:
                if k != "i":
                    continue
                m = re.match(r'(%(?:"[^"]*"|[-A-Za-z0-9_.$]+)) = (.*)', s)
                if not m:
                    continue
                toks = set(re.findall(r'%(?:"[^"]*"|[-A-Za-z0-9_.$]+)', re.sub(r'label %\S+', '', m.group(2))))
                if toks & tainted:
                    tainted.add(m.group(1))
            if len(tainted) == n:
                break
        inside, stores, bad = False, {}, set()
        covered = set()
        for k, s in f.lines:
            if k != "i":
                continue
            if inside:
                covered.add((f.name, s))
            if "@__cxa_guard_acquire" in s:
                g = re.findall(r'@("[^"]*"|[-A-Za-z0-9_.$]+)', s)
                stores.setdefault(g[-1].strip('"'), True)
                inside = True
            elif "@__cxa_guard_release" in s:
                inside = False
            elif inside and (s.startswith(("store", "call", "invoke", "tail")) or " = call" in s or " = invoke" in s):
                if "llvm.dbg" in s:
                    continue
                toks = set(re.findall(r'%(?:"[^"]*"|[-A-Za-z0-9_.$]+)', s.split("!dbg")[0]))
                for g in re.findall(r'@("[^"]*"|[-A-Za-z0-9_.$]+)', s):
                    g = g.strip('"')
                    if mod.mutable(g):
                        if toks & tainted:
                            bad.add(g)
                        else:
                            stores.setdefault(g, True)
        for g in stores:
            if g not in bad and eff.direct.get(g, set()) <= covered:
                ok.setdefault(g, f.name)
    return ok
