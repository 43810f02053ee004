"""Harness contexts.  A harness is a function fn(ctx, **params) run (a) instrumented with a
SymCtx, where inputs are symbolic, and (b) natively with a NativeCtx on concrete inputs."""
import importlib
import sys


ALPHABETS = {
    "any": [(1, 0xD7FF), (0xE002, 0x10FFFF)],       # every code point but NUL, surrogates and 2 private-use marks
    "ascii": [(1, 126)],
    "print": [(32, 126)],
    "printnl": [(9, 10), (13, 13), (32, 126)],
    "path": [(46, 47), (97, 99)],
}


class Violation(Exception):
    pass


class Skip(BaseException):
    pass


class Assumed(BaseException):
    pass


class SymCtx:
    native = False

    def __init__(self, S, values, z3):
        self.S, self.v, self.z3 = S, values, z3
        self.And, self.Or, self.Not = values.And, values.Or, values.Not
        self.Implies, self.Iff = values.Implies, values.Iff

    # ---- inputs
    def _ranges(self, alphabet):
        if isinstance(alphabet, str):
            return ALPHABETS.get(alphabet) or self.v.ranges_of(alphabet)
        return list(alphabet)

    def _char(self, name, rs):
        z3 = self.z3
        if len(rs) == 1 and rs[0][0] == rs[0][1]:
            return rs[0][0]
        c = z3.Int(name)
        ors = [c == lo if lo == hi else z3.And(c >= lo, c <= hi) for lo, hi in rs]
        self.S.add(z3.Or(*ors) if len(ors) > 1 else ors[0])
        return c

    def str(self, name, maxlen, minlen=0, alphabet="any"):
        assert name not in self.S.inputs, name
        rs = self._ranges(alphabet)
        n = maxlen
        if minlen != maxlen:
            ln = self.z3.Int(name + ".len")
            self.S.add(self.z3.And(ln >= minlen, ln <= maxlen))
            n = self.S.pick_value(ln)
        s = self.v.SymStr.mk([self._char("%s.%d" % (name, i), rs) for i in range(n)])
        self.S.inputs[name] = s
        return s

    def int(self, name, lo, hi):
        x = self.z3.Int(name)
        self.S.add(self.z3.And(x >= lo, x <= hi))
        r = self.v.SymInt(x)
        self.S.inputs[name] = r
        return r

    def bool(self, name):
        r = self.v.SymBool(self.z3.Bool(name))
        self.S.inputs[name] = r
        return r

    def choice(self, name, opts):
        """lazily one of several concrete strings"""
        if len(opts) == 1:
            self.S.inputs[name] = opts[0]
            return opts[0]
        x = self.z3.Int(name)
        self.S.add(self.z3.And(x >= 0, x < len(opts)))
        r = self.v.SymChoice(x, opts)
        self.S.inputs[name] = r
        return r

    def pick(self, name, opts):
        """one of several values, decided now"""
        x = self.z3.Int(name)
        self.S.add(self.z3.And(x >= 0, x < len(opts)))
        lo, hi = 0, len(opts)
        while hi - lo > 8:          # halve first: a long chain of alternatives explores slowly
            mid = (lo + hi) // 2
            if self.S.branch(x < mid):
                hi = mid
            else:
                lo = mid
        i = self.S.pick_value(x)
        self.S.inputs[name] = i
        return opts[i]

    # ---- claims
    def assume(self, cond):
        self.S.assume(self.v.zbool(cond) if not isinstance(cond, bool) or type(cond) is not bool else cond)

    def check(self, cond, msg="", known=None):
        S = self.S
        S.stats["obligations"] += 1
        if type(cond) is self.v.SymBool:
            neg = self.z3.Not(cond.e)
        elif cond:
            return
        else:
            neg = self.z3.BoolVal(True)
        extra = [neg]
        if known:
            for kid, kc in known:
                kz = self.v.zbool(kc)
                if S.query(neg, kz) == "sat":
                    S.violations.append((str_safe(msg), {k: self.v.eval_model(v, S.last_model)
                                                        for k, v in S.inputs.items()}, kid))
                extra.append(self.z3.Not(kz))
        r = S.query(*extra)
        if r == "sat":
            m = S.last_model
            S.violations.append((str_safe(msg), {k: self.v.eval_model(v, m) for k, v in S.inputs.items()}, None))
        if r == "unknown":
            S.truncated = True
        from .core import PathDone, Infeasible
        if type(cond) is self.v.SymBool:
            try:
                S.assume(cond.e)
            except Infeasible:
                if S.violations:
                    raise PathDone() from None
                raise
        else:
            raise PathDone()

    def observe(self, *vals):
        self.S.observed.extend(vals)

    def forkless(self, f):
        return f

    # ---- code under analysis
    def mod(self, name):
        return importlib.import_module(name)

    def fn(self, modname, attr):
        try:
            o = self.mod(modname)
        except ImportError:
            self.skip("no module %s" % modname)
        for a in attr.split("."):
            try:
                o = getattr(o, a)
            except AttributeError:
                self.skip("no %s.%s" % (modname, attr))
        return o

    def skip(self, why):
        from .core import SkipPath
        self.S.notes.append("skip: " + why)
        raise SkipPath(why)

    def patch(self, modname, attr, value):
        """replace an attribute seen by the code under analysis (os.*, sys.* through proxies)"""
        from . import instrument
        if modname == "os.path":
            tgt = instrument.PROXY["os"].path
        elif modname in instrument.PROXY:
            tgt = instrument.PROXY[modname]
        elif modname in instrument.STD:
            tgt = instrument.STD[modname]
        else:
            tgt = self.mod(modname)
        d = tgt.__dict__
        old = d.get(attr, _MISSING)
        self.S.undo.append((tgt, attr, old))
        setattr(tgt, attr, value)

    def patch_builtin(self, name, value):
        from . import instrument, hooks
        b = instrument.sx_builtins()
        self.S.undo.append((b, name, b[name]))
        b[name] = value

    def env(self, key, value):
        self.S.env[key] = value

    def mark(self, i, s):
        """text standing for symbolic string number i inside a file the code parses"""
        self.S.env.setdefault("placeholders", {})[i] = s
        return "\ue000%d\ue001" % i

    def concrete(self, s):
        return str(s)

    def to_str(self, s):
        from .strmodel import to_str
        return to_str(s)

    def js(self, scenario, fn, inputs):
        """settled result of scenario FN (harness/js/SCENARIO) on the real JavaScript"""
        from .js import load
        r = load.run(scenario, fn, inputs)
        if isinstance(r, dict) and "$unsupported" in r:
            self.skip("not modelled: " + ", ".join(map(str, r["$unsupported"][:3])))
        return r

    def lazylist(self, thunks):
        from .lazy import LazyList
        return LazyList(thunks)


_MISSING = object()


def str_safe(x):
    return x if type(x) is str else repr(x)


class NativeCtx:
    native = True

    def __init__(self, values):
        self.values = values
        self.observed = []
        self.violations = []
        self.undo = []
        self.notes = []

    def _get(self, name):
        return self.values[name]

    def str(self, name, *a, **k):
        return self.values[name]
    int = bool = choice = str

    def pick(self, name, opts):
        return opts[self.values[name]]

    def assume(self, cond):
        if not cond:
            raise Assumed()

    def check(self, cond, msg="", known=None):
        if not cond:
            kid = None
            for k, kc in known or ():
                if kc:
                    kid = k
            self.violations.append((msg, kid))
            raise Violation(msg)

    def observe(self, *vals):
        self.observed.extend(vals)

    @staticmethod
    def And(*xs):
        return all(bool(x) for x in xs)

    @staticmethod
    def Or(*xs):
        return any(bool(x) for x in xs)

    @staticmethod
    def Not(x):
        return not x

    @staticmethod
    def Implies(a, b):
        return (not a) or bool(b)

    @staticmethod
    def Iff(a, b):
        return bool(a) == bool(b)

    mod = staticmethod(importlib.import_module)

    def fn(self, modname, attr):
        try:
            o = self.mod(modname)
        except ImportError:
            raise Skip("no module %s" % modname)
        for a in attr.split("."):
            if not hasattr(o, a):
                raise Skip("no %s.%s" % (modname, attr))
            o = getattr(o, a)
        return o

    def skip(self, why):
        raise Skip(why)

    def patch(self, modname, attr, value):
        import os
        tgt = os.path if modname == "os.path" else sys.modules.get(modname) or importlib.import_module(modname)
        setattr(tgt, attr, value)

    def patch_builtin(self, name, value):
        import builtins
        setattr(builtins, name, value)

    def env(self, key, value):
        pass

    def mark(self, i, s):
        """as text inside a Python-literal file"""
        return s.replace("\\", "\\\\").replace("'", "\\'").replace('"', '\\"').replace("\n", "\\n").replace("\r", "\\r").replace("\0", "\\0")

    def concrete(self, s):
        return s

    def to_str(self, s):
        return str(s)

    def js(self, scenario, fn, inputs):
        from symex import native
        r = native.JS.call(scenario, fn, inputs)
        if isinstance(r, dict) and "$unsupported" in r:
            raise Skip("not modelled: " + ", ".join(map(str, r["$unsupported"][:3])))
        return r

    def lazylist(self, thunks):
        out = []
        for t in thunks:
            out.extend(t())
        return out
