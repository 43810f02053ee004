"""Symbolic values: booleans, integers and bounded strings."""
import z3
from .core import S, Infeasible

IntVal = z3.IntVal


def _zb(x):
    """python bool / SymBool -> z3 bool"""
    if isinstance(x, SymBool):
        return x.e
    return z3.BoolVal(bool(x))


def mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def zbool(x):
    if type(x) is SymBool:
        return x.e
    if type(x) is bool:
        return z3.BoolVal(x)
    return z3.BoolVal(bool(x))


def And(*xs):
    """Non-forking conjunction of bools / SymBools."""
    out = []
    for x in xs:
        if type(x) is SymBool:
            out.append(x.e)
        elif not x:
            return False
    if not out:
        return True
    return mkbool(z3.And(*out))


def Or(*xs):
    out = []
    for x in xs:
        if type(x) is SymBool:
            out.append(x.e)
        elif x:
            return True
    if not out:
        return False
    return mkbool(z3.Or(*out))


def Not(x):
    if type(x) is SymBool:
        return mkbool(z3.Not(x.e))
    return not x


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if type(a) is not SymBool and type(b) is not SymBool:
        return bool(a) == bool(b)
    return mkbool(zbool(a) == zbool(b))


class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return S.branch(self.e)

    def __and__(self, o):
        return And(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return Or(self, o)
    __ror__ = __or__

    def __xor__(self, o):
        return Not(Iff(self, o))

    def __eq__(self, o):
        if type(o) in (bool, SymBool):
            return Iff(self, o)
        return bool(self) == o

    def __ne__(self, o):
        return Not(self.__eq__(o))

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __add__(self, o):
        return int(bool(self)) + o
    __radd__ = __add__

    def __sub__(self, o):
        return int(bool(self)) - (int(bool(o)) if type(o) is SymBool else o)

    def __rsub__(self, o):
        return o - int(bool(self))

    def __repr__(self):
        return "SymBool(%s)" % self.e

    def __str__(self):
        return str(bool(self))

    def __format__(self, spec):
        return format(bool(self), spec)


def zint(x):
    if type(x) is SymInt:
        return x.e
    if type(x) is SymBool:
        return z3.If(x.e, IntVal(1), IntVal(0))
    return IntVal(int(x))


def mkint(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def _isnum(o):
    return type(o) in (int, bool, SymInt, SymBool)


class SymInt:
    __slots__ = ("e", "txt")

    def __init__(self, e, txt=None):
        self.e = e
        self.txt = txt          # its canonical decimal text, when known

    @property
    def __class__(self):
        return int

    def conc(self):
        return S.pick_value(self.e, limit=64)

    def __bool__(self):
        return S.branch(self.e != 0)

    def __eq__(self, o):
        if _isnum(o):
            return mkbool(self.e == zint(o))
        if type(o) is float:
            return self.conc() == o
        return False

    def __ne__(self, o):
        return Not(self.__eq__(o))

    def _cmp(self, o, f):
        if _isnum(o):
            return mkbool(f(self.e, zint(o)))
        if type(o) is float:
            return f(self.conc(), o)
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __add__(self, o):
        if _isnum(o):
            return mkint(self.e + zint(o))
        return NotImplemented
    __radd__ = __add__

    def __sub__(self, o):
        if _isnum(o):
            return mkint(self.e - zint(o))
        return NotImplemented

    def __rsub__(self, o):
        if _isnum(o):
            return mkint(zint(o) - self.e)
        return NotImplemented

    def __mul__(self, o):
        if _isnum(o):
            return mkint(self.e * zint(o))
        return self.conc() * o
    __rmul__ = __mul__

    def __neg__(self):
        return mkint(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.e >= 0, self.e, -self.e))

    def __mod__(self, o):
        if type(o) is int and o > 0:
            return mkint(self.e % o)
        return self.conc() % o

    def __floordiv__(self, o):
        if type(o) is int and o > 0:
            return mkint(self.e / IntVal(o))  # z3 int div is euclidean: = floor for o>0
        return self.conc() // o

    def __rmod__(self, o):
        return o % self.conc()

    def __rfloordiv__(self, o):
        return o // self.conc()

    def __truediv__(self, o):
        return self.conc() / o

    def __rtruediv__(self, o):
        return o / self.conc()

    def __lshift__(self, o):
        if type(o) is int:
            return mkint(self.e * (1 << o))
        return self.conc() << o

    def __rlshift__(self, o):
        return o << self.conc()

    def __rshift__(self, o):
        if type(o) is int:
            return self // (1 << o)
        return self.conc() >> o

    def __rrshift__(self, o):
        return o >> self.conc()

    def __and__(self, o):
        return self.conc() & o
    __rand__ = __and__

    def __or__(self, o):
        return self.conc() | o
    __ror__ = __or__

    def __xor__(self, o):
        return self.conc() ^ o
    __rxor__ = __xor__

    def __pow__(self, o):
        return self.conc() ** o

    def __rpow__(self, o):
        return o ** self.conc()

    def __index__(self):
        return self.conc()

    def __int__(self):
        return self.conc()

    def __float__(self):
        return float(self.conc())

    def __hash__(self):
        return hash(self.conc())

    def __repr__(self):
        return "SymInt(%s)" % self.e

    def __str__(self):
        return str(self.conc())

    def __format__(self, spec):
        return format(self.conc(), spec)


def int_to_str(x):
    """str(int) without losing generality: forks on sign and digit count."""
    if type(x) is not SymInt:
        return str(x)
    if x.txt is not None:
        return x.txt
    neg = bool(x < 0)
    v = mkint(-x.e) if neg else x
    if type(v) is int:
        return str(-v if neg else v)
    n = 1
    while not bool(v < 10 ** n):
        n += 1
        if n > 12:
            return str(x.conc())
    digs = []
    tot = IntVal(0)
    for i in range(n):
        d = z3.Int(S.fresh("dig"))
        S.pc.append(z3.And(d >= 48, d <= 57))
        digs.append(d)
        tot = tot * 10 + (d - 48)
    S.model = None
    S.assume(tot == v.e)
    return SymStr.mk(([45] if neg else []) + digs)


# ---------------------------------------------------------------- strings

def _cv(c):
    return c if not isinstance(c, int) else IntVal(c)


def char_eq(a, b):
    """equality of two chars (ints or z3) as bool/SymBool"""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return mkbool(_cv(a) == _cv(b))


_RANGE_CACHE = {}


def char_in(c, ranges):
    """membership of a char in a list of (lo, hi) ranges"""
    if isinstance(c, int):
        for lo, hi in ranges:
            if lo <= c <= hi:
                return True
        return False
    ors = []
    for lo, hi in ranges:
        if lo == hi:
            ors.append(c == lo)
        else:
            ors.append(z3.And(c >= lo, c <= hi))
    if not ors:
        return False
    return mkbool(z3.Or(*ors) if len(ors) > 1 else ors[0])


def ranges_of(chars):
    """set of characters (str) -> ranges"""
    out = []
    for o in sorted(set(map(ord, chars))):
        if out and out[-1][1] == o - 1:
            out[-1][1] = o
        else:
            out.append([o, o])
    return [tuple(r) for r in out]


_PREDS = {}


def pred_ranges(name):
    """ranges of code points for str predicates"""
    r = _PREDS.get(name)
    if r is None:
        f = getattr(str, name)
        r = ranges_of("".join(chr(i) for i in range(0x110000) if f(chr(i))))
        _PREDS[name] = r
    return r


class SymStr:
    """A string of concrete length whose characters are code points or z3 Ints."""
    __slots__ = ("c", "_hok", "__weakref__")

    def __init__(self, chars):
        self.c = tuple(chars)
        self._hok = False

    @property
    def __class__(self):
        return str

    @staticmethod
    def mk(chars):
        chars = tuple(chars)
        for ch in chars:
            if not isinstance(ch, int):
                return SymStr(chars)
        return "".join(map(chr, chars))

    def __len__(self):
        return len(self.c)

    def __bool__(self):
        return len(self.c) > 0

    def conc(self):
        """Concretise to one value (forks over others, bounded)."""
        out = []
        for ch in self.c:
            out.append(ch if isinstance(ch, int) else S.pick_value(ch, limit=6))
        return "".join(map(chr, out))

    def __hash__(self):
        if self._hok:
            return id(self)
        return hash(self.conc())

    def __eq__(self, o):
        if type(o) is str:
            oc = tuple(map(ord, o))
        elif type(o) is SymStr:
            if o is self:
                return True
            oc = o.c
        elif type(o) is SymChoice:
            return o.__eq__(self)
        else:
            return NotImplemented if not isinstance(o, str) else (self == str(o))
        if len(oc) != len(self.c):
            return False
        es = []
        for a, b in zip(self.c, oc):
            if isinstance(a, int) and isinstance(b, int):
                if a != b:
                    return False
            else:
                es.append(_cv(a) == _cv(b))
        if not es:
            return True
        return mkbool(z3.And(*es) if len(es) > 1 else es[0])

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return Not(r)

    def _lt(self, a, b, orequal):
        # lexicographic comparison as one term
        e = z3.BoolVal(len(a) < len(b) or (orequal and len(a) == len(b)))
        for x, y in reversed(list(zip(a, b))):
            x, y = _cv(x), _cv(y)
            e = z3.Or(x < y, z3.And(x == y, e))
        return mkbool(e)

    def _oc(self, o):
        if type(o) is str:
            return tuple(map(ord, o))
        if type(o) is SymStr:
            return o.c
        if type(o) is SymChoice:
            return chars_of(o)
        return None

    def __lt__(self, o):
        oc = self._oc(o)
        return NotImplemented if oc is None else self._lt(self.c, oc, False)

    def __le__(self, o):
        oc = self._oc(o)
        return NotImplemented if oc is None else self._lt(self.c, oc, True)

    def __gt__(self, o):
        oc = self._oc(o)
        return NotImplemented if oc is None else self._lt(oc, self.c, False)

    def __ge__(self, o):
        oc = self._oc(o)
        return NotImplemented if oc is None else self._lt(oc, self.c, True)

    def __add__(self, o):
        oc = self._oc(o)
        if oc is None:
            return NotImplemented
        return SymStr(self.c + oc)

    def __radd__(self, o):
        oc = self._oc(o)
        if oc is None:
            return NotImplemented
        return SymStr(oc + self.c)

    def __mul__(self, n):
        return SymStr.mk(self.c * n)
    __rmul__ = __mul__

    def __getitem__(self, k):
        if isinstance(k, slice):
            def f(v):
                return v if v is None or type(v) is int else v.__index__()
            return SymStr.mk(self.c[slice(f(k.start), f(k.stop), f(k.step))])
        return SymStr.mk((self.c[k.__index__()],))

    def __iter__(self):
        for ch in self.c:
            yield SymStr.mk((ch,))

    def __contains__(self, o):
        from . import strmodel
        return bool(strmodel.s_contains(self, o))

    def __mod__(self, args):
        from . import strmodel
        return strmodel.s_mod(self, args)

    def __rmod__(self, fmt):
        from . import strmodel
        return strmodel.s_mod(fmt, self)

    def __repr__(self):
        return "SymStr<%s>" % "".join(chr(c) if isinstance(c, int) else "?" for c in self.c)

    def __str__(self):
        return self.conc()

    def __format__(self, spec):
        return format(self.conc(), spec)

    def __fspath__(self):
        return self.conc()

    def __getattr__(self, name):
        from . import strmodel
        if name.startswith("__"):
            raise AttributeError(name)
        f = strmodel.METHODS.get(name)
        if f is None:
            if hasattr(str, name):
                return getattr(self.conc(), name)
            raise AttributeError("'str' object has no attribute %r" % name)
        return lambda *a, **k: f(self, *a, **k)


class SymChoice:
    """One of several concrete strings, selected by a z3 Int; forced (forked) lazily."""
    __slots__ = ("sel", "opts", "val")

    def __init__(self, sel, opts):
        self.sel = sel
        self.opts = list(opts)
        self.val = None

    @property
    def __class__(self):
        return str

    def force(self):
        """Fork on the value; afterwards a concrete string."""
        for i, o in enumerate(self.opts[:-1]):
            if S.branch(self.sel == i):
                return o
        return self.opts[-1]

    def __eq__(self, o):
        if type(o) is str:
            idx = [i for i, x in enumerate(self.opts) if x == o]
            if not idx:
                return False
            return mkbool(z3.Or(*[self.sel == i for i in idx]))
        if type(o) is SymChoice:
            return mkbool(z3.Or(*([z3.And(self.sel == i, o.sel == j)
                                   for i, x in enumerate(self.opts)
                                   for j, y in enumerate(o.opts) if x == y] or [z3.BoolVal(False)])))
        if type(o) is SymStr:
            return self.force() == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else Not(r)

    def __hash__(self):
        return hash(self.force())

    def __bool__(self):
        es = [i for i, x in enumerate(self.opts) if x]
        return S.branch(z3.Or(*[self.sel == i for i in es])) if es else False

    def __len__(self):
        return len(self.force())

    def __str__(self):
        return self.force()

    def __repr__(self):
        return "SymChoice(%r)" % (self.opts,)

    def __format__(self, spec):
        return format(self.force(), spec)

    def __iter__(self):
        return iter(self.force())

    def __contains__(self, o):
        return o in self.force()

    def __getitem__(self, k):
        return self.force()[k]

    def __add__(self, o):
        return self.force() + o

    def __radd__(self, o):
        return o + self.force()

    def __mod__(self, o):
        from . import strmodel
        return strmodel.s_mod(self.force(), o)

    def __lt__(self, o):
        return self.force() < o

    def __le__(self, o):
        return self.force() <= o

    def __gt__(self, o):
        return self.force() > o

    def __ge__(self, o):
        return self.force() >= o

    def __fspath__(self):
        return self.force()

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.force(), name)


SYM_TYPES = (SymStr, SymInt, SymBool, SymChoice)


def is_sym(x):
    return type(x) in SYM_TYPES


def chars_of(s):
    if type(s) is str:
        return tuple(map(ord, s))
    if type(s) is SymStr:
        return s.c
    if type(s) is SymChoice:
        return tuple(map(ord, s.force()))
    if isinstance(s, str):
        return tuple(map(ord, str(s)))
    raise TypeError("expected str, got %s" % type(s).__name__)


def deep_sym(x, depth=0):
    """does x contain a symbolic value (containers searched shallowly)?"""
    t = type(x)
    if t in SYM_TYPES:
        return True
    if depth > 6:
        return False
    if t in (tuple, list, set, frozenset):
        return any(deep_sym(y, depth + 1) for y in x)
    if t is dict:
        return any(deep_sym(k, depth + 1) or deep_sym(v, depth + 1) for k, v in x.items())
    return False


def eval_model(x, m):
    """concrete value of x under model m (containers mapped)"""
    t = type(x)
    if t is SymStr:
        return "".join(chr(c if isinstance(c, int) else m.eval(c, model_completion=True).as_long())
                       for c in x.c)
    if t is SymInt:
        return m.eval(x.e, model_completion=True).as_long()
    if t is SymBool:
        return z3.is_true(m.eval(x.e, model_completion=True))
    if t is SymChoice:
        return x.opts[m.eval(x.sel, model_completion=True).as_long()]
    if t is tuple:
        return tuple(eval_model(y, m) for y in x)
    if t is list:
        return [eval_model(y, m) for y in x]
    if t is dict:
        return {eval_model(k, m): eval_model(v, m) for k, v in x.items()}
    if t in (set, frozenset):
        return t(eval_model(y, m) for y in x)
    return x
