"""Runtime hooks called from instrumented code (module alias `_sx`)."""
import builtins
import hashlib
import operator
import re
import shlex
import types
import collections
from .core import S, EngineStop
from .values import (SymStr, SymInt, SymBool, SymChoice, SYM_TYPES, is_sym, deep_sym, chars_of, mkbool,
                     And, Or, Not, char_eq, char_in, mkint)
from . import strmodel, symre
from .strmodel import str_method, to_str, sym_repr, s_mod, s_contains, SymBytes

fstr = strmodel.fstr
_PY_FUNCS = (types.FunctionType, types.MethodType)
_STRS = (str, SymStr, SymChoice)


# ------------------------------------------------------------ keys

def _norm_key(k):
    t = type(k)
    if t is SymChoice:
        return k.force()
    if t is SymInt:
        return k.conc()
    if t is SymBool:
        return bool(k)
    if t is tuple and any(type(x) in SYM_TYPES or type(x) is tuple for x in k):
        return tuple(_norm_key(x) for x in k)
    return k


def _key_is_sym(k):
    t = type(k)
    if t is SymStr:
        return True
    if t is tuple or t is frozenset:
        for x in k:
            if _key_is_sym(x):
                return True
    return False


def _mark(k):
    if type(k) is SymStr:
        k._hok = True
    elif type(k) in (tuple, frozenset):
        for x in k:
            _mark(x)


def _keq(a, b):
    """equality of two keys (tuples element-wise)"""
    if type(a) is tuple and type(b) is tuple:
        return len(a) == len(b) and all(_keq(x, y) for x, y in zip(a, b))
    r = a == b
    return bool(r) if r is not NotImplemented else False


def key(d, k):
    """the key to use natively for d[k]: an existing equal key, or k itself"""
    if isinstance(k, slice):
        return k
    if not isinstance(d, (dict, set, frozenset)):
        if type(k) is SymInt:
            return k
        return k
    k = _norm_key(k)
    if not _key_is_sym(k):
        if S.active and S.sym_keys:
            if k in d:
                return k
            for kk in d:
                if _key_is_sym(kk) and _keq(kk, k):
                    return kk
        return k
    for kk in d:
        if kk is k:
            return k
        if type(kk) in (str, SymStr, tuple) and _keq(k, kk):
            return kk
    _mark(k)
    S.sym_keys = True
    return k


def getitem(o, k):
    if (S.active and (S.sym_keys or type(k) in SYM_TYPES or type(k) is tuple)) and isinstance(o, dict):
        kk = key(o, k)
        return o[kk]
    if type(o) is str and type(k) is SymInt:
        return SymStr.mk(map(ord, o))[k] if False else o[k.conc()]
    return o[k]


def contains(c, x):
    """x in c"""
    t = type(c)
    if t in _STRS:
        if type(x) in (SymStr, SymChoice) or t is not str:
            if not isinstance(x, str):
                raise TypeError("'in <string>' requires string as left operand, not " + type(x).__name__)
            if t is SymChoice:
                c = c.force()
            if type(x) is SymChoice:
                x = x.force()
            return s_contains(c, x)
        return x in c
    if isinstance(c, (dict, set, frozenset)) or t is _DICT_KEYS:
        if S.active and (S.sym_keys or deep_sym(x)):
            x = _norm_key(x)
            if not _key_is_sym(x):
                if x in c:
                    return True
                for kk in c:
                    if _key_is_sym(kk) and _keq(kk, x):
                        return True
                return False
            for kk in c:
                if kk is x or (type(kk) in (str, SymStr, tuple) and _keq(x, kk)):
                    return True
            return False
        return x in c
    if t in (list, tuple) and is_sym(x):
        # non-forking membership for plain strings / ints
        out = []
        for y in c:
            if y is x:
                return True
            r = x == y
            if r is NotImplemented:
                r = y == x
            out.append(bool(r) if type(r) not in (bool, SymBool) else r)
        return Or(*out)
    return x in c


def not_contains(c, x):
    return Not(contains(c, x))


_DICT_KEYS = type({}.keys())


def mkdict(items):
    d = {}
    for k, v in items:
        d[key(d, k)] = v
    return d


def mkdict_display(*items):
    """items: (k, v) pairs or single mappings for ** entries"""
    d = {}
    for it in items:
        if type(it) is tuple:
            d[key(d, it[0])] = it[1]
        else:
            for k in it:
                d[key(d, k)] = it[k]
    return d


def mkset(items):
    s = set()
    for k in items:
        s.add(key(s, k))
    return s


def setop(op, a, b):
    if S.active and S.sym_keys and isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        if op == "|":
            r = mkset(list(a) + list(b))
        elif op == "&":
            r = mkset(x for x in a if contains(b, x))
        elif op == "-":
            r = mkset(x for x in a if not contains(b, x))
        else:
            r = mkset([x for x in a if not contains(b, x)] + [x for x in b if not contains(a, x)])
        return type(a)(r) if type(a) is frozenset else r
    return _SETOPS[op](a, b)


def _subset(a, b):
    return all(bool(contains(b, x)) for x in a)


def eq(a, b):
    t = type(a)
    if (t in (dict, set, frozenset) or t in _DICTS) and S.active and S.sym_keys:
        if isinstance(b, dict) and isinstance(a, dict):
            if len(a) != len(b):
                return False
            for k in a:
                k2 = key(b, k)
                if k2 not in b or not eq(a[k], b[k2]):
                    return False
            return True
        if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
            return len(a) == len(b) and _subset(a, b)
    elif t in (list, tuple) and type(b) is t and S.active and S.sym_keys and any(type(x) in (dict, set) for x in a):
        return len(a) == len(b) and all(bool(eq(x, y)) for x, y in zip(a, b))
    return a == b


def ne(a, b):
    t = type(a)
    if (t in (dict, set, frozenset, list, tuple) or t in _DICTS) and S.active and S.sym_keys:
        return Not(eq(a, b))
    return a != b


def _ordset(op, f):
    def g(a, b):
        if S.active and S.sym_keys and isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
            return f(a, b)
        return op(a, b)
    return g


le = _ordset(operator.le, lambda a, b: _subset(a, b))
ge = _ordset(operator.ge, lambda a, b: _subset(b, a))
lt = _ordset(operator.lt, lambda a, b: len(a) < len(b) and _subset(a, b))
gt = _ordset(operator.gt, lambda a, b: len(a) > len(b) and _subset(b, a))
_DICTS = (collections.OrderedDict, collections.defaultdict, collections.Counter)

_SETOPS = {"|": operator.or_, "&": operator.and_, "-": operator.sub, "^": operator.xor}


def mod(a, b):
    if type(a) in _STRS:
        if type(a) is str and not deep_sym(b) and not (type(b) is tuple and any(isinstance(x, BaseException) for x in b)):
            if not isinstance(b, BaseException):
                if type(b) is tuple or not hasattr(b, "__dict__"):
                    return a % b
        if type(a) is SymChoice:
            a = a.force()
        return s_mod(a, b)
    return a % b


# ------------------------------------------------------------ calls

def _m_str(x="", *a, **k):
    if a or k:
        if type(x) is SymBytes:
            return x.s
        return str(x, *a, **k)
    if type(x) is SymBytes:
        return str(bytes(x))
    return to_str(x)


def _m_int(x=0, *a, **k):
    if type(x) is SymStr:
        return strmodel.parse_int(x, *a, **k)
    if type(x) is SymInt:
        return x
    if type(x) is SymBool:
        return int(bool(x))
    if type(x) is SymChoice:
        x = x.force()
    return int(x, *a, **k)


def _m_type(*a):
    if len(a) == 1:
        t = type(a[0])
        if t in SYM_TYPES or t is SymBytes or t in _LAZY:
            return a[0].__class__
        return t
    return type(*a)


_LAZY = set()


def _m_bytes(*a):
    if a and type(a[0]) in (SymStr, SymChoice):
        return callm(a[0], "encode", *a[1:])
    return bytes(*a)


def _m_quote(s):
    if type(s) not in (SymStr, SymChoice):
        return shlex.quote(s)
    if type(s) is SymChoice:
        s = s.force()
        return shlex.quote(s)
    if symre.r_search(symre.prog(r"[^\w@%+=:,./-]", int(re.ASCII)), s) is None:
        return s if len(s) else "''"
    return strmodel.s_join("", ["'", s.replace("'", "'\"'\"'"), "'"])


def _m_repr(x):
    r = type(x).__repr__
    if type(r) is types.FunctionType and type(x) not in SYM_TYPES:
        return r(x)
    if deep_sym(x):
        return sym_repr(x)
    return repr(x)


def _m_len(x):
    return len(x)


def _m_ord(x):
    if type(x) is SymStr:
        if len(x.c) != 1:
            raise TypeError("ord() expected a character, but string of length %d found" % len(x.c))
        return mkint(x.c[0]) if not isinstance(x.c[0], int) else x.c[0]
    if type(x) is SymChoice:
        x = x.force()
    return ord(x)


def _m_chr(x):
    if type(x) is SymInt:
        return SymStr.mk((x.e,))
    return chr(x)


def _wrap_key(f):
    """method descriptors of str and builtins used as callables by C code"""
    if isinstance(f, types.MethodDescriptorType) and f.__objclass__ is str:
        name = f.__name__
        return lambda s, *a, **k: str_method(s, name, a, k) if isinstance(s, str) else f(s, *a, **k)
    if isinstance(f, types.BuiltinMethodType) or (getattr(type(f), "__hash__", None) and f in _MODEL_KEYS):
        return lambda *a, **k: call(f, *a, **k)
    return f


def _m_sorted(it, *, key=None, reverse=False):
    if key is not None:
        key = _wrap_key(key)
    return sorted(it, key=key, reverse=reverse)


def _m_map(f, *its):
    return map(_wrap_key(f), *its)


def _m_filter(f, it):
    return filter(_wrap_key(f) if f is not None else None, it)


def _m_minmax(fn):
    def f(*a, key=None, **k):
        if key is not None:
            k["key"] = _wrap_key(key)
        return fn(*a, **k)
    return f


def _m_set(*a):
    if not a:
        return set()
    items = list(a[0])
    if S.active and (S.sym_keys or any(deep_sym(x) for x in items)):
        return mkset(items)
    return set(items)


def _m_frozenset(*a):
    return frozenset(_m_set(*a))


def _m_dict(*a, **k):
    if a and S.active:
        src = a[0]
        if isinstance(src, dict):
            return dict(src, **k) if not k else mkdict_display(src, k)
        if hasattr(src, "keys"):
            return dict(*a, **k)
        items = [tuple(x) for x in src]
        if S.sym_keys or any(deep_sym(x[0]) for x in items if x):
            d = mkdict(items)
            for kk in k:
                d[key(d, kk)] = k[kk]
            return d
        return dict(items, **k)
    return dict(*a, **k)


def _m_print(*a, **k):
    f = k.get("file")
    if f is not None and hasattr(f, "parts"):        # an in-memory file of a harness
        out = ""
        for i, x in enumerate(a):
            out = out + (k.get("sep", " ") if i else "") + _m_str(x)
        f.write(out + k.get("end", "\n"))
        return
    f = S.env.get("print") if S.active else None
    if f:
        f(a, k)


def _m_eval(src, *a):
    if type(src) is SymStr or type(src) is SymChoice:
        src = str(src)
    r = eval(src, *a)
    return _subst(r)


def placeholders():
    return S.env.get("placeholders") if S.active else None


def _subst(x):
    ph = placeholders()
    if not ph:
        return x
    if type(x) is str:
        return subst_str(x, ph)
    if type(x) is list:
        return [_subst(y) for y in x]
    if type(x) is tuple:
        return tuple(_subst(y) for y in x)
    if type(x) is dict:
        return mkdict((_subst(k), _subst(v)) for k, v in x.items())
    return x


_PH = re.compile("\ue000(\\d+)\ue001")


def subst_str(s, ph):
    if "\ue000" not in s:
        return s
    out = []
    pos = 0
    for m in _PH.finditer(s):
        out.append(s[pos:m.start()])
        out.append(ph[int(m.group(1))])
        pos = m.end()
    out.append(s[pos:])
    if len(out) == 3 and not out[0] and not out[2]:
        return out[1]
    return strmodel.s_join("", out)


def _m_ast_parse(src, *a, **k):
    import ast
    if is_sym(src):
        src = str(src)
    t = ast.parse(src, *a, **k)
    ph = placeholders()
    if ph:
        for n in ast.walk(t):
            if isinstance(n, ast.Constant) and type(n.value) is str:
                n.value = subst_str(n.value, ph)
    return t


def _m_compile(src, *a, **k):
    if is_sym(src):
        src = str(src)
    return compile(src, *a, **k)


class SymHash:
    """hash object over symbolic data: an injective uninterpreted digest"""

    def __init__(self, name, data=None):
        self.name = name
        self.parts = []
        if data is not None:
            self.update(data)

    def update(self, data):
        self.parts.append(data)

    def copy(self):
        h = SymHash(self.name)
        h.parts = list(self.parts)
        return h

    def _val(self):
        out = []
        for p in self.parts:
            out.append(p.s if type(p) is SymBytes else bytes(p).decode("utf-8", "surrogateescape"))
        return strmodel.s_join("", out)

    def hexdigest(self):
        v = self._val()
        if type(v) is str:
            return hashlib.new(self.name, v.encode("utf-8", "surrogateescape"), usedforsecurity=False).hexdigest()
        # Ackermann: same text <=> same digest (collision freedom is an assumption of the claim)
        tab = S.env.setdefault(("digest", self.name), [])
        for u, d in tab:
            if u == v:
                return d
        n = hashlib.new(self.name).digest_size * 2
        d = hashlib.new(self.name, ("sym%d" % len(tab)).encode()).hexdigest()[:n]
        tab.append((v, d))
        return d

    def digest(self):
        return bytes.fromhex(self.hexdigest())

    @property
    def digest_size(self):
        return hashlib.new(self.name).digest_size


def _m_hash(name):
    real = getattr(hashlib, name)

    def f(data=b"", **k):
        if S.active:
            return SymHash(name, data)
        return real(data, **k)
    return f


def _m_hashnew(name, data=b"", **k):
    return SymHash(name, data) if S.active else hashlib.new(name, data, **k)


def _conc(x):
    if type(x) is tuple:
        return tuple(_conc(v) for v in x)
    if type(x) is SymStr:
        return to_str(x).conc()
    return x


def _m_hash_builtin(x):
    if type(x) is SymStr:
        return hash(to_str(x).conc())
    if type(x) is tuple and deep_sym(x):
        return hash(tuple(_conc(v) for v in x))
    return hash(x)


def _m_bool(x=False):
    return bool(x)


def _m_format(x, spec=""):
    return fstr((x, -1, spec))


def _m_isinstance(x, t):
    return isinstance(x, t)


def _m_re(name):
    real = getattr(re, name)
    mf = symre.module_func(name)

    def f(pattern, *a, **k):
        if is_sym(pattern) or any(is_sym(x) for x in a) or any(is_sym(v) for v in k.values()):
            return mf(pattern, *a, **k)
        if name in ("sub", "subn") and a and callable(a[0]):
            return mf(pattern, *a, **k)
        return real(pattern, *a, **k)
    return f


def _m_re_compile(p, flags=0):
    if is_sym(p):
        p = str(p)
    return re.compile(p, flags)


def _m_re_escape(s):
    return symre.r_escape(s) if is_sym(s) else re.escape(s)


def _m_getattr(o, name, *d):
    if is_sym(name):
        name = str(name)
    return getattr(o, name, *d)


def _m_hasattr(o, name):
    if is_sym(name):
        name = str(name)
    return hasattr(o, name)


def _m_setattr(o, name, v):
    if is_sym(name):
        name = str(name)
    return setattr(o, name, v)


def _m_fspath(p):
    if type(p) is SymStr:
        return p
    if type(p) is SymChoice:
        return p.force()
    import os
    return os.fspath(p)


def _m_intern(s):
    import sys
    return s if is_sym(s) else sys.intern(s)


def _m_ident(x):
    return x


def _json_str(s):
    out = ['"']
    for ch in chars_of(s):
        if isinstance(ch, int):
            import json
            out.append(json.dumps(chr(ch))[1:-1])
            continue
        if char_eq(ch, 34):
            out.append('\\"')
        elif char_eq(ch, 92):
            out.append("\\\\")
        elif char_in(ch, [(32, 126)]):
            out.append(SymStr.mk((ch,)))
        else:
            import json
            out.append(json.dumps(chr(S.pick_value(ch, limit=40)))[1:-1])
    out.append('"')
    return strmodel.s_join("", out)


def _m_json_dumps(o, **k):
    import json
    if not deep_sym(o):
        return json.dumps(o, **k)
    table = []

    def enc(x):
        if type(x) is SymChoice:
            return x.force()
        if type(x) is SymInt:
            return x.conc()
        if type(x) is SymBool:
            return bool(x)
        if type(x) is SymStr:
            table.append(x)
            return "\ue010%d\ue011" % (len(table) - 1)
        if isinstance(x, dict):
            return {enc(kk): enc(v) for kk, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [enc(v) for v in x]
        return x
    if k.get("sort_keys") and deep_sym(list(o) if isinstance(o, dict) else None):
        return json.dumps(_force(o), **k)
    k = dict(k, ensure_ascii=False)
    t = json.dumps(enc(o), **k)
    out, pos = [], 0
    for m in re.finditer('"\ue010(\\d+)\ue011"', t):
        out.append(t[pos:m.start()])
        out.append(_json_str(table[int(m.group(1))]))
        pos = m.end()
    out.append(t[pos:])
    return strmodel.s_join("", out)


def _force(x):
    t = type(x)
    if t in (SymStr, SymChoice):
        return str(x)
    if t is SymInt:
        return x.conc()
    if t is SymBool:
        return bool(x)
    if t in (list, tuple, set, frozenset):
        return t(_force(y) for y in x)
    if t is dict:
        return {_force(k): _force(v) for k, v in x.items()}
    return x


MODELS = {
    bytes: _m_bytes, shlex.quote: _m_quote,
    str: _m_str, int: _m_int, type: _m_type, repr: _m_repr, ord: _m_ord, chr: _m_chr, sorted: _m_sorted,
    map: _m_map, filter: _m_filter, min: _m_minmax(min), max: _m_minmax(max), set: _m_set,
    frozenset: _m_frozenset, dict: _m_dict, print: _m_print, eval: _m_eval, compile: _m_compile,
    hash: _m_hash_builtin, format: _m_format, getattr: _m_getattr, hasattr: _m_hasattr, setattr: _m_setattr,
    re.compile: _m_re_compile, re.escape: _m_re_escape,
}
for _n in "match fullmatch search sub subn split findall finditer".split():
    MODELS[getattr(re, _n)] = _m_re(_n)
for _n in "md5 sha1 sha256 sha512".split():
    MODELS[getattr(hashlib, _n)] = _m_hash(_n)
MODELS[hashlib.new] = _m_hashnew
import ast as _ast  # noqa: E402
import json as _json  # noqa: E402
import os as _os  # noqa: E402
import sys as _sys  # noqa: E402
MODELS[_ast.parse] = _m_ast_parse
MODELS[_json.dumps] = _m_json_dumps
MODELS[_os.fspath] = _m_fspath
MODELS[_sys.intern] = _m_intern
import io as _io  # noqa: E402


class SymIO:
    """io.StringIO for symbolic text (no newline translation)"""

    def __init__(self, initial=""):
        self.buf, self.pos = initial, 0

    def read(self, n=-1):
        e = len(self.buf) if n is None or n < 0 else self.pos + n
        r = self.buf[self.pos:e]
        self.pos += len(r)
        return r

    def readline(self):
        i = callm(self.buf, "find", "\n", self.pos)
        e = i + 1 if i >= 0 else len(self.buf)
        r = self.buf[self.pos:e]
        self.pos = e
        return r

    def __iter__(self):
        while True:
            ln = self.readline()
            if len(ln) == 0:
                return
            yield ln

    def write(self, s):
        self.buf = self.buf[:self.pos] + s + self.buf[self.pos + len(s):]
        self.pos += len(s)
        return len(s)

    def seek(self, n, w=0):
        self.pos = n

    def getvalue(self):
        return self.buf

    def close(self):
        pass

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def _m_stringio(initial="", newline="\n"):
    if not S.active:
        return _io.StringIO(initial, newline)
    return SymIO(initial if initial is not None else "")


MODELS[_io.StringIO] = _m_stringio
_MODEL_KEYS = set(MODELS)

# builtins that work on symbolic values as they are (through the special methods)
_PASS = {len, isinstance, issubclass, iter, next, list, tuple, enumerate, zip, range, any, all, sum, bool,
         abs, reversed, id, callable, object, super, staticmethod, classmethod, property, delattr, vars,
         slice, divmod, round, collections.OrderedDict, collections.defaultdict, collections.deque,
         collections.namedtuple, BaseException}

CMODS = ("builtins", "posix", "_", "re", "sys", "itertools", "functools", "time", "math", "operator")


def register(fn, model):
    MODELS[fn] = model
    _MODEL_KEYS.add(fn)


def call(f, *a, **k):
    tf = type(f)
    if tf is types.FunctionType:
        h = MODELS.get(f)
        if h is not None:
            return h(*a, **k)
        return f(*a, **k)
    if tf is types.MethodType:
        return f(*a, **k)
    if tf is types.BuiltinFunctionType:  # also bound builtin methods
        o = f.__self__
        if o is not None and not isinstance(o, types.ModuleType):
            return callm(o, f.__name__, *a, **k)
        h = MODELS.get(f)
        if h is not None:
            return h(*a, **k)
        if f in _PASS:
            return f(*a, **k)
        if S.active and (any(type(x) in SYM_TYPES for x in a) or any(type(x) in SYM_TYPES for x in k.values())):
            return f(*[_force(x) for x in a], **{n: _force(v) for n, v in k.items()})
        return f(*a, **k)
    if tf is types.MethodDescriptorType:
        if a and f.__objclass__ is str:
            return callm(a[0], f.__name__, *a[1:], **k)
        if a and f.__objclass__ in (dict, set, list, re.Pattern):
            return callm(a[0], f.__name__, *a[1:], **k)
        return f(*a, **k)
    if isinstance(f, type):
        h = MODELS.get(f)
        if h is not None:
            return h(*a, **k)
        if f is collections.OrderedDict and a and S.active:
            d = f()
            src = a[0]
            for kk, v in (src.items() if isinstance(src, dict) else src):
                d[key(d, kk)] = v
            d.update(k)
            return d
        return f(*a, **k)
    try:
        h = MODELS.get(f)
    except TypeError:
        h = None
    if h is not None:
        return h(*a, **k)
    return f(*a, **k)


def callm(o, name, *a, **k):
    t = type(o)
    if t is str:
        if name == "join" and len(a) == 1:
            it = a[0] if type(a[0]) in (list, tuple) else list(a[0])
            for x in it:
                if type(x) is not str:
                    return strmodel.s_join(o, it)
            return o.join(it)
        if name == "format":
            if any(deep_sym(x) for x in a) or any(deep_sym(x) for x in k.values()):
                return strmodel.s_format(o, *a, **k)
            return o.format(*a, **k)
        for x in a:
            if type(x) in SYM_TYPES or (type(x) is tuple and deep_sym(x)) or \
                    (name == "translate" and type(x) is dict and deep_sym(x)):
                return str_method(o, name, a, k)
        return getattr(o, name)(*a, **k)
    if t is SymStr or t is SymChoice:
        return str_method(o, name, a, k)
    if t is dict or (isinstance(o, dict) and _native_method(t, name)):
        if S.active:
            if name in ("get", "pop", "setdefault", "__contains__", "__getitem__") and a:
                if S.sym_keys or type(a[0]) in SYM_TYPES or type(a[0]) is tuple:
                    a = (key(o, a[0]),) + a[1:]
            elif name == "update" and a and (S.sym_keys or isinstance(a[0], (list, tuple))):
                src = a[0]
                for kk, v in (src.items() if isinstance(src, dict) else
                              [(q, src[q]) for q in src.keys()] if hasattr(src, "keys") else src):
                    o[key(o, kk)] = v
                a = ()
        return getattr(o, name)(*a, **k)
    if t is set or t is frozenset or (isinstance(o, set) and _native_method(t, name)):
        if S.active and a:
            if name in ("add", "remove", "discard", "__contains__"):
                if S.sym_keys or type(a[0]) in SYM_TYPES or type(a[0]) is tuple:
                    if name == "__contains__":
                        return contains(o, a[0])
                    a = (key(o, a[0]),) + a[1:]
            elif name in ("update", "union", "difference", "intersection", "issubset", "issuperset",
                          "difference_update", "intersection_update", "isdisjoint", "symmetric_difference"):
                its = [x if isinstance(x, (set, frozenset)) else _m_set(x) for x in a]
                if S.sym_keys:
                    if name == "update":
                        for it in its:
                            for x in it:
                                o.add(key(o, x))
                        return None
                    if name == "difference_update":
                        for it in its:
                            for x in list(o):
                                if contains(it, x):
                                    o.discard(x)
                        return None
                    if name == "intersection_update":
                        for it in its:
                            for x in list(o):
                                if not contains(it, x):
                                    o.discard(x)
                        return None
                    if name in ("union", "difference", "intersection", "symmetric_difference"):
                        op = {"union": "|", "difference": "-", "intersection": "&",
                              "symmetric_difference": "^"}[name]
                        r = o
                        for it in its:
                            r = setop(op, r, it)
                        return r
                    if name == "issubset":
                        return all(contains(its[0], x) for x in o)
                    if name == "issuperset":
                        return all(contains(o, x) for x in its[0])
                    if name == "isdisjoint":
                        return not any(contains(o, x) for x in its[0])
                a = tuple(its)
        return getattr(o, name)(*a, **k)
    if t is re.Pattern:
        if any(is_sym(x) for x in a) or (name in ("sub", "subn") and a and callable(a[0])):
            return symre.pattern_method(o, name, list(a), k)
        return getattr(o, name)(*a, **k)
    if t is list:
        if name == "sort" and k.get("key") is not None:
            k = dict(k, key=_wrap_key(k["key"]))
        return getattr(o, name)(*a, **k)
    if t is bytes and name == "join" and a:
        it = list(a[0])
        if any(type(x) is SymBytes for x in it):
            return SymBytes(strmodel.s_join(o.decode(), [x.s if type(x) is SymBytes else x.decode() for x in it]), "utf-8")
        return o.join(it)
    f = getattr(o, name)
    if type(f) is types.BuiltinFunctionType and not isinstance(o, types.ModuleType):
        if o is dict and name == "fromkeys":
            v = a[1] if len(a) > 1 else None
            return mkdict((x, v) for x in a[0])
        if S.active and not isinstance(o, (list, dict, set, tuple, collections.deque, BaseException, type)):
            if any(deep_sym(x) for x in a):
                a = [_force(x) for x in a]
        return f(*a, **k)
    return call(f, *a, **k)


def _native_method(t, name):
    return not isinstance(getattr(t, name, None), types.FunctionType)
