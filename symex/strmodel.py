"""Models of str methods over SymStr (and of str methods on concrete receivers with
symbolic arguments).  Each follows CPython's documented semantics; forks happen
through the truth value of SymBools."""
import z3
from .core import S
from .values import (SymStr, SymInt, SymBool, SymChoice, mkbool, And, Or, Not, char_eq, char_in,
                     chars_of, pred_ranges, ranges_of, int_to_str, is_sym, deep_sym)

mk = SymStr.mk


def _match_at(c, i, sub):
    """non-forking: does sub occur at i in c"""
    return And(*[char_eq(c[i + j], sub[j]) for j in range(len(sub))])


def _slice_bounds(n, start, end):
    start = 0 if start is None else start
    end = n if end is None else end
    start = start.__index__()
    end = end.__index__()
    if start < 0:
        start = max(0, start + n)
    if end < 0:
        end = max(0, end + n)
    return start, min(end, n)


def s_contains(s, o):
    c = chars_of(s)
    sub = chars_of(o)
    return Or(*[_match_at(c, i, sub) for i in range(len(c) - len(sub) + 1)])


def s_find(s, sub, start=None, end=None):
    c, sub = chars_of(s), chars_of(sub)
    st, en = _slice_bounds(len(c), start, end)
    for i in range(st, en - len(sub) + 1):
        if _match_at(c, i, sub):
            return i
    return -1


def s_rfind(s, sub, start=None, end=None):
    c, sub = chars_of(s), chars_of(sub)
    st, en = _slice_bounds(len(c), start, end)
    for i in range(en - len(sub), st - 1, -1):
        if _match_at(c, i, sub):
            return i
    return -1


def s_index(s, sub, start=None, end=None):
    r = s_find(s, sub, start, end)
    if r < 0:
        raise ValueError("substring not found")
    return r


def s_rindex(s, sub, start=None, end=None):
    r = s_rfind(s, sub, start, end)
    if r < 0:
        raise ValueError("substring not found")
    return r


def s_count(s, sub, start=None, end=None):
    c, sub = chars_of(s), chars_of(sub)
    st, en = _slice_bounds(len(c), start, end)
    if not sub:
        return en - st + 1 if en >= st else 0
    n, i = 0, st
    while i + len(sub) <= en:
        if _match_at(c, i, sub):
            n += 1
            i += len(sub)
        else:
            i += 1
    return n


def s_startswith(s, prefix, start=None, end=None):
    c = chars_of(s)
    st, en = _slice_bounds(len(c), start, end)
    if type(prefix) is tuple:
        return Or(*[s_startswith(s, p, start, end) for p in prefix])
    p = chars_of(prefix)
    if st > len(c) or st + len(p) > en:
        return False
    return _match_at(c, st, p)


def s_endswith(s, suffix, start=None, end=None):
    c = chars_of(s)
    st, en = _slice_bounds(len(c), start, end)
    if type(suffix) is tuple:
        return Or(*[s_endswith(s, p, start, end) for p in suffix])
    p = chars_of(suffix)
    if st > len(c) or en - len(p) < st:
        return False
    return _match_at(c, en - len(p), p)


def s_replace(s, old, new, count=-1):
    c, old, new = chars_of(s), chars_of(old), chars_of(new)
    out = []
    i = n = 0
    if not old:
        k = 0
        for j in range(len(c) + 1):
            if count < 0 or k < count:
                out.extend(new)
                k += 1
            if j < len(c):
                out.append(c[j])
        return mk(out)
    while i < len(c):
        if (count < 0 or n < count) and i + len(old) <= len(c) and bool(_match_at(c, i, old)):
            out.extend(new)
            i += len(old)
            n += 1
        else:
            out.append(c[i])
            i += 1
    return mk(out)


def _is_space(ch):
    return char_in(ch, pred_ranges("isspace"))


def _strip_pred(chars):
    if chars is None:
        return _is_space
    cs = chars_of(chars)
    return lambda ch: Or(*[char_eq(ch, x) for x in cs])


def s_lstrip(s, chars=None):
    c, f = chars_of(s), _strip_pred(chars)
    i = 0
    while i < len(c) and f(c[i]):
        i += 1
    return mk(c[i:])


def s_rstrip(s, chars=None):
    c, f = chars_of(s), _strip_pred(chars)
    i = len(c)
    while i > 0 and f(c[i - 1]):
        i -= 1
    return mk(c[:i])


def s_strip(s, chars=None):
    return s_rstrip(s_lstrip(s, chars), chars)


def s_split(s, sep=None, maxsplit=-1):
    c = chars_of(s)
    if sep is None:
        out = []
        i, n = 0, len(c)
        while True:
            while i < n and _is_space(c[i]):
                i += 1
            if i >= n:
                return out
            if maxsplit >= 0 and len(out) >= maxsplit:
                out.append(s_rstrip(mk(c[i:])))
                return out
            j = i
            while j < n and not _is_space(c[j]):
                j += 1
            out.append(mk(c[i:j]))
            i = j
    sp = chars_of(sep)
    if not sp:
        raise ValueError("empty separator")
    out, cur, i = [], 0, 0
    while i + len(sp) <= len(c):
        if (maxsplit < 0 or len(out) < maxsplit) and bool(_match_at(c, i, sp)):
            out.append(mk(c[cur:i]))
            i += len(sp)
            cur = i
        else:
            i += 1
    out.append(mk(c[cur:]))
    return out


def s_rsplit(s, sep=None, maxsplit=-1):
    c = chars_of(s)
    if sep is None:
        if maxsplit < 0:
            return s_split(s)
        out = []
        i = len(c)
        while True:
            while i > 0 and _is_space(c[i - 1]):
                i -= 1
            if i <= 0:
                break
            if len(out) >= maxsplit:
                out.append(s_lstrip(mk(c[:i])))
                break
            j = i
            while j > 0 and not _is_space(c[j - 1]):
                j -= 1
            out.append(mk(c[j:i]))
            i = j
        return out[::-1]
    sp = chars_of(sep)
    if not sp:
        raise ValueError("empty separator")
    out, end, i = [], len(c), len(c) - len(sp)
    while i >= 0:
        if (maxsplit < 0 or len(out) < maxsplit) and bool(_match_at(c, i, sp)):
            out.append(mk(c[i + len(sp):end]))
            end = i
            i -= len(sp)
        else:
            i -= 1
    out.append(mk(c[:end]))
    return out[::-1]


def s_partition(s, sep):
    c, sp = chars_of(s), chars_of(sep)
    i = s_find(s, sep)
    if i < 0:
        return (mk(c), "", "")
    return (mk(c[:i]), mk(sp), mk(c[i + len(sp):]))


def s_rpartition(s, sep):
    c, sp = chars_of(s), chars_of(sep)
    i = s_rfind(s, sep)
    if i < 0:
        return ("", "", mk(c))
    return (mk(c[:i]), mk(sp), mk(c[i + len(sp):]))


def s_join(s, it):
    sep = chars_of(s)
    out, first = [], True
    for k, x in enumerate(it):
        if not isinstance(x, str):
            raise TypeError("sequence item %d: expected str instance, %s found" % (k, type(x).__name__))
        if not first:
            out.extend(sep)
        first = False
        out.extend(chars_of(x))
    return mk(out)


def _ascii_check(ch):
    # case mapping is modelled for ASCII; wider characters must be uncased (domain < 0x80 otherwise)
    return ch


def _lower_ch(ch):
    if isinstance(ch, int):
        l = chr(ch).lower()
        return ord(l) if len(l) == 1 else ch
    return z3.If(z3.And(ch >= 65, ch <= 90), ch + 32, ch)


def _upper_ch(ch):
    if isinstance(ch, int):
        l = chr(ch).upper()
        return ord(l) if len(l) == 1 else ch
    return z3.If(z3.And(ch >= 97, ch <= 122), ch - 32, ch)


def _narrow_ascii(c):
    """Case mapping is only modelled below 0x80: fork non-ASCII characters away concretely."""
    out = []
    for ch in c:
        if not isinstance(ch, int) and not bool(char_in(ch, [(0, 127)])):
            ch = S.pick_value(ch, limit=4)
        out.append(ch)
    return out


def s_lower(s):
    c = _narrow_ascii(chars_of(s))
    return mk([_lower_ch(x) for x in c])


def s_upper(s):
    c = _narrow_ascii(chars_of(s))
    return mk([_upper_ch(x) for x in c])


def s_capitalize(s):
    c = _narrow_ascii(chars_of(s))
    return mk([_upper_ch(x) if i == 0 else _lower_ch(x) for i, x in enumerate(c)])


def s_title(s):
    c = _narrow_ascii(chars_of(s))
    out, prev = [], False
    for ch in c:
        out.append(_lower_ch(ch) if prev else _upper_ch(ch))
        prev = bool(char_in(ch, [(65, 90), (97, 122)]))
    return mk(out)


def _all_pred(name):
    def f(s):
        c = chars_of(s)
        if not c:
            return name == "isascii"
        r = pred_ranges(name)
        if name == "isprintable" or name == "isascii":
            pass
        return And(*[char_in(x, r) for x in c])
    return f


def s_isprintable(s):
    return And(*[char_in(x, pred_ranges("isprintable")) for x in chars_of(s)])


def s_isascii(s):
    return And(*[char_in(x, [(0, 127)]) for x in chars_of(s)])


def s_islower(s):
    c = chars_of(s)
    return And(Or(*[char_in(x, [(97, 122)]) for x in c]), *[Not(char_in(x, [(65, 90)])) for x in c])


def s_isupper(s):
    c = chars_of(s)
    return And(Or(*[char_in(x, [(65, 90)]) for x in c]), *[Not(char_in(x, [(97, 122)])) for x in c])


def s_splitlines(s, keepends=False):
    c = chars_of(s)
    brk = [(10, 13), (0x1c, 0x1e), (0x85, 0x85), (0x2028, 0x2029)]
    out, i, st = [], 0, 0
    while i < len(c):
        if char_in(c[i], brk):
            e = i + 1
            if char_eq(c[i], 13) and e < len(c) and bool(char_eq(c[e], 10)):
                e += 1
            out.append(mk(c[st:e] if keepends else c[st:i]))
            i = st = e
        else:
            i += 1
    if st < len(c):
        out.append(mk(c[st:]))
    return out


def s_zfill(s, w):
    c = chars_of(s)
    if len(c) >= w:
        return mk(c)
    pad = (48,) * (w - len(c))
    if c and bool(char_in(c[0], [(43, 43), (45, 45)])):
        return mk(c[:1] + pad + c[1:])
    return mk(pad + c)


def s_ljust(s, w, fill=" "):
    c = chars_of(s)
    return mk(c + chars_of(fill) * max(0, w - len(c)))


def s_rjust(s, w, fill=" "):
    c = chars_of(s)
    return mk(chars_of(fill) * max(0, w - len(c)) + c)


def s_removeprefix(s, p):
    c = chars_of(s)
    return mk(c[len(chars_of(p)):]) if s_startswith(s, p) else mk(c)


def s_removesuffix(s, p):
    c = chars_of(s)
    p_ = chars_of(p)
    return mk(c[:len(c) - len(p_)]) if p_ and s_endswith(s, p) else mk(c)


def s_swapcase(s):
    c = _narrow_ascii(chars_of(s))
    return mk([_upper_ch(x) if bool(char_in(x, [(97, 122)])) else _lower_ch(x) for x in c])


def s_expandtabs(s, n=8):
    out, col = [], 0
    for ch in chars_of(s):
        if char_eq(ch, 9):
            k = n - col % n if n else 0
            out.extend([32] * k)
            col += k
        else:
            out.append(ch)
            col = 0 if bool(char_in(ch, [(10, 10), (13, 13)])) else col + 1
    return mk(out)


def s_translate(s, table):
    out = []
    for ch in chars_of(s):
        if isinstance(ch, int):
            r = table.get(ch, ch) if hasattr(table, "get") else table[ch]
        else:
            r = ch
            for k, v in table.items():
                if char_eq(ch, k):
                    r = v
                    break
        if r is None:
            continue
        if isinstance(r, int) or isinstance(r, z3.ExprRef):
            out.append(r)
        else:
            out.extend(chars_of(r))
    return mk(out)


def to_str(x):
    """str(x) for a possibly symbolic x"""
    t = type(x)
    if t is SymStr:
        return x
    if t is SymInt:
        return int_to_str(x)
    if t is SymChoice:
        return x.force()
    if t is SymBool:
        return "True" if x else "False"
    if t in (list, tuple, dict, set) and deep_sym(x):
        return sym_repr(x)
    if isinstance(x, Exception) and len(x.args) == 1 and deep_sym(x.args[0]):
        return to_str(x.args[0]) if not isinstance(x, KeyError) else sym_repr(x.args[0])
    f = t.__str__ if type(t.__str__) is _FN else t.__repr__ if t.__str__ is object.__str__ else None
    if type(f) is _FN:
        return f(x)
    return str(x)


_FN = type(lambda: 0)


def sym_repr(x):
    t = type(x)
    if type(t.__repr__) is _FN and t.__module__[:6] != "symex.":
        return t.__repr__(x)
    if t is SymStr:
        c = x.c
        has_sq = bool(Or(*[char_eq(ch, 39) for ch in c]))
        has_dq = bool(Or(*[char_eq(ch, 34) for ch in c]))
        q = 34 if (has_sq and not has_dq) else 39
        out = [q]
        for ch in c:
            if isinstance(ch, int):
                r = repr(chr(ch) + ('"' if q == 39 else "'"))[1:-1]
                if ch in (39, 34):
                    out.extend([92, ch] if ch == q else [ch])
                else:
                    out.extend(map(ord, repr(chr(ch))[1:-1]))
                continue
            if char_eq(ch, q):
                out.extend([92, q])
            elif char_eq(ch, 92):
                out.extend([92, 92])
            elif char_in(ch, [(32, 126)]):
                out.append(ch)
            else:
                v = S.pick_value(ch, limit=40)
                out.extend(map(ord, repr(chr(v))[1:-1]))
        out.append(q)
        return mk(out)
    if t is SymInt:
        return int_to_str(x)
    if t is SymChoice:
        return repr(x.force())
    if t is SymBool:
        return "True" if x else "False"
    if t is list:
        return s_join("", ["[", s_join(", ", [sym_repr(y) for y in x]), "]"])
    if t is tuple:
        if len(x) == 1:
            return s_join("", ["(", sym_repr(x[0]), ",)"])
        return s_join("", ["(", s_join(", ", [sym_repr(y) for y in x]), ")"])
    if t is dict:
        return s_join("", ["{", s_join(", ", [s_join("", [sym_repr(k), ": ", sym_repr(v)])
                                                for k, v in x.items()]), "}"])
    if t is set and x:
        return s_join("", ["{", s_join(", ", [sym_repr(y) for y in x]), "}"])
    return repr(x)


def _fmt_spec(x, spec):
    if not spec:
        return to_str(x)
    if type(x) is SymStr:
        import re
        m = re.match(r"^(.?[<>^])?(\d+)?s?$", spec)
        if m:
            w = int(m.group(2) or 0)
            al = m.group(1) or "<"
            fill = al[0] if len(al) == 2 else " "
            if al[-1] == "<":
                return s_ljust(x, w, fill)
            if al[-1] == ">":
                return s_rjust(x, w, fill)
    if type(x) is SymInt and spec == "d":
        return int_to_str(x)
    return format(x, spec)


def fstr(*parts):
    """f-string: parts are str constants or (value, conversion, spec)"""
    out = []
    for p in parts:
        if type(p) is str:
            out.append(p)
            continue
        v, conv, spec = p
        if is_sym(spec):
            spec = str(spec)
        if conv == 114:
            v = sym_repr(v) if deep_sym(v) else repr(v)
        elif conv == 115:
            v = to_str(v)
        elif conv == 97:
            v = ascii(v)
        if is_sym(v) or (isinstance(v, BaseException) and deep_sym(v.args)) or \
                (type(v) in (list, tuple, dict, set) and deep_sym(v)):
            out.append(_fmt_spec(v, spec))
        else:
            out.append(format(v, spec))
    return s_join("", out)


def s_mod(fmt, args):
    """printf-style formatting"""
    c = chars_of(fmt)
    if type(fmt) is not str:
        # symbolic template: only % handling of concrete characters is modelled
        if any(not isinstance(x, int) for x in c):
            if bool(Or(*[char_eq(x, 37) for x in c if not isinstance(x, int)])):
                return str(fmt) % args
    isdict = type(args) is dict
    if type(args) is tuple:
        seq = list(args)
    else:
        seq = [args]
    out = []
    i = pos = 0
    n = len(c)

    def at(k):
        return chr(c[k]) if k < n and isinstance(c[k], int) else None
    while i < n:
        ch = at(i)
        if ch != "%":
            out.append(c[i])
            i += 1
            continue
        i += 1
        if i >= n:
            raise ValueError("incomplete format")
        if at(i) == "%":
            out.append(37)
            i += 1
            continue
        key = None
        if at(i) == "(":
            j = i + 1
            while at(j) != ")":
                j += 1
                if j >= n:
                    raise ValueError("incomplete format key")
            key = mk(c[i + 1:j])
            i = j + 1
        spec = ""
        while at(i) and at(i) in "#0- +0123456789.":
            spec += at(i)
            i += 1
        if i >= n:
            raise ValueError("incomplete format")
        conv = at(i)
        i += 1
        if key is not None:
            v = args[key]
        else:
            if pos >= len(seq):
                raise TypeError("not enough arguments for format string")
            v = seq[pos]
            pos += 1
        if conv in ("s", "d", "i", "u", "r"):
            if conv in "diu":
                if isinstance(v, str) or not isinstance(v, (int, float)):
                    raise TypeError("%%%s format: a real number is required, not %s"
                                    % (conv, "str" if isinstance(v, str) else type(v).__name__))
                if type(v) is SymInt and not spec:
                    r = int_to_str(v)
                else:
                    r = ("%" + spec + "d") % (v.conc() if type(v) is SymInt else v)
                    spec = ""
            elif conv == "r":
                r = sym_repr(v) if deep_sym(v) else repr(v)
            else:
                r = to_str(v)
            if spec:
                rc = chars_of(r)
                prec = None
                if "." in spec:
                    spec, p = spec.split(".")
                    prec = int(p or 0)
                    rc = rc[:prec]
                left = "-" in spec
                w = int(spec.strip("#- +") or 0)
                pad = (32,) * max(0, w - len(rc))
                rc = tuple(rc) + pad if left else pad + tuple(rc)
                r = mk(rc)
            out.extend(chars_of(r))
        else:
            if is_sym(v):
                v = v.conc()
            out.extend(map(ord, ("%" + spec + conv) % (v,)))
    if key_used(isdict, pos, seq, args):
        raise TypeError("not all arguments converted during string formatting")
    return mk(out)


def key_used(isdict, pos, seq, args):
    return (not isdict) and pos < len(seq) and not (isinstance(args, (dict, list)) and type(args) is not tuple)


def s_format(s, *args, **kw):
    import string
    tmpl = str(s) if type(s) is not str else s
    out, auto = [], 0
    for lit, field, spec, conv in string.Formatter().parse(tmpl):
        if lit:
            out.append(lit)
        if field is None:
            continue
        if spec and "{" in spec:
            spec = str(s_format(spec, *args, **kw))
        first, rest = field, []
        import _string
        first, rest = _string.formatter_field_name_split(field)
        if first == "":
            v = args[auto]
            auto += 1
        elif isinstance(first, int):
            v = args[first]
        else:
            v = kw[first]
        for is_attr, k in rest:
            v = getattr(v, k) if is_attr else v[k]
        out.append(fstr((v, ord(conv) if conv else -1, spec or "")))
    return s_join("", out)


class SymBytes:
    """Encoded text: bytes whose decoding is the SymStr `s` (only round trips are modelled)."""
    __slots__ = ("s", "enc")

    def __init__(self, s, enc):
        self.s, self.enc = s, enc

    @property
    def __class__(self):
        return bytes

    def decode(self, enc="utf-8", errors="strict"):
        return self.s

    def __eq__(self, o):
        if type(o) is SymBytes:
            import codecs
            a, b = codecs.lookup(self.enc).name, codecs.lookup(o.enc).name
            if a == b:
                return self.s == o.s
            if {a, b} <= {"utf-8", "cp1252", "iso8859-1", "ascii"}:
                return And(self.s == o.s, *[mkbool(c < 128) if not isinstance(c, int) else c < 128
                                            for c in (self.s.c if type(self.s) is SymStr else map(ord, self.s))])
            return False
        if type(o) is bytes:
            try:
                return self.s == o.decode(self.enc)
            except UnicodeDecodeError:
                return False
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else Not(r)

    def __hash__(self):
        return id(self)

    def __len__(self):
        return len(str(self.s).encode(self.enc))

    def __bytes__(self):
        return str(self.s).encode(self.enc)


def s_encode(s, encoding="utf-8", errors="strict"):
    return SymBytes(s, encoding)


METHODS = {}
for _n in ("find rfind index rindex count startswith endswith replace lstrip rstrip strip split rsplit "
           "partition rpartition join lower upper capitalize title isprintable isascii islower isupper "
           "splitlines zfill ljust rjust removeprefix removesuffix swapcase expandtabs translate format "
           "encode").split():
    METHODS[_n] = globals()["s_" + _n]
for _n in "isspace isdigit isalpha isalnum isdecimal isnumeric".split():
    METHODS[_n] = _all_pred(_n)


def s_isidentifier(s):
    c = chars_of(s)
    if not c:
        return False
    a = [(65, 90), (97, 122), (95, 95)]
    return And(char_in(c[0], a), *[char_in(x, a + [(48, 57)]) for x in c[1:]])


METHODS["isidentifier"] = s_isidentifier
METHODS["casefold"] = s_lower
METHODS["__contains__"] = s_contains


def str_method(recv, name, args, kw):
    """call str method `name` where receiver or args may be symbolic"""
    if type(recv) is SymChoice:
        recv = recv.force()
    f = METHODS.get(name)
    if f is None:
        return getattr(str(recv), name)(*[str(a) if isinstance(a, str) else a for a in args], **kw)
    args = [a.force() if type(a) is SymChoice else a for a in args]
    return f(recv, *args, **kw)


def parse_int(x, base=10):
    """int(str) for SymStr, decimal only; forks per character"""
    if base != 10:
        return int(str(x), base)
    c = list(chars_of(s_strip(x)))
    neg = False
    if c and bool(char_in(c[0], [(43, 43), (45, 45)])):
        neg = bool(char_eq(c[0], 45))
        c = c[1:]
    digs = []
    prev_us = True
    for ch in c:
        if char_in(ch, [(48, 57)]):
            digs.append(ch)
            prev_us = False
        elif not prev_us and bool(char_eq(ch, 95)):
            prev_us = True
        else:
            # non-ASCII decimal digits are accepted by int(); concretise those
            if not isinstance(ch, int) and bool(char_in(ch, pred_ranges("isdecimal"))):
                v = S.pick_value(ch, limit=4)
                digs.append(48 + int(chr(v)))
                prev_us = False
                continue
            raise ValueError("invalid literal for int() with base 10")
    if not digs or prev_us:
        raise ValueError("invalid literal for int() with base 10")
    if all(isinstance(d, int) for d in digs):
        v = int("".join(map(chr, digs)))
        return -v if neg else v
    tot = z3.IntVal(0)
    for d in digs:
        tot = tot * 10 + (d - 48)
    from .values import mkint
    return mkint(-tot if neg else tot)
