"""Built-in objects and modules for the interpreter."""
import collections
import functools
import json
import math
import os
import re
import subprocess
from . import interp as I
from .interp import (RT, JSObj, JSArr, JSFunc, NativeFn, JSRegExp, JSPromise, JSThrow, JSSymbol, UNDEF, MISSING, NaN,
                     Env, Accessor, get, put, call, construct, throw, truthy, to_string, to_number, to_integer, to_key,
                     to_conc, concat, iterate, is_str, is_num, is_bool, strict_eq, callable_, promise_resolve,
                     promise_then, own_keys, has_own, make_error, numc, norm_num, show, Unsupported)
from ..core import S, SkipPath
from ..values import SymStr, SymInt, SymBool, SymChoice, SYM_TYPES, chars_of, Not, char_in, char_eq
from .. import strmodel, symre, hooks


def arg(a, i, d=UNDEF):
    return a[i] if len(a) > i else d


def conc(s):
    return s.force() if type(s) is SymChoice else s


def native(o, name, f):
    o.define_hidden(name, NativeFn(f, name))


# ------------------------------------------------------------------ strings

def re_search(pat, s, pos):
    if type(s) is str:
        return pat.search(s, pos)
    return symre.r_search(symre.prog(pat.pattern, pat.flags), s, pos)


def re_match_at(pat, s, pos):
    if type(s) is str:
        return pat.match(s, pos)
    return symre.r_match(symre.prog(pat.pattern, pat.flags), s, pos)


def match_array(r, m, s):
    gs = m.groups()
    out = JSArr([m.group(0)] + [UNDEF if g is None else g for g in gs])
    out.props["index"] = m.start()
    out.props["input"] = s
    gi = r.pat.groupindex
    if gi:
        o = JSObj(None)
        for k in gi:
            v = m.group(k)
            o.props[k] = UNDEF if v is None else v
        out.props["groups"] = o
    else:
        out.props["groups"] = UNDEF
    return out


def regexp_exec(r, s):
    s = conc(to_string(s))
    sticky, glob = "y" in r.flags, "g" in r.flags
    pos = to_integer(get(r, "lastIndex")) if sticky or glob else 0
    m = None
    if pos <= len(s):
        m = re_match_at(r.pat, s, pos) if sticky else re_search(r.pat, s, pos)
    if not m:
        if sticky or glob:
            put(r, "lastIndex", 0)
        return None
    if sticky or glob:
        put(r, "lastIndex", m.end())
    return match_array(r, m, s)


def all_matches(r, s):
    pos = 0
    while pos <= len(s):
        m = re_search(r.pat, s, pos)
        if not m:
            return
        yield m
        pos = m.end() if m.end() > m.start() else m.end() + 1


def expand(rep, m, s):
    """replacement text with $ patterns"""
    rep = conc(rep)
    if type(rep) is SymStr:
        if any(bool(char_eq(c, 36)) for c in chars_of(rep)):
            rep = to_conc(rep)
        else:
            return rep
    if "$" not in rep:
        return rep
    out, i = "", 0
    gs = m.groups()
    while i < len(rep):
        c = rep[i]
        if c == "$" and i + 1 < len(rep):
            d = rep[i + 1]
            if d == "$":
                out = concat(out, "$")
                i += 2
                continue
            if d == "&":
                out = concat(out, m.group(0))
                i += 2
                continue
            if d == "`":
                out = concat(out, s[:m.start()])
                i += 2
                continue
            if d == "'":
                out = concat(out, s[m.end():])
                i += 2
                continue
            if d.isdigit():
                k = 2 if rep[i + 2:i + 3].isdigit() and int(rep[i + 1:i + 3]) <= len(gs) else 1
                num = int(rep[i + 1:i + 1 + k])
                if 1 <= num <= len(gs):
                    out = concat(out, gs[num - 1] if gs[num - 1] is not None else "")
                    i += 1 + k
                    continue
            if d == "<" and m.re.groupindex and ">" in rep[i:]:
                j = rep.index(">", i)
                g = m.group(rep[i + 2:j])
                out = concat(out, g if g is not None else "")
                i = j + 1
                continue
        out = concat(out, c)
        i += 1
    return out


class PlainMatch:
    """a match of a plain string, for replacement"""

    def __init__(self, s, st, en):
        self.s, self.st, self.en = s, st, en
        self.re = re.compile("")

    def group(self, g=0):
        return self.s[self.st:self.en]

    def groups(self):
        return ()

    def start(self):
        return self.st

    def end(self):
        return self.en


def do_replace(s, pat, rep, every):
    s = conc(s)
    if isinstance(pat, JSRegExp):
        ms = all_matches(pat, s)
        if "g" not in pat.flags:
            ms = [m for m in [re_search(pat.pat, s, 0)] if m]
    else:
        pat = conc(to_string(pat))
        ms, pos = [], 0
        while True:
            i = find(s, pat, pos)
            if i < 0:
                break
            ms.append(PlainMatch(s, i, i + len(pat)))
            if not every:
                break
            pos = i + max(1, len(pat))
            if pos > len(s):
                break
    out, last = "", 0
    for m in ms:
        out = concat(out, s[last:m.start()])
        if callable_(rep):
            gs = [UNDEF if g is None else g for g in m.groups()]
            r = to_string(call(rep, UNDEF, [m.group(0)] + gs + [m.start(), s]))
        else:
            r = expand(to_string(rep), m, s)
        out = concat(out, r)
        last = m.end()
    return concat(out, s[last:])


def find(s, sub, pos=0):
    if type(s) is str and type(sub) is str:
        return s.find(sub, pos)
    return strmodel.s_find(s, sub, pos)


def rfind(s, sub):
    if type(s) is str and type(sub) is str:
        return s.rfind(sub)
    return strmodel.s_rfind(s, sub)


def rel(i, n):
    return max(0, n + i) if i < 0 else min(i, n)


_WS = "\t\n\x0b\x0c\r \xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000\ufeff"


def str_methods():
    M = {}

    def d(f):
        M[f.__name__.rstrip("_")] = f
        return f

    @d
    def toString(s, a):
        return s

    @d
    def valueOf(s, a):
        return s

    @d
    def charAt(s, a):
        i = to_integer(arg(a, 0))
        return s[i] if 0 <= i < len(s) else ""

    @d
    def at(s, a):
        i = to_integer(arg(a, 0))
        i = i + len(s) if i < 0 else i
        return s[i] if 0 <= i < len(s) else UNDEF

    @d
    def charCodeAt(s, a):
        i = to_integer(arg(a, 0))
        if not 0 <= i < len(s):
            return NaN
        c = chars_of(s)[i]
        return c if isinstance(c, int) else SymInt(c)
    M["codePointAt"] = charCodeAt

    @d
    def startsWith(s, a):
        if isinstance(arg(a, 0), JSRegExp):
            throw("TypeError", "First argument to String.prototype.startsWith must not be a regular expression")
        p = conc(to_string(arg(a, 0)))
        pos = to_integer(arg(a, 1))
        if pos:
            s = s[pos:]
        return s.startswith(p) if type(s) is str and type(p) is str else strmodel.s_startswith(s, p)

    @d
    def endsWith(s, a):
        p = conc(to_string(arg(a, 0)))
        if arg(a, 1) is not UNDEF:
            s = s[:to_integer(a[1])]
        return s.endswith(p) if type(s) is str and type(p) is str else strmodel.s_endswith(s, p)

    @d
    def includes(s, a):
        p = conc(to_string(arg(a, 0)))
        pos = to_integer(arg(a, 1))
        return find(s, p, pos) >= 0

    @d
    def indexOf(s, a):
        return find(s, conc(to_string(arg(a, 0))), min(max(0, to_integer(arg(a, 1))), len(s)))

    @d
    def lastIndexOf(s, a):
        return rfind(s, conc(to_string(arg(a, 0))))

    @d
    def slice(s, a):
        n = len(s)
        b, e = rel(to_integer(arg(a, 0)), n), rel(to_integer(arg(a, 1), n), n)
        return s[b:e] if b < e else ""

    @d
    def substring(s, a):
        n = len(s)
        b, e = min(max(0, to_integer(arg(a, 0))), n), min(max(0, to_integer(arg(a, 1), n)), n)
        b, e = min(b, e), max(b, e)
        return s[b:e]

    @d
    def substr(s, a):
        n = len(s)
        b = rel(to_integer(arg(a, 0)), n)
        return s[b:min(n, b + max(0, to_integer(arg(a, 1), n)))]

    @d
    def trim(s, a):
        return s.strip(_WS) if type(s) is str else strmodel.s_strip(s, _WS)

    @d
    def trimStart(s, a):
        return s.lstrip(_WS) if type(s) is str else strmodel.s_lstrip(s, _WS)

    @d
    def trimEnd(s, a):
        return s.rstrip(_WS) if type(s) is str else strmodel.s_rstrip(s, _WS)

    @d
    def toLowerCase(s, a):
        return s.lower() if type(s) is str else strmodel.s_lower(s)

    @d
    def toUpperCase(s, a):
        return s.upper() if type(s) is str else strmodel.s_upper(s)

    @d
    def concat_(s, a):
        for x in a:
            s = concat(s, to_string(x))
        return s

    @d
    def repeat(s, a):
        return "".join([s] * to_integer(arg(a, 0))) if type(s) is str else SymStr.mk(chars_of(s) * to_integer(arg(a, 0)))

    def pad(s, a, left):
        n = to_integer(arg(a, 0))
        f = conc(to_string(arg(a, 1, " ")))
        k = n - len(s)
        if k <= 0 or len(f) == 0:
            return s
        p = SymStr.mk((chars_of(f) * (k // len(f) + 1))[:k])
        return concat(p, s) if left else concat(s, p)
    M["padStart"] = lambda s, a: pad(s, a, True)
    M["padEnd"] = lambda s, a: pad(s, a, False)

    @d
    def split(s, a):
        sep, lim = arg(a, 0), arg(a, 1)
        lim = None if lim is UNDEF else to_integer(lim)
        if sep is UNDEF:
            out = [s]
        elif isinstance(sep, JSRegExp):
            out = []
            if len(s) == 0:
                m = re_match_at(sep.pat, s, 0)
                out = [] if m else [s]
            else:
                p = q = 0
                while q < len(s):
                    m = re_search(sep.pat, s, q)
                    if not m or m.start() >= len(s):
                        break
                    if m.end() == p or (m.end() == m.start() and m.start() == p):
                        q = max(q, m.start()) + 1
                        continue
                    out.append(s[p:m.start()])
                    out.extend(UNDEF if g is None else g for g in m.groups())
                    p = q = m.end()
                out.append(s[p:])
        else:
            sep = conc(to_string(sep))
            if len(sep) == 0:
                out = [s[i] for i in range(len(s))]
            else:
                out, p = [], 0
                while True:
                    i = find(s, sep, p)
                    if i < 0:
                        break
                    out.append(s[p:i])
                    p = i + len(sep)
                out.append(s[p:])
        return JSArr(out[:lim] if lim is not None else out)

    @d
    def replace(s, a):
        return do_replace(s, arg(a, 0), arg(a, 1), False)

    @d
    def replaceAll(s, a):
        return do_replace(s, arg(a, 0), arg(a, 1), True)

    @d
    def match(s, a):
        r = arg(a, 0)
        if not isinstance(r, JSRegExp):
            r = JSRegExp(to_conc(to_string(r)) if r is not UNDEF else "(?:)", "")
        if "g" not in r.flags:
            return regexp_exec(r, s)
        out = [m.group(0) for m in all_matches(r, s)]
        return JSArr(out) if out else None

    @d
    def matchAll(s, a):
        return JSArr([match_array(a[0], m, s) for m in all_matches(a[0], s)])

    @d
    def search(s, a):
        m = re_search(a[0].pat, s, 0)
        return m.start() if m else -1

    @d
    def localeCompare(s, a):
        b = conc(to_string(arg(a, 0)))
        s, b = to_conc(s), to_conc(b)
        return -1 if s < b else 1 if s > b else 0

    @d
    def normalize(s, a):
        return s
    return M


# ------------------------------------------------------------------ arrays

def arr_methods():
    M = {}

    def d(f):
        M[f.__name__.rstrip("_")] = f
        return f

    def A(o):
        if type(o) is not JSArr:
            n = to_integer(get(o, "length"))
            return JSArr([get(o, i) for i in range(n)])
        return o

    @d
    def push(o, a):
        o.a.extend(a)
        return len(o.a)

    @d
    def pop(o, a):
        return o.a.pop() if o.a else UNDEF

    @d
    def shift(o, a):
        return o.a.pop(0) if o.a else UNDEF

    @d
    def unshift(o, a):
        o.a[0:0] = a
        return len(o.a)

    @d
    def slice(o, a):
        o = A(o)
        n = len(o.a)
        b, e = rel(to_integer(arg(a, 0)), n), rel(to_integer(arg(a, 1), n), n)
        return JSArr(o.a[b:e])

    @d
    def splice(o, a):
        n = len(o.a)
        b = rel(to_integer(arg(a, 0)), n)
        k = n - b if len(a) == 1 else 0 if not a else min(max(0, to_integer(a[1])), n - b)
        out = o.a[b:b + k]
        o.a[b:b + k] = a[2:]
        return JSArr(out)

    @d
    def concat_(o, a):
        out = list(o.a)
        for x in a:
            if type(x) is JSArr:
                out.extend(x.a)
            else:
                out.append(x)
        return JSArr(out)

    @d
    def join(o, a):
        o = A(o)
        sep = "," if arg(a, 0) is UNDEF else to_string(a[0])
        out = ""
        for i, x in enumerate(o.a):
            if i:
                out = concat(out, sep)
            if x is not UNDEF and x is not None:
                out = concat(out, to_string(x))
        return out

    @d
    def toString(o, a):
        return join(o, [])

    @d
    def reverse(o, a):
        o.a.reverse()
        return o

    @d
    def indexOf(o, a):
        for i in range(max(0, to_integer(arg(a, 1))), len(o.a)):
            if truthy(strict_eq(o.a[i], arg(a, 0))):
                return i
        return -1

    @d
    def lastIndexOf(o, a):
        for i in range(len(o.a) - 1, -1, -1):
            if truthy(strict_eq(o.a[i], arg(a, 0))):
                return i
        return -1

    @d
    def includes(o, a):
        x = arg(a, 0)
        for y in o.a:
            if y is x or truthy(strict_eq(y, x)):
                return True
        return False

    def cb(name, body):
        def f(o, a):
            o = A(o)
            fn, th = arg(a, 0), arg(a, 1)
            if not callable_(fn):
                throw("TypeError", "%s is not a function" % show(fn))
            return body(o, lambda x, i: call(fn, th, [x, i, o]))
        M[name] = f

    def _for(o, f):
        i = 0
        while i < len(o.a):
            f(o.a[i], i)
            i += 1
        return UNDEF
    cb("forEach", _for)
    cb("map", lambda o, f: JSArr([f(x, i) for i, x in enumerate(list(o.a))]))
    cb("filter", lambda o, f: JSArr([x for i, x in enumerate(list(o.a)) if truthy(f(x, i))]))

    def _some(o, f):
        for i, x in enumerate(list(o.a)):
            if truthy(f(x, i)):
                return True
        return False
    cb("some", _some)

    def _every(o, f):
        for i, x in enumerate(list(o.a)):
            if not truthy(f(x, i)):
                return False
        return True
    cb("every", _every)

    def _find(rv):
        def g(o, f):
            for i, x in enumerate(list(o.a)):
                if truthy(f(x, i)):
                    return x if rv else i
            return UNDEF if rv else -1
        return g
    cb("find", _find(True))
    cb("findIndex", _find(False))

    def _findl(rv):
        def g(o, f):
            for i in range(len(o.a) - 1, -1, -1):
                if truthy(f(o.a[i], i)):
                    return o.a[i] if rv else i
            return UNDEF if rv else -1
        return g
    cb("findLast", _findl(True))
    cb("findLastIndex", _findl(False))

    def _flatmap(o, f):
        out = []
        for i, x in enumerate(list(o.a)):
            r = f(x, i)
            if type(r) is JSArr:
                out.extend(r.a)
            else:
                out.append(r)
        return JSArr(out)
    cb("flatMap", _flatmap)

    @d
    def flat(o, a):
        def go(xs, dep):
            out = []
            for x in xs:
                if type(x) is JSArr and dep > 0:
                    out.extend(go(x.a, dep - 1))
                else:
                    out.append(x)
            return out
        return JSArr(go(o.a, to_integer(arg(a, 0), 1)))

    def red(o, a, rev):
        o = A(o)
        idx = list(range(len(o.a)))
        if rev:
            idx.reverse()
        fn = arg(a, 0)
        if len(a) > 1:
            acc = a[1]
        else:
            if not idx:
                throw("TypeError", "Reduce of empty array with no initial value")
            acc = o.a[idx.pop(0)]
        for i in idx:
            acc = call(fn, UNDEF, [acc, o.a[i], i, o])
        return acc
    M["reduce"] = lambda o, a: red(o, a, False)
    M["reduceRight"] = lambda o, a: red(o, a, True)

    @d
    def sort(o, a):
        fn = arg(a, 0)

        def cmp(x, y):
            if x is UNDEF or y is UNDEF:
                return (x is UNDEF) - (y is UNDEF)
            if callable_(fn):
                r = to_number(call(fn, UNDEF, [x, y]))
                if r != r if type(r) is float else False:
                    return 0
                return -1 if truthy(I.binop("<", r, 0)) else 1 if truthy(I.binop(">", r, 0)) else 0
            x, y = conc(to_string(x)), conc(to_string(y))
            return -1 if truthy(I.binop("<", x, y)) else 1 if truthy(I.binop(">", x, y)) else 0
        o.a[:] = sorted(o.a, key=functools.cmp_to_key(cmp))
        return o
    M["toSorted"] = lambda o, a: sort(JSArr(list(o.a)), a)
    M["toReversed"] = lambda o, a: JSArr(o.a[::-1])

    @d
    def fill(o, a):
        for i in range(len(o.a)):
            o.a[i] = arg(a, 0)
        return o

    @d
    def at(o, a):
        i = to_integer(arg(a, 0))
        i = i + len(o.a) if i < 0 else i
        return o.a[i] if 0 <= i < len(o.a) else UNDEF

    @d
    def keys(o, a):
        return JSArr(list(range(len(o.a))))

    @d
    def values(o, a):
        return JSArr(list(o.a))

    @d
    def entries(o, a):
        return JSArr([JSArr([i, x]) for i, x in enumerate(o.a)])
    return M


# ------------------------------------------------------------------ JSON

def json_quote(s):
    out = ['"']
    for c in chars_of(s):
        if isinstance(c, int):
            e = {34: '\\"', 92: "\\\\", 8: "\\b", 9: "\\t", 10: "\\n", 12: "\\f", 13: "\\r"}.get(c)
            if e is None:
                e = "\\u%04x" % c if c < 32 or 0xD800 <= c < 0xE000 else chr(c)
            out.append(e)
        elif bool(char_in(c, [(34, 34), (92, 92)])):
            out.append("\\")
            out.append(SymStr.mk([c]))
        elif bool(char_in(c, [(0, 31)])):
            v = S.pick_value(c, limit=40)
            out.append(json_quote(chr(v))[1:-1])
        else:
            out.append(SymStr.mk([c]))
    out.append('"')
    r = ""
    for x in out:
        r = concat(r, x)
    return r


def json_stringify(v, replacer, indent):
    gap = ""
    if is_num(indent):
        gap = " " * min(10, to_integer(indent))
    elif is_str(indent):
        gap = to_conc(indent)[:10]
    allow = None
    if type(replacer) is JSArr:
        allow = [to_conc(to_string(x)) for x in replacer.a]
    holder = JSObj()
    holder.define("", v)

    def ser(h, k, cur):
        v = get(h, k)
        if isinstance(v, JSObj):
            tj = get(v, "toJSON")
            if callable_(tj):
                v = call(tj, v, [k])
        if callable_(replacer):
            v = call(replacer, h, [to_string(k), v])
        if v is None:
            return "null"
        if is_bool(v):
            return to_string(v)
        if is_str(v):
            return json_quote(v)
        if is_num(v):
            if type(v) is float and (v != v or v in (math.inf, -math.inf)):
                return "null"
            return to_string(v)
        if v is UNDEF or callable_(v) or isinstance(v, JSSymbol):
            return UNDEF
        if len(cur) > 200:
            throw("TypeError", "Converting circular structure to JSON")
        ind = cur + gap
        parts = []
        if type(v) is JSArr:
            for i in range(len(v.a)):
                x = ser(v, i, ind)
                parts.append("null" if x is UNDEF else x)
            o, c = "[", "]"
        else:
            for kk in (own_keys(v) if allow is None else allow):
                x = ser(v, kk, ind)
                if x is not UNDEF:
                    parts.append(concat(concat(json_quote(kk), ": " if gap else ":"), x))
            o, c = "{", "}"
        if not parts:
            return o + c
        out = o
        for i, p in enumerate(parts):
            if i:
                out = concat(out, ",")
            if gap:
                out = concat(out, "\n" + ind)
            out = concat(out, p)
        if gap:
            out = concat(out, "\n" + cur)
        return concat(out, c)
    return ser(holder, "", "")


class JP:
    def __init__(self, s):
        self.s = conc(s)
        self.c = chars_of(self.s)
        self.i = 0

    def err(self):
        throw("SyntaxError", "Unexpected token in JSON")

    def isc(self, ch):
        if self.i >= len(self.c):
            return False
        c = self.c[self.i]
        return c == ord(ch) if isinstance(c, int) else bool(char_eq(c, ord(ch)))

    def ws(self):
        while self.i < len(self.c) and bool(char_in(self.c[self.i], [(32, 32), (9, 10), (13, 13)])):
            self.i += 1

    def lit(self, w, v):
        for ch in w:
            if not self.isc(ch):
                self.err()
            self.i += 1
        return v

    def string(self):
        self.i += 1
        out = []
        while True:
            if self.i >= len(self.c):
                self.err()
            if self.isc('"'):
                self.i += 1
                return SymStr.mk(out)
            if self.isc("\\"):
                self.i += 1
                for k, v in (('"', 34), ("\\", 92), ("/", 47), ("b", 8), ("f", 12), ("n", 10), ("r", 13), ("t", 9)):
                    if self.isc(k):
                        self.i += 1
                        out.append(v)
                        break
                else:
                    if self.isc("u"):
                        h = to_conc(SymStr.mk(self.c[self.i + 1:self.i + 5]))
                        if not re.fullmatch("[0-9a-fA-F]{4}", h):
                            self.err()
                        out.append(int(h, 16))
                        self.i += 5
                    else:
                        self.err()
                continue
            c = self.c[self.i]
            if bool(char_in(c, [(0, 31)])):
                self.err()
            out.append(c)
            self.i += 1

    def value(self):
        self.ws()
        if self.i >= len(self.c):
            throw("SyntaxError", "Unexpected end of JSON input")
        if self.isc('"'):
            return self.string()
        if self.isc("{"):
            self.i += 1
            o = JSObj()
            self.ws()
            if self.isc("}"):
                self.i += 1
                return o
            while True:
                self.ws()
                if not self.isc('"'):
                    self.err()
                k = self.string()
                self.ws()
                if not self.isc(":"):
                    self.err()
                self.i += 1
                o.define(k, self.value())
                self.ws()
                if self.isc(","):
                    self.i += 1
                    continue
                if self.isc("}"):
                    self.i += 1
                    return o
                self.err()
        if self.isc("["):
            self.i += 1
            out = []
            self.ws()
            if self.isc("]"):
                self.i += 1
                return JSArr(out)
            while True:
                out.append(self.value())
                self.ws()
                if self.isc(","):
                    self.i += 1
                    continue
                if self.isc("]"):
                    self.i += 1
                    return JSArr(out)
                self.err()
        if self.isc("t"):
            return self.lit("true", True)
        if self.isc("f"):
            return self.lit("false", False)
        if self.isc("n"):
            return self.lit("null", None)
        m = re_match_at(_NUM, self.s, self.i)
        if not m:
            self.err()
        self.i = m.end()
        return to_number(m.group(0))


_NUM = re.compile(r"-?(?:0|[1-9]\d*)(?:\.\d+)?(?:[eE][-+]?\d+)?", re.ASCII)


def json_parse(s):
    p = JP(to_string(s))
    v = p.value()
    p.ws()
    if p.i < len(p.c):
        p.err()
    return v


def parse_int(a):
    s, base = arg(a, 0), to_integer(arg(a, 1))
    if type(s) is int or type(s) is SymInt:
        return s
    s = conc(to_string(s))
    if type(s) is SymStr and base in (0, 10):
        s = strmodel.s_lstrip(s, _WS)
        c = list(chars_of(s))
        neg = False
        if c and bool(char_in(c[0], [(43, 43), (45, 45)])):
            neg = bool(char_eq(c[0], 45))
            c = c[1:]
        ds = []
        for ch in c:
            if not bool(char_in(ch, [(48, 57)])):
                break
            ds.append(ch)
        if not ds:
            return NaN
        if base == 0 and len(ds) == 1 and len(c) > 1 and bool(char_eq(ds[0], 48)) and bool(char_in(c[1], [(88, 88), (120, 120)])):
            raise Unsupported("hex parseInt of symbolic text")
        v = I.with_text(strmodel.parse_int(SymStr.mk(ds)), SymStr.mk(ds))
        return -v if neg else v
    s = to_conc(s).strip(_WS)
    m = re.match(r"([-+]?)(0[xX])?", s)
    neg = m.group(1) == "-"
    s = s[m.end(1):]
    if base in (0, 16) and m.group(2):
        base, s = 16, s[2:]
    base = base or 10
    digs = "0123456789abcdefghijklmnopqrstuvwxyz"[:base]
    k = 0
    while k < len(s) and s[k].lower() in digs:
        k += 1
    if not k:
        return NaN
    v = int(s[:k], base)
    return -v if neg else v


# ------------------------------------------------------------------ paths (node:path)

def split_on(s, seps):
    """components of s (symbolic characters decided)"""
    s = conc(s)
    if type(s) is str:
        return re.split("[%s]" % re.escape(seps), s)
    out, cur = [], []
    rs = [(ord(x), ord(x)) for x in seps]
    for c in chars_of(s):
        if (chr(c) in seps) if isinstance(c, int) else bool(char_in(c, rs)):
            out.append(SymStr.mk(cur))
            cur = []
        else:
            cur.append(c)
    out.append(SymStr.mk(cur))
    return out


def eqs(a, b):
    return truthy(strict_eq(a, b))


def norm_comps(comps, above):
    out = []
    for c in comps:
        if len(c) == 0 or eqs(c, "."):
            continue
        if eqs(c, ".."):
            if out and not eqs(out[-1], ".."):
                out.pop()
            elif above:
                out.append("..")
            continue
        out.append(c)
    return out


def joinc(xs, sep):
    r = ""
    for i, x in enumerate(xs):
        if i:
            r = concat(r, sep)
        r = concat(r, x)
    return r


class Path:
    def __init__(self, win):
        self.win = win
        self.sep = "\\" if win else "/"
        self.seps = "\\/" if win else "/"
        self.cwd = "C:" + RT.cwd.replace("/", "\\") if win else RT.cwd

    def issep(self, c):
        return any(eqs(c, x) for x in self.seps)

    def s(self, v):
        if not is_str(v):
            e = make_error("TypeError", "The \"path\" argument must be of type string. Received %s" % show(v))
            put(e, "code", "ERR_INVALID_ARG_TYPE")
            raise JSThrow(e)
        return conc(v)

    def split_root(self, p):
        """(device, is absolute, rest)"""
        if len(p) == 0:
            return "", False, p
        if not self.win:
            if self.issep(p[0]):
                return "", True, p[1:]
            return "", False, p
        if self.issep(p[0]):
            if len(p) > 1 and self.issep(p[1]):
                parts = split_on(p[2:], self.seps)
                if len(parts) > 1 and len(parts[0]) and len(parts[1]):
                    dev = concat(concat("\\\\" + "", parts[0]), concat("\\", parts[1]))
                    return dev, True, joinc(parts[2:], "\\")
            return "", True, p[1:]
        if len(p) > 1 and eqs(p[1], ":") and truthy(_alpha(p[0])):
            dev, rest = p[:2], p[2:]
            if len(rest) and self.issep(rest[0]):
                return dev, True, rest[1:]
            return dev, False, rest
        return "", False, p

    def normalize(self, p):
        p = self.s(p)
        if len(p) == 0:
            return "."
        dev, ab, rest = self.split_root(p)
        trail = len(rest) and self.issep(rest[len(rest) - 1])
        cs = norm_comps(split_on(rest, self.seps), not ab)
        t = joinc(cs, self.sep)
        if len(t) == 0 and not ab:
            t = "."
        if len(t) and trail:
            t = concat(t, self.sep)
        return concat(concat(dev, self.sep if ab else ""), t)

    def join(self, *ps):
        ps = [self.s(p) for p in ps]
        ps = [p for p in ps if len(p)]
        if not ps:
            return "."
        j = joinc(ps, self.sep)
        if self.win and len(ps[0]) and self.issep(ps[0][0]) and not (len(ps[0]) > 1 and self.issep(ps[0][1])):
            # avoid making a UNC path out of a single leading separator
            k = 0
            while k < len(j) and self.issep(j[k]):
                k += 1
            j = concat("\\", j[k:])
        return self.normalize(j)

    def isAbsolute(self, p):
        p = self.s(p)
        return bool(self.split_root(p)[1])

    def resolve(self, *ps):
        ps = [self.s(p) for p in ps]
        dev, ab, tail = "", False, []
        for p in list(reversed(ps)) + [None]:
            if p is None:
                p = self.cwd
            if len(p) == 0:
                continue
            d, a, rest = self.split_root(p)
            if len(d):
                if len(dev):
                    if not eqs(lower(d), lower(dev)):
                        continue
                else:
                    dev = d
            if not ab:
                tail = split_on(rest, self.seps) + tail
                ab = a
            if ab and (len(dev) or not self.win):
                break
        t = joinc(norm_comps(tail, not ab), self.sep)
        r = concat(concat(dev, self.sep if ab else ""), t)
        return r if len(r) else "."

    def dirname(self, p):
        p = self.s(p)
        if len(p) == 0:
            return "."
        dev, ab, rest = self.split_root(p)
        end = len(rest)
        while end > 0 and self.issep(rest[end - 1]):
            end -= 1
        k = end
        while k > 0 and not self.issep(rest[k - 1]):
            k -= 1
        if k == 0:
            root = concat(dev, p[len(dev):len(dev) + 1] if ab else "")
            return root if len(root) else "."
        return concat(p[:len(p) - len(rest)], rest[:k - 1])

    def basename(self, p, ext=UNDEF):
        p = self.s(p)
        if self.win and len(p) >= 2 and eqs(p[1], ":") and truthy(_alpha(p[0])):
            p = p[2:]
        end = len(p)
        while end > 0 and self.issep(p[end - 1]):
            end -= 1
        k = end
        while k > 0 and not self.issep(p[k - 1]):
            k -= 1
        b = p[k:end]
        if ext is not UNDEF:
            ext = conc(ext)
            if len(ext) < len(b) and truthy(strict_eq(b[len(b) - len(ext):], ext)):
                b = b[:len(b) - len(ext)]
        return b

    def extname(self, p):
        b = self.basename(p)
        i = rfind(b, ".")
        if i <= 0:
            return ""
        if i == len(b) - 1:
            # "a." has extension "."; ".." has none
            if len(b) == 2 and eqs(b, ".."):
                return ""
            return "."
        if i == 1 and len(b) == 2 and eqs(b, ".."):
            return ""
        return b[i:]

    def relative(self, a, b):
        a, b = self.s(a), self.s(b)
        if eqs(a, b):
            return ""
        a, b = self.resolve(a), self.resolve(b)
        if eqs(a, b):
            return ""
        da, _, ra = self.split_root(a)
        db, _, rb = self.split_root(b)
        if self.win:
            if not eqs(lower(da), lower(db)):
                return b
        ca = [c for c in split_on(ra, self.seps) if len(c)]
        cb = [c for c in split_on(rb, self.seps) if len(c)]
        k = 0
        while k < len(ca) and k < len(cb) and (eqs(lower(ca[k]), lower(cb[k])) if self.win else eqs(ca[k], cb[k])):
            k += 1
        return joinc([".."] * (len(ca) - k) + cb[k:], self.sep)

    def parse(self, p):
        o = JSObj()
        dev, ab, rest = self.split_root(self.s(p))
        b = self.basename(p)
        e = self.extname(p)
        o.props.update({"root": concat(dev, self.sep if ab else ""), "dir": self.dirname(p), "base": b, "ext": e,
                        "name": b[:len(b) - len(e)]})
        return o


def _alpha(c):
    x = chars_of(c)[0]
    if isinstance(x, int):
        return chr(x).isascii() and chr(x).isalpha()
    return char_in(x, [(65, 90), (97, 122)])


def lower(s):
    s = conc(s)
    return s.lower() if type(s) is str else strmodel.s_lower(s)


def path_module(win):
    def mk(w):
        P = Path(w)
        o = JSObj()
        for nm in ("normalize", "join", "isAbsolute", "resolve", "dirname", "basename", "extname", "relative", "parse"):
            o.props[nm] = NativeFn(lambda this, a, f=getattr(P, nm): f(*a), nm)
        def fmt(this, a, P=P):
            d, b = get(a[0], "dir"), get(a[0], "base")
            if d is UNDEF or not len(d):
                d = get(a[0], "root")
            if b is UNDEF or not len(b):
                ex = get(a[0], "ext")
                b = concat("" if get(a[0], "name") is UNDEF else get(a[0], "name"), "" if ex is UNDEF else ex)
            if d is UNDEF or not len(d):
                return b
            return concat(d, b) if truthy(strict_eq(d, get(a[0], "root"))) else concat(concat(d, P.sep), b)
        o.props["format"] = NativeFn(fmt, "format")
        o.props["toNamespacedPath"] = NativeFn(lambda this, a: a[0], "toNamespacedPath")
        o.props["sep"] = P.sep
        o.props["delimiter"] = ";" if w else ":"
        return o
    a, b = mk(False), mk(True)
    for o in (a, b):
        o.props["posix"], o.props["win32"] = a, b
    return b if win else a


# ------------------------------------------------------------------ url (legacy API, absolute http URLs)

def url_split(u):
    """(scheme://host, path, query+hash)"""
    u = conc(u)
    i = find(u, "://")
    if i < 0:
        return "", u, ""
    j = find(u, "/", i + 3)
    if j < 0:
        return u, "", ""
    base, rest = u[:j], u[j:]
    k = len(rest)
    for ch in "?#":
        x = find(rest, ch)
        if 0 <= x < k:
            k = x
    return base, rest[:k], rest[k:]


def url_resolve(a, b):
    a, b = conc(to_string(a)), conc(to_string(b))
    if find(b, "://") >= 0:
        o, p, q = url_split(b)
        return concat(concat(lower_host(o), p if len(p) else "/"), q)
    o, p, _ = url_split(a)
    if len(b) and eqs(b[0], "/"):
        if len(b) > 1 and eqs(b[1], "/"):
            raise Unsupported("protocol-relative URL")
        src, start = b, []
    else:
        comps = split_on(p, "/") if len(p) else ["", ""]
        src, start = b, comps[:-1]
    k = len(src)
    for ch in "?#":
        x = find(src, ch)
        if 0 <= x < k:
            k = x
    q, src = src[k:], src[:k]
    cs = start + split_on(src, "/") if not (len(b) and eqs(b[0], "/")) else split_on(src, "/")
    out = []
    for i, c in enumerate(cs):
        last = i == len(cs) - 1
        if eqs(c, ".."):
            if len(out) > 1:
                out.pop()
            if last:
                out.append("")
        elif eqs(c, "."):
            if last:
                out.append("")
        else:
            out.append(c)
    r = joinc(out, "/")
    if not len(r) or not eqs(r[0], "/"):
        r = concat("/", r)
    return concat(concat(lower_host(o), r), q)


def lower_host(o):
    return lower(o)


def url_module():
    o = JSObj()
    o.props["resolve"] = NativeFn(lambda t, a: url_resolve(a[0], a[1]), "resolve")

    def parse(t, a):
        b, p, q = url_split(to_string(a[0]))
        r = JSObj()
        r.props["path"] = concat(p, q) if len(p) or len(q) else (None if not len(b) else "/")
        r.props["pathname"] = p if len(p) else (None if not len(b) else "/")
        i = find(b, "://")
        r.props["protocol"] = b[:i + 1] if i >= 0 else None
        r.props["host"] = b[i + 3:] if i >= 0 else None
        r.props["hostname"] = r.props["host"]
        r.props["href"] = concat(concat(b, p if len(p) else "/"), q)
        return r
    o.props["parse"] = NativeFn(parse, "parse")
    return o


# ------------------------------------------------------------------ util.format

def util_module():
    o = JSObj()

    def fmt(t, a):
        if not a:
            return ""
        f = a[0]
        rest = list(a[1:])
        if not is_str(f):
            f, rest = "", list(a)
            out = ""
            for i, x in enumerate(rest):
                out = concat(concat(out, " " if i else ""), insp(x))
            return out
        f = to_conc(f)
        out, i = "", 0
        while i < len(f):
            if f[i] == "%" and i + 1 < len(f):
                d = f[i + 1]
                if d == "%":
                    out = concat(out, "%")
                    i += 2
                    continue
                if d in "sdijoO" and rest:
                    x = rest.pop(0)
                    out = concat(out, to_string(x) if d == "s" and not isinstance(x, JSObj) else
                                 to_string(to_number(x)) if d in "di" else insp(x))
                    i += 2
                    continue
            out = concat(out, f[i])
            i += 1
        for x in rest:
            out = concat(concat(out, " "), x if is_str(x) else insp(x))
        return out

    def insp(x):
        if is_str(x):
            return x
        if isinstance(x, JSObj):
            r = json_stringify(x, UNDEF, UNDEF)
            return r if r is not UNDEF else "[Function]"
        return to_string(x)
    o.props["format"] = NativeFn(fmt, "format")
    o.props["inspect"] = NativeFn(lambda t, a: insp(arg(a, 0)), "inspect")

    def promisify(t, a):
        f = a[0]

        def run(this, b):
            p = JSPromise()

            def cb(t2, c):
                if truthy(arg(c, 0)):
                    p.reject(c[0])
                else:
                    p.resolve(arg(c, 1))
                return UNDEF
            call(f, this, list(b) + [NativeFn(cb)])
            return p
        return NativeFn(run)
    o.props["promisify"] = NativeFn(promisify, "promisify")
    return o


# ------------------------------------------------------------------ globals

def setup():
    """fresh global environment"""
    RT.micro, RT.macro, RT.rejections, RT.seq, RT.ticks, RT.now = collections.deque(), [], [], 0, 0, 0
    RT.unhandled = 0
    RT.object_proto = JSObj(None)
    RT.function_proto = JSObj(RT.object_proto)
    for nm in ("array", "string", "number", "boolean", "regexp", "promise", "map", "set", "date", "error"):
        setattr(RT, nm + "_proto", JSObj(RT.object_proto))
    G = Env(None)
    RT.globals = G
    g = G.vars
    g["undefined"], g["NaN"], g["Infinity"] = UNDEF, NaN, math.inf

    for nm, f in STR_M.items():
        def sm(this, a, f=f, nm=nm):
            if this is UNDEF or this is None:
                throw("TypeError", "String.prototype.%s called on null or undefined" % nm)
            return f(conc(to_string(this)), a)
        native(RT.string_proto, nm, sm)
    for nm, f in ARR_M.items():
        native(RT.array_proto, nm, f)

    def fn_call(this, a):
        return call(this, arg(a, 0), a[1:])

    def fn_apply(this, a):
        return call(this, arg(a, 0), list(iterate(a[1])) if arg(a, 1) not in (UNDEF, None) else [])

    def fn_bind(this, a):
        return NativeFn(lambda t, b: call(this, arg(a, 0), list(a[1:]) + list(b)), "bound",
                        new=lambda b: construct(this, list(a[1:]) + list(b)))
    native(RT.function_proto, "call", fn_call)
    native(RT.function_proto, "apply", fn_apply)
    native(RT.function_proto, "bind", fn_bind)
    native(RT.function_proto, "toString", lambda t, a: "function () { [native code] }")

    def err(this, a):
        return UNDEF

    def ctor(name, proto, fn, new, statics=()):
        f = NativeFn(fn, name, new)
        f.define_hidden("prototype", proto)
        proto.define_hidden("constructor", f)
        for k, v in statics:
            native(f, k, v)
        g[name] = f
        return f

    # Object
    def to_obj(a):
        v = arg(a, 0)
        if v is UNDEF or v is None:
            return JSObj()
        return v
    OB = []

    def o(name):
        def dec(f):
            OB.append((name, f))
            return f
        return dec

    def chk(v):
        if v is UNDEF or v is None:
            throw("TypeError", "Cannot convert undefined or null to object")
        return v

    @o("keys")
    def _keys(t, a):
        return JSArr(list(own_keys(chk(arg(a, 0)))))

    @o("values")
    def _values(t, a):
        return JSArr([get(a[0], k) for k in own_keys(chk(arg(a, 0)))])

    @o("entries")
    def _entries(t, a):
        return JSArr([JSArr([k, get(a[0], k)]) for k in own_keys(chk(arg(a, 0)))])

    @o("assign")
    def _assign(t, a):
        for s in a[1:]:
            if s is UNDEF or s is None:
                continue
            for k in own_keys(s):
                put(a[0], k, get(s, k))
        return a[0]

    @o("create")
    def _create(t, a):
        return JSObj(a[0] if isinstance(a[0], JSObj) else None)

    @o("freeze")
    def _freeze(t, a):
        if isinstance(a[0], JSObj):
            a[0].frozen = True
        return a[0]

    @o("isFrozen")
    def _isfrozen(t, a):
        return not isinstance(a[0], JSObj) or a[0].frozen

    @o("getPrototypeOf")
    def _gpo(t, a):
        return a[0].proto if isinstance(a[0], JSObj) else None

    @o("setPrototypeOf")
    def _spo(t, a):
        a[0].proto = a[1] if isinstance(a[1], JSObj) else None
        return a[0]

    @o("getOwnPropertyNames")
    def _gopn(t, a):
        return JSArr(([str(i) for i in range(len(a[0].a))] + ["length"] if type(a[0]) is JSArr else []) + [k for k in a[0].props])

    @o("hasOwn")
    def _hasown(t, a):
        return has_own(a[0], to_key(arg(a, 1)))

    @o("fromEntries")
    def _fe(t, a):
        r = JSObj()
        for e in iterate(a[0]):
            r.define(to_key(get(e, 0)), get(e, 1))
        return r

    @o("defineProperty")
    def _defprop(t, a):
        ob, k, d = a[0], to_key(a[1]), a[2]
        gt, st = get(d, "get"), get(d, "set")
        if gt is not UNDEF or st is not UNDEF:
            ob.props[k] = Accessor(gt if gt is not UNDEF else None, st if st is not UNDEF else None)
        else:
            ob.define(k, get(d, "value"))
        if not truthy(get(d, "enumerable")):
            ob.hide(k)
        return ob

    @o("defineProperties")
    def _defprops(t, a):
        for k in own_keys(a[1]):
            _defprop(t, [a[0], k, get(a[1], k)])
        return a[0]

    @o("getOwnPropertyDescriptor")
    def _gopd(t, a):
        v = a[0].own(to_key(a[1]))
        if v is MISSING:
            return UNDEF
        d = JSObj()
        if type(v) is Accessor:
            d.props.update({"get": v.get or UNDEF, "set": v.set or UNDEF})
        else:
            d.props.update({"value": v, "writable": True})
        d.props.update({"enumerable": True, "configurable": True})
        return d

    @o("is")
    def _is(t, a):
        return a[0] is a[1] or strict_eq(a[0], a[1])
    ctor("Object", RT.object_proto, lambda t, a: to_obj(a), to_obj, OB)
    native(RT.object_proto, "hasOwnProperty", lambda t, a: has_own(t, to_key(arg(a, 0))))
    native(RT.object_proto, "propertyIsEnumerable", lambda t, a: has_own(t, to_key(arg(a, 0))))
    native(RT.object_proto, "toString", lambda t, a: "[object %s]" % (t.cls if isinstance(t, JSObj) and t.cls in ("Array", "Function", "Error", "RegExp", "Date") else "Object"))
    native(RT.object_proto, "valueOf", lambda t, a: t)
    native(RT.object_proto, "isPrototypeOf", lambda t, a: isinstance(arg(a, 0), JSObj) and t is a[0].proto)

    # Function / Array / String / Number / Boolean / Symbol
    ctor("Function", RT.function_proto, lambda t, a: throw("TypeError", "Function constructor"), None)

    def arr_new(a):
        if len(a) == 1 and is_num(a[0]):
            return JSArr([UNDEF] * to_integer(a[0]))
        return JSArr(list(a))

    def arr_from(t, a):
        src = a[0]
        if isinstance(src, JSObj) and type(src) is not JSArr and src.cls not in ("Map", "Set") and get(src, "@@iterator") is UNDEF:
            xs = [get(src, i) for i in range(to_integer(get(src, "length")))]
        else:
            xs = list(iterate(src))
        if callable_(arg(a, 1)):
            xs = [call(a[1], UNDEF, [x, i]) for i, x in enumerate(xs)]
        return JSArr(xs)
    ctor("Array", RT.array_proto, lambda t, a: arr_new(a), arr_new,
         [("isArray", lambda t, a: type(arg(a, 0)) is JSArr), ("from", arr_from), ("of", lambda t, a: JSArr(list(a)))])
    ctor("String", RT.string_proto, lambda t, a: to_string(a[0]) if a else "", lambda a: to_string(a[0]) if a else "",
         [("fromCharCode", lambda t, a: SymStr.mk([x if type(x) is int else x.e for x in a])),
          ("raw", lambda t, a: joinraw(a))])

    def joinraw(a):
        raw = get(a[0], "raw").a
        out = raw[0]
        for i, x in enumerate(raw[1:]):
            out = concat(concat(out, to_string(arg(a, i + 1))), x)
        return out
    nf = ctor("Number", RT.number_proto, lambda t, a: to_number(a[0]) if a else 0, lambda a: to_number(a[0]) if a else 0,
              [("isInteger", lambda t, a: type(arg(a, 0)) in (int, SymInt)),
               ("isSafeInteger", lambda t, a: type(arg(a, 0)) is SymInt or type(arg(a, 0)) is int and abs(a[0]) < 1 << 53),
               ("isNaN", lambda t, a: type(arg(a, 0)) is float and a[0] != a[0]),
               ("isFinite", lambda t, a: is_num(arg(a, 0)) and not (type(a[0]) is float and (a[0] != a[0] or abs(a[0]) == math.inf))),
               ("parseInt", lambda t, a: parse_int(a)), ("parseFloat", lambda t, a: parse_float(a))])
    nf.define_hidden("MAX_SAFE_INTEGER", (1 << 53) - 1)
    nf.define_hidden("NaN", NaN)

    def num_tostring(t, a):
        base = to_integer(arg(a, 0), 10)
        if base == 10:
            return to_string(t)
        v = numc(t)
        digs, r, n = "0123456789abcdefghijklmnopqrstuvwxyz", "", abs(int(v))
        while True:
            r = digs[n % base] + r
            n //= base
            if not n:
                return ("-" if v < 0 else "") + r
    native(RT.number_proto, "toString", num_tostring)
    native(RT.number_proto, "valueOf", lambda t, a: t)
    native(RT.number_proto, "toFixed", lambda t, a: "%.*f" % (to_integer(arg(a, 0)), numc(t)))
    native(RT.boolean_proto, "toString", lambda t, a: to_string(t))
    native(RT.boolean_proto, "valueOf", lambda t, a: t)
    ctor("Boolean", RT.boolean_proto, lambda t, a: truthy(arg(a, 0)), lambda a: truthy(arg(a, 0)))
    RT.sym_iterator = JSSymbol("Symbol.iterator")
    sy = NativeFn(lambda t, a: JSSymbol(to_conc(to_string(arg(a, 0, "")))), "Symbol")
    native(sy, "for", lambda t, a: JSSymbol(to_conc(to_string(a[0]))))
    sy.define_hidden("iterator", RT.sym_iterator)
    sy.define_hidden("asyncIterator", JSSymbol("Symbol.asyncIterator"))
    sy.define_hidden("toStringTag", JSSymbol("Symbol.toStringTag"))
    sy.define_hidden("hasInstance", JSSymbol("Symbol.hasInstance"))
    g["Symbol"] = sy

    def parse_float(a):
        m = re.match(r"[-+]?(\d+\.?\d*([eE][-+]?\d+)?|\.\d+([eE][-+]?\d+)?)", to_conc(to_string(arg(a, 0))).strip(_WS))
        return norm_num(float(m.group(0))) if m else NaN
    g["parseInt"] = NativeFn(lambda t, a: parse_int(a), "parseInt")
    g["parseFloat"] = NativeFn(lambda t, a: parse_float(a), "parseFloat")

    def is_nan(t, a):
        v = to_number(arg(a, 0))
        return type(v) is float and v != v
    g["isNaN"] = NativeFn(is_nan, "isNaN")
    g["isFinite"] = NativeFn(lambda t, a: not is_nan(t, a) and numc(to_number(a[0])) not in (math.inf, -math.inf), "isFinite")
    g["encodeURIComponent"] = NativeFn(lambda t, a: __import__("urllib.parse").parse.quote(to_conc(to_string(a[0])), safe="!'()*-._~"), "encodeURIComponent")

    # RegExp
    def re_new(a):
        p = arg(a, 0)
        fl = arg(a, 1)
        if isinstance(p, JSRegExp):
            return JSRegExp(p.source, to_conc(to_string(fl)) if fl is not UNDEF else p.flags)
        return JSRegExp(to_conc(to_string(p)), to_conc(to_string(fl)) if fl is not UNDEF else "")
    ctor("RegExp", RT.regexp_proto, lambda t, a: re_new(a), re_new)
    native(RT.regexp_proto, "exec", lambda t, a: regexp_exec(t, arg(a, 0)))
    native(RT.regexp_proto, "test", lambda t, a: regexp_exec(t, arg(a, 0)) is not None)
    native(RT.regexp_proto, "toString", lambda t, a: "/%s/%s" % (t.source, t.flags))
    for nm in ("source", "flags"):
        RT.regexp_proto.props[nm] = Accessor(NativeFn(lambda t, a, nm=nm: getattr(t, nm)))
        RT.regexp_proto.hide(nm)
    RT.regexp_proto.props["global"] = Accessor(NativeFn(lambda t, a: "g" in t.flags))

    # errors
    def mkerr(name, proto_parent):
        proto = JSObj(proto_parent)

        def new(a):
            o = JSObj(proto, "Error")
            if arg(a, 0) is not UNDEF:
                o.define_hidden("message", to_string(a[0]))
            if isinstance(arg(a, 1), JSObj) and has_own(a[1], "cause"):
                o.define_hidden("cause", get(a[1], "cause"))
            o.define_hidden("stack", concat(name + ": ", to_string(get(o, "message"))) + "\n    at x" if type(get(o, "message")) is str else "stack")
            return o
        f = ctor(name, proto, lambda t, a: new(a), new)
        proto.define_hidden("name", name)
        proto.define_hidden("message", "")
        return f, proto
    E, EP = mkerr("Error", RT.object_proto)
    native(E, "captureStackTrace", err)

    def err_str(t, a):
        nm, ms = to_string(get(t, "name")), to_string(get(t, "message"))
        return nm if not len(ms) else ms if not len(nm) else concat(concat(nm, ": "), ms)
    native(EP, "toString", err_str)
    for nm in ("TypeError", "RangeError", "SyntaxError", "ReferenceError", "EvalError", "URIError"):
        f, p = mkerr(nm, EP)
        f.proto = E
    AE, AP = mkerr("AggregateError", EP)

    # Math / JSON / Date / Map / Set / WeakMap / Promise
    m = JSObj()
    m.props["PI"] = math.pi
    nums = lambda a: [to_number(x) for x in a]

    def mm(f):
        def run(t, a):
            xs = nums(a)
            if any(type(x) is float and x != x for x in xs):
                return NaN
            r = xs[0] if xs else (math.inf if f == "min" else -math.inf)
            for x in xs[1:]:
                if truthy(x < r if f == "min" else x > r):
                    r = x
            return r
        return run
    native(m, "min", mm("min"))
    native(m, "max", mm("max"))
    for nm, f in (("floor", math.floor), ("ceil", math.ceil), ("trunc", math.trunc), ("round", lambda x: math.floor(x + 0.5))):
        native(m, nm, lambda t, a, f=f: a[0] if type(a[0]) in (int, SymInt) else (to_number(a[0]) if to_number(a[0]) != to_number(a[0]) else f(numc(to_number(a[0])))))
    native(m, "abs", lambda t, a: abs(to_number(a[0])))
    native(m, "pow", lambda t, a: norm_num(numc(to_number(a[0])) ** numc(to_number(a[1]))))
    native(m, "random", lambda t, a: 0.5)
    g["Math"] = m
    j = JSObj()
    native(j, "stringify", lambda t, a: json_stringify(arg(a, 0), arg(a, 1), arg(a, 2)))

    def jparse(t, a):
        v = json_parse(arg(a, 0))
        rv = arg(a, 1)
        if callable_(rv):
            def walk(h, k):
                x = get(h, k)
                if isinstance(x, JSObj):
                    for kk in list(own_keys(x)):
                        nv = walk(x, kk)
                        if nv is UNDEF:
                            I.delete(x, kk)
                        else:
                            put(x, kk, nv)
                return call(rv, h, [k, x])
            h = JSObj()
            h.define("", v)
            return walk(h, "")
        return v
    native(j, "parse", jparse)
    g["JSON"] = j
    dt = NativeFn(lambda t, a: "date", "Date", lambda a: JSObj(RT.date_proto, "Date"))
    dt.define_hidden("prototype", RT.date_proto)
    native(dt, "now", lambda t, a: 0)
    native(RT.date_proto, "getTime", lambda t, a: 0)
    native(RT.date_proto, "toISOString", lambda t, a: "1970-01-01T00:00:00.000Z")
    g["Date"] = dt

    def ent(o, k):
        for e in o.ext:
            if e[0] is k or truthy(strict_eq(e[0], k)):
                return e
        return None

    def mset(o, k, v):
        e = ent(o, k)
        if e is None:
            o.ext.append([k, v])
        else:
            e[1] = v
        return o

    def mdel(o, k):
        e = ent(o, k)
        if e is None:
            return False
        o.ext.remove(e)
        return True

    def mk_map(cls, proto, add):
        def new(a):
            o = JSObj(proto, cls)
            o.ext = []
            if arg(a, 0) is not UNDEF and a[0] is not None:
                for x in iterate(a[0]):
                    add(o, x)
            return o
        return new
    mp = mk_map("Map", RT.map_proto, lambda o, x: mset(o, get(x, 0), get(x, 1)))
    st = mk_map("Set", RT.set_proto, lambda o, x: mset(o, x, x))
    ctor("Map", RT.map_proto, lambda t, a: throw("TypeError", "Constructor Map requires 'new'"), mp)
    ctor("Set", RT.set_proto, lambda t, a: throw("TypeError", "Constructor Set requires 'new'"), st)
    g["WeakMap"], g["WeakSet"] = g["Map"], g["Set"]
    native(RT.map_proto, "set", lambda t, a: mset(t, arg(a, 0), arg(a, 1)))
    native(RT.map_proto, "get", lambda t, a: (lambda e: UNDEF if e is None else e[1])(ent(t, arg(a, 0))))
    native(RT.set_proto, "add", lambda t, a: mset(t, arg(a, 0), arg(a, 0)))
    for p in (RT.map_proto, RT.set_proto):
        native(p, "has", lambda t, a: ent(t, arg(a, 0)) is not None)
        native(p, "delete", lambda t, a: mdel(t, arg(a, 0)))
        native(p, "clear", lambda t, a: (t.ext.clear(), UNDEF)[1])
        native(p, "keys", lambda t, a: JSArr([e[0] for e in t.ext]))
        native(p, "values", lambda t, a: JSArr([e[1] for e in t.ext]))
        native(p, "entries", lambda t, a: JSArr([JSArr(list(e)) for e in t.ext]))

        def fe(t, a):
            for e in list(t.ext):
                call(a[0], UNDEF, [e[1], e[0], t])
            return UNDEF
        native(p, "forEach", fe)
        p.props["size"] = Accessor(NativeFn(lambda t, a: len(t.ext)))

    def pnew(a):
        p = JSPromise()
        f = a[0]
        try:
            call(f, UNDEF, [NativeFn(lambda t, b: (p.resolve(arg(b, 0)), UNDEF)[1]),
                            NativeFn(lambda t, b: (p.reject(arg(b, 0)), UNDEF)[1])])
        except JSThrow as e:
            p.reject(e.value)
        return p

    def p_all(kind):
        def run(t, a):
            p = JSPromise()
            items = list(iterate(arg(a, 0)))
            n = len(items)
            res, left = [UNDEF] * n, [n]

            def done():
                left[0] -= 1
                if left[0] == 0:
                    if kind == "any":
                        e = make_error("AggregateError", "All promises were rejected")
                        put(e, "errors", JSArr(res))
                        p.reject(e)
                    else:
                        p.resolve(JSArr(res))
            if n == 0:
                left[0] = 1
                done()
                return p
            for i, x in enumerate(items):
                q = promise_resolve(x)

                def ok(v, i=i):
                    if kind == "all":
                        res[i] = v
                        done()
                    elif kind == "allSettled":
                        o = JSObj()
                        o.props.update({"status": "fulfilled", "value": v})
                        res[i] = o
                        done()
                    else:
                        p.resolve(v)

                def bad(v, i=i):
                    if kind in ("all", "race"):
                        p.reject(v)
                    elif kind == "allSettled":
                        o = JSObj()
                        o.props.update({"status": "rejected", "reason": v})
                        res[i] = o
                        done()
                    else:
                        res[i] = v
                        done()
                # `then` creates a derived promise; its settling is what the combinator awaits
                promise_then(q, NativeFn(lambda t2, b, ok=ok: (ok(arg(b, 0)), UNDEF)[1]),
                             NativeFn(lambda t2, b, bad=bad: (bad(arg(b, 0)), UNDEF)[1]))
            return p
        return run

    def p_rej(t, a):
        p = JSPromise()
        p.reject(arg(a, 0))
        return p

    def p_wr(t, a):
        p = JSPromise()
        o = JSObj()
        o.props.update({"promise": p, "resolve": NativeFn(lambda t, b: (p.resolve(arg(b, 0)), UNDEF)[1]),
                        "reject": NativeFn(lambda t, b: (p.reject(arg(b, 0)), UNDEF)[1])})
        return o
    ctor("Promise", RT.promise_proto, lambda t, a: throw("TypeError", "Promise constructor cannot be invoked without 'new'"), pnew,
         [("resolve", lambda t, a: promise_resolve(arg(a, 0))), ("reject", p_rej), ("all", p_all("all")),
          ("race", p_all("race")), ("any", p_all("any")), ("allSettled", p_all("allSettled")), ("withResolvers", p_wr)])
    native(RT.promise_proto, "then", lambda t, a: promise_then(t, arg(a, 0), arg(a, 1)))
    native(RT.promise_proto, "catch", lambda t, a: promise_then(t, UNDEF, arg(a, 0)))

    def p_finally(t, a):
        f = arg(a, 0)

        def ok(t2, b):
            r = call(f, UNDEF, [])
            return promise_then(promise_resolve(r), NativeFn(lambda t3, c: arg(b, 0)), UNDEF)

        def bad(t2, b):
            r = call(f, UNDEF, [])

            def again(t3, c):
                raise JSThrow(arg(b, 0))
            return promise_then(promise_resolve(r), NativeFn(again), UNDEF)
        return promise_then(t, NativeFn(ok), NativeFn(bad))
    native(RT.promise_proto, "finally", p_finally)

    def timer(t, a):
        RT.seq += 1
        d = to_integer(arg(a, 1)) if len(a) > 1 and is_num(a[1]) else 0
        fn, rest = a[0], list(a[2:])
        RT.macro.append([RT.now + max(d, 1), RT.seq, lambda: call(fn, UNDEF, rest)])
        return RT.seq

    def immediate(t, a):
        RT.seq += 1
        RT.macro.append([RT.now, RT.seq, lambda: call(a[0], UNDEF, list(a[1:]))])
        return RT.seq

    def clear(t, a):
        RT.macro[:] = [x for x in RT.macro if x[1] != arg(a, 0)]
        return UNDEF
    g["setTimeout"], g["setImmediate"] = NativeFn(timer, "setTimeout"), NativeFn(immediate, "setImmediate")
    g["clearTimeout"] = g["clearImmediate"] = NativeFn(clear, "clearTimeout")
    g["queueMicrotask"] = NativeFn(lambda t, a: (RT.micro.append(lambda: call(a[0], UNDEF, [])), UNDEF)[1])
    g["structuredClone"] = NativeFn(lambda t, a: json_parse(json_stringify(a[0], UNDEF, UNDEF)))
    con = JSObj()
    for nm in ("log", "error", "warn", "info"):
        native(con, nm, lambda t, a: UNDEF)
    g["console"] = con
    gl = JSObj()
    gl.missing = lambda k: g.get(k, MISSING) if type(k) is str else MISSING
    g["globalThis"] = g["global"] = gl
    I.extra.install(g, ctor)
    return G


STR_M, ARR_M = str_methods(), arr_methods()
from . import extra  # noqa: E402
I.extra = extra


def run_loop():
    """micro- and macro-tasks until nothing is left"""
    while True:
        while RT.micro:
            RT.micro.popleft()()
        for p in RT.rejections:
            if not p.handled:
                RT.unhandled += 1
        RT.rejections = []
        if not RT.macro:
            return
        RT.macro.sort(key=lambda x: (x[0], x[1]))
        t = RT.macro.pop(0)
        RT.now = t[0]
        t[2]()
