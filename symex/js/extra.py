"""Generators, iterators and the rarer built-ins."""
import collections
import math
from . import interp as I, builtins as B
from .interp import (RT, JSObj, JSArr, JSFunc, NativeFn, JSRegExp, JSPromise, JSThrow, JSSymbol, UNDEF, MISSING, NaN, Accessor,
                     get, put, call, construct, truthy, to_string, to_number, to_key, to_conc, concat, iterate, is_str, is_num,
                     strict_eq, callable_, promise_resolve, throw, own_keys, Unsupported, has_own, setup_env, YMark)
from .builtins import arg, native, to_integer, conc, find, eqs
from ..values import SymStr, SymInt


# ------------------------------------------------------------------ generators

class GenReturn(Exception):
    def __init__(self, value):
        self.value = value


I.GenReturn = GenReturn


def result(v, done):
    o = JSObj()
    o.props.update({"value": v, "done": done})
    return o


def body_of(f, env):
    for s in f.node.body.body:
        r = yield from I.g_ex(s, env)
        if r is not None:
            return r[1]
    return UNDEF


class Gen:
    """a suspended generator body"""

    def __init__(self, f, this, args):
        self.g = body_of(f, setup_env(f, this, args, UNDEF))
        self.started = self.done = self.running = False

    def resume(self, mode, v):
        """the body's next yield or await: (kind, value), kind in yield/await/return; raises JSThrow"""
        if self.running:
            throw("TypeError", "Generator is already running")
        if mode != "next" and not self.started:
            self.done = True
        if self.done:
            if mode == "throw":
                raise JSThrow(v)
            return "return", (v if mode == "return" else UNDEF)
        self.running = True
        try:
            if mode == "next":
                x = self.g.send(v if self.started else None)
            else:
                x = self.g.throw(JSThrow(v) if mode == "throw" else GenReturn(v))
        except StopIteration as e:
            self.done = True
            return "return", (UNDEF if e.value is None else e.value)
        except GenReturn as e:
            self.done = True
            return "return", e.value
        except JSThrow:
            self.done = True
            raise
        finally:
            self.running = False
            self.started = True
        if type(x) is YMark:
            return "yield", x.v
        return "await", x


def proto_of(f, default):
    p = get(f, "prototype")
    if isinstance(p, JSObj):
        if p.proto is RT.object_proto:
            p.proto = default
        return p
    return default


def gen_call(f, this, args):
    o = JSObj(proto_of(f, RT.generator_proto), "Generator")
    o.ext = Gen(f, this, args)
    return o


def gen_step(mode):
    def run(t, a):
        k, v = t.ext.resume(mode, arg(a, 0))
        if k == "await":
            raise Unsupported("await in a generator")
        return result(v, k == "return")
    return run


def agen_call(f, this, args):
    p = get(f, "prototype")
    o = JSObj(proto_of(f, RT.agenerator_proto), "AsyncGenerator")
    o.ext = (Gen(f, this, args), collections.deque(), [False])
    return o


def agen_step(mode):
    def run(t, a):
        gen, q, busy = t.ext
        p = JSPromise()
        q.append((mode, arg(a, 0), p))
        drain(gen, q, busy)
        return p
    return run


def drain(gen, q, busy):
    while q and not busy[0]:
        mode, v, p = q[0]
        busy[0] = True
        advance(gen, q, busy, mode, v, p)


def advance(gen, q, busy, mode, v, p):
    try:
        k, x = gen.resume(mode, v)
    except JSThrow as e:
        q.popleft()
        busy[0] = False
        p.reject(e.value)
        drain(gen, q, busy)
        return
    if k == "await" or (k == "return" and mode == "return"):
        w = promise_resolve(x)
        if k == "await":
            w.react(lambda r: advance(gen, q, busy, "next", r, p), lambda r: advance(gen, q, busy, "throw", r, p))
            return
        w.react(lambda r: finish(gen, q, busy, p, r, False), lambda r: finish(gen, q, busy, p, r, True))
        return
    q.popleft()
    busy[0] = False
    p.resolve(result(x, k == "return"))
    drain(gen, q, busy)


def finish(gen, q, busy, p, v, bad):
    q.popleft()
    busy[0] = False
    if bad:
        p.reject(v)
    else:
        p.resolve(result(v, True))
    drain(gen, q, busy)


# ------------------------------------------------------------------ iterators over Python iterables

def mk_iter(py):
    o = JSObj(RT.iterator_proto, "Iterator")
    o.ext = iter(py)
    return o


def it_next(t, a):
    for v in t.ext:
        return result(v, False)
    return result(UNDEF, True)


def helpers(p):
    """Iterator.prototype"""
    def lazy(name):
        def deco(f):
            native(p, name, lambda t, a: mk_iter(f(t, arg(a, 0))))
        return deco

    @lazy("map")
    def _map(t, f):
        for i, x in enumerate(iterate(t)):
            yield call(f, UNDEF, [x, i])

    @lazy("filter")
    def _filter(t, f):
        for i, x in enumerate(iterate(t)):
            if truthy(call(f, UNDEF, [x, i])):
                yield x

    @lazy("flatMap")
    def _fm(t, f):
        for i, x in enumerate(iterate(t)):
            for y in iterate(call(f, UNDEF, [x, i])):
                yield y

    @lazy("take")
    def _take(t, n):
        n = to_integer(n)
        if n:
            for i, x in enumerate(iterate(t)):
                yield x
                if i + 1 >= n:
                    return

    @lazy("drop")
    def _drop(t, n):
        n = to_integer(n)
        for i, x in enumerate(iterate(t)):
            if i >= n:
                yield x
    for nm in ("reduce", "forEach", "some", "every", "find"):
        native(p, nm, lambda t, a, nm=nm: B.ARR_M[nm](JSArr(list(iterate(t))), a))
    native(p, "toArray", lambda t, a: JSArr(list(iterate(t))))
    p.define_hidden("@@iterator", NativeFn(lambda t, a: t))


# ------------------------------------------------------------------ strings and arrays

def last_index(s, a):
    p = conc(to_string(arg(a, 0)))
    n = len(s) - len(p)
    if len(a) > 1 and not (type(to_number(a[1])) is float and to_number(a[1]) != to_number(a[1])):
        n = min(n, max(0, to_integer(a[1])))
    for i in range(n, -1, -1):
        if eqs(s[i:i + len(p)], p):
            return i
    return -1


def arr_with(t, a):
    i = to_integer(arg(a, 0))
    i = i + len(t.a) if i < 0 else i
    if not 0 <= i < len(t.a):
        throw("RangeError", "Invalid index : %d" % i)
    r = list(t.a)
    r[i] = arg(a, 1)
    return JSArr(r)


def copy_within(t, a):
    n = len(t.a)
    rel = lambda v, d: (lambda x: max(n + x, 0) if x < 0 else min(x, n))(d if v is UNDEF else to_integer(v))
    to, st, en = rel(arg(a, 0), 0), rel(arg(a, 1), 0), rel(arg(a, 2), n)
    src = t.a[st:en][:n - to]
    t.a[to:to + len(src)] = src
    return t


def to_spliced(t, a):
    r = JSArr(list(t.a))
    B.ARR_M["splice"](r, a)
    return r


def code_points(s):
    return [s[i] for i in range(len(s))]


def from_code_point(t, a):
    return SymStr.mk([x if type(x) is int else x.e for x in a])


# ------------------------------------------------------------------ URL

SAFE = set("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~!$&'()*+,;=:@/%?#[]|^")


def new_url(a):
    u = conc(to_string(arg(a, 0)))
    if arg(a, 1) is not UNDEF:
        u = conc(B.url_resolve(a[1], u))
    i = find(u, "://")
    if i < 1:
        e = I.make_error("TypeError", "Invalid URL")
        put(e, "code", "ERR_INVALID_URL")
        raise JSThrow(e)
    for k in range(len(u)):
        c = to_conc(u[k])
        if c not in SAFE:
            raise Unsupported("URL with " + c)
    u = B.url_resolve(u, u)
    base, path, q = B.url_split(u)
    base = B.lower_host(base)
    if len(path) == 0:
        path = "/"
    h = find(q, "#")
    search, hash_ = (q, "") if h < 0 else (q[:h], q[h:])
    host = base[find(base, "://") + 3:]
    if find(host, "@") >= 0:
        raise Unsupported("URL with credentials")
    port = ""
    c = find(host, ":")
    proto = base[:find(base, "://") + 1]
    name = host
    if c >= 0:
        name, port = host[:c], host[c + 1:]
        if (eqs(proto, "http:") and eqs(port, "80")) or (eqs(proto, "https:") and eqs(port, "443")):
            port, host = "", name
    o = JSObj(RT.url_proto, "URL")
    o.ext = None
    origin = concat(concat(proto, "//"), host)
    for k, v in (("protocol", proto), ("host", host), ("hostname", name), ("port", port), ("pathname", path), ("search", search if len(search) > 1 else ""),
                 ("hash", hash_ if len(hash_) > 1 else ""), ("origin", origin), ("username", ""), ("password", "")):
        o.define_hidden(k, v)
    return o


def url_href(t, a):
    g = lambda k: get(t, k)
    return concat(concat(concat(concat(concat(g("protocol"), "//"), g("host")), g("pathname")), g("search")), g("hash"))


def can_parse(t, a):
    try:
        new_url(a)
    except JSThrow:
        return False
    return True


# ------------------------------------------------------------------ what is not there

KNOWN = {
    "array": "copyWithin entries every fill filter find findIndex findLast findLastIndex flat flatMap forEach includes indexOf join keys lastIndexOf map pop push reduce reduceRight reverse shift slice some sort splice toLocaleString toReversed toSorted toSpliced toString unshift values with at concat",
    "string": "anchor at big charAt charCodeAt codePointAt concat endsWith includes indexOf isWellFormed lastIndexOf localeCompare match matchAll normalize padEnd padStart repeat replace replaceAll search slice split startsWith substr substring toLocaleLowerCase toLocaleUpperCase toLowerCase toString toUpperCase toWellFormed trim trimEnd trimLeft trimRight trimStart valueOf",
    "number": "toExponential toFixed toLocaleString toPrecision toString valueOf",
    "object": "__defineGetter__ __lookupGetter__ hasOwnProperty isPrototypeOf propertyIsEnumerable toLocaleString toString valueOf",
    "function": "apply bind call toString",
    "regexp": "compile exec test toString flags global ignoreCase multiline sticky unicode dotAll",
    "map": "clear delete entries forEach get has keys set size values",
    "set": "add clear delete difference entries forEach has intersection isDisjointFrom isSubsetOf isSupersetOf keys size symmetricDifference union values",
    "date": "getDate getDay getFullYear getHours getMilliseconds getMinutes getMonth getSeconds getTime getTimezoneOffset setTime toDateString toISOString toLocaleDateString toLocaleString toString toUTCString valueOf",
}
STATIC = {"Object": "assign create defineProperties defineProperty entries freeze fromEntries getOwnPropertyDescriptor getOwnPropertyDescriptors getOwnPropertyNames getOwnPropertySymbols getPrototypeOf groupBy hasOwn is isExtensible isFrozen isSealed keys preventExtensions seal setPrototypeOf values",
          "Array": "from fromAsync isArray of", "String": "fromCharCode fromCodePoint raw", "Number": "EPSILON MAX_SAFE_INTEGER MAX_VALUE MIN_SAFE_INTEGER MIN_VALUE NEGATIVE_INFINITY POSITIVE_INFINITY isFinite isInteger isNaN isSafeInteger parseFloat parseInt",
          "Promise": "all allSettled any race reject resolve withResolvers", "Map": "groupBy", "Date": "UTC now parse", "Math": "abs cbrt ceil clz32 exp floor hypot imul log log10 log2 max min pow random round sign sqrt trunc PI E"}
GLOBALS = set("Intl Atomics Proxy Reflect BigInt DataView ArrayBuffer Uint8Array Int8Array Uint16Array Int32Array Uint32Array Float64Array Buffer TextEncoder TextDecoder URL URLSearchParams AbortController AbortSignal Event EventTarget WeakRef FinalizationRegistry setInterval clearInterval fetch performance escape unescape eval encodeURI decodeURI decodeURIComponent SharedArrayBuffer WebAssembly Iterator Blob FormData Headers Request Response".split())
I.KNOWN_GLOBALS = GLOBALS


def not_modelled(what, names):
    names = set(names.split())

    def missing(k):
        if type(k) is not str or k not in names:
            return MISSING

        def f(t, a):
            raise Unsupported(what + "." + k)
        return NativeFn(f, k)
    return missing


def install(g, ctor):
    ip = RT.iterator_proto = JSObj(RT.object_proto)
    helpers(ip)
    RT.pyiter = None
    native(ip, "next", it_next)
    gp = RT.generator_proto = JSObj(ip)
    for m in ("next", "throw", "return"):
        native(gp, m, gen_step(m))
    ap = RT.agenerator_proto = JSObj(RT.object_proto)
    for m in ("next", "throw", "return"):
        native(ap, m, agen_step(m))
    ap.define_hidden("@@asyncIterator", NativeFn(lambda t, a: t))
    A, St = RT.array_proto, RT.string_proto
    A.define_hidden("@@iterator", NativeFn(lambda t, a: mk_iter(iterate(t))))
    St.define_hidden("@@iterator", NativeFn(lambda t, a: mk_iter(iterate(conc(to_string(t))))))
    for p, idx in ((RT.map_proto, None), (RT.set_proto, 0)):
        p.define_hidden("@@iterator", NativeFn(lambda t, a: mk_iter(iterate(t))))
        native(p, "keys", lambda t, a: mk_iter(e[0] for e in t.ext))
        native(p, "values", lambda t, a: mk_iter(e[1] for e in t.ext))
        native(p, "entries", lambda t, a: mk_iter(JSArr(list(e)) for e in t.ext))
    native(A, "keys", lambda t, a: mk_iter(range(len(t.a))))
    native(A, "values", lambda t, a: mk_iter(iterate(t)))
    native(A, "entries", lambda t, a: mk_iter(JSArr([i, x]) for i, x in enumerate(iterate(t))))
    native(A, "with", arr_with)
    native(A, "copyWithin", copy_within)
    native(A, "toSpliced", to_spliced)
    native(A, "toLocaleString", lambda t, a: to_string(t))
    native(St, "lastIndexOf", lambda t, a: last_index(conc(to_string(t)), a))
    native(St, "isWellFormed", lambda t, a: True)
    native(St, "toWellFormed", lambda t, a: to_string(t))
    native(St, "trimLeft", B.STR_M["trimStart"] and (lambda t, a: B.STR_M["trimStart"](conc(to_string(t)), a)))
    native(St, "trimRight", lambda t, a: B.STR_M["trimEnd"](conc(to_string(t)), a))
    for x, y in (("toLocaleLowerCase", "toLowerCase"), ("toLocaleUpperCase", "toUpperCase")):
        native(St, x, lambda t, a, y=y: B.STR_M[y](conc(to_string(t)), a))
    native(St, "matchAll", lambda t, a: mk_iter(B.STR_M["matchAll"](conc(to_string(t)), a).a))
    native(g["String"], "fromCodePoint", from_code_point)
    M = g["Math"]
    num = lambda a: B.numc(to_number(arg(a, 0)))
    native(M, "sign", lambda t, a: (lambda x: x if x != x or x == 0 else (1 if x > 0 else -1))(num(a)))
    for nm in ("sqrt", "log2", "log10", "exp"):
        native(M, nm, lambda t, a, f=getattr(math, nm): (lambda x: NaN if x != x or (x < 0 and f is math.sqrt) else B.norm_num(f(x)))(num(a)))
    native(M, "log", lambda t, a: B.norm_num(math.log(num(a))) if num(a) > 0 else NaN)
    N = g["Number"]
    for k, v in (("MIN_SAFE_INTEGER", 1 - (1 << 53)), ("POSITIVE_INFINITY", math.inf), ("NEGATIVE_INFINITY", -math.inf), ("EPSILON", 2.0 ** -52),
                 ("MAX_VALUE", 1.7976931348623157e308), ("MIN_VALUE", 5e-324)):
        N.define_hidden(k, v)
    # symbols
    reg = {}

    def sym_for(t, a):
        k = to_conc(to_string(arg(a, 0)))
        if k not in reg:
            reg[k] = JSSymbol(k)
        return reg[k]
    native(g["Symbol"], "for", sym_for)
    RT.symbol_proto = JSObj(RT.object_proto)
    native(RT.symbol_proto, "toString", lambda t, a: "Symbol(%s)" % t.desc)
    RT.symbol_proto.define_hidden("description", Accessor(NativeFn(lambda t, a: t.desc)))
    RT.sym_async = get(g["Symbol"], "asyncIterator")
    # Object
    O = g["Object"]

    def group(t, a, put_):
        out = []
        for i, x in enumerate(iterate(a[0])):
            k = call(a[1], UNDEF, [x, i])
            put_(k, x)

    def group_by(t, a):
        r = JSObj()

        def add(k, x):
            k = to_key(k)
            v = r.own(k)
            if v is MISSING:
                r.define(k, JSArr([x]))
            else:
                v.a.append(x)
        group(t, a, add)
        return r
    native(O, "groupBy", group_by)

    def map_group(t, a):
        r = construct(g["Map"], [])

        def add(k, x):
            v = call(get(r, "get"), r, [k])
            if v is UNDEF:
                call(get(r, "set"), r, [k, JSArr([x])])
            else:
                v.a.append(x)
        group(t, a, add)
        return r
    native(g["Map"], "groupBy", map_group)

    def descs(t, a):
        r = JSObj()
        for k in own_keys(a[0]):
            r.define(k, call(get(O, "getOwnPropertyDescriptor"), O, [a[0], k]))
        return r
    native(O, "getOwnPropertyDescriptors", descs)
    native(O, "getOwnPropertySymbols", lambda t, a: JSArr([]))
    if get(O, "seal") is UNDEF:
        native(O, "seal", lambda t, a: arg(a, 0))
    if get(O, "preventExtensions") is UNDEF:
        native(O, "preventExtensions", lambda t, a: arg(a, 0))

    def is_proto(t, a):
        p = a[0].proto if isinstance(arg(a, 0), JSObj) else None
        while p is not None:
            if p is t:
                return True
            p = p.proto
        return False
    native(RT.object_proto, "isPrototypeOf", is_proto)
    native(RT.object_proto, "valueOf", lambda t, a: t)

    def tag(t, a):
        if t is None or t is UNDEF:
            return "[object %s]" % ("Null" if t is None else "Undefined")
        if isinstance(t, JSObj):
            return "[object %s]" % (t.cls if t.cls in ("Array", "Function", "Error", "RegExp", "Date", "Map", "Set", "Promise") else "Object")
        return "[object %s]" % ("String" if is_str(t) else "Boolean" if I.is_bool(t) else "Number" if is_num(t) else "Symbol")
    native(RT.object_proto, "toString", tag)
    native(RT.date_proto, "toJSON", lambda t, a: call(get(t, "toISOString"), t, []))

    def create(t, a):
        o = JSObj(a[0])
        if isinstance(arg(a, 1), JSObj):
            call(get(O, "defineProperties"), O, [o, a[1]])
        return o
    native(O, "create", create)
    # Reflect
    R = JSObj()
    native(R, "ownKeys", lambda t, a: call(get(O, "getOwnPropertyNames"), O, [a[0]]))
    native(R, "has", lambda t, a: I.has_prop(a[0], to_key(a[1])))
    native(R, "get", lambda t, a: get(a[0], to_key(a[1])))
    native(R, "set", lambda t, a: (put(a[0], to_key(a[1]), arg(a, 2)), True)[1])
    native(R, "apply", lambda t, a: call(a[0], a[1], list(iterate(a[2]))))
    native(R, "construct", lambda t, a: construct(a[0], list(iterate(a[1]))))
    native(R, "deleteProperty", lambda t, a: (I.delete(a[0], to_key(a[1])), True)[1])
    native(R, "getPrototypeOf", lambda t, a: a[0].proto)
    native(R, "defineProperty", lambda t, a: (call(get(O, "defineProperty"), O, a), True)[1])
    g["Reflect"] = R
    # Set
    for nm, f in (("union", lambda x, y: x + y), ("intersection", lambda x, y: [e for e in x if has(y, e)]), ("difference", lambda x, y: [e for e in x if not has(y, e)])):
        native(RT.set_proto, nm, lambda t, a, f=f: construct(g["Set"], [JSArr(f([e[0] for e in t.ext], [e[0] for e in a[0].ext]))]))
    native(RT.set_proto, "isSubsetOf", lambda t, a: all(has([e[0] for e in a[0].ext], e[0]) for e in t.ext))
    native(RT.set_proto, "isSupersetOf", lambda t, a: all(has([e[0] for e in t.ext], e[0]) for e in a[0].ext))
    native(RT.set_proto, "isDisjointFrom", lambda t, a: not any(has([e[0] for e in t.ext], e[0]) for e in a[0].ext))
    # URL, URI
    RT.url_proto = JSObj(RT.object_proto)
    RT.url_proto.define_hidden("href", Accessor(NativeFn(url_href)))
    native(RT.url_proto, "toString", url_href)
    native(RT.url_proto, "toJSON", url_href)
    ctor("URL", RT.url_proto, lambda t, a: throw("TypeError", "Class constructor URL cannot be invoked without 'new'"), new_url, [("canParse", can_parse)])
    q = __import__("urllib.parse").parse
    g["decodeURIComponent"] = NativeFn(lambda t, a: q.unquote(to_conc(to_string(a[0]))), "decodeURIComponent")
    g["encodeURI"] = NativeFn(lambda t, a: q.quote(to_conc(to_string(a[0])), safe="!'()*-._~;,/?:@&=+$#"), "encodeURI")
    for k, v in KNOWN.items():
        p = getattr(RT, k + "_proto")
        if p.missing is None:
            p.missing = not_modelled(k, v)
    for k, v in STATIC.items():
        if g[k].missing is None:
            g[k].missing = not_modelled(k, v)


def has(xs, v):
    return any(truthy(strict_eq(x, v)) for x in xs)
