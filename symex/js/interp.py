"""Symbolic interpreter for the JavaScript of the repository (ESTree from acorn).  Strings, numbers and
booleans may be the engine's symbolic values; every decision on one forks the path."""
import ast
import json
import math
import os
import re
import subprocess
import types
from ..core import S, EngineStop
from ..values import SymStr, SymInt, SymBool, SymChoice, SYM_TYPES, chars_of, mkbool, And, Or, Not, char_eq, char_in
from .. import strmodel, symre, hooks

HERE = os.path.dirname(os.path.abspath(__file__))
NODE = "/usr/bin/node" if os.path.exists("/usr/bin/node") else "node"


class Unsupported(EngineStop):
    """JavaScript outside the modelled subset"""


class JSThrow(Exception):
    def __init__(self, value):
        super().__init__(value)
        self.value = value

    def __str__(self):
        v = self.value
        if isinstance(v, JSObj) and v.cls == "Error":
            try:
                return "%s: %s" % (get(v, "name"), get(v, "message"))
            except Exception:
                pass
        return repr(v)


class ShortCircuit(Exception):
    pass


class Undefined:
    __slots__ = ()

    def __repr__(self):
        return "undefined"

    def __bool__(self):
        return False


UNDEF = Undefined()
RETURN, BREAK, CONTINUE = "return", "break", "continue"
NaN = float("nan")


# ------------------------------------------------------------------ objects

class Accessor:
    __slots__ = ("get", "set")

    def __init__(self, get=None, set=None):
        self.get, self.set = get, set


class JSObj:
    __slots__ = ("props", "proto", "cls", "hidden", "ext", "missing", "frozen")

    def __init__(self, proto=0, cls="Object"):
        self.props = {}
        self.proto = RT.object_proto if proto == 0 else proto
        self.cls = cls
        self.hidden = None
        self.ext = None
        self.missing = None
        self.frozen = False

    def define(self, k, v):
        if type(k) in SYM_TYPES or S.sym_keys:
            k = hooks.key(self.props, k)
        self.props[k] = v

    def define_hidden(self, k, v):
        self.props[k] = v
        self.hide(k)

    def hide(self, k):
        if self.hidden is None:
            self.hidden = set()
        self.hidden.add(k)

    def own(self, k):
        """own property or MISSING"""
        d = self.props
        if type(k) in SYM_TYPES or S.sym_keys:
            k = hooks.key(d, k)
        return d.get(k, MISSING)

    def keys(self):
        ks = [k for k in self.props if not (self.hidden and type(k) is str and k in self.hidden)
              and not (type(k) is str and k[:1] in "#@" and k[:2] in ("@@",) or type(k) is str and k[:1] == "#" and self.cls == "Instance")]
        ints = [k for k in ks if type(k) is str and k.isdigit() and (k == "0" or k[0] != "0")]
        if ints:
            ints.sort(key=int)
            s = set(ints)
            ks = ints + [k for k in ks if not (type(k) is str and k in s)]
        return ks


MISSING = object()


class JSArr(JSObj):
    __slots__ = ("a",)

    def __init__(self, a=None):
        JSObj.__init__(self, RT.array_proto, "Array")
        self.a = a if a is not None else []

    def own(self, k):
        i = arr_index(k)
        if i is not None:
            return self.a[i] if i < len(self.a) else MISSING
        if type(k) is str and k == "length":
            return len(self.a)
        return JSObj.own(self, k)

    def keys(self):
        return [str(i) for i in range(len(self.a))] + JSObj.keys(self)


def arr_index(k):
    t = type(k)
    if t is int:
        return k if k >= 0 else None
    if t is SymInt:
        k = k.conc()
        return k if k >= 0 else None
    if t is str and k and k.isdigit() and (k == "0" or k[0] != "0"):
        return int(k)
    if t is SymStr or t is SymChoice:
        c = to_conc(k)
        return int(c) if c.isdigit() and (c == "0" or c[0] != "0") else None
    if t is float and k == int(k) and k >= 0:
        return int(k)
    return None


class JSFunc(JSObj):
    __slots__ = ("node", "env", "name", "home", "fields", "derived", "is_class", "ctor", "bound")

    def __init__(self, node, env):
        JSObj.__init__(self, RT.function_proto, "Function")
        self.node, self.env = node, env
        self.name = node.id.name if node is not None and getattr(node, "id", None) is not None else ""
        self.home = None
        self.fields = None
        self.derived = False
        self.is_class = False
        self.ctor = None

    def own(self, k):
        r = JSObj.own(self, k)
        if r is MISSING and type(k) is str:
            if k == "name":
                return self.name
            if k == "prototype" and self.node is not None and not self.node.arrow and not self.is_class and (not self.node.async_ or self.node.generator):
                p = JSObj()
                if not self.node.generator:
                    p.define_hidden("constructor", self)
                self.define_hidden("prototype", p)
                return p
            if k == "length" and self.node is not None:
                return sum(1 for x in self.node.params if x.type not in ("RestElement", "AssignmentPattern"))
        return r


class NativeFn(JSObj):
    __slots__ = ("py", "name", "new")

    def __init__(self, py, name="", new=None):
        JSObj.__init__(self, RT.function_proto, "Function")
        self.py, self.name, self.new = py, name, new

    def own(self, k):
        r = JSObj.own(self, k)
        if r is MISSING and type(k) is str and k == "name":
            return self.name
        return r


class JSRegExp(JSObj):
    __slots__ = ("source", "flags", "pat")

    def __init__(self, source, flags):
        JSObj.__init__(self, RT.regexp_proto, "RegExp")
        self.source, self.flags = source, flags
        key = (source, flags)
        p = _RECACHE.get(key)
        if p is None:
            f = re.ASCII
            if "i" in flags:
                f |= re.IGNORECASE
            if "m" in flags:
                f |= re.MULTILINE
            if "s" in flags:
                f |= re.DOTALL
            try:
                p = re.compile(js_regex(source, flags), f)
            except re.error as e:
                throw("SyntaxError", "Invalid regular expression: /%s/: %s" % (source, e))
            _RECACHE[key] = p
        self.pat = p
        self.define_hidden("lastIndex", 0)


_RECACHE = {}


def js_regex(s, flags):
    out = []
    i, cls = 0, False
    while i < len(s):
        c = s[i]
        if c == "\\":
            d = s[i + 1]
            if d == "/" or d == "-":
                out.append("/" if d == "/" else "\\-")
                i += 2
                continue
            if d == "u" and re.match(r"[0-9a-fA-F]{4}", s[i + 2:i + 6]):
                out.append("\\u" + s[i + 2:i + 6])
                i += 6
                continue
            if d == "d" and False:
                pass
            if d == "k" and s[i + 2:i + 3] == "<":
                j = s.index(">", i)
                out.append("(?P=%s)" % s[i + 3:j])
                i = j + 1
                continue
            if d in "pP" and "u" in flags:
                raise Unsupported("regular expression /%s/%s" % (s, flags))
            if d.isalpha() and d not in "dDwWsSbBnrtfvx":
                out.append(d)
            else:
                out.append(c + d)
            i += 2
            continue
        if cls:
            if c == "]":
                cls = False
            if c == "[":
                out.append("\\[")
            else:
                out.append(c)
        elif c == "[":
            cls = True
            if s[i:i + 3] == "[^]":
                out.append("[\\s\\S]")
                cls = False
                i += 3
                continue
            if s[i:i + 2] == "[]":
                out.append("(?!)")
                cls = False
                i += 2
                continue
            out.append(c)
            if s[i + 1] == "^":
                out.append("^")
                i += 1
        elif c == "$":
            out.append("(?=[\n\r\u2028\u2029]|\\Z)" if "m" in flags else "\\Z")
        elif c == "^" and "m" in flags:
            out.append("(?:^|(?<=[\r\u2028\u2029]))")
        elif c == "." and "s" not in flags:
            out.append("[^\n\r\u2028\u2029]")
        elif c == "(" and s[i:i + 3] == "(?<" and s[i + 3] not in "=!":
            out.append("(?P<")
            i += 2
        else:
            out.append(c)
        i += 1
    return "".join(out)


# ------------------------------------------------------------------ environments

class Env:
    __slots__ = ("vars", "parent")

    def __init__(self, parent):
        self.vars = {}
        self.parent = parent

    def get(self, name):
        e = self
        while e is not None:
            v = e.vars.get(name, MISSING)
            if v is not MISSING:
                if v is TDZ:
                    throw("ReferenceError", "Cannot access '%s' before initialization" % name)
                return v
            e = e.parent
        if name[:1] == "%":
            return UNDEF
        if name in KNOWN_GLOBALS:
            raise Unsupported("global " + name)
        throw("ReferenceError", "%s is not defined" % name)

    def has(self, name):
        e = self
        while e is not None:
            if name in e.vars:
                return True
            e = e.parent
        return False

    def set(self, name, v):
        e = self
        while e is not None:
            if name in e.vars:
                e.vars[name] = v
                return
            e = e.parent
        throw("ReferenceError", "%s is not defined" % name)


KNOWN_GLOBALS = set()


class YMark:
    """a value yielded by a generator, as opposed to one awaited"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Tdz:
    pass


TDZ = Tdz()


def hoist_fn(s, env):
    if s.type == "FunctionDeclaration":
        env.vars[s.id.name] = JSFunc(s, env)


def hoist_block(n, env):
    for nm in n.lexnames:
        env.vars[nm] = TDZ
    for s in n.fndecls:
        env.vars[s.id.name] = JSFunc(s, env)


# ------------------------------------------------------------------ nodes

class N:
    """AST node"""
    optional = computed = static = shorthand = method = False
    regex = label = id = None
    anon = False
    aw = False


_FUNCS = ("FunctionDeclaration", "FunctionExpression", "ArrowFunctionExpression")


def build(j, file, fn=None):
    n = N()
    t = j["type"]
    n.type = t
    n.await_ = False
    n.file = file
    isf = t in _FUNCS
    aw = t in ("AwaitExpression", "YieldExpression")
    for k, v in j.items():
        if k == "type":
            continue
        if k == "regex" and v:
            r = types.SimpleNamespace(pattern=v["pattern"], flags=v["flags"])
            n.regex = r
            continue
        if k == "value" and t == "TemplateElement":
            n.cooked, n.raw = v["cooked"], v["raw"]
            continue
        if k == "await":
            n.await_ = v
            aw = aw or bool(v)
            continue
        if k == "async":
            n.async_ = v
            continue
        if isinstance(v, dict) and "type" in v:
            v = build(v, file)
            aw = aw or (v.aw and not isf)
        elif isinstance(v, list):
            v = [build(x, file) if isinstance(x, dict) and "type" in x else x for x in v]
            for x in v:
                if isinstance(x, N) and x.aw and not isf:
                    aw = True
        setattr(n, k, v)
    n.aw = aw
    if isf:
        n.arrow = t == "ArrowFunctionExpression"
        n.anon = n.id is None
        n.qual = ""
        vs, ua = [], [False]
        for p in n.params:
            scan_vars(p, vs, ua)
        scan_vars(n.body, vs, ua)
        n.varnames = vs
        n.uses_args = ua[0] and not n.arrow
        n.simple = all(p.type == "Identifier" for p in n.params)
        n.pnames = [p.name for p in n.params] if n.simple else None
    if t == "ClassExpression":
        n.anon = n.id is None
    if t in ("BlockStatement", "Program", "StaticBlock"):
        n.fndecls = [s for s in n.body if s.type == "FunctionDeclaration"]
        lex = []
        for s in n.body:
            if s.type == "VariableDeclaration" and s.kind != "var":
                for d in s.declarations:
                    pat_names(d.id, lex)
            elif s.type == "ClassDeclaration":
                lex.append(s.id.name)
        n.lexnames = lex
        n.decls = bool(lex or n.fndecls)
    if t in _FUNCS or t == "Program":
        if t == "Program":
            vs = []
            for s in n.body:
                scan_vars(s, vs, [False])
            n.varnames = vs
    n.fn = EV.get(t) or EX.get(t)
    n.gfn = GEV.get(t) or GEX.get(t)
    return n


def pat_names(p, out):
    if p is None:
        return
    t = p.type
    if t == "Identifier":
        out.append(p.name)
    elif t == "ObjectPattern":
        for q in p.properties:
            pat_names(q.argument if q.type == "RestElement" else q.value, out)
    elif t == "ArrayPattern":
        for q in p.elements:
            pat_names(q, out)
    elif t == "AssignmentPattern":
        pat_names(p.left, out)
    elif t == "RestElement":
        pat_names(p.argument, out)


def scan_vars(n, vs, ua):
    """var-declared names (not entering functions); does it use `arguments`?"""
    if n is None:
        return
    if isinstance(n, list):
        for x in n:
            scan_vars(x, vs, ua)
        return
    if not isinstance(n, N):
        return
    t = n.type
    if t == "Identifier":
        if n.name == "arguments":
            ua[0] = True
        return
    if t in ("FunctionDeclaration", "FunctionExpression"):
        return
    if t == "ArrowFunctionExpression":
        scan_vars(n.body, [], ua)
        return
    if t == "VariableDeclaration" and n.kind == "var":
        for d in n.declarations:
            pat_names(d.id, vs)
    for k, v in n.__dict__.items():
        if isinstance(v, (N, list)) and k not in ("fndecls",):
            scan_vars(v, vs, ua)


def key_name(n):
    t = n.type
    if t == "Identifier":
        return n.name
    if t == "PrivateIdentifier":
        return "#" + n.name
    if t == "Literal":
        return to_key(n.value)
    raise Unsupported("key " + t)


def src_of(n):
    t = n.type
    if t == "Identifier":
        return n.name
    if t == "ThisExpression":
        return "this"
    if t == "MemberExpression":
        if n.computed:
            return src_of(n.object) + "[...]"
        return src_of(n.object) + "." + key_name(n.property)
    if t == "CallExpression":
        return src_of(n.callee) + "(...)"
    if t == "Super":
        return "(intermediate value)"
    return "expression"


# ------------------------------------------------------------------ conversions

def to_conc(s):
    """a concrete str (forks)"""
    t = type(s)
    if t is str:
        return s
    if t is SymStr:
        return s.conc()
    if t is SymChoice:
        return s.force()
    return s


def is_str(v):
    t = type(v)
    return t is str or t is SymStr or t is SymChoice


def is_bool(v):
    t = type(v)
    return t is bool or t is SymBool


def is_num(v):
    t = type(v)
    return t is int or t is SymInt or t is float


def truthy(v):
    t = type(v)
    if t is bool:
        return v
    if t is SymBool or t is SymInt or t is SymChoice:
        return bool(v)
    if t is str or t is SymStr:
        return len(v) > 0
    if v is UNDEF or v is None:
        return False
    if t is int:
        return v != 0
    if t is float:
        return v == v and v != 0
    return True


def js_not(v):
    if type(v) is SymBool:
        return Not(v)
    return not truthy(v)


def typeof(v):
    if v is UNDEF:
        return "undefined"
    if v is None:
        return "object"
    if is_bool(v):
        return "boolean"
    if is_num(v):
        return "number"
    if is_str(v):
        return "string"
    if callable_(v):
        return "function"
    if isinstance(v, JSSymbol):
        return "symbol"
    return "object"


class JSSymbol:
    def __init__(self, desc):
        self.desc = desc


def callable_(v):
    t = type(v)
    return t is JSFunc or t is NativeFn


def num_str(v):
    if type(v) is int:
        return str(v)
    if v != v:
        return "NaN"
    if v in (math.inf, -math.inf):
        return "Infinity" if v > 0 else "-Infinity"
    if v == int(v) and abs(v) < 1e21:
        return str(int(v))
    return repr(v)


def to_string(v):
    t = type(v)
    if t is str or t is SymStr:
        return v
    if t is SymChoice:
        return v.force()
    if v is UNDEF:
        return "undefined"
    if v is None:
        return "null"
    if t is bool:
        return "true" if v else "false"
    if t is SymBool:
        return "true" if bool(v) else "false"
    if t is SymInt:
        return strmodel.to_str(v)
    if t is int or t is float:
        return num_str(v)
    if isinstance(v, JSSymbol):
        throw("TypeError", "Cannot convert a Symbol value to a string")
    return to_string(to_prim(v, "string"))


def to_prim(v, hint="default"):
    if not isinstance(v, JSObj):
        return v
    for m in (("toString", "valueOf") if hint == "string" else ("valueOf", "toString")):
        f = get(v, m)
        if callable_(f):
            r = call(f, v, [])
            if not isinstance(r, JSObj):
                return r
    throw("TypeError", "Cannot convert object to primitive value")


def to_key(v):
    t = type(v)
    if t is str or t is SymStr or t is int:
        return v if t is not int else (v if v >= 0 else str(v))
    if t is SymInt:
        return v.conc()
    if isinstance(v, JSSymbol):
        return "@@iterator" if v is RT.sym_iterator else "@@asyncIterator" if v is RT.sym_async else "@@" + v.desc + str(id(v))
    if t is float and v == v and v == int(v) and v >= 0:
        return int(v)
    return to_string(v)


def to_number(v):
    t = type(v)
    if t is int or t is SymInt or t is float:
        return v
    if t is bool:
        return int(v)
    if t is SymBool:
        return int(bool(v))
    if v is UNDEF:
        return NaN
    if v is None:
        return 0
    if is_str(v):
        if t is SymChoice:
            v = v.force()
        if type(v) is SymStr:
            v = strmodel.s_strip(v)
            if len(v) == 0:
                return 0
            if all(bool(char_in(c, [(48, 57)])) for c in chars_of(v)):
                return with_text(strmodel.parse_int(v), v)
            v = to_conc(v)
        s = v.strip()
        if s == "":
            return 0
        if re.fullmatch(r"[-+]?\d+", s):
            return int(s)
        if re.fullmatch(r"[-+]?(\d+\.?\d*([eE][-+]?\d+)?|\.\d+([eE][-+]?\d+)?)", s):
            return norm_num(float(s))
        if re.fullmatch(r"0[xX][0-9a-fA-F]+", s):
            return int(s, 16)
        if s in ("Infinity", "+Infinity"):
            return math.inf
        if s == "-Infinity":
            return -math.inf
        return NaN
    return to_number(to_prim(v, "number"))


def with_text(n, s):
    """remember the digits a number was read from"""
    if type(n) is SymInt and n.txt is None:
        c = chars_of(s)
        if len(c) == 1 or not bool(char_eq(c[0], 48)):
            n = SymInt(n.e, s)
    return n


def norm_num(x):
    if type(x) is float and x == x and x not in (math.inf, -math.inf) and x == int(x):
        return int(x)
    return x


def to_int32(v):
    v = to_number(v)
    if type(v) is SymInt:
        v = v.conc()
    if v != v or v in (math.inf, -math.inf):
        return 0
    v = int(v) & 0xFFFFFFFF
    return v - (1 << 32) if v & 0x80000000 else v


def to_integer(v, default=0):
    if v is UNDEF:
        return default
    v = to_number(v)
    if type(v) is SymInt:
        return v.conc()
    if v != v:
        return 0
    if v in (math.inf, -math.inf):
        return (1 << 53) if v > 0 else -(1 << 53)
    return int(v)


def show(v):
    if isinstance(v, JSObj):
        return "[object]"
    try:
        return str(to_conc(to_string(v)))
    except Exception:
        return "?"


def concat(a, b):
    if type(a) is SymChoice:
        a = a.force()
    if type(b) is SymChoice:
        b = b.force()
    if type(a) is str and type(b) is str:
        return a + b
    return SymStr.mk(chars_of(a) + chars_of(b))


# ------------------------------------------------------------------ operators

def strict_eq(a, b):
    if is_str(a):
        if not is_str(b):
            return False
        r = a == b
        return r
    if is_bool(a):
        if not is_bool(b):
            return False
        return a == b
    if is_num(a):
        if not is_num(b):
            return False
        return a == b
    return a is b


def loose_eq(a, b):
    na, nb = a is UNDEF or a is None, b is UNDEF or b is None
    if na or nb:
        return na and nb
    if is_str(a) and is_str(b) or is_num(a) and is_num(b) or is_bool(a) and is_bool(b):
        return strict_eq(a, b)
    if isinstance(a, JSObj) and isinstance(b, JSObj):
        return a is b
    if isinstance(a, JSObj):
        return loose_eq(to_prim(a), b)
    if isinstance(b, JSObj):
        return loose_eq(a, to_prim(b))
    return to_number(a) == to_number(b)


def binop(op, a, b):
    if op == "===":
        return strict_eq(a, b)
    if op == "!==":
        return Not(strict_eq(a, b))
    if op == "+":
        if isinstance(a, JSObj):
            a = to_prim(a)
        if isinstance(b, JSObj):
            b = to_prim(b)
        if is_str(a) or is_str(b):
            return concat(to_string(a), to_string(b))
        return to_number(a) + to_number(b)
    if op == "==":
        return loose_eq(a, b)
    if op == "!=":
        return Not(loose_eq(a, b))
    if op in ("<", ">", "<=", ">="):
        a, b = to_prim(a, "number"), to_prim(b, "number")
        if is_str(a) and is_str(b):
            if type(a) is SymChoice:
                a = a.force()
            if type(b) is SymChoice:
                b = b.force()
            if type(a) is str and type(b) is SymStr:
                a = SymStr(chars_of(a))
        else:
            a, b = to_number(a), to_number(b)
        return a < b if op == "<" else a > b if op == ">" else a <= b if op == "<=" else a >= b
    if op == "in":
        if not isinstance(b, JSObj):
            throw("TypeError", "Cannot use 'in' operator to search for '%s' in %s" % (show(a), show(b)))
        return has_prop(b, to_key(a))
    if op == "instanceof":
        return instance_of(a, b)
    a, b = to_number(a), to_number(b)
    if op == "-":
        return a - b
    if op == "*":
        return a * b
    if op == "/":
        a, b = numc(a), numc(b)
        if b == 0 or b != b or a != a:
            return NaN if a == 0 or a != a or b != b else math.copysign(math.inf, a)
        if a % b == 0 and type(a) is int and type(b) is int:
            return a // b
        return norm_num(a / b)
    if op == "%":
        if type(a) is SymInt or type(b) is SymInt:
            if bool(b > 0) and bool(a >= 0):
                return a % b
            a, b = numc(a), numc(b)
        if b == 0 or a != a or b != b:
            return NaN
        return norm_num(math.fmod(a, b))
    if op == "**":
        return norm_num(numc(a) ** numc(b))
    a, b = to_int32(a), to_int32(b)
    if op == "&":
        return a & b
    if op == "|":
        return a | b
    if op == "^":
        return a ^ b
    if op == "<<":
        return to_int32(a << (b & 31))
    if op == ">>":
        return a >> (b & 31)
    if op == ">>>":
        return (a & 0xFFFFFFFF) >> (b & 31)
    raise Unsupported("operator " + op)


def numc(v):
    return v.conc() if type(v) is SymInt else v


def instance_of(a, b):
    if not callable_(b):
        throw("TypeError", "Right-hand side of 'instanceof' is not callable")
    if not isinstance(a, JSObj):
        return False
    p = get(b, "prototype")
    o = a.proto
    while o is not None:
        if o is p:
            return True
        o = o.proto
    return False


# ------------------------------------------------------------------ properties

def get(o, k):
    t = type(o)
    if t is str or t is SymStr or t is SymChoice:
        if type(k) is str and k == "length":
            return len(o)
        i = arr_index(k) if type(k) is not str or k[:1].isdigit() else None
        if i is not None:
            if t is SymChoice:
                o = o.force()
            return o[i] if i < len(o) else UNDEF
        return get_from(RT.string_proto, k, o)
    if isinstance(o, JSObj):
        return get_from(o, k, o)
    if o is UNDEF or o is None:
        throw("TypeError", "Cannot read properties of %s (reading '%s')" % (show(o), show(k)))
    if is_bool(o):
        return get_from(RT.boolean_proto, k, o)
    if is_num(o):
        return get_from(RT.number_proto, k, o)
    if isinstance(o, JSSymbol):
        return get_from(RT.symbol_proto, k, o)
    raise Unsupported("get on " + repr(t))


def get_from(o, k, this):
    p = o
    while p is not None:
        v = p.own(k)
        if v is not MISSING:
            if type(v) is Accessor:
                return call(v.get, this, []) if v.get is not None else UNDEF
            return v
        if p.missing is not None:
            r = p.missing(k)
            if r is not MISSING:
                return r
        p = p.proto
    return UNDEF


def put(o, k, v):
    if not isinstance(o, JSObj):
        if o is UNDEF or o is None:
            throw("TypeError", "Cannot set properties of %s (setting '%s')" % (show(o), show(k)))
        return
    if type(o) is JSArr:
        i = arr_index(k)
        if i is not None:
            a = o.a
            if i > len(a) + 100000:
                raise Unsupported("sparse array")
            while i >= len(a):
                a.append(UNDEF)
            a[i] = v
            return
        if type(k) is str and k == "length":
            nl = to_integer(v)
            del o.a[nl:]
            while len(o.a) < nl:
                o.a.append(UNDEF)
            return
    d = o.props
    if type(k) is int:
        k = str(k)
    if type(k) in SYM_TYPES or S.sym_keys:
        k = hooks.key(d, k)
    old = d.get(k, MISSING)
    if type(old) is Accessor or old is MISSING:
        p = o
        while p is not None:
            a = p.props.get(k) if p is not o else (old if old is not MISSING else None)
            if type(a) is Accessor:
                if a.set is None:
                    throw("TypeError", "Cannot set property %s of #<Object> which has only a getter" % show(k))
                call(a.set, o, [v])
                return
            p = p.proto
    if o.frozen:
        throw("TypeError", "Cannot assign to read only property '%s' of object" % show(k))
    d[k] = v


def delete(o, k):
    if type(o) is JSArr:
        i = arr_index(k)
        if i is not None:
            if i < len(o.a):
                o.a[i] = UNDEF
            return True
    if not isinstance(o, JSObj):
        return True
    d = o.props
    if type(k) is int:
        k = str(k)
    if type(k) in SYM_TYPES or S.sym_keys:
        k = hooks.key(d, k)
    d.pop(k, None)
    return True


def has_own(o, k):
    if type(k) is int and type(o) is not JSArr:
        k = str(k)
    return o.own(k) is not MISSING


def has_prop(o, k):
    while o is not None:
        if has_own(o, k):
            return True
        o = o.proto
    return False


def own_keys(o):
    if isinstance(o, JSObj):
        return o.keys()
    if is_str(o):
        return [str(i) for i in range(len(o))]
    return []


def for_in_keys(o):
    out = []
    if o is UNDEF or o is None:
        return out
    p = o
    while p is not None and isinstance(p, JSObj):
        for k in p.keys():
            if not any(k is x or (type(k) is str and type(x) is str and k == x) for x in out):
                out.append(k)
        p = p.proto
    return out if isinstance(o, JSObj) else own_keys(o)


def copy_props(o, src):
    if src is UNDEF or src is None:
        return
    for k in own_keys(src):
        o.define(k, get(src, k))


def rest_object(v, seen):
    o = JSObj()
    for k in own_keys(v):
        if not any(truthy(strict_eq(k, s)) for s in seen):
            o.define(k, get(v, k))
    return o


def iterate(v):
    t = type(v)
    if t is JSArr:
        return live_iter(v)
    if is_str(v):
        if t is SymChoice:
            v = v.force()
        return [v[i] for i in range(len(v))]
    if isinstance(v, JSObj) and v.cls == "Map":
        return [JSArr([k, x]) for k, x in v.ext]
    if isinstance(v, JSObj) and v.cls == "Set":
        return [k for k, x in v.ext]
    if isinstance(v, JSObj):
        f = get(v, "@@iterator")
        if callable_(f):
            return GenIter(call(f, v, []))
    throw("TypeError", "%s is not iterable" % (show(v) if not isinstance(v, JSObj) else "object"))


def live_iter(a):
    i = 0
    while i < len(a.a):
        yield a.a[i]
        i += 1


class GenIter:
    """an iterator object of the program, as a Python iterator"""

    def __init__(self, it):
        self.it = it
        self.nx = get(it, "next")
        self.done = False

    def __iter__(self):
        return self

    def __next__(self):
        if self.done:
            raise StopIteration
        try:
            r = call(self.nx, self.it, [])
            if not isinstance(r, JSObj):
                throw("TypeError", "Iterator result %s is not an object" % show(r))
            if truthy(get(r, "done")):
                self.done = True
        except JSThrow:
            self.done = True
            raise
        if self.done:
            raise StopIteration
        return get(r, "value")


def close_iter(seq):
    """the loop over seq was left early"""
    if type(seq) is GenIter and not seq.done:
        seq.done = True
        f = get(seq.it, "return")
        if callable_(f):
            call(f, seq.it, [])


# ------------------------------------------------------------------ functions

def record(n):
    S.js_funcs.add((n.file, n.qual))


def call(f, this, args):
    t = type(f)
    if t is NativeFn:
        return f.py(this, args)
    if t is not JSFunc:
        throw("TypeError", "%s is not a function" % show(f))
    if f.is_class:
        throw("TypeError", "Class constructor %s cannot be invoked without 'new'" % f.name)
    return invoke(f, this, args, UNDEF)


def setup_env(f, this, args, newtarget):
    n = f.node
    if n.qual:
        S.js_funcs.add((n.file, n.qual))
    env = Env(f.env)
    vs = env.vars
    if not n.arrow:
        vs["this"] = this
        vs["%home"] = f.home
        vs["%newtarget"] = newtarget
        vs["%func"] = f
        if n.uses_args:
            vs["arguments"] = JSArr(list(args))
    for v in n.varnames:
        vs[v] = UNDEF
    if n.pnames is not None:
        k = len(args)
        for i, p in enumerate(n.pnames):
            vs[p] = args[i] if i < k else UNDEF
    else:
        for i, p in enumerate(n.params):
            if p.type == "RestElement":
                bind(p.argument, JSArr(list(args[i:])), env, "let")
            else:
                bind(p, args[i] if i < len(args) else UNDEF, env, "let")
    b = n.body
    if b.type == "BlockStatement":
        hoist_block(b, env)
    return env


def invoke(f, this, args, newtarget):
    n = f.node
    if n.generator:
        return extra.agen_call(f, this, args) if n.async_ else extra.gen_call(f, this, args)
    if n.async_:
        return async_call(f, this, args)
    env = setup_env(f, this, args, newtarget)
    b = n.body
    if b.type != "BlockStatement":
        return b.fn(b, env)
    for s in b.body:
        r = s.fn(s, env)
        if r is not None:
            return r[1]
    return UNDEF


def gen_body(f, this, args):
    env = setup_env(f, this, args, UNDEF)
    b = f.node.body
    if b.type != "BlockStatement":
        r = yield from g_ev(b, env)
        return r
    for s in b.body:
        r = yield from g_ex(s, env)
        if r is not None:
            return r[1]
    return UNDEF


def async_call(f, this, args):
    p = JSPromise()
    g = gen_body(f, this, args)

    def step(send, v):
        try:
            x = send(v)
        except StopIteration as e:
            p.resolve(e.value)
            return
        except JSThrow as e:
            p.reject(e.value)
            return
        q = promise_resolve(x)
        q.react(lambda r: step(g.send, r), lambda r: step(lambda q_: g.throw(JSThrow(q_)), r))

    step(g.send, None)
    return p


def construct(f, args, newtarget=None):
    if type(f) is NativeFn:
        if f.new is None:
            throw("TypeError", "%s is not a constructor" % f.name)
        nt = newtarget or f
        o = f.new(args)
        if nt is not f and isinstance(o, JSObj):
            o.proto = get(nt, "prototype")
        return o
    if type(f) is not JSFunc or (not f.is_class and f.node.arrow):
        throw("TypeError", "%s is not a constructor" % show(f))
    nt = newtarget or f
    if f.is_class:
        if f.derived:
            # `this` is created by super(...)
            n = f.ctor
            if n is None:
                o = construct(get_super(f), args, nt)
                init_fields(f, o)
                return o
            fn = JSFunc(n, f.env)
            fn.home = f.props["prototype"]
            cell = {}
            env = None
            S.js_funcs.add((n.file, n.qual))
            env = setup_env(fn, UNDEF, args, nt)
            env.vars["%class"] = f
            for s in n.body.body:
                r = s.fn(s, env)
                if r is not None:
                    if isinstance(r[1], JSObj):
                        return r[1]
                    break
            th = env.vars["this"]
            if th is UNDEF:
                throw("ReferenceError", "Must call super constructor in derived class before accessing 'this'")
            return th
        o = JSObj(get(nt, "prototype"), "Instance")
        init_fields(f, o)
        if f.ctor is not None:
            fn = JSFunc(f.ctor, f.env)
            fn.home = f.props["prototype"]
            r = invoke(fn, o, args, nt)
            if isinstance(r, JSObj):
                return r
        return o
    o = JSObj(get(nt, "prototype"), "Instance")
    r = invoke(f, o, args, nt)
    return r if isinstance(r, JSObj) else o


def get_super(f):
    return f.proto


def init_fields(f, o):
    for k, v in f.fields or ():
        env = Env(f.env)
        env.vars["this"] = o
        env.vars["%home"] = f.props["prototype"]
        x = v.fn(v, env) if v is not None else UNDEF
        if type(x) is JSFunc and x.name == "":
            x.name = k
        o.define(k, x)


def make_class(n, env, sup):
    c = JSFunc(None, env)
    c.is_class = True
    c.name = n.id.name if n.id is not None else ""
    c.fields = []
    proto = JSObj()
    if n.superClass is not None:
        c.derived = True
        if sup is None:
            proto.proto = None
        else:
            if not callable_(sup):
                throw("TypeError", "Class extends value %s is not a constructor or null" % show(sup))
            c.proto = sup
            proto.proto = get(sup, "prototype")
    c.define_hidden("prototype", proto)
    proto.define_hidden("constructor", c)
    for m in n.body.body:
        if m.type == "MethodDefinition" and m.kind == "constructor":
            c.ctor = m.value
    return c


def super_call(env, args):
    e = env
    while e is not None and "%class" not in e.vars:
        e = e.parent
    f = e.vars["%class"]
    nt = e.vars["%newtarget"]
    o = construct(get_super(f), args, nt)
    e.vars["this"] = o
    init_fields(f, o)
    return UNDEF


def super_get(env, k):
    h = env.get("%home")
    return get_from(h.proto, k, env.get("this")) if isinstance(h, JSObj) and h.proto is not None else UNDEF


def throw(name, msg):
    raise JSThrow(make_error(name, msg))


def make_error(name, msg):
    return construct(RT.globals.vars[name], [msg])


def tick():
    RT.ticks += 1
    if RT.ticks > 2000000:
        raise Unsupported("too many steps")


# ------------------------------------------------------------------ promises

class JSPromise(JSObj):
    __slots__ = ("state", "value", "reactions", "handled", "locked")

    def __init__(self):
        JSObj.__init__(self, RT.promise_proto, "Promise")
        self.state = "pending"
        self.value = UNDEF
        self.reactions = []
        self.handled = False
        self.locked = False

    def resolve(self, v):
        if self.locked:
            return
        self.locked = True
        self._resolve(v)

    def reject(self, v):
        if self.locked:
            return
        self.locked = True
        self._settle("rejected", v)

    def _resolve(self, v):
        if v is self:
            return self._settle("rejected", make_error("TypeError", "Chaining cycle detected for promise #<Promise>"))
        if isinstance(v, JSObj):
            try:
                th = get(v, "then")
            except JSThrow as e:
                return self._settle("rejected", e.value)
            if callable_(th):
                def job():
                    done = [False]

                    def res(this, a):
                        if not done[0]:
                            done[0] = True
                            self._resolve(a[0] if a else UNDEF)
                        return UNDEF

                    def rej(this, a):
                        if not done[0]:
                            done[0] = True
                            self._settle("rejected", a[0] if a else UNDEF)
                        return UNDEF
                    try:
                        call(th, v, [NativeFn(res), NativeFn(rej)])
                    except JSThrow as e:
                        if not done[0]:
                            done[0] = True
                            self._settle("rejected", e.value)
                RT.micro.append(job)
                return
        self._settle("fulfilled", v)

    def _settle(self, st, v):
        self.state, self.value = st, v
        rs, self.reactions = self.reactions, []
        if st == "rejected":
            RT.rejections.append(self)
        for ok, bad in rs:
            self._enqueue(ok, bad)

    def _enqueue(self, ok, bad):
        f, v = (ok if self.state == "fulfilled" else bad), self.value
        RT.micro.append(lambda: f(v))

    def react(self, ok, bad):
        self.handled = True
        if self.state == "pending":
            self.reactions.append((ok, bad))
        else:
            self._enqueue(ok, bad)


def promise_resolve(v):
    if type(v) is JSPromise:
        return v
    p = JSPromise()
    p.resolve(v)
    return p


def promise_then(p, on_ok, on_bad):
    q = JSPromise()

    def mk(h, default):
        def run(v):
            if not callable_(h):
                default(v)
                return
            try:
                r = call(h, UNDEF, [v])
            except JSThrow as e:
                q.reject(e.value)
                return
            q.resolve(r)
        return run
    p.react(mk(on_ok, q.resolve), mk(on_bad, q.reject))
    return q


# ------------------------------------------------------------------ runtime state

class Runtime:
    pass


RT = Runtime()
RT.object_proto = RT.array_proto = RT.function_proto = RT.regexp_proto = RT.promise_proto = None
RT.ticks = 0


# ------------------------------------------------------------------ evaluators: load core_src twice

def _load():
    with open(os.path.join(HERE, "core_src.py")) as f:
        src = f.read()
    names = {x.name for x in ast.parse(src).body if isinstance(x, ast.FunctionDef)} | {"ev", "ex"}

    class Ge(ast.NodeTransformer):
        def visit_FunctionDef(self, f):
            self.generic_visit(f)
            f.name = "g_" + f.name
            f.body.append(ast.parse("if False:\n    yield").body[0])
            return f

        def visit_Call(self, c):
            self.generic_visit(c)
            if isinstance(c.func, ast.Name):
                if c.func.id == "AWAIT":
                    return ast.Yield(value=c.args[0])
                if c.func.id == "YIELD":
                    return ast.Yield(value=ast.Call(func=ast.Name(id="YMark", ctx=ast.Load()), args=[c.args[0]], keywords=[]))
                if c.func.id in names:
                    c.func.id = "g_" + c.func.id
                    return ast.YieldFrom(value=c)
            return c

    g = globals()
    gsrc = Ge().visit(ast.parse(src))
    ast.fix_missing_locations(gsrc)
    exec(compile(src, os.path.join(HERE, "core_src.py"), "exec"), g)
    exec(compile(gsrc, "core_src_gen", "exec"), g)
    for k, v in list(g.items()):
        if isinstance(v, types.FunctionType):
            if k.startswith("ev_"):
                EV[k[3:]] = v
            elif k.startswith("ex_"):
                EX[k[3:]] = v
            elif k.startswith("g_ev_"):
                GEV[k[5:]] = v
            elif k.startswith("g_ex_"):
                GEX[k[5:]] = v


EV, EX, GEV, GEX = {}, {}, {}, {}


def ev(n, env):
    return n.fn(n, env)


def ex(n, env):
    return n.fn(n, env)


def g_ev(n, env):
    if not n.aw:
        return n.fn(n, env)
    r = yield from n.gfn(n, env)
    return r


g_ex = g_ev


def YIELD(v):
    raise Unsupported("yield outside a generator")


def AWAIT(v):
    raise Unsupported("await outside an async function")


_load()
EV.pop("args", None)
EV.pop("super_obj", None)
EV.pop("ClassDeclaration")
GEV.pop("ClassDeclaration")
extra = None     # js/extra.py, set by builtins
