"""Reference models (oracles) used by the harnesses; run both instrumented and natively."""


class Bad(Exception):
    pass


def posix_split(s, dollar=False):
    """Words a POSIX shell makes of s when no expansion is allowed: raises Bad on any
    character that would be special (expansion, operator, substitution, glob).  With
    dollar=True a `$` outside single quotes stands for itself (to be expanded later)."""
    words = []
    cur = None
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == " " or c == "\t":
            if cur is not None:
                words.append(cur)
                cur = None
            i += 1
        elif c == "'":
            cur = cur if cur is not None else ""
            i += 1
            while True:
                if i >= n:
                    raise Bad("unterminated single quote")
                if s[i] == "'":
                    break
                cur += s[i]
                i += 1
            i += 1
        elif c == '"':
            cur = cur if cur is not None else ""
            i += 1
            while True:
                if i >= n:
                    raise Bad("unterminated double quote")
                d = s[i]
                if d == '"':
                    break
                if d == "\\":
                    if i + 1 >= n:
                        raise Bad("unterminated double quote")
                    e = s[i + 1]
                    if e == "\n":
                        pass
                    elif e == "$" or e == "`" or e == '"' or e == "\\":
                        cur += e
                    else:
                        cur += "\\" + e
                    i += 2
                    continue
                if d == "`" or (d == "$" and not dollar):
                    raise Bad("expansion in double quotes")
                cur += d
                i += 1
            i += 1
        elif c == "\\":
            if i + 1 >= n:
                raise Bad("trailing backslash")
            if s[i + 1] == "\n":
                i += 2
                continue
            cur = (cur if cur is not None else "") + s[i + 1]
            i += 2
        elif c in "\n|&;<>()`*?[" or (c == "$" and not dollar):
            raise Bad("unquoted special character")
        elif c in "#~=!{}" and cur is None and c in "#~":
            raise Bad("word starts with a special character")
        else:
            cur = (cur if cur is not None else "") + c
            i += 1
    if cur is not None:
        words.append(cur)
    return words


# ---------------------------------------------------------------- GNU make

def make_value(line):
    """Value of a variable defined by `line` ("NAME := value", possibly with continuation
    lines), as GNU make reads it, when no expansion other than $$ is allowed."""
    # continuation lines: (backslash newline and the white space around it become one space)
    out = ""
    i = 0
    n = len(line)
    while i < n:
        c = line[i]
        if c == "\\" and i + 1 < n and line[i + 1] == "\n":
            k = 0
            while k < len(out) and out[len(out) - 1 - k] == "\\":
                k += 1
            if k % 2 == 1:
                raise Bad("escaped backslash before newline")
            out = out.rstrip(" \t") + " "
            i += 2
            while i < n and (line[i] == " " or line[i] == "\t"):
                i += 1
            continue
        if c == "\n":
            if i != n - 1:
                raise Bad("line ends early")
            break
        out += c
        i += 1
    # comments
    res = ""
    i = 0
    n = len(out)
    while i < n:
        c = out[i]
        if c == "#":
            k = 0
            while k < len(res) and res[len(res) - 1 - k] == "\\":
                k += 1
            res = res[:len(res) - k] + "\\" * (k // 2)
            if k % 2 == 0:
                break
            res += "#"
        else:
            res += c
        i += 1
    p = res.find(":=")
    if p < 0:
        raise Bad("no assignment")
    return make_expand(res[p + 2:].lstrip(" \t"))


def make_expand(v):
    out = ""
    i = 0
    n = len(v)
    while i < n:
        if v[i] == "$":
            if i + 1 < n and v[i + 1] == "$":
                out += "$"
                i += 2
                continue
            raise Bad("make would expand a variable")
        out += v[i]
        i += 1
    return out


def make_words(s):
    """file names in a target or prerequisite list; backslash-space is a literal space"""
    words = []
    cur = None
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == "\\" and i + 1 < n and s[i + 1] == " ":
            cur = (cur if cur is not None else "") + " "
            i += 2
            continue
        if c == " " or c == "\t":
            if cur is not None:
                words.append(cur)
                cur = None
        else:
            cur = (cur if cur is not None else "") + c
        i += 1
    if cur is not None:
        words.append(cur)
    return words


class Sink:
    """file-like object collecting what is written"""

    def __init__(self):
        self.parts = []
        self.closed = False

    def write(self, s):
        self.parts.append(s)
        return len(s)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def text(self):
        return "".join(self.parts)


# ---------------------------------------------------------------- ninja

NINJA_ID = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.-"
NINJA_ID1 = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-"


def ninja_eval(s, i, path):
    """ReadEvalString of ninja's lexer from index i: ([literal | ("var", name)], next index);
    stops at an unescaped newline (or, for paths, at space, colon, pipe)."""
    parts = []
    cur = ""
    n = len(s)
    while True:
        if i >= n:
            raise Bad("unexpected end of file")
        c = s[i]
        if c == "$":
            if i + 1 >= n:
                raise Bad("bad $-escape")
            d = s[i + 1]
            if d == "$" or d == " " or d == ":":
                cur += d
                i += 2
            elif d == "\n":
                i += 2
                while i < n and s[i] == " ":
                    i += 1
            elif d == "{":
                j = i + 2
                while j < n and s[j] in NINJA_ID:
                    j += 1
                if j == i + 2 or j >= n or not s[j] == "}":
                    raise Bad("bad $-escape")
                parts.append(cur)
                cur = ""
                parts.append(("var", s[i + 2:j]))
                i = j + 1
            elif d in NINJA_ID1:
                j = i + 1
                while j < n and s[j] in NINJA_ID1:
                    j += 1
                parts.append(cur)
                cur = ""
                parts.append(("var", s[i + 1:j]))
                i = j
            else:
                raise Bad("bad $-escape")
        elif c == "\n":
            break
        elif path and (c == " " or c == ":" or c == "|"):
            break
        elif c == "\r":
            raise Bad("carriage return")
        else:
            cur += c
            i += 1
    parts.append(cur)
    return parts, i


def ninja_ws(s, i):
    n = len(s)
    while i < n:
        if s[i] == " ":
            i += 1
        elif s[i] == "$" and i + 1 < n and s[i + 1] == "\n":
            i += 2
        else:
            break
    return i


def ninja_ident(s, i):
    j = i
    while j < len(s) and s[j] in NINJA_ID:
        j += 1
    if j == i:
        raise Bad("expected an identifier")
    return s[i:j], ninja_ws(s, j)


def ninja_flat(parts, env=None):
    out = ""
    for p in parts:
        if isinstance(p, tuple):
            if env is None:
                raise Bad("variable reference $" + p[1])
            if p[1] in env:
                out += env[p[1]]
            else:
                out += "${" + p[1] + "}"
        else:
            out += p
    return out


class NinjaFile:
    def __init__(self):
        self.vars = []          # (name, parts)
        self.rules = []         # (name, [(key, parts)])
        self.edges = []         # dict(outs, iouts, rule, ins, implicit, order, vars)
        self.other = []         # (keyword, text)

    def var(self, name):
        r = None
        for k, v in self.vars:
            if k == name:
                r = v
        return r


def ninja_parse(s, env=None):
    """Parse a .ninja file as ninja does; paths are flattened with env."""
    f = NinjaFile()
    i = 0
    n = len(s)
    lets = None

    def let(i):
        name, i = ninja_ident(s, i)
        if i >= n or not s[i] == "=":
            raise Bad("expected =")
        i = ninja_ws(s, i + 1)
        v, i = ninja_eval(s, i, False)
        return name, v, i + 1

    def paths(i):
        out = []
        while True:
            p, j = ninja_eval(s, i, True)
            if j == i:
                break
            i = ninja_ws(s, j)
            v = ninja_flat(p, env)
            if not v:
                raise Bad("empty path")
            out.append(v)
        return out, i

    while i < n:
        if s[i] == "\n":
            i += 1
            continue
        if s[i] == "#":
            while i < n and not s[i] == "\n":
                i += 1
            i += 1
            continue
        if s[i] == " ":
            j = i
            while j < n and s[j] == " ":
                j += 1
            if j < n and s[j] == "\n":
                i = j + 1
                continue
            if j < n and s[j] == "#":
                while j < n and not s[j] == "\n":
                    j += 1
                i = j + 1
                continue
            if lets is None:
                raise Bad("unexpected indent")
            name, v, i = let(j)
            lets.append((name, v))
            continue
        lets = None
        word, j = ninja_ident(s, i)
        if word == "build":
            outs, j = paths(j)
            iouts = []
            if j < n and s[j] == "|":
                iouts, j = paths(ninja_ws(s, j + 1))
            if j >= n or not s[j] == ":":
                raise Bad("expected ':'")
            j = ninja_ws(s, j + 1)
            rule, j = ninja_ident(s, j)
            ins, j = paths(j)
            imp, order = [], []
            if j < n and s[j] == "|" and not s[j + 1] == "|":
                imp, j = paths(ninja_ws(s, j + 1))
            if j < n and s[j] == "|" and s[j + 1] == "|":
                order, j = paths(ninja_ws(s, j + 2))
            if j >= n or not s[j] == "\n":
                raise Bad("expected newline")
            if not outs:
                raise Bad("expected path")
            i = j + 1
            lets = []
            f.edges.append(dict(outs=outs, iouts=iouts, rule=rule, ins=ins, implicit=imp, order=order, vars=lets))
        elif word == "rule" or word == "pool":
            name, j = ninja_ident(s, j)
            if j >= n or not s[j] == "\n":
                raise Bad("expected newline")
            i = j + 1
            lets = []
            if word == "rule":
                f.rules.append((name, lets))
            else:
                f.other.append(("pool " + name, lets))
        elif word == "include" or word == "subninja" or word == "default":
            p, j = paths(j)
            if j >= n or not s[j] == "\n":
                raise Bad("expected newline")
            f.other.append((word, p))
            i = j + 1
        else:
            name, v, i = let(i)
            f.vars.append((name, v))
    return f


def ninja_value(s, env=None):
    """value of the only variable defined by the text"""
    f = ninja_parse(s)
    if len(f.vars) != 1:
        raise Bad("not one variable")
    return ninja_flat(f.vars[0][1], env)


# ---------------------------------------------------------------- Windows

def windows_split(s):
    """CommandLineToArgvW / MSVC run-time argument splitting (no program-name rules)"""
    words = []
    i = 0
    n = len(s)
    while True:
        while i < n and (s[i] == " " or s[i] == "\t"):
            i += 1
        if i >= n:
            break
        cur = ""
        quoted = False
        while i < n:
            c = s[i]
            if (c == " " or c == "\t") and not quoted:
                break
            if c == "\\":
                k = 0
                while i < n and s[i] == "\\":
                    k += 1
                    i += 1
                if i < n and s[i] == '"':
                    cur += "\\" * (k // 2)
                    if k % 2 == 1:
                        cur += '"'
                        i += 1
                else:
                    cur += "\\" * k
                continue
            if c == '"':
                if quoted and i + 1 < n and s[i + 1] == '"':
                    cur += '"'
                    i += 2
                    continue
                quoted = not quoted
                i += 1
                continue
            cur += c
            i += 1
        if quoted:
            raise Bad("unterminated quote")
        words.append(cur)
    return words


class MakeFile:
    def __init__(self):
        self.vars = []          # (name, op, raw value with continuations joined)
        self.tvars = []         # (target words, name, op, raw value)
        self.rules = []         # (target words, prerequisite words, order-only words, recipe)

    def var(self, name):
        r = None
        for k, op, v in self.vars:
            if k == name:
                r = v
        return r

    def all_values(self, name):
        return [v for k, op, v in self.vars if k == name]

    def prereqs(self, target, order=False):
        out = []
        for tg, pre, oo, rec in self.rules:
            hit = False
            for t in tg:
                if t == target:
                    hit = True
            if hit:
                out.extend(oo if order else pre)
        return out

    def recipes(self, target):
        out = []
        for tg, pre, oo, rec in self.rules:
            hit = False
            for t in tg:
                if t == target:
                    hit = True
            if hit:
                out.extend(rec)
        return out


def _mk_assign(line):
    """(name, op, value) if the line is a variable assignment: NAME OP VALUE"""
    for op in (" := ", " :=", " += ", " = ", " ="):
        p = line.find(op)
        if p > 0 and " " not in line[:p] and ":" not in line[:p]:
            return line[:p], op.strip(), line[p + len(op):]
    return None


def mk_parse(text):
    """Makefile text as written by the generator: assignments, rules, recipes (unexpanded)"""
    f = MakeFile()
    lines = text.split("\n")
    i = 0
    cur = None
    while i < len(lines):
        line = lines[i]
        i += 1
        if line.startswith("\t"):
            if cur is not None:
                cur.append(line[1:])
            continue
        while line.endswith("\\") and i < len(lines):
            line = line[:-1].rstrip(" \t") + " " + lines[i].lstrip(" \t")
            i += 1
        if line == "" or line.startswith("#"):
            continue
        if line.split(" ")[0] in ("ifeq", "ifneq", "endif", "else", "include", "-include", "define", "endef"):
            continue
        a = _mk_assign(line)
        if a:
            f.vars.append(a)
            cur = None
            continue
        p = line.find(":")
        if p < 0:
            raise Bad("line is neither assignment nor rule")
        rest = line[p + 1:].lstrip(" ")
        targets = make_words(line[:p])
        a = _mk_assign(rest)
        if a:
            f.tvars.append((targets,) + a)
            cur = None
            continue
        q = rest.find("|")
        pre, oo = (rest, "") if q < 0 else (rest[:q], rest[q + 1:])
        cur = []
        f.rules.append((targets, make_words(pre), make_words(oo), cur))
    return f


def mk_raw_value(s):
    """value after make's comment removal (variable references kept)"""
    res = ""
    for i in range(len(s)):
        c = s[i]
        if c == "#":
            k = 0
            while k < len(res) and res[len(res) - 1 - k] == "\\":
                k += 1
            res = res[:len(res) - k] + "\\" * (k // 2)
            if k % 2 == 0:
                break
            res += "#"
        else:
            res += c
    return res


# ---------------------------------------------------------------- XML

def _xml_text(s, attr):
    """character data / attribute value with references resolved"""
    out = ""
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == "<":
            raise Bad("< in text")
        if c == "&":
            j = s.find(";", i)
            if j < 0:
                raise Bad("bare &")
            name = s[i + 1:j]
            if name == "amp":
                out += "&"
            elif name == "lt":
                out += "<"
            elif name == "gt":
                out += ">"
            elif name == "quot":
                out += '"'
            elif name == "apos":
                out += "'"
            elif name.startswith("#x"):
                out += chr(int(name[2:], 16))
            elif name.startswith("#"):
                out += chr(int(name[1:]))
            else:
                raise Bad("unknown entity")
            i = j + 1
            continue
        if c == "\r":
            # line-end normalisation
            if i + 1 < n and s[i + 1] == "\n":
                i += 1
            c = "\n"
        if attr and (c == "\n" or c == "\t"):
            c = " "
        out += c
        i += 1
    return out


XML_NAME = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-.:"


def _xml_name(s, i):
    j = i
    while j < len(s) and s[j] in XML_NAME:
        j += 1
    if j == i:
        raise Bad("name expected")
    return s[i:j], j


def _xml_ws(s, i):
    while i < len(s) and (s[i] == " " or s[i] == "\n" or s[i] == "\t" or s[i] == "\r"):
        i += 1
    return i


def xml_parse(s):
    """(tag, {attributes}, [children: str or element]) of the document element"""
    i = 0
    if s.startswith("<?xml "):
        i = s.find("?>") + 2
    i = _xml_ws(s, i)
    e, i = _xml_element(s, i)
    i = _xml_ws(s, i)
    if i != len(s):
        raise Bad("text after the document element")
    return e


def _xml_element(s, i):
    if i >= len(s) or not s[i] == "<":
        raise Bad("element expected")
    tag, i = _xml_name(s, i + 1)
    attrs = {}
    while True:
        j = _xml_ws(s, i)
        if j >= len(s):
            raise Bad("unterminated tag")
        if s[j] == "/" or s[j] == ">":
            i = j
            break
        if j == i:
            raise Bad("space expected before an attribute")
        name, j = _xml_name(s, j)
        if not s[j:j + 1] == "=":
            raise Bad("= expected")
        q = s[j + 1:j + 2]
        if not (q == '"' or q == "'"):
            raise Bad("quote expected")
        k = s.find(q, j + 2)
        if k < 0:
            raise Bad("unterminated attribute")
        if name in attrs:
            raise Bad("attribute twice")
        attrs[name] = _xml_text(s[j + 2:k], True)
        i = k + 1
    if s[i] == "/":
        if not s[i + 1:i + 2] == ">":
            raise Bad("> expected")
        return (tag, attrs, []), i + 2
    i += 1
    kids = []
    while True:
        j = s.find("<", i)
        if j < 0:
            raise Bad("unterminated element")
        if j > i:
            kids.append(_xml_text(s[i:j], False))
        if s[j + 1:j + 2] == "/":
            name, k = _xml_name(s, j + 2)
            k = _xml_ws(s, k)
            if not name == tag or not s[k:k + 1] == ">":
                raise Bad("wrong end tag")
            return (tag, attrs, kids), k + 1
        e, i = _xml_element(s, j)
        kids.append(e)


# ---------------------------------------------------------------- merging

def m_list(to, items, prepend):
    """the documented list merge"""
    if not prepend:
        for it in items:
            if isinstance(it, (list, dict)) or (isinstance(it, str) and it.startswith("-")) or not isin(it, to):
                to = to + [_copied(it)]
        return to
    new = []
    for it in items:
        single = not (isinstance(it, (list, dict)) or (isinstance(it, str) and it.startswith("-")))
        if single:
            if isin(it, new):
                continue
            to = [t for t in to if not same(t, it)]
        new = new + [_copied(it)]
    return new + to


def isin(x, l):
    for y in l:
        if same(x, y):
            return True
    return False


def same(a, b):
    for t in (dict, list, int, str):
        if isinstance(a, t) != isinstance(b, t):
            return False
    if isinstance(a, dict):
        return len(a) == len(b) and all(k in b and same(v, b[k]) for k, v in a.items())
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return bool(a == b)


def copied(x):
    if isinstance(x, dict):
        return {k: copied(v) for k, v in x.items()}
    if isinstance(x, list):
        return [copied(v) for v in x]
    return x


def _copied(it):
    """items are copied by merging them into an empty list or dictionary, so the rules hold inside too"""
    if isinstance(it, list):
        return m_list([], it, False)
    if isinstance(it, dict):
        return m_dict({}, it)
    return it


class Refused(Exception):
    pass


def m_dict(to, fro):
    """the documented dictionary merge"""
    for k, v in fro.items():
        if isinstance(v, list):
            base, pol = (k[:-1], k[-1]) if k[-1] in "=+?" else (k, "")
            others = {"": "=?", "=": "+?", "+": "=?", "?": "=+"}[pol]
            for o in others:
                if base + o in fro:
                    raise Refused()
            if pol in ("=", "?") and base in fro:
                raise Refused()
            if k in to and not isinstance(to[k], list):
                raise Refused()
            if pol == "=":
                to[base] = m_list([], v, False)
            elif pol == "?":
                if base not in to:
                    to[base] = m_list([], v, False)
            else:
                if base in to and not isinstance(to[base], list):
                    raise Refused()
                to[base] = m_list(to.get(base, []), v, pol == "+")
        elif isinstance(v, dict):
            if k in to and not isinstance(to[k], dict):
                raise Refused()
            to[k] = m_dict(copied(to.get(k, {})), v)
        else:
            if k in to and isinstance(to[k], (list, dict)):
                raise Refused()
            to[k] = v
    return to


def spoil(x):
    """change everything reachable"""
    if isinstance(x, dict):
        for v in list(x.values()):
            spoil(v)
        x["spoiled"] = 1
    elif isinstance(x, list):
        for v in list(x):
            spoil(v)
        x.append("spoiled")


# ---------------------------------------------------------------- graphs
def reach(edges, i, stop=None):
    """indices reachable from i by one or more edges"""
    out, todo = [], list(edges[i])
    while todo:
        j = todo.pop(0)
        if j in out:
            continue
        out.append(j)
        if stop is None or not stop(j):
            todo += edges[j]
    return out


def cyclic(edges):
    return any(i in reach(edges, i) for i in range(len(edges)))


def perms(n):
    if n == 0:
        return [[]]
    return [[i] + [x if x < i else x + 1 for x in p] for i in range(n) for p in perms(n - 1)]


def graph(ctx, k, back=False, loops=False, name="e"):
    """every graph on k nodes: edges[i] lists what i depends on"""
    e = []
    for i in range(k):
        e.append([j for j in range(k) if (j < i or back and j > i or loops and i == j) and bool(ctx.bool("%s%d%d" % (name, i, j)))])
    return e


class VFile:
    def __init__(self, text):
        self.text = text

    def read(self):
        return self.text

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def vfs(ctx, files, cwd="/w/x"):
    """files seen by the code under analysis: a dictionary from normalised relative path to text; the list of files opened"""
    import posixpath
    opened = []

    def norm(p):
        p = posixpath.normpath(p)
        return p[len(cwd) + 1:] if p.startswith(cwd + "/") else p

    def op(p, *a, **k):
        q = norm(p)
        opened.append(q)
        if q not in files:
            raise FileNotFoundError(2, "No such file or directory", p)
        return VFile(files[q])
    ctx.patch_builtin("open", op)
    ctx.patch("os.path", "exists", lambda p: norm(p) in files)
    ctx.patch("os", "getcwd", lambda: cwd)
    ctx.patch("os.path", "realpath", lambda p, strict=False: posixpath.normpath(posixpath.join(cwd, p)))
    return opened


def gyp_text(x):
    """Python literal text of a build file"""
    if isinstance(x, dict):
        return "{" + ", ".join(gyp_text(k) + ": " + gyp_text(v) for k, v in x.items()) + "}"
    if isinstance(x, list):
        return "[" + ", ".join(gyp_text(v) for v in x) + "]"
    if isinstance(x, int):
        return "%d" % x
    assert "\\" not in x
    if "'" in x:
        assert '"' not in x
        return '"' + x + '"'
    return "'" + x + "'"


INFO = dict(non_configuration_keys=[], path_sections=[], extra_sources_for_rules=[], generator_supports_multiple_toolsets=True,
            generator_wants_static_library_dependencies_adjusted=True, generator_wants_sorted_dependencies=False, generator_filelist_paths=None)


def gyp_load(ctx, files, build_files, variables=None, includes=(), check=False, circular=True, roots=None, depth=".", parallel=False, info=None):
    vfs(ctx, {k: v if isinstance(v, str) else gyp_text(v) for k, v in files.items()})
    i = dict(INFO)
    i.update(info or {})
    return ctx.fn("gyp.input", "Load")(list(build_files), {"OS": "linux"} if variables is None else variables, list(includes), depth, i, check, circular, parallel, roots)


def same_files(ctx, got, want, msg):
    """lists of (concrete path, text) name the same files with the same text"""
    g, w = dict(got), dict(want)
    ctx.check(sorted(g) == sorted(w) and len(g) == len(got), msg + ": other files")
    ctx.check(ctx.And(*[(g[k] is None) == (w[k] is None) and (w[k] is None or g[k] == w[k]) for k in w]), msg + ": other contents")


def varier(ctx, groups):
    """picks among alternatives of the named groups only; elsewhere the first one"""
    def pick(group, tag, opts):
        return ctx.pick(tag, opts) if group in groups else opts[0]
    return pick
