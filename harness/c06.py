import copy

from symex.api import Harness
import hlib

PROPERTY = "C06"
PRELOAD = ["gyp.input", "gyp.common", "gyp.simple_copy"]
ASSUMPTIONS = [
    "variables whose value refers back to themselves are excluded (no finite expansion exists)",
    "list values in string context join with spaces; items that need quoting are quoted for a POSIX shell (read back with the oracle of C01)",
    "commands are replaced by a stand-in that returns symbolic output and exit status",
]
I = "gyp.input"
SYM = ["<", ">", "^"]


def canon(s):
    """text that is the canonical form of an integer"""
    if s == "0":
        return True
    t = s[1:] if s[:1] == "-" else s
    if t == "" or not t[0] in "123456789":
        return False
    for c in t:
        if not c in "0123456789":
            return False
    return True


def _num(s):
    return int(str(s)) if bool(canon(s)) else s


def canonical_int(ctx, n):
    f = ctx.fn(I, "IsStrCanonicalInt")
    s = ctx.str("s", n)
    r = f(s)
    ctx.observe(bool(r))
    ctx.check(bool(r) == bool(canon(s)), "not the canonical integer form")


def plain(ctx, n):
    """text without references is kept; canonical integers become integers"""
    f = ctx.fn(I, "ExpandVariables")
    s = ctx.str("s", n, alphabet=[(32, 126), (0xb2, 0xb2), (0x661, 0x662)])
    ph = ctx.pick("phase", [0, 1, 2])
    ctx.assume(ctx.Not("(" in s))
    r = f(s, ph, {"a": "1", "": "2"}, "b/x.gyp")
    ctx.observe(r)
    w = _num(s)
    ctx.check(isinstance(r, int) == isinstance(w, int) and r == w, "text without references changed")


def string_context(ctx, n, segs, lits):
    """literal text and references to string, integer and list variables"""
    f = ctx.fn(I, "ExpandVariables")
    ph = ctx.pick("phase", [0, 1, 2])
    sym = SYM[ph]
    val = ctx.str("val", n, alphabet="a 0-$'")
    item = ctx.str("item", 1, alphabet="a $'")
    vs = {"s": val, "i": 12, "n": -3, "l": ["p", item, 7], "e": [], "s_2": "second", "_auto": "A.b-c"}
    keep = copy.deepcopy(vs)
    parts, want, rest = [], [], []
    for k in range(segs):
        o = ctx.pick("o%d" % k, ["s", "i", "n", "l", "e", "s_2", "_auto", " s ", "late"][:None if k == 0 else 5] if k % 2 == 0 else ["lit"])
        if o == "lit":
            t = ctx.str("lit%d" % k, lits, alphabet="a1 -)$")
            parts.append(t)
            want.append(t)
        elif o == "late":
            t = SYM[(ph + 1) % 3] + "(undefined)"
            parts.append(t)
            want.append(t)
        else:
            v = vs[o.strip(" @")]
            parts.append(sym + ("@" if o[0] == "@" else "") + "(" + o.strip("@") + ")")
            want.append(v)
    s = "".join(parts)
    r = f(s, ph, vs, "b/x.gyp")
    ctx.observe(r)
    exp = ""
    for w in want:
        exp = exp + (_enc(ctx, w) if isinstance(w, list) else w if isinstance(w, str) else str(w))
    w = _num(exp)
    ctx.check(isinstance(r, int) == isinstance(w, int) and r == w, "expansion differs")
    ctx.check(_same(vs, keep), "the variables were modified")


def _enc(ctx, w):
    """as an argument list of a POSIX shell in which $ stays active (C01 checks the encoder itself)"""
    return ctx.fn("gyp.common", "EncodePOSIXShellList")(w)


def _same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and len(a) == len(b) and all(k in b and bool(_same(v, b[k])) for k, v in a.items())
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(bool(_same(x, y)) for x, y in zip(a, b))
    if isinstance(a, int) != isinstance(b, int):
        return False
    return a == b


def nested(ctx, n):
    """references inside references and inside variable values"""
    f = ctx.fn(I, "ExpandVariables")
    ph = ctx.pick("phase", [0, 1, 2])
    y = SYM[ph]
    nm = ctx.pick("nm", ["ab", "x", "a.b-c", "5"])
    v = ctx.str("v", n, alphabet="a 1-")
    kind = ctx.pick("kind", ["inner", "prefix", "value", "chain", "listvalue", "both"])
    vs = {"sel": nm, nm: v, "v1": "<" + y + "(" + nm + ")>", "l": ["q" + y + "(" + nm + ")", "r"], "v2": "k" + y + "(v1)"}
    if nm == "5":
        vs["sel"] = 5 if bool(ctx.bool("asint")) else "5"
    keep = copy.deepcopy(vs)
    s, want = {
        "inner": (y + "(" + y + "(sel))", v),
        "prefix": ("p" + y + "( " + y + "(sel) )s", "p" + v + "s"),
        "value": ("-" + y + "(v1)", "-<" + v + ">"),
        "chain": (y + "(v2)" + y + "(sel)", "k<" + v + ">" + nm),
        "listvalue": (y + "@(l)", ["q" + v, "r"]),
        "both": (y + "(" + y + "(sel))" + y + "(sel)", v + nm),
    }[kind]
    r = f(s, ph, vs, "x.gyp")
    ctx.observe(r)
    if isinstance(want, list):
        ctx.check(isinstance(r, list) and _same(r, [_num(w) for w in want]), "list differs")
    else:
        w = _num(want)
        ctx.check(isinstance(r, int) == isinstance(w, int) and r == w, "expansion differs")
    ctx.check(_same(vs, keep), "the variables were modified")


def list_context(ctx, n, k):
    """<@(x) as a whole item splices the list or the words of the string"""
    f = ctx.fn(I, "ProcessVariablesAndConditionsInList")
    ph = ctx.pick("phase", [0, 1, 2])
    y = SYM[ph]
    kinds = [ctx.pick("o%d" % i, ["@l", "@s", "@i", "@e", "l", "lit", "int", "dict", "list", "@l "]) for i in range(k)]
    a = ctx.str("a", n, alphabet="a0-")
    w1 = ctx.str("w1", n, minlen=1, alphabet="a1-")
    vs = {"l": ["p", a, 3], "s": w1 + " z", "i": 40, "e": []}
    keep = copy.deepcopy(vs)
    lst, want = [], []
    for i, o in enumerate(kinds):
        if o == "lit":
            t = ctx.str("t%d" % i, n, alphabet="a1<")
            lst.append(t)
            want.append(_num(t))
        elif o == "int":
            lst.append(5)
            want.append(5)
        elif o == "dict":
            lst.append({"k": y + "(i)"})
            want.append({"k": 40})
        elif o == "list":
            lst.append([y + "(i)", y + "@(e)", "x"])
            want.append([40, "x"])
        elif o == "l":
            lst.append("<" + y + "(i)")
            want.append("<40")
        elif o == "@l ":
            lst.append(y + "@(i) ")
            want.append("40 ")
        else:
            lst.append(y + o[0] + "(" + o[1:] + ")")
            want.extend({"l": ["p", _num(a), 3], "s": [_num(w1), "z"], "i": [40], "e": []}[o[1:]])
    f(lst, ph, vs, "x.gyp")
    ctx.observe(lst)
    ctx.check(_same(lst, want), "list differs")
    ctx.check(_same(vs, keep), "the variables were modified")
    # nothing is shared
    for x in lst:
        if isinstance(x, list):
            x.append("new")
    lst.append("more")
    ctx.check(_same(vs, keep), "the result shares a list with the variables")


def undefined(ctx, n):
    """unknown names and values of other types are refused, names of a later phase are left alone"""
    f = ctx.fn(I, "ExpandVariables")
    ph = ctx.pick("phase", [0, 1, 2])
    other = ctx.pick("other", [0, 1, 2])
    at = ctx.pick("at", ["", "@"])
    name = ctx.str("name", n, alphabet="ab_!/")
    pre = ctx.pick("pre", ["", "x"])
    vs = {"a": "1", "d": {}, "ld": [{}]}
    s = pre + SYM[other] + at + "(" + name + ")"
    if other != ph:
        r = f(s, ph, vs, "x.gyp")
        ctx.observe(r)
        ctx.check(r == s, "a reference of another phase was touched")
        return
    known = name == "a"
    empty = name.endswith("!") or name.endswith("/")
    try:
        r = f(s, ph, vs, "x.gyp")
    except Exception as e:
        ctx.check(ctx.Not(ctx.Or(known, empty)), "refused")
        ctx.check(type(e).__name__ == "GypError" and name in str(e), "error does not name the variable")
        return
    ctx.observe(r)
    ctx.check(ctx.Or(known, empty), "undefined variable accepted")
    if bool(known):
        ctx.check(_same(r, [1] if at and not pre else (pre + "1" if pre else 1)), "expansion differs")
    else:
        ctx.check(_same(r, [] if at and not pre else pre), "undefined filter list is not empty")


def wrong_type(ctx):
    f = ctx.fn(I, "ExpandVariables")
    at = ctx.pick("at", ["", "@"])
    v = ctx.pick("v", [{}, [{}], ["a", ["b"]], None, [None], 1.5])
    try:
        r = f("<" + at + "(x)", 0, {"x": v}, "x.gyp")
    except Exception as e:
        ctx.check(type(e).__name__ == "GypError", "wrong kind of error")
        return
    ctx.check(False, "a value that is neither text nor a list of text was accepted")


def brackets(ctx, n):
    """the extent of a reference is the matching closing bracket"""
    f = ctx.fn(I, "FindEnclosingBracketGroup")
    s = ctx.str("s", n, alphabet="a([])")
    r = f(s)
    ctx.observe(list(r))
    st = []
    first = -1
    want = (-1, -1)
    pair = {")": "(", "]": "["}
    for i in range(len(s)):
        c = s[i]
        if c == "(" or c == "[":
            if first < 0:
                first = i
            st.append("(" if c == "(" else "[")
        elif c == ")" or c == "]":
            if not st or st[-1] != ("(" if c == ")" else "["):
                break
            st.pop()
            if not st:
                want = (first, i + 1)
                break
    ctx.check(r[0] == want[0] and r[1] == want[1], "not the enclosing group")


class _Run:
    def __init__(self, out, rc):
        self.out, self.rc, self.calls = out, rc, []

    def __call__(self, args, **k):
        self.calls.append((args, k.get("cwd"), k.get("shell")))
        r = _Result()
        r.returncode = self.rc
        r.stdout = _Bytes(self.out)
        return r


class _Result:
    pass


class _Bytes:
    def __init__(self, s):
        self.s = s

    def decode(self, *a):
        return self.s


def command(ctx, n):
    """a command reference is replaced by the output; the command runs once; failure is an error"""
    f = ctx.fn(I, "ExpandVariables")
    ctx.patch(I, "cached_command_results", {})
    ph = ctx.pick("phase", [0, 1])
    y = SYM[ph]
    out = ctx.str("out", n, alphabet="a1 \n")
    rc = ctx.int("rc", -2, 2)
    run = _Run(out, rc)
    ctx.patch("subprocess", "run", run)
    form = ctx.pick("form", ["shell", "list", "at", "nested", "in-text", "cached", "two dirs"])
    vs = {"v": "arg"}
    bf = ctx.pick("bf", ["d/e/x.gyp", "x.gyp"])
    s = {"shell": y + "!(echo hi)", "list": y + "!([\"echo\", \"a b\"])", "at": y + "!@(echo hi)", "nested": y + "!(echo " + y + "(v))",
         "in-text": "x" + y + "!(echo hi)y", "cached": y + "!(echo hi)", "two dirs": y + "!(echo hi)"}[form]
    try:
        r = f(s, ph, vs, bf)
        if form == "cached":
            r2 = f("z" + s, ph, vs, bf)
            ctx.check(r2 == "z" + out.rstrip(), "second use differs")
        if form == "two dirs":
            f(s, ph, vs, "other/" + bf)
    except Exception as e:
        ctx.check(rc != 0, "a command that succeeded is refused")
        ctx.check(type(e).__name__ == "GypError", "wrong kind of error")
        return
    ctx.observe(r)
    ctx.check(rc == 0, "a failing command was accepted")
    text = out.rstrip()
    if form == "at":
        ctx.check(_same(r, [_num(w) for w in text.split()]), "output differs")
    elif form == "in-text":
        ctx.check(r == "x" + text + "y", "output differs")
    else:
        ctx.check(_same(r, _num(text)), "output differs")
    want = {"list": ["echo", "a b"], "nested": "echo arg"}.get(form, "echo hi")
    ctx.check(len(run.calls) == (2 if form == "two dirs" else 1), "number of runs")
    a, cwd, sh = run.calls[0]
    ctx.check(_same(a, want), "another command was run")
    ctx.check(cwd == ("d/e" if bf[0] == "d" else None), "run in another directory")
    ctx.check(bool(sh) == (form != "list"), "shell or not")


def file_list(ctx, n):
    """<|(name items...) writes the items to a file and is replaced by its name"""
    f = ctx.fn(I, "ExpandVariables")
    ctx.patch(I, "generator_filelist_paths", None)
    sink = hlib.Sink()
    names = []

    def wod(path):
        names.append(path)
        return sink
    ctx.patch("gyp.common", "WriteOnDiff", wod)
    item = ctx.str("item", n, minlen=1, alphabet="ab-")
    ex = ctx.bool("excluded")
    vs = {"l": ["p", item, "q"]}
    if ex:
        vs["l!"] = ["p"]
    keep = copy.deepcopy(vs)
    r = f("<|(out.txt <@(l))" if bool(ctx.bool("at")) else "x<|(out.txt <(l))", 0, vs, "d/x.gyp")
    ctx.observe(r, sink.text())
    ctx.check(names == ["d/out.txt"], "another file")
    ctx.check(r == "out.txt" or r == "xout.txt", "not replaced by the file name")
    ctx.check(sink.text() == ("" if ex else "p\n") + item + "\nq\n", "items differ")
    ctx.check(_same(vs, keep), "the variables were modified")


HARNESSES = [
    Harness(canonical_int, dict(n=3), dict(n=5), "any Unicode text up to n"),
    Harness(plain, dict(n=3), dict(n=4), "any text up to n without ( (printable ASCII and digits of other scripts)"),
    Harness(string_context, dict(n=1, segs=3, lits=1), dict(n=2, segs=3, lits=2), "reference, literal, reference; ten forms of reference; symbolic string and item values; three phases"),
    Harness(nested, dict(n=2), dict(n=4), "six nestings, four variable names, symbolic value, three phases"),
    Harness(list_context, dict(n=1, k=2), dict(n=2, k=3), "k list items of ten forms, symbolic values, three phases"),
    Harness(undefined, dict(n=2), dict(n=3), "any name up to n over a b _ ! /, three phases against three reference kinds, string and list form"),
    Harness(wrong_type, {}, {}, "six values that are not text"),
    Harness(brackets, dict(n=5), dict(n=8), "all strings up to n over a ( [ ] )"),
    Harness(command, dict(n=2), dict(n=3), "seven forms, symbolic output and exit status"),
    Harness(file_list, dict(n=1), dict(n=2), "one list, symbolic item, with and without an exclusion"),
]
