from symex.api import Harness
import hlib

PROPERTY = "C16"
PRELOAD = ["gyp.input", "gyp.common", "gyp.simple_copy"]
ASSUMPTIONS = ["Python's own parser turns text into syntax trees correctly (it runs unmodified)"]
I = "gyp.input"
OTHER = ["1", "-1", "1.5", "b'a'", "f'a'", "f'{a}'", "('a',)", "()", "{'a'}", "x", "print('a')", "'a' if 'a' else 'b'", "[x for x in []]", "{x: 'a' for x in []}",
         "{x for x in []}", "(x for x in [])", "lambda: 'a'", "'a' + 'b'", "'a' % 'b'", "{**{}}", "{'a': 'b', **{}}", "None", "True", "...", "'a'.upper()", "[*[]]", "'a'[0]",
         "(x := 'a')", "not 'a'", "'a' or 'b'", "'a' == 'b'", "{'a': 1}", "['a', ['b', 2]]", "{1: 'a'}", "{('a',): 'b'}", "{f'a': 'b'}", "{b'a': 'b'}", "{x: 'a'}",
         "__import__('os').system('false')", "'a'.join(['b'])"]
FINE = [("'a'", "a"), ("\"a\"", "a"), ("'a' 'b'", "ab"), ("('a')", "a"), ("r'\\n'", "\\n"), ("'\\x41'", "A"), ("u'a'", "a"), ("'''a'''", "a"), ("[]", []), ("{}", {}),
        ("[\n 'a',\n]", ["a"]), ("{'a': 'b',}", {"a": "b"}), ("['a', # c\n 'b']", ["a", "b"]), ("''", "")]


def _b(x):
    return bool(x)


def values(ctx, n):
    """literal trees with symbolic keys and values load verbatim; repeated keys are refused wherever they are"""
    f = ctx.fn(I, "CheckedEval")
    a, b = ctx.str("a", n, alphabet="any"), ctx.str("b", n, alphabet="any")
    v = ctx.str("v", n, alphabet="any")
    A, B, V = ctx.mark(0, a), ctx.mark(1, b), ctx.mark(2, v)
    sub = "{%r: %r, %r: ['x', %r]}" % (A, V, B, B)
    where, text, get, path = ctx.pick("where", [
        ("top", sub, lambda d: d, ""), ("dict", "{'k': %s, 'l': 'm'}" % sub, lambda d: d["k"], "k"), ("list", "{'k': ['z', %s]}" % sub, lambda d: d["k"][1], "k.1"),
        ("second", "{'k': [{'x': 'y'}, {'q': %s}], 'r': []}" % sub, lambda d: d["k"][1]["q"], "k.1.q"), ("lists", "[[%s]]" % sub, lambda d: d[0][0], "0.0"),
        ("later", "{'a': {'b': 'c'}, 'z': {'a': {'b': %s}}}" % sub, lambda d: d["z"]["a"]["b"], "z.a.b")])
    same = _b(a == b)
    try:
        got = f(text)
    except Exception as e:
        ctx.check(same and type(e).__name__ == "GypError", "refused")
        m = str(e.args[0]) if ctx.native else e.args[0]
        ctx.check("'" + a + "'" in m, "the error does not name the key")
        ctx.check("'" + path + "'" in m, "the error does not name the place")
        return
    ctx.check(not same, "a repeated key is accepted")
    ctx.observe(got)
    d = get(got)
    ctx.check(len(d) == 2 and a in d and b in d, "keys differ")
    ctx.check(_b(d[a] == v), "a value differs")
    ctx.check(len(d[b]) == 2 and d[b][0] == "x" and _b(d[b][1] == b), "a value differs")
    ctx.check(where == "top" or not hasattr(got, "keys") or len(got) == {"dict": 2, "list": 1, "second": 2, "later": 2}[where], "keys differ")


def siblings(ctx, n):
    """the same key in different dictionaries is no repetition"""
    f = ctx.fn(I, "CheckedEval")
    ks = [ctx.str("k%d" % i, n, alphabet="ab") for i in range(4)]
    K = [ctx.mark(i, k) for i, k in enumerate(ks)]
    text = "{%r: {%r: {%r: 's'}}, 'l': [{%r: 't'}, {%r: 'u'}]}" % (K[0], K[1], K[2], K[3], K[0])
    try:
        got = f(text)
    except Exception as e:
        ctx.check(_b(ks[0] == "l"), "refused")
        return
    ctx.observe(got)
    ctx.check(_b(got[ks[0]][ks[1]][ks[2]] == "s") and got["l"][0][ks[3]] == "t" and got["l"][1][ks[0]] == "u", "a value differs")


def others(ctx):
    """every other kind of expression is refused wherever it is"""
    f = ctx.fn(I, "CheckedEval")
    x = ctx.pick("x", OTHER)
    s = ctx.mark(0, ctx.str("s", 1, alphabet="ab"))
    where, path = ctx.pick("where", [("%s", ""), ("{'k': %s}", "k"), ("['a', %s]", "1"), ("{'k': ['a', {'l': %s}, 'b']}", "k.1.l"), ("{'k': 'v', 'm': [[%s]]}", "m.0.0"),
                                     ("{'k': %s, %r: 'z'}", "k")])
    text = where % (x, s) if where.count("%") == 2 else where % x
    try:
        got = f(text)
    except Exception as e:
        ctx.check(type(e).__name__ in ("TypeError", "AssertionError", "GypError", "SyntaxError"), "something in the file was executed")
        if type(e).__name__ == "TypeError":
            ctx.check(path in str(e), "the error does not name the place")
        return
    ctx.check(False, "an expression that is no literal is accepted")


def shapes(ctx):
    f = ctx.fn(I, "CheckedEval")
    kind = ctx.pick("kind", ["fine", "bad"])
    if kind == "fine":
        src, want = ctx.pick("x", FINE)
        where = ctx.pick("where", ["plain", "dict", "list", "comment"])
        text = {"plain": src, "dict": "{'k': %s}" % src, "list": "['z', %s]" % src, "comment": "# c\n%s # d\n" % src}[where]
        got = f(text)
        got = got["k"] if where == "dict" else got[1] if where == "list" else got
        ctx.observe(got)
        ctx.check(got == want and type(got) is type(want), "a value differs")
        return
    text = ctx.pick("t", ["", "x = {}", "{}\n{}", "import os", "# only", "'a'; 'b'", "{'a': 'b'", "def f(): pass", "return {}", "'a' = 'b'", "pass"])
    try:
        f(text)
    except Exception:
        return
    ctx.check(False, "a file that is no single literal is accepted")


def loading(ctx, n):
    """the loader: checked or not, the same data for well-formed files; errors for what is no dictionary or missing"""
    f = ctx.fn(I, "LoadOneBuildFile")
    s, t = ctx.str("s", n, alphabet="any"), ctx.str("t", n, alphabet="ab")
    check = ctx.pick("check", [True, False])
    src, kind = ctx.pick("src", [("{'k': %r, 'targets': [{%r: 'x'}, 'k']}" % (ctx.mark(0, s), ctx.mark(1, t)), "ok"), ("['a']", "bad"), ("'a'", "bad"), ("{'a': {'b': 'c'}, 'a': 'd'}", "dup"),
                                 ("{'a': __import__('os')}", "exec"), ("{'a': x}", "exec"), ("{'a':", "bad"), ("{'a': [{'b': '', 'c': [], 'b': ''}]}", "dup"), (None, "bad")])
    hlib.vfs(ctx, {"d/x.gyp": src} if src is not None else {})
    data, aux = {}, {}
    try:
        got = f("d/x.gyp", data, aux, None, False, check)
    except Exception as e:
        ctx.check(kind != "ok" and (kind != "dup" or check), "refused")
        if kind in ("bad", "dup") and src != "{'a':":
            ctx.check("d/x.gyp" in str(e), "the error does not name the file")
        if src == "{'a':":
            ctx.check(type(e) is SyntaxError and e.filename == "d/x.gyp", "the error does not name the file")
        return
    ctx.check(kind == "ok" or kind == "dup" and not check, "a malformed file is accepted")
    if kind == "ok":
        ctx.observe(got)
        ctx.check(_b(got["k"] == s) and got["targets"][1] == "k" and got["targets"][0][t] == "x" and len(got) == 2, "a value differs")
        ctx.check(data["d/x.gyp"] is got and "d/x.gyp" in aux, "the file is not recorded")


TYPES = ["executable", "loadable_module", "static_library", "shared_library", "mac_kernel_extension", "none", "windows_driver"]


def target_type(ctx):
    f = ctx.fn(I, "ValidateTargetType")
    base = ctx.pick("base", TYPES + ["", "static", "dynamic_library"])
    extra = ctx.str("x", 1, alphabet="aesy_")
    side = ctx.pick("side", ["after", "before"])
    ty = base + extra if side == "after" else extra + base
    alone = ctx.pick("alone", [None, 0, 1])
    has = ctx.pick("has", [True, False]) if base == "" else True
    td = {"type": ty} if has else {}
    if alone is not None:
        td["standalone_static_library"] = alone
    ok = has and any(_b(ty == t) for t in TYPES) and not (alone and not _b(ty == "static_library"))
    try:
        f("x.gyp:t#target", td)
    except Exception as e:
        ctx.check(not ok and type(e).__name__ == "GypError", "refused")
        return
    ctx.check(ok, "an unknown type or a misplaced flag is accepted")


def rules(ctx, n):
    """rule names and extensions are unique; each rule gets exactly the sources of its extension"""
    f = ctx.fn(I, "ValidateRulesInTarget")
    names = [ctx.str("n%d" % i, 1, 1, alphabet="ab") for i in range(2)]
    exts = [ctx.str("e%d" % i, n, alphabet="ab.") for i in range(2)]
    src = ctx.str("s", 3, 1, alphabet="ab./")
    extra = ctx.pick("extra", [[], ["more"]])
    pre = ctx.pick("pre", [False, True])
    td = {"rules": [{"rule_name": names[i], "extension": exts[i]} for i in range(2)], "sources": ["x.a", src, "y.b", "z"], "more": [src, "q.a"]}
    if pre:
        td["rules"][1]["rule_sources"] = []
    es = [e[1:] if _b(e.startswith(".")) else e for e in exts]
    bad = _b(names[0] == names[1]) or _b(es[0] == es[1]) or pre

    def ext(s):
        b = s.split("/")[-1]
        while _b(b.startswith(".")):
            b = b[1:]
        p = b.split(".")
        return p[-1] if len(p) > 1 else ""
    try:
        f("t", td, extra)
    except Exception as e:
        ctx.check(bad and type(e).__name__ == "GypError", "refused")
        return
    ctx.check(not bad, "rules in conflict are accepted")
    ctx.observe(td)
    pool = td["sources"] + (td["more"] if extra else [])
    for i in range(2):
        want = [s for s in pool if _b(ext(s) == es[i])]
        got = td["rules"][i].get("rule_sources", [])
        ctx.check(len(got) == len(want) and all(_b(x == y) for x, y in zip(got, want)), "not exactly the sources of the rule's extension")


def run_as(ctx):
    f = ctx.fn(I, "ValidateRunAsInTarget")
    s = ctx.str("s", 1, alphabet="ab")
    r, ok = ctx.pick("r", [(None, True), ({}, True), ({"action": [s]}, True), ({"action": []}, False), ({"action": s + "x"}, False), ({"environment": {}}, False), ([s], False),
                           ({"action": [s], "working_directory": s}, True), ({"action": [s], "working_directory": [s]}, False), ({"action": [s], "environment": {s: "x"}}, True),
                           ({"action": [s], "environment": [s]}, False), ({"action": [s], "working_directory": "", "environment": {}}, True), (s + "x", False)])
    try:
        f("t", {"target_name": "t"} if r is None else {"target_name": "t", "run_as": r}, "x.gyp")
    except Exception as e:
        ctx.check(not ok and type(e).__name__ == "GypError", "refused")
        return
    ctx.check(ok, "a malformed run_as is accepted")


def actions(ctx):
    f = ctx.fn(I, "ValidateActionsInTarget")
    s = ctx.str("s", 1, alphabet="ab")
    name = ctx.pick("name", ["a", None, "s"])
    inputs = ctx.pick("inputs", [["x"], [], None])
    cmd = ctx.pick("cmd", [["x"], [], None, "s", ["", "x"], ["x", ""]])
    second = ctx.pick("second", [False, True])
    a = {}
    if name:
        a["action_name"] = s if name == "s" else name
    if inputs is not None:
        a["inputs"] = inputs
    if cmd is not None:
        a["action"] = [s] if cmd == "s" else cmd
    ok = bool(name) and not (name == "s" and _b(s == "")) and inputs is not None and not (cmd == "s" and _b(s == "")) and cmd != ["", "x"]
    try:
        f("t", {"target_name": "t", "actions": ([{"action_name": "z", "inputs": []}] if second else []) + [a]}, "x.gyp")
    except Exception as e:
        ctx.check(not ok and type(e).__name__ == "GypError", "refused")
        return
    ctx.check(ok, "a malformed action is accepted")


HARNESSES = [
    Harness(values, dict(n=2), dict(n=3), "six tree shapes, symbolic keys and value of up to n characters of all of Unicode"),
    Harness(siblings, dict(n=1), dict(n=2), "four symbolic keys at different places"),
    Harness(others, {}, {}, "forty other expressions in six places"),
    Harness(shapes, {}, {}, "fourteen literal forms in four places, eleven malformed files"),
    Harness(loading, dict(n=2), dict(n=3), "nine files, checked and unchecked"),
    Harness(target_type, {}, {}, "all types and near misses with a symbolic character"),
    Harness(rules, dict(n=1), dict(n=2), "two rules with symbolic names and extensions, a symbolic source"),
    Harness(run_as, {}, {}, "thirteen shapes"),
    Harness(actions, {}, {}, "all combinations of name, inputs and command"),
]
