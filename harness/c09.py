from symex.api import Harness
import hlib

PROPERTY = "C09"
PRELOAD = ["gyp.input", "gyp.common"]
ASSUMPTIONS = ["lists with filters contain text (as the input format says); patterns are drawn from a fixed set of regular expressions"]
I = "gyp.input"

PATTERNS = [
    ("a", lambda s: "a" in s), ("^a", lambda s: s.startswith("a")), ("b$", lambda s: s.endswith("b")), ("", lambda s: True),
    ("^(a|bb)$", lambda s: s == "a" or s == "bb"), ("a.", lambda s: s[:-1].find("a") >= 0), ("^$", lambda s: s == ""),
    ("(^|/)b", lambda s: s.startswith("b") or "/b" in s),
]


def _b(x):
    return bool(x)


def _spec(items, excl, pats):
    act = [None] * len(items)
    for i, it in enumerate(items):
        for e in excl:
            if _b(e == it):
                act[i] = "exclude"
        for a, p in pats:
            if _b(p(it)):
                act[i] = a
    keep = [it for i, it in enumerate(items) if act[i] != "exclude"]
    gone = [it for i, it in enumerate(items) if act[i] == "exclude"]
    return keep, gone


def _eq(a, b):
    return len(a) == len(b) and all(_b(x == y) for x, y in zip(a, b))


def _check(ctx, d, name, keep, gone):
    ctx.check(name + "!" not in d and name + "/" not in d, "a filter is still there")
    ctx.check(_eq(d[name], keep), "the list differs")
    if gone:
        ctx.check(name + "_excluded" in d, "no list of excluded items")
        ctx.check(_eq(d[name + "_excluded"], gone), "excluded items differ")
    else:
        ctx.check(name + "_excluded" not in d, "a list of excluded items although none is excluded")


def exclusions(ctx, k, e, n):
    """`!` filters only"""
    f = ctx.fn(I, "ProcessListFiltersInDict")
    items = [ctx.str("i%d" % j, n, alphabet="ab") for j in range(k)]
    excl = [ctx.str("e%d" % j, n, alphabet="ab") for j in range(ctx.pick("ne", list(range(e + 1))))]
    d = {"sources": list(items), "sources!": list(excl), "other": ["a", "b"]}
    f("t", d)
    ctx.observe(d)
    _check(ctx, d, "sources", *_spec(items, excl, []))
    ctx.check(d["other"] == ["a", "b"] and len(d) <= 3, "another list was touched")


def patterns(ctx, k, p, n, npat):
    """`/` filters, in order, after an exclusion"""
    f = ctx.fn(I, "ProcessListFiltersInDict")
    items = [ctx.str("i%d" % j, n, alphabet="ab/") for j in range(k)]
    pats = [(ctx.pick("a%d" % j, ["include", "exclude"]), ctx.pick("p%d" % j, PATTERNS[:npat])) for j in range(p)]
    ex = ctx.pick("ex", [None, "a", "b"])
    first = ctx.pick("first", ["!", "/"]) if ex is not None else "/"
    d = {"k": 1}
    if first == "!":
        d["defines!"] = [ex]
    d["defines/"] = [[a, q[0]] for a, q in pats]
    d["defines"] = list(items)
    if ex is not None and first == "/":
        d["defines!"] = [ex]
    f("t", d)
    ctx.observe(d)
    _check(ctx, d, "defines", *_spec(items, [ex] if ex is not None else [], [(a, q[1]) for a, q in pats]))


def every_pattern(ctx, n):
    f = ctx.fn(I, "ProcessListFiltersInDict")
    items = [ctx.str("i0", n, alphabet="ab/"), "ab"]
    a, (p, o) = ctx.pick("a", ["include", "exclude"]), ctx.pick("p", PATTERNS)
    d = {"l": list(items), "l/": [["exclude", "."], [a, p]] if a == "include" else [[a, p]]}
    f("t", d)
    ctx.observe(d)
    pre = [("exclude", lambda s: len(s) > 0)] if a == "include" else []
    _check(ctx, d, "l", *_spec(items, [], pre + [(a, o)]))


def nested(ctx, n):
    """filters in sub-dictionaries, in dictionaries inside lists, at several levels; orphan filters vanish"""
    f = ctx.fn(I, "ProcessListFiltersInDict")
    s, t = ctx.str("s", n, alphabet="ab"), ctx.str("t", n, alphabet="ab")
    mk = lambda: {"l": [s, "b", t], "l!": ["b"], "l/": [["include", "^a"]]}
    d = {"sub": mk(), "list": [mk(), ["x", mk()]], "orphan!": ["a"], "orphan/": [["bad", "("]], "two": ["a", "b"], "two!": [t]}
    f("t", d)
    ctx.observe(d)
    keep, gone = _spec([s, "b", t], ["b"], [("include", lambda x: x.startswith("a"))])
    for x in (d["sub"], d["list"][0], d["list"][1][1]):
        _check(ctx, x, "l", keep, gone)
    k2, g2 = _spec(["a", "b"], [t], [])
    _check(ctx, d, "two", k2, g2)
    ctx.check("orphan!" not in d and "orphan/" not in d and "orphan" not in d, "a filter without a list is still there")
    ctx.check(d["list"][1][0] == "x" and len(d["list"]) == 2, "another list was touched")


def errors(ctx):
    f = ctx.fn(I, "ProcessListFiltersInDict")
    item = ctx.str("item", 1, alphabet="ab")
    d, ok = ctx.pick("d", [
        ({"l": [item], "l!": "a"}, False), ({"l": "a", "l!": ["a"]}, False), ({"l": {}, "l/": [["exclude", "a"]]}, False),
        ({"l": [item], "l/": [["remove", "a"]]}, False), ({"l": [item], "l/": [["exclude"]]}, False), ({"l": [item], "l!": ["a"], "l_excluded": []}, False),
        ({"l": [item], "l_excluded": ["z"]}, True), ({"l": [item], "l!": []}, True), ({"": [item], "l": ["x"]}, True), ({"sub": {"l": [item], "l/": [["", ""]]}}, False),
        ({"l": [item], "l/": {"exclude": "a"}}, False),
    ])
    try:
        f("t", d)
    except Exception:
        ctx.check(not ok, "refused")
        return
    ctx.check(ok, "a malformed filter was accepted")


HARNESSES = [
    Harness(exclusions, dict(k=3, e=2, n=1), dict(k=4, e=2, n=1), "k items and up to e exclusions over a b"),
    Harness(patterns, dict(k=1, p=2, n=2, npat=4), dict(k=2, p=3, n=2, npat=4), "k items over a b /, p filters with either action and four patterns, an exclusion before or after"),
    Harness(every_pattern, dict(n=3), dict(n=5), "eight patterns, both actions, items up to n"),
    Harness(nested, dict(n=1), dict(n=2), "three nesting levels, symbolic items"),
    Harness(errors, {}, {}, "eleven malformed or borderline dictionaries"),
]
