import copy

from symex.api import Harness
import hlib

PROPERTY = "C08"
PRELOAD = ["gyp.input", "gyp.common", "gyp.simple_copy"]
ASSUMPTIONS = [
    "values are text, integers, lists and dictionaries, as build files have; both dictionaries come from the same directory (moving paths is C11)",
    "singletons are items that do not start with a dash; a duplicate inside the merged-in list keeps its first position",
]
I = "gyp.input"


from hlib import m_list, m_dict, Refused, same as _eq, copied as _cp, spoil as _spoil  # noqa: E402


def _check(ctx, to, fro):
    f = ctx.fn(I, "MergeDicts")
    tk, fk = _cp(to), _cp(fro)
    try:
        want = m_dict(_cp(to), fro)
    except Refused:
        want = None
    try:
        f(to, fro, "d/x.gyp", "d/y.gypi")
    except Exception as e:
        ctx.check(want is None, "a permitted merge is refused")
        ctx.check(type(e).__name__ in ("TypeError", "GypError"), "wrong kind of error")
        ctx.check(_eq(fro, fk), "the source was modified")
        return
    ctx.observe(to)
    ctx.check(want is not None, "conflicting policies or types are accepted")
    ctx.check(_eq(to, want), "merged value differs")
    ctx.check(_eq(fro, fk), "the source was modified")
    res = _cp(to)
    _spoil(fro)
    ctx.check(_eq(to, res), "changing the source changes the result")
    fk2 = _cp(fro)
    _spoil(to)
    ctx.check(_eq(fro, fk2), "changing the result changes the source")


def types(ctx, n):
    """every pair of value types"""
    s = ctx.str("s", n, alphabet="a1-")
    kinds = [None, s, 5, [], ["x", s], {}, {"q": s, "r": ["1"]}]
    a = ctx.pick("a", kinds)
    b = ctx.pick("b", kinds[1:])
    key = ctx.pick("key", ["defines", "k"])
    _check(ctx, {} if a is None else {key: _cp(a), "z": 1}, {key: _cp(b), "y": ["p"]})


def _items(ctx, name, k, n, alpha):
    return [ctx.str("%s%d" % (name, i), n, alphabet=alpha) for i in range(ctx.pick("n" + name, list(range(k + 1))))]


def policies(ctx, k, n):
    """one list with any policy against absent, list and other values"""
    pol = ctx.pick("pol", ["", "=", "+", "?"])
    to = ctx.pick("to", ["absent", "list", "text", "dict"])
    items = _items(ctx, "f", k, n, "ab-")
    d = {"other": ["o"]}
    if to == "list":
        d["defines"] = _items(ctx, "t", k, n, "ab-")
    elif to != "absent":
        d["defines"] = "x" if to == "text" else {"x": 1}
    _check(ctx, d, {"defines" + pol: items})


def combinations(ctx, n):
    """several policies for one list at once, in any order"""
    order = ctx.pick("order", [["", "+"], ["+", ""], ["=", "+"], ["+", "="], ["", "="], ["=", ""], ["?", ""], ["", "?"], ["?", "+"], ["+", "?"], ["=", "?"], ["?", "="],
                               ["", "+", "="], ["?", "+", ""]])
    x = ctx.str("x", n, alphabet="ab-")
    y = ctx.str("y", n, alphabet="ab-")
    fro = {}
    for i, p in enumerate(order):
        fro["defines" + p] = [x if i % 2 == 0 else y, "c%d" % i]
    to = {} if bool(ctx.bool("absent")) else {"defines": ["a", ctx.str("t", n, alphabet="ab-")]}
    _check(ctx, to, fro)


def integers(ctx):
    """integers and text in lists"""
    a = [ctx.pick("a%d" % i, [1, "1", "-1", -1, 0]) for i in range(2)]
    b = [ctx.pick("b%d" % i, [1, "1", "-1", -1, 0]) for i in range(2)]
    _check(ctx, {"k": a}, {"k" + ctx.pick("pol", ["", "+", "="]): b})


def deep(ctx, n):
    """nested dictionaries and lists are merged or copied at every level"""
    s, t = ctx.str("s", n, alphabet="a-"), ctx.str("t", n, alphabet="a-")
    fro = {
        "d": {"e": {"l" + ctx.pick("p", ["", "+", "=", "?"]): [s, "m"], "v": s}, "n": 1},
        "ll": [[s, [t]], {"in": [t], "d": {"x": [s]}}],
        "targets": [{"target_name": "t", "defines": [s, s]}],
    }
    to = {"d": {"e": {"l": ["m", t], "w": 2}}}
    if bool(ctx.bool("have")):
        to["ll"] = [[s, [t]], "z"]
        to["targets"] = [{"target_name": "t"}]
    _check(ctx, to, fro)


def twice(ctx, n):
    """merging one source into two destinations, and again into the first"""
    f = ctx.fn(I, "MergeDicts")
    s, t = ctx.str("s", n, alphabet="ab-"), ctx.str("t", n, alphabet="ab-")
    fro = {"l": [s, t], "d": {"k": [t]}}
    a, b = {"l": ["a"]}, {}
    wa = m_dict(m_dict(_cp(a), fro), fro)
    wb = m_dict(_cp(b), fro)
    f(a, fro, "x", "x")
    f(b, fro, "x", "x")
    f(a, fro, "x", "x")
    ctx.observe(a, b)
    ctx.check(_eq(a, wa), "second merge differs")
    ctx.check(_eq(b, wb), "merge into another destination differs")


def clone(ctx, n):
    """deepcopy: equal and independent; other types refused"""
    f = ctx.fn("gyp.simple_copy", "deepcopy")
    s = ctx.str("s", n)
    x, bad = ctx.pick("x", [(s, False), (3, False), (None, False), ([s, [s, {}]], False), ({"a": [s], s: {"b": [1]}}, False), (True, False),
                            ({"t": (1, 2)}, True), ([{1}], True)])
    try:
        y = f(x)
    except Exception as e:
        ctx.check(bad, "refused")
        ctx.check(type(e).__name__ == "Error", "wrong kind of error")
        return
    ctx.check(not bad, "an unsupported type was copied")
    ctx.observe(y)
    ctx.check(_eq(x, y) if x is not None else y is None, "copy differs")
    k = _cp(x)
    _spoil(y)
    ctx.check(_eq(x, k) if x is not None else True, "the copy shares a part with the original")


HARNESSES = [
    Harness(types, dict(n=1), dict(n=2), "seven by six kinds of values"),
    Harness(policies, dict(k=2, n=1), dict(k=3, n=1), "four policies; destination absent, list, text or dictionary; up to k symbolic items on each side over a b -"),
    Harness(combinations, dict(n=1), dict(n=2), "fourteen orders of two or three policies, symbolic items"),
    Harness(integers, {}, {}, "integers and text items, two on each side, three policies"),
    Harness(deep, dict(n=1), dict(n=2), "three levels, four policies, symbolic items"),
    Harness(twice, dict(n=1), dict(n=2), "three merges of one source"),
    Harness(clone, dict(n=2), dict(n=2), "eight shapes"),
]
