import copy

from symex.api import Harness
import hlib

PROPERTY = "C07"
PRELOAD = ["gyp.input", "gyp.common", "gyp.simple_copy"]
ASSUMPTIONS = [
    "conditions are comparisons of integers and strings, version comparisons and their and/or/not combinations",
    "a default (`name%`) can be referenced inside its own variables section only through a nested variables section (documented form)",
]
I = "gyp.input"

EXPRS = [
    ("flag==1", lambda f, s: f == 1), ("flag!=1", lambda f, s: f != 1), ("flag<1", lambda f, s: f < 1), ("flag<=1", lambda f, s: f <= 1),
    ("flag>1", lambda f, s: f > 1), ("flag>=1", lambda f, s: f >= 1), ('s=="ab"', lambda f, s: s == "ab"), ('s!="ab"', lambda f, s: s != "ab"),
    ("'a' in s", lambda f, s: "a" in s), ("not flag", lambda f, s: f == 0), ('"<(s)"=="b"', lambda f, s: s == "b"),
]


def _b(x):
    return bool(x)


def _env(ctx, n):
    flag = ctx.int("flag", 0, 2)
    s = ctx.str("s", n, alphabet="ab")
    return flag, s


def operators(ctx, n):
    """every comparison form selects its branch"""
    flag, s = _env(ctx, n)
    e1, o1 = ctx.pick("e1", EXPRS)
    op = ctx.pick("op", ["", " and flag==2", " or s==''"])
    holds = _b(o1(flag, s))
    if op == " and flag==2":
        holds = holds and _b(flag == 2)
    elif op:
        holds = holds or _b(s == "")
    t, e = {"k": "T"}, {"k": "E"}
    r = ctx.fn(I, "EvalCondition")([e1 + op, t, e], "conditions", 0, {"flag": flag, "s": s}, "x.gyp")
    ctx.observe(r["k"])
    ctx.check(r is (t if holds else e), "the wrong branch was chosen")
    r = ctx.fn(I, "EvalCondition")([e1 + op, t], "conditions", 0, {"flag": flag, "s": s}, "x.gyp")
    ctx.check(r is (t if holds else None), "a branch was chosen although the condition is false")


def versions(ctx):
    a = ctx.pick("a", ["1.2", "1.10", "1.10.0", "2.0", "10.0", "1.9rc1", "1.9"])
    b = ctx.pick("b", ["1.2", "1.10", "2.0", "1.9"])
    order = {"1.2": 0, "1.9rc1": 1, "1.9": 2, "1.10": 3, "1.10.0": 3, "2.0": 4, "10.0": 5}
    op = ctx.pick("op", ["<", "<=", "==", "!=", ">=", ">"])
    x, y = order[a], order[b]
    want = {"<": x < y, "<=": x <= y, "==": x == y, "!=": x != y, ">=": x >= y, ">": x > y}[op]
    t, e = {"k": "T"}, {"k": "E"}
    r = ctx.fn(I, "EvalCondition")(["v('%s') %s v(ver)" % (a, op), t, e], "conditions", 0, {"ver": b}, "x.gyp")
    ctx.observe(r["k"])
    ctx.check(r is (t if want else e), "version comparison")


def chain(ctx, k):
    """if / else-if / else chains select the first true branch; entries apply in order"""
    f = ctx.fn(I, "ProcessConditionsInDict")
    ph, key = ctx.pick("phase", [(0, "conditions"), (1, "target_conditions")])
    vs = {}
    d = {"list": ["base"], "scalar": "base", key: []}
    want_l, want_s = ["base"], "base"
    for i in range(k):
        m = ctx.pick("m%d" % i, [1, 2, 3] if i == 0 else [1, 2])
        els = _b(ctx.bool("else%d" % i))
        cond, hit = [], None
        for j in range(m):
            name = "b%d%d" % (i, j)
            v = ctx.int(name, 0, 1)
            vs[name] = v
            tag = "%d.%d" % (i, j)
            cond += [name + "==1", {"list": [tag], "scalar": tag}]
            if hit is None and _b(v == 1):
                hit = tag
        if els:
            cond.append({"list": ["%d.e" % i], "scalar": "%d.e" % i})
            if hit is None:
                hit = "%d.e" % i
        d[key].append(cond)
        if hit is not None:
            want_l.append(hit)
            want_s = hit
    keep = dict(vs)
    f(d, ph, vs, "x.gyp")
    ctx.observe(d)
    ctx.check(key not in d, "the conditions are still there")
    ctx.check(d["list"] == want_l, "list differs")
    ctx.check(d["scalar"] == want_s, "scalar differs")
    ctx.check(len(vs) == len(keep), "the variables were modified")


def nested(ctx):
    """conditions inside a branch, inside a list and inside a sub-dictionary"""
    f = ctx.fn(I, "ProcessVariablesAndConditionsInDict")
    ph, key, y = ctx.pick("phase", [(0, "conditions", "<"), (1, "target_conditions", ">")])
    a, b = ctx.int("a", 0, 1), ctx.int("b", 0, 1)
    other = "target_conditions" if ph == 0 else "conditions"
    d = {
        "type": y + "(lib)",
        "list": ["l0"],
        key: [
            ["a==1", {"list": ["l1"], "sub": {"k": "A"}, key: [["b==1", {"list": ["l2" + y + "(lib)"]}, {"list": ["l3"]}]]}],
            ["_type=='T'", {"auto": "yes"}],
        ],
        other: [["nope==1", {"bad": "x"}]],
        "sub": {"k": "base", key: [["b==1 and _k!='z'", {"k": "B"}]]},
        "dicts": [{key: [["a==1", {"x": 1}, {"x": 2}]]}],
    }
    vs = {"a": a, "b": b, "lib": "T"}
    f(d, ph, vs, "x.gyp")
    ctx.observe(d)
    A, B = _b(a == 1), _b(b == 1)
    want = ["l0"] + ((["l1"] + (["l2T"] if B else ["l3"])) if A else [])
    ctx.check(d.pop("list") == want, "list differs")
    ctx.check(d.pop("auto", None) == "yes", "automatic variable in a condition")
    ctx.check(d.pop("type") == "T", "type")
    ctx.check(d.pop("sub") == {"k": "B" if B else ("A" if A else "base")}, "sub-dictionary differs")
    ctx.check(d.pop("dicts") == [{"x": 1 if A else 2}], "dictionary in a list differs")
    ctx.check(d.pop(other) == [["nope==1", {"bad": "x"}]], "conditions of the other phase were touched")
    ctx.check(not d, "keys added or conditions left")


def scopes(ctx):
    """where an assignment to x is visible"""
    f = ctx.fn(I, "ProcessVariablesAndConditionsInDict")
    ph, key, y = ctx.pick("phase", [(0, "conditions", "<"), (1, "target_conditions", ">")])
    ref = y + "(x)"
    o = _b(ctx.bool("outer"))
    v = ctx.pick("V", ["none", "plain", "default", "both"])
    cv = ctx.pick("CV", ["none", "plain", "default", "else"])
    s = ctx.pick("S", ["none", "plain", "default"])
    cd = ctx.pick("CD", ["none", "plain", "default"])
    flag = ctx.int("flag", 0, 1)
    on = _b(flag == 1)
    V = {}
    ov = ctx.pick("ov", ["O", "", 0]) if o else "O"
    pv = ctx.pick("pv", ["V", ""]) if v == "plain" else "V"
    if v in ("default", "both"):
        V["x%"] = "Vd"
    if v in ("plain", "both"):
        V["x"] = pv
    if cv != "none":
        V[key] = [["flag==1", {"x%" if cv == "default" else "x": "C"}] + ([{"x": "CE"}] if cv == "else" else [])]
    S = {"none": None, "plain": {"x": "S"}, "default": {"x%": "Sd"}}[s]
    vs = {"flag": flag}
    if o:
        vs["x"] = ov
    # the oracle: (plain, default) definitions at each scope
    plain, dflt = (V.get("x"), V.get("x%"))
    if on and cv in ("plain", "else"):
        plain = "C"
    if on and cv == "default":
        dflt = "C"
    if not on and cv == "else":
        plain = "CE"
    here = plain if plain is not None else (ov if o else dflt)
    # a conditions section of the dictionary itself changes the variables of its children only
    if on and cd == "plain":
        plain = "D"
    if on and cd == "default":
        dflt = "D"
    below = plain if plain is not None else (ov if o else dflt)
    insub = below if S is None else ("S" if s == "plain" else (below if below is not None else "Sd"))
    d = {}
    if V or _b(ctx.bool("emptyV")):
        d["variables"] = V
    if cd != "none":
        d[key] = [["flag==1", {"variables": {"x" if cd == "plain" else "x%": "D"}}]]
    if here is not None:
        d["r"] = "p" + ref
    if insub is not None:
        d["sub"] = {"r": ref}
        if S is not None:
            d["sub"]["variables"] = S
    if below is not None:
        d["sub2"] = {"r": ref}
        d["l"] = [ref, "q", [ref], {"r": ref}]
    if len(d) == 0:
        return
    keep = copy.deepcopy({k: x for k, x in vs.items() if k != "flag"})
    f(d, ph, vs, "x.gyp")
    ctx.observe(d)
    if here is not None:
        ctx.check(d["r"] == "p" + str(here), "value in the dictionary itself")
    if insub is not None:
        ctx.check(d["sub"]["r"] == insub, "value in a sub-dictionary with variables of its own")
    if below is not None:
        ctx.check(d["sub2"]["r"] == below, "value in a sibling")
        ctx.check(d["l"] == [below, "q", [below], {"r": below}], "value in a list")
    ctx.check(key not in d and key not in d.get("variables", {}), "the conditions are still there")
    ctx.check(len(vs) == len(keep) + 1 and all(vs[k] == x for k, x in keep.items()), "the caller's variables were modified")


def defaults(ctx, n):
    """the nested form of a default: visible in its own section, overridable from outside"""
    f = ctx.fn(I, "ProcessVariablesAndConditionsInDict")
    o = _b(ctx.bool("outer"))
    own = _b(ctx.bool("own"))
    cond = ctx.pick("cond", ["none", "x", "y"])
    flag = ctx.int("flag", 0, 1)
    on = _b(flag == 1)
    val = ctx.str("val", n, minlen=1, alphabet="ab")
    V = {"variables": {"x%": "d" + val}, "x%": "<(x)", "y": "p<(x)"}
    if own:
        del V["x%"]
        V["x"] = "w" + val
    if cond == "x":
        V["variables"]["conditions"] = [["flag==1", {"x%": "c"}]]
    elif cond == "y":
        V["conditions"] = [["flag==1 and x!='a'", {"y": "<(x)q"}]]
    vs = {"flag": flag}
    if o:
        vs["x"] = "O"
    x = ("w" + val) if own else ("O" if o else ("c" if cond == "x" and on else "d" + val))
    d = {"variables": V, "out": "<(x)", "y": "<(y)"}
    f(d, 0, vs, "x.gyp")
    ctx.observe(d)
    ctx.check(d["out"] == x, "x")
    ctx.check(d["y"] == (x + "q" if cond == "y" and on else "p" + x), "value computed from the default")


def malformed(ctx):
    f = ctx.fn(I, "EvalCondition")
    a = ctx.int("a", 0, 1)
    t = {"k": 1}
    c, ok = ctx.pick("c", [
        ({"k": 1}, False), ("a==1", False), (["a==1"], False), (["a==1", "x"], False), (["a==1", t, t, t], False), (["a==1", t, t, "a==0"], False),
        (["a==1", t, "a==0", "x"], False), (["a==1", t, "a==0"], False), (["zz==1", t], False), (["a==", t], False), (["a==1", t, "a==0", t, t], True),
        (["a==1", t, t], True),
    ])
    try:
        r = f(c, "conditions", 0, {"a": a}, "x.gyp")
    except Exception as e:
        ctx.check(not ok, "a well-formed condition is refused")
        return
    ctx.observe(r)
    ctx.check(ok, "a malformed condition is accepted")


def cache(ctx, n):
    """the same condition text with other variables is decided anew"""
    f = ctx.fn(I, "EvalCondition")
    ctx.patch(I, "cached_conditions_asts", {})
    a, b = ctx.str("a", n, alphabet="ab"), ctx.str("b", n, alphabet="ab")
    t, e = {"k": "T"}, {"k": "E"}
    r1 = f(["x=='ab'", t, e], "conditions", 0, {"x": a}, "x.gyp")
    r2 = f(["x=='ab'", t, e], "conditions", 0, {"x": b}, "y.gyp")
    r3 = f(["'<(x)'=='ab'", t, e], "conditions", 0, {"x": b}, "y.gyp")
    ctx.observe(r1["k"], r2["k"], r3["k"])
    ctx.check((r1 is t) == _b(a == "ab"), "first")
    ctx.check((r2 is t) == _b(b == "ab"), "second")
    ctx.check((r3 is t) == _b(b == "ab"), "third")


HARNESSES = [
    Harness(operators, dict(n=2), dict(n=4), "eleven comparison forms with and/or, flag 0..2, s any text over a b up to n"),
    Harness(versions, {}, {}, "six operators over seven by four versions"),
    Harness(chain, dict(k=2), dict(k=3), "k entries of one to three conditions each, with and without else, all truth values, both phases"),
    Harness(nested, {}, {}, "four nestings, all truth values, both phases"),
    Harness(scopes, {}, {}, "every combination of assignment and default, with empty and zero values, in the outer scope, the section, a condition in it, a condition of the dictionary, and a child"),
    Harness(defaults, dict(n=1), dict(n=2), "nested variables sections, symbolic value, overrides from outside, inside and a condition"),
    Harness(malformed, {}, {}, "twelve conditions"),
    Harness(cache, dict(n=2), dict(n=3), "two variable values"),
]
