import copy

from symex.api import Harness
import hlib
from hlib import m_dict, same as _eq, copied as _cp, spoil as _spoil

PROPERTY = "C10"
PRELOAD = ["gyp.input", "gyp.common", "gyp.simple_copy"]
ASSUMPTIONS = ["inheritance between configurations is acyclic", "merging follows the rules of C08"]
I = "gyp.input"
TARGET_KEYS = ["actions", "configurations", "copies", "default_configuration", "dependencies", "dependencies_original", "libraries", "postbuilds", "product_dir",
               "product_extension", "product_name", "product_prefix", "rules", "run_as", "sources", "standalone_static_library", "suppress_wildcard", "target_name",
               "toolset", "toolsets", "type", "variables"]
FORBIDDEN = ["actions", "all_dependent_settings", "configurations", "dependencies", "direct_dependent_settings", "libraries", "link_settings", "sources",
             "standalone_static_library", "target_name", "type"]


def _b(x):
    return bool(x)


def _prep(ctx):
    ctx.patch(I, "non_configuration_keys", list(ctx.fn(I, "base_non_configuration_keys")))


def inheritance(ctx, n, k):
    """every acyclic inheritance graph on k configurations in any listed order"""
    f = ctx.fn(I, "SetUpConfigurations")
    _prep(ctx)
    names = ["C%d" % i for i in range(k)]
    v = ctx.str("v", n, alphabet="ab-")
    configs, parents = {}, {}
    for i in range(k):
        ps = [names[j] for j in range(i) if _b(ctx.bool("p%d%d" % (i, j)))]
        if len(ps) > 1 and _b(ctx.bool("rev%d" % i)):
            ps.reverse()
        parents[names[i]] = ps
        c = {"defines": ["d%d" % i, v], "v%d" % i: "x", "scalar": "s%d" % i, "cflags" + ["", "+", "="][i % 3]: ["f%d" % i]}
        if ps:
            c["inherit_from"] = ps
        if i < k - 1 and _b(ctx.bool("abs%d" % i)):
            c["abstract"] = 1
        configs[names[i]] = c
    order = ctx.pick("order", ["fwd", "bwd"])
    ordered = {x: configs[x] for x in (names if order == "fwd" else list(reversed(names)))}
    target = {"target_name": "t", "type": "none", "sources": ["a.c"], "defines": ["base"], "cflags": ["cf"], "scalar": "target", "configurations": ordered}
    orig = _cp(configs)

    def seq(c, seen):
        out = []
        if c in seen:
            return out
        for p in parents[c]:
            out += seq(p, seen + [c])
        return out + [c]
    want = {}
    for c in names:
        if "abstract" in orig[c]:
            continue
        d = {"defines": ["base"], "cflags": ["cf"], "scalar": "target"}
        for p in seq(c, []):
            x = _cp(orig[p])
            x.pop("abstract", None)
            m_dict(d, x)
        want[c] = d
    f("x.gyp:t#target", target)
    ctx.observe(target)
    got = target["configurations"]
    ctx.check(sorted(got) == sorted(want), "not exactly the concrete configurations")
    for c in want:
        ctx.check(_eq(got[c], want[c]), "configuration differs")
    ctx.check(sorted(target) == ["configurations", "default_configuration", "sources", "target_name", "type"], "settings left in or lost from the target")
    ctx.check(target["default_configuration"] in want, "default configuration does not exist")
    for c in want:
        others = _cp({o: got[o] for o in got if o != c})
        _spoil(got[c])
        for o in others:
            if o in got and o != c and "spoiled" not in others[o]:
                ctx.check(_eq(got[o], others[o]), "two configurations share a part")
        break


def target_keys(ctx, n):
    """which keys stay in the target and which move"""
    f = ctx.fn(I, "SetUpConfigurations")
    _prep(ctx)
    key = ctx.pick("key", TARGET_KEYS[:] + ["defines", "include_dirs", "cflags", "link_settings", "custom", "all_dependent_settings"])
    sfx = ctx.pick("sfx", ["", "=", "+", "?", "!", "/"])
    v = [ctx.str("v", n, alphabet="ab")]
    if key in ("configurations", "default_configuration") or (key in ("target_name", "type") and not sfx):
        return
    target = {"target_name": "t", "type": "none", key + sfx: v, "configurations": {"R": {"x": 1}, "D": {}}}
    bad = key + sfx in FORBIDDEN and key not in TARGET_KEYS
    try:
        f("x.gyp:t#target", target)
    except Exception as e:
        ctx.check(bad and type(e).__name__ == "GypError", "refused")
        return
    ctx.observe(target)
    ctx.check(not bad, "a setting not allowed in a configuration is accepted")
    if key in TARGET_KEYS:
        ctx.check(key + sfx in target and _eq(target[key + sfx], v), "a target setting is lost")
        for c in "RD":
            ctx.check(key + sfx not in target["configurations"][c], "a target setting was copied into a configuration")
    else:
        ctx.check(key + sfx not in target, "a configuration setting is left in the target")
        for c in "RD":
            ctx.check(_eq(target["configurations"][c][key + sfx], v), "a setting did not reach a configuration")
        ctx.check(target["configurations"]["R"][key + sfx] is not target["configurations"]["D"][key + sfx], "two configurations share a list")


def forbidden(ctx):
    f = ctx.fn(I, "SetUpConfigurations")
    _prep(ctx)
    key = ctx.pick("key", FORBIDDEN + ["defines", "custom", "include_dirs", "rules_x"])
    where = ctx.pick("where", ["own", "parent", "second"])
    configs = {"A": {"abstract": 1}, "B": {"inherit_from": ["A"]}, "Z": {}}
    configs[{"own": "B", "parent": "A", "second": "Z"}[where]][key] = ["x"]
    target = {"target_name": "t", "type": "none", "configurations": configs}
    try:
        f("x.gyp:t#target", target)
    except Exception as e:
        ctx.check(key in FORBIDDEN and type(e).__name__ == "GypError", "refused")
        ctx.check(key in str(e), "the error does not name the setting")
        return
    ctx.check(key not in FORBIDDEN, "a setting not allowed in a configuration is accepted")
    ctx.check("A" not in target["configurations"], "abstract configuration is left")


def default_configuration(ctx):
    f = ctx.fn(I, "SetUpConfigurations")
    _prep(ctx)
    kind = ctx.pick("kind", ["none", "given", "abstract-first", "several"])
    t = {"target_name": "t", "type": "none", "defines": ["x"]}
    if kind == "given":
        t.update({"default_configuration": "R", "configurations": {"D": {}, "R": {}}})
    elif kind == "abstract-first":
        t["configurations"] = {"A": {"abstract": 1}, "M": {"inherit_from": ["A"]}}
    elif kind == "several":
        t["configurations"] = {"R": {}, "D": {}}
    f("x.gyp:t#target", t)
    ctx.observe(t)
    want = {"none": ("Default", ["Default"]), "given": ("R", ["D", "R"]), "abstract-first": ("M", ["M"]), "several": ("D", ["D", "R"])}[kind]
    ctx.check(t["default_configuration"] == want[0], "default configuration")
    ctx.check(sorted(t["configurations"]) == want[1], "configurations")
    for c in t["configurations"].values():
        ctx.check(c["defines"] == ["x"], "settings did not reach a configuration")


def toolsets(ctx):
    """one target per requested toolset, each with everything, sharing nothing"""
    f = ctx.fn(I, "ProcessToolsetsInDict")
    multi = ctx.pick("multi", [True, False])
    ctx.patch(I, "multiple_toolsets", multi)
    ts = ctx.pick("ts", [None, ["target"], ["host"], ["host", "target"], ["target", "host"], []])
    explicit = ctx.pick("explicit", [None, "host"])
    incond = ctx.pick("cond", [False, True])
    t = {"target_name": "t", "defines": ["x", {"y": ["z"]}]}
    if ts is not None:
        t["toolsets"] = list(ts)
    if explicit:
        t["toolset"] = explicit
    u = {"target_name": "u", "type": "none"}
    data = {"targets": [t, u]}
    if incond:
        data = {"conditions": [["a==1", {"k": 1}, {"targets": [t, u]}], "x"]}
    f(data)
    ctx.observe(data)
    got = data["conditions"][0][2]["targets"] if incond else data["targets"]
    mine = [x for x in got if x["target_name"] == "t"]
    if explicit and ts is None:
        want = [explicit]
    elif not multi or ts is None:
        want = ["target"]
    else:
        want = sorted(ts)
    ctx.check(sorted(x["toolset"] for x in mine) == want, "toolsets")
    us = [x for x in got if x["target_name"] == "u"]
    ctx.check(len(us) == 1 and us[0] == {"target_name": "u", "type": "none", "toolset": "target"}, "another target changed")
    for x in mine:
        ctx.check("toolsets" not in x, "toolsets is left")
        ctx.check(x["defines"] == ["x", {"y": ["z"]}], "settings lost")
    if len(mine) == 2:
        mine[0]["defines"][1]["y"].append("q")
        ctx.check(mine[1]["defines"] == ["x", {"y": ["z"]}], "two targets share a part")
    f(data)
    again = data["conditions"][0][2]["targets"] if incond else data["targets"]
    ctx.check(len(again) == len(got), "processing twice adds targets")


HARNESSES = [
    Harness(inheritance, dict(n=1, k=3), dict(n=1, k=4), "all acyclic inheritance graphs on k configurations, any subset abstract, both listing orders, a symbolic item"),
    Harness(target_keys, dict(n=1), dict(n=2), "every key of the target and seven other keys, with every suffix"),
    Harness(forbidden, {}, {}, "every forbidden key and four permitted ones, in three places"),
    Harness(default_configuration, {}, {}, "four shapes"),
    Harness(toolsets, {}, {}, "six toolset lists, explicit toolset, with and without multiple toolsets, inside conditions"),
]
