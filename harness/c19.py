import posixpath
from symex.api import Harness
import hlib

PROPERTY = "C19"
PRELOAD = ["gyp.common", "gyp.input", "gyp.ninja_syntax", "gyp.generator.ninja", "gyp.generator.make", "gyp.generator.msvs"]
ASSUMPTIONS = [
    "a target is identified by directory, name and toolset (two .gyp files of one directory cannot both define a name: collisions harness)",
    "sources lie inside the tree being built and two sources of one target that differ only in their extension are not both compiled",
    "hash_for_rules and MD5 digests are taken to be distinct for distinct inputs",
    "names of the actions of one target are distinct, names of its rules are distinct (documented requirement)",
]
NINJA = "gyp.generator.ninja"
MAKE = "gyp.generator.make"


def _tuple(ctx, i, n, dirs, seps):
    base = ctx.pick("base%d" % i, dirs)
    tool = ctx.pick("tool%d" % i, ["target", "host"]) if i else "target"
    name = ctx.str("name%d" % i, n - 1, minlen=1, alphabet="ab.")
    src = ctx.str("src%d" % i, n, minlen=1, alphabet=seps)
    ctx.assume(ctx.And(ctx.Not(src.startswith("/")), ctx.Not(src.endswith("/")), ctx.Not(src.endswith("."))))
    stem = posixpath.normpath(posixpath.join(base, src))
    ctx.assume(ctx.And(ctx.Not(stem.startswith("..")), stem != "."))
    return base, tool, name, src, stem


def _ninja_obj(ctx, base, tool, name, src):
    w = ctx.fn(NINJA, "NinjaWriter")("hash", {}, base, "out/Release", hlib.Sink(), "out/Release", "t.ninja", "linux", toplevel_dir="/top")
    spec = {"target_name": name, "toolset": tool, "type": "static_library", "sources": [src + ".c"], "configurations": {"Release": {}}}
    out = w.ninja.output
    w.WriteSpec(spec, "Release", {})
    try:
        f = hlib.ninja_parse(out.text())
    except hlib.Bad as e:
        ctx.check(False, "ninja cannot parse it: %s" % e)
    outs = [o for e in f.edges for o in e["outs"]]
    objs = [o for e in f.edges if e["rule"] == "cc" for o in e["outs"]]
    ctx.check(len(objs) == 1, "not one object")
    return objs[0], outs, [nm for nm, _ in f.rules]


def ninja_objects(ctx, n, dirs):
    """two compile steps of one ninja build"""
    ctx.patch("os", "environ", {})
    a = _tuple(ctx, 0, n, dirs, "ab./")
    b = _tuple(ctx, 1, n, dirs, "ab./")
    ctx.assume(ctx.Not(ctx.And(a[0] == b[0], a[1] == b[1], a[2] == b[2], a[4] == b[4])))
    oa, outs_a, _ = _ninja_obj(ctx, *a[:4])
    ob, outs_b, _ = _ninja_obj(ctx, *b[:4])
    ctx.observe([oa, ob])
    for o, t in ((oa, a), (ob, b)):
        top = "obj/" if t[1] == "target" else "obj.host/"
        ctx.check(o.startswith(top), "an object lies outside the object directory")
        ctx.check(posixpath.normpath(o) == o, "an object path is not normalised")
    if a[0] == b[0] and a[1] == b[1] and bool(a[2] == b[2]):
        pairs = [(oa, ob)]        # one target: its other outputs are the same by intention
    else:
        pairs = [(x, y) for x in outs_a for y in outs_b]
    da, fa = posixpath.split(a[4])
    db, fb = posixpath.split(b[4])
    same_place = ctx.And(a[1] == b[1], da == db)
    lib = lambda s: "lib" + (s[3:] if bool(s.startswith("lib")) else s)
    for x, y in pairs:
        ctx.check(x != y, "two steps make the same file", known=[
            ("ninja-object-dots", ctx.And(same_place, a[2] != b[2], a[2] + "." + fa == b[2] + "." + fb)),
            ("ninja-object-same-name", ctx.And(same_place, a[0] != b[0], a[2] == b[2], fa == fb))])


def _make_objs(ctx, base, tool, name, src):
    sink = hlib.Sink()
    ctx.patch_builtin("open", lambda *a, **k: sink)
    w = ctx.fn(MAKE, "MakefileWriter")({}, "linux")
    spec = {"target_name": name, "toolset": tool, "type": "static_library", "sources": [src + ".c"], "configurations": {"Release": {}}}
    w.Write(posixpath.join(base, "x.gyp") + ":" + name + "#" + tool, base, "/out/t.mk", spec, spec["configurations"], True)
    try:
        f = hlib.mk_parse(sink.text())
    except hlib.Bad as e:
        ctx.check(False, "make cannot parse it: %s" % e)
    objs = hlib.make_words(f.var("OBJS"))
    ctx.check(len(objs) == 1, "not one object")
    tgt = f.var("TARGET")
    return objs[0].replace("$(TARGET)", tgt), w.output


def make_objects(ctx, n, dirs):
    """two compile steps of one make build"""
    ctx.patch("os", "environ", {})
    ctx.patch("gyp.common", "EnsureDirExists", lambda p: None)
    ctx.patch(MAKE, "srcdir_prefix", "$(srcdir)/")
    ctx.patch(MAKE, "target_outputs", {})
    ctx.patch(MAKE, "target_link_deps", {})
    a = _tuple(ctx, 0, n, dirs, "ab./")
    b = _tuple(ctx, 1, n, dirs, "ab./")
    ctx.assume(ctx.Not(ctx.And(a[0] == b[0], a[1] == b[1], a[2] == b[2], a[4] == b[4])))
    ctx.assume(ctx.And(*[ctx.And(t[2] != ".", t[2] != "..") for t in (a, b)]))
    oa, la = _make_objs(ctx, *a[:4])
    ob, lb = _make_objs(ctx, *b[:4])
    ctx.observe([oa, ob])
    for o, t in ((oa, a), (ob, b)):
        top = "$(obj).target/" if t[1] == "target" else "$(obj).host/"
        ctx.check(o.startswith(top), "an object lies outside the object directory")
        ctx.check(posixpath.normpath(o) == o, "an object path is not normalised")
    ctx.check(oa != ob, "two compile steps make the same object", known=[
        ("make-object-same-name", ctx.And(a[1] == b[1], a[0] != b[0], a[2] == b[2], a[4] == b[4]))])
    if not (a[0] == b[0] and a[1] == b[1] and bool(a[2] == b[2])):
        ctx.check(la != lb, "two targets make the same library")


def _steps(ctx, n, kinds):
    """the actions and rules of a target: [(kind, name, spec part)]"""
    res = []
    for i, k in enumerate(kinds):
        nm = ctx.str("step%d" % i, n, minlen=1, alphabet="a_-0")
        if k == "action":
            res.append((k, nm, {"action_name": nm, "action": ["act", str(i)], "inputs": ["in%d" % i], "outputs": ["out%d" % i]}))
        else:
            res.append((k, nm, {"rule_name": nm, "extension": "x", "action": ["gen", str(i)], "rule_sources": ["r%d.x" % i], "inputs": [],
                                "outputs": ["rout%d" % i]}))
    for i in range(len(res)):
        for j in range(i):
            if res[i][0] == res[j][0]:
                ctx.assume(res[i][1] != res[j][1])
    return res


def ninja_rule_names(ctx, n):
    """the commands of all actions and rules of a target are kept apart"""
    ctx.patch("os", "environ", {})
    kinds = ctx.pick("kinds", [["action", "action"], ["action", "rule"], ["rule", "rule"]])
    steps = _steps(ctx, n, kinds)
    spec = {"target_name": "t", "toolset": ctx.pick("tool", ["target", "host"]), "type": "none", "configurations": {"Release": {}},
            "actions": [s for k, _, s in steps if k == "action"], "rules": [s for k, _, s in steps if k == "rule"]}
    out = hlib.Sink()
    w = ctx.fn(NINJA, "NinjaWriter")("h", {}, "sub", "out/Release", out, "out/Release", "t.ninja", "linux", toplevel_dir="/top")
    w.WriteSpec(spec, "Release", {})
    text = out.text()
    ctx.observe(text)
    try:
        f = hlib.ninja_parse(text)
    except hlib.Bad as e:
        ctx.check(False, "ninja cannot parse it: %s" % e)
    for i, (k, nm, s) in enumerate(steps):
        o = "../../sub/" + s["outputs"][0]
        es = [e for e in f.edges if bool(ctx.Or(*[x == o for x in e["outs"]]))]
        ctx.check(len(es) == 1, "not exactly one step makes the output")
        rs = [dict(v) for name, v in f.rules if bool(name == es[0]["rule"])]
        ctx.check(len(rs) == 1, "a step's command is not defined exactly once")
        ctx.check(hlib.ninja_flat(rs[0]["command"]).endswith(" ".join(s["action"])), "a step runs the command of another")


def make_command_names(ctx, n):
    """the commands of all actions and rules of all targets are kept apart"""
    ctx.patch("os", "environ", {})
    ctx.patch("gyp.common", "EnsureDirExists", lambda p: None)
    ctx.patch(MAKE, "srcdir_prefix", "$(srcdir)/")
    ctx.patch(MAKE, "target_outputs", {})
    ctx.patch(MAKE, "target_link_deps", {})
    kinds = ctx.pick("kinds", [["action", "action"], ["action", "rule"], ["rule", "rule"]])
    two = ctx.pick("two", [False, True])
    steps = _steps(ctx, n, kinds)
    names = ["t", "t"]
    if two:
        names[1] = "t" + ctx.str("name", n, alphabet="a_-")
        ctx.assume(names[1] != "t")
    sinks = []
    for i in range(2 if two else 1):
        sink = hlib.Sink()
        sinks.append(sink)
        ctx.patch_builtin("open", lambda *a, **k: sink)
        mine = steps if not two else [steps[i]]
        spec = {"target_name": names[i], "toolset": "target", "type": "none", "configurations": {"Release": {}},
                "actions": [s for k, _, s in mine if k == "action"], "rules": [s for k, _, s in mine if k == "rule"]}
        w = ctx.fn(MAKE, "MakefileWriter")({}, "linux")
        w.Write("sub/a.gyp:" + names[i] + "#target", "sub", "/out/t.mk", spec, spec["configurations"], True)
    text = "".join([s.text() for s in sinks])        # make reads all .mk files into one namespace
    ctx.observe(text)
    try:
        f = hlib.mk_parse(text)
    except hlib.Bad as e:
        ctx.check(False, "make cannot parse it: %s" % e)
    for k, nm, s in steps:
        recs = f.recipes("sub/" + s["outputs"][0])
        cmds = [r[r.find("do_cmd,") + 7:].rstrip(")") for r in recs if "do_cmd," in r]
        ctx.check(len(cmds) == 1, "not exactly one command makes the output")
        vals = [v for v in f.all_values("cmd_" + cmds[0])]
        ctx.check(len(vals) == 1, "the command of a step is defined twice: make runs the last one for both")
        ctx.check(vals[0].endswith(" ".join(s["action"])), "a step runs the command of another")


def placeholders(ctx, n):
    """only placeholders are replaced, and by parts of the one source"""
    gen = ctx.pick("gen", ["make", "ninja"])
    pre, mid, post = ctx.str("pre", n, alphabet="a%(s"), ctx.str("mid", n, alphabet="a%s)"), ctx.str("post", 1, alphabet="%s)")
    root, d = ctx.str("root", n, alphabet="%a("), ctx.str("dir", n, alphabet="a/%")
    one = ctx.pick("one", [0, 1])
    if gen == "make":
        names = ["%(INPUT_ROOT)s", "%(INPUT_DIRNAME)s"]
        w = ctx.fn(MAKE, "MakefileWriter")({}, "linux")
        t = pre + names[one] + mid + names[0] + post
        r = w.ExpandInputRoot(t, root, d)
        plain = w.ExpandInputRoot(pre + mid, root, d)
        ctx.check(plain == pre + mid, "text without placeholders changed")
    else:
        G = ctx.mod(NINJA).generator_default_variables
        names = [G["RULE_INPUT_ROOT"], G["RULE_INPUT_DIRNAME"]]
        w = ctx.fn(NINJA, "NinjaWriter")("h", {}, "sub", "out/Release", hlib.Sink(), "out/Release", "t.ninja", "linux", toplevel_dir="/top")
        w.toolset, w.name, w.flavor = "target", "t", "linux"
        t = pre + names[one] + mid + names[0] + post
        r = w.ExpandRuleVariables(t, root, d, d + "/" + root + ".x", ".x", root + ".x")
    ctx.observe(r)
    ctx.check(r == pre + (root, d)[one] + mid + root + post, "an output name is not made from the parts of the source")


def win_rules(ctx, n):
    """ninja for Windows: steps of a rule use response files of their own"""
    ctx.patch("os", "environ", {})
    ctx.patch("sys", "executable", "python")
    log = []

    class Digest:
        def __init__(self, data):
            ctx.check(isinstance(data, bytes) or hasattr(data, "decode"), "MD5 takes bytes")
            log.append(data)
            self.i = len(log)

        def hexdigest(self):
            return "d%d" % self.i
    ctx.patch(NINJA, "hashlib", type("H", (), {"md5": Digest}))
    out = hlib.Sink()
    w = ctx.fn(NINJA, "NinjaWriter")("h", {}, "sub", "out/Release", out, "out/Release", "t.ninja", "linux", toplevel_dir="/top")
    w.flavor = "win"
    w.name, w.toolset, w.config_name = "t", "target", "Release"
    flags = type("F", (), {"cygwin": False, "quote": True})
    w.msvs_settings = type("M", (), {"GetRuleShellFlags": lambda self, r: flags, "ConvertVSMacros": lambda self, s, *a, **k: s,
                                     "GetVSMacroEnv": lambda self, *a, **k: {}})()
    w.xcode_settings = None
    r0, r1 = "r" + ctx.str("r0", n, alphabet="ab"), "s" + ctx.str("r1", n, alphabet="ab")
    rule = {"rule_name": "rl", "extension": "x", "action": ["gen"], "rule_sources": [r0 + ".x", r1 + ".x"], "inputs": [],
            "outputs": ["${root}.out"]}
    w.WriteRules([rule], [], [], [], [])
    ctx.observe(out.text())
    ctx.check(len(log) == 2, "not one response file for a step")
    for data, r in zip(log, (r0, r1)):
        ctx.check(data == ("../../sub/" + r + ".out").encode("utf-8"), "the response file is not named after the output")


def msvs_objects(ctx, n):
    """two sources of one Visual Studio project"""
    MS = "gyp.generator.msvs"
    srcs, stems = [], []
    for i in range(2):
        up = ctx.pick("up%d" % i, ["", "..\\", "..\\..\\", "$(X)\\"])
        st = ctx.str("src%d" % i, n, minlen=1, alphabet="ab\\")
        ctx.assume(ctx.And(ctx.Not(st.startswith("\\")), ctx.Not(st.endswith("\\")), st.find("\\\\") < 0))
        srcs.append(up + st + ctx.pick("ext%d" % i, [".c", ".cc"]))
        stems.append((up, st))
    ctx.assume(ctx.Or(stems[0][0] != stems[1][0], stems[0][1] != stems[1][1]))
    spec = {"target_name": "t", "toolset": "target", "configurations": {"D": {}}}
    groups = {g: [] for g in ("compile", "none", "include")}
    ctx.fn(MS, "_AddSources2")(spec, list(srcs), {}, groups, {}, {}, set(), True)
    objs = [[d[1] for d in item if isinstance(d, list) and d[0] == "ObjectFileName"] for item in groups["compile"]]
    ctx.observe(objs)
    ctx.check(len(objs) == 2 and len(objs[0]) == 1 and len(objs[1]) == 1, "a source has no object of its own")
    for o in objs:
        ctx.check(o[0].startswith("$(IntDir)\\"), "an object lies outside the intermediate directory")
        ctx.check(o[0].find("..") < 0, "an object lies outside the intermediate directory")
    ctx.check(objs[0][0] != objs[1][0], "two sources have one object", known=[
        ("msvs-object-updir", ctx.And(stems[0][0] != stems[1][0], stems[0][1] == stems[1][1]))])


def colliding(ctx, n, k):
    """two targets of one directory never share a name"""
    gyps = [ctx.str("g%d" % i, n, alphabet="ab/") for i in range(k)]
    names = [ctx.str("n%d" % i, n, minlen=1, alphabet="ab:") for i in range(k)]
    ts = []
    for g, nm in zip(gyps, names):
        ctx.assume(ctx.And(ctx.Not(g.startswith("/")), g.find("//") < 0, nm.find(":") < 0))
        ts.append(g + ".gyp:" + nm + "#target")
    try:
        ctx.fn("gyp.input", "VerifyNoCollidingTargets")(ts)
        ok = True
    except ctx.fn("gyp.common", "GypError"):
        ok = False
    clash = []
    for i in range(k):
        for j in range(i):
            clash.append(ctx.And(posixpath.dirname(gyps[i] + ".gyp") == posixpath.dirname(gyps[j] + ".gyp"), names[i] == names[j]))
    ctx.observe(ok)
    ctx.check(ctx.Or(*clash) == (not ok), "a name used twice in a directory is accepted, or distinct names are refused")


D1 = ["", "a", "a/b", "b"]
HARNESSES = [
    Harness(ninja_objects, dict(n=3, dirs=["", "a"]), dict(n=4, dirs=D1), "two targets: directory, toolset, name up to n-1 over a b . and source up to n over a b . /"),
    Harness(make_objects, dict(n=3, dirs=["", "a"]), dict(n=4, dirs=D1), "two targets: directory, toolset, name up to n-1 over a b . and source up to n over a b . /"),
    Harness(ninja_rule_names, dict(n=3), dict(n=4), "two actions or rules of a target, names up to n over a _ - 0"),
    Harness(make_command_names, dict(n=2), dict(n=4), "two actions or rules of one or two targets, names up to n over a _ - 0"),
    Harness(placeholders, dict(n=2), dict(n=3), "templates with two placeholders between texts of up to n characters over % ( ) s a; names with %"),
    Harness(win_rules, dict(n=2), dict(n=3), "two sources with names up to n+1"),
    Harness(msvs_objects, dict(n=3), dict(n=5), "two sources: up to two ..\\ or a macro, then up to n characters"),
    Harness(colliding, dict(n=3, k=2), dict(n=3, k=3), "k targets with .gyp paths and names up to n characters"),
]
