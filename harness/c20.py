from symex.api import Harness
import hlib

PROPERTY = "C20"
PRELOAD = ["gyp.common", "gyp.MSVSSettings", "gyp.MSVSNew", "gyp.MSVSUtil", "gyp.generator.msvs"]
ASSUMPTIONS = [
    "setting values are strings or lists of strings (integers of the input have become strings by the time a generator runs)",
    "the MD5 digest is abstract: the check looks at what is digested and at how the digest is spelled",
    "no target is called like a shard of another one (name_0 next to a sharded name)",
]
ST = "gyp.MSVSSettings"


def _report(ctx, f, settings):
    err = hlib.Sink()
    r = f(settings, stderr=err)
    return r, err.text()


TABLE = []


def conversion(ctx, n, part, parts):
    """one setting of one tool with any value"""
    M = ctx.mod(ST)
    if not TABLE:
        TABLE.extend([(t, s) for t in sorted(M._msvs_to_msbuild_converters) for s in sorted(M._msvs_to_msbuild_converters[t])])
    tool, setting = ctx.pick("setting", TABLE[part::parts])
    old = setting in M._msvs_validators[tool]
    if ctx.pick("list", [False, True]):
        probe = {tool: {setting: "zz zz"}}
        if old and _report(ctx, ctx.fn(ST, "ValidateMSVSSettings"), probe)[1] == "":
            # a list for a setting of type string is let through with a warning
            ctx.assume(_report(ctx, ctx.fn(ST, "ValidateMSVSSettings"), {tool: {setting: ["x"]}})[1] == "")
        value = [ctx.str("v0", n, alphabet="a1;"), "x"]
    else:
        value = ctx.pick("form", ["sym", "true", "false"])
        if value == "sym":
            value = ctx.str("v", n, alphabet="-+0123456789x tabu" + chr(0x662) if setting != "Culture" else "-019a")
    src = {tool: {setting: list(value) if isinstance(value, list) else value}}
    r1, rep_old = _report(ctx, ctx.fn(ST, "ValidateMSVSSettings"), src)
    res, warn = _report(ctx, ctx.fn(ST, "ConvertToMSBuildSettings"), src)
    _, rep_new = _report(ctx, ctx.fn(ST, "ValidateMSBuildSettings"), res)
    ctx.observe(rep_old == "", warn == "", res, rep_new == "")
    passed = [(k, kk) for k in res for kk in res[k]]
    if not old:
        ctx.check(passed == [(M._msbuild_name_of_tool[tool], setting)] and res[passed[0][0]][setting] == value,
                  "a setting of the new format only does not pass through")
        return
    ctx.check(rep_new == "", "the converted settings are not valid MSBuild settings")
    if rep_old == "":
        if setting == "GeneratePreprocessedFile":
            ctx.assume(ctx.And(*[c in "012" for c in value]) if len(value) == 1 else False)
        ctx.check(warn == "", "a valid setting is not converted")
        free = _report(ctx, ctx.fn(ST, "ValidateMSVSSettings"), {tool: {setting: "zz zz"}})[1] == ""
        if len(passed) == 1 and (free or value in ("true", "false")):
            ctx.check(res[passed[0][0]][passed[0][1]] == value or setting == "DefaultCharIsUnsigned", "a value changed its meaning")
        if len(passed) == 0 and value != "false":
            for probe in ("true", "0", "1", ["x"]):
                r, w = _report(ctx, ctx.fn(ST, "ConvertToMSBuildSettings"), {tool: {setting: probe}})
                ctx.check(w != "" or r.get(M._msbuild_name_of_tool[tool], {}) == {}, "a valid value is dropped")
    else:
        ctx.check(len(passed) == 0, "an invalid value is passed on")


def injective(ctx, hi):
    """different values of a setting stay different"""
    M = ctx.mod(ST)
    if not TABLE:
        TABLE.extend([(t, s) for t in sorted(M._msvs_to_msbuild_converters) for s in sorted(M._msvs_to_msbuild_converters[t])])
    tool, setting = ctx.pick("setting", TABLE)
    a, b = ctx.pick("a", list(range(hi))), ctx.pick("b", list(range(hi)))
    ctx.assume(a < b)
    r = []
    for x in (a, b):
        err = hlib.Sink()
        r.append((ctx.fn(ST, "ConvertToMSBuildSettings")({tool: {setting: str(x)}}, stderr=err), err.text()))
    ctx.observe(r[0][0], r[1][0])
    only = setting in M._msvs_validators[tool] and r[0][0] in ({}, {M._msbuild_name_of_tool[tool]: {}}) and r[0][0] == r[1][0]
    if r[0][1] == "" and r[1][1] == "" and not only and setting != "BrowseInformation":      # /FR and /Fr are one setting now
        ctx.check(r[0][0] != r[1][0], "two values are converted to the same one")


def names(ctx, n):
    """unknown tools and settings are reported, generated exclusion lists are not"""
    tool = ctx.pick("tool", ["VCLinkerTool", "VCLinkerTol"])
    base = ctx.pick("base", ["OutputFile", "Outputfile"])
    suf = ctx.pick("suf", ["", "_excluded", "_exclude", "_excluded_excluded", "x_excluded"])
    value = "v" + ctx.str("v", n, alphabet="a.")
    name = base + suf
    src = {tool: {name: value}}
    bad_tool = tool != "VCLinkerTool"
    good = not bad_tool and name in ("OutputFile", "OutputFile_excluded")
    for f, s in (("ValidateMSVSSettings", src), ("ConvertToMSBuildSettings", src), ("ValidateMSBuildSettings", {"Link" if not bad_tool else tool: {name: value}})):
        res, rep = _report(ctx, ctx.fn(ST, f), s)
        ctx.observe(rep)
        ctx.check((rep == "") == good, "an unknown name is accepted or a known one refused by " + f)
        if f[0] == "C":
            ctx.check(res == ({"Link": {"OutputFile": value}} if name == "OutputFile" and not bad_tool else {}), "wrong settings")


MAC = {"$(ConfigurationName)": "$(Configuration)", "$(InputDir)": "%(RelativeDir)", "$(InputExt)": "%(Extension)",
       "$(InputFileName)": "%(Filename)%(Extension)", "$(InputName)": "%(Filename)", "$(InputPath)": "%(Identity)",
       "$(ParentName)": "$(ProjectFileName)", "$(PlatformName)": "$(Platform)", "$(SafeInputName)": "%(Filename)",
       "$(OutDir)": "$(OutDir)", "$(IntDir)": "$(IntDir)", "$(TargetDir)": "$(TargetDir)", "$(Input)": "$(Input)"}


def macros(ctx, n):
    """macros become their new names, everything else stays; slashes after directory macros go"""
    a = ctx.str("a", n, alphabet="x\\/$(")
    m1 = ctx.pick("m1", sorted(MAC))
    b = ctx.str("b", n, alphabet="x\\/)")
    m2 = ctx.pick("m2", ["", "$(IntDir)", "$(InputPath)"])
    out = ctx.fn(ST, "ConvertVCMacrosToMSBuild")(a + m1 + b + m2)
    ctx.observe(out)
    if m1 in ("$(OutDir)", "$(IntDir)"):
        b = b.lstrip("\\/")
    ctx.check(out == a + MAC[m1] + b + (MAC[m2] if m2 else ""), "macro conversion differs")
    again = ctx.fn(ST, "ConvertVCMacrosToMSBuild")(out)
    ctx.check(again == out, "converting again changes the value")
    ctx.check(ctx.fn(ST, "ConvertVCMacrosToMSBuild")(b) == b, "text without macros changed")


class _Digest:
    def __init__(self, log, data, d):
        log.append(data)
        self.hex = d

    def hexdigest(self):
        return self.hex


def guid(ctx, n):
    """identifiers are spelled from the digest of seed and name"""
    log = []
    d = ctx.str("digest", 32, minlen=32, alphabet="0123456789abcdef")
    ctx.patch("gyp.MSVSNew", "hashlib", type("H", (), {"md5": staticmethod(lambda data: _Digest(log, data, d))}))
    name = ctx.str("name", n, alphabet="ab\\" + chr(0xe9))
    how = ctx.pick("how", ["default", "seed", "folder", "project"])
    N = "gyp.MSVSNew"
    if how == "default":
        g, seed = ctx.fn(N, "MakeGuid")(name), "msvs_new"
    elif how == "seed":
        seed = ctx.str("seed", n, alphabet="ab")
        g = ctx.fn(N, "MakeGuid")(name, seed)
    elif how == "folder":
        g, seed = ctx.fn(N, "MSVSFolder")("p" + name).get_guid(), "msvs_folderp"
    else:
        seed = "msvs_new"
        name = "p" + name
        p = ctx.fn(N, "MSVSProject")("x.vcxproj", name=name)
        g = p.get_guid()
        ctx.check(p.get_guid() == g and len(log) == 1, "a project's identifier changes")
    ctx.check(len(log) == 1, "not one digest")
    ctx.check(log[0] == (seed + name).encode("utf-8"), "the identifier does not depend on exactly seed and name")
    d = d.upper()
    ctx.observe(g)
    ctx.check(g == "{" + d[:8] + "-" + d[8:12] + "-" + d[12:16] + "-" + d[16:20] + "-" + d[20:32] + "}", "not the digest in GUID form")


def shards(ctx, k, n, most):
    """splitting: every source in exactly one shard, dependents use every shard"""
    ids = ["d/a.gyp:t%d#target" % i for i in range(k)]
    dicts, counts, orig = {}, [], {}
    for i in range(k):
        s = ctx.pick("shard%d" % i, [None] + list(range(0, most + 1)))
        c = ctx.pick("n%d" % i, list(range(0, n + 1))) if s else 1
        counts.append(s or 0)
        d = {"target_name": "t%d" % i, "toolset": "target", "type": "static_library", "defines": ["D%d" % i],
             "dependencies": [ids[j] for j in range(i) if ctx.pick("dep%d%d" % (i, j), [False, True])]}
        if s is not None:
            d["msvs_shard"] = str(s)
        if c or s is None:
            d["sources"] = ["s%d_%d.cc" % (i, j) for j in range(c)]
        if i and ctx.pick("orig%d" % i, [False, True]):
            d["dependencies_original"] = [ids[0]]
        dicts[ids[i]] = d
        orig[ids[i]] = {kk: (list(v) if isinstance(v, list) else v) for kk, v in d.items()}
    order = list(reversed(ids)) if ctx.pick("rev", [False, True]) else list(ids)
    nl, nd = ctx.fn("gyp.MSVSUtil", "ShardTargets")(list(order), dicts)
    ctx.observe(nl)

    def name(t, i):
        return t.replace("#target", "_%d#target" % i)

    def exp(ts):
        out = []
        for t in ts:
            c = counts[ids.index(t)]
            out += [name(t, i) for i in range(c)] if c else [t]
        return out
    ctx.check(nl == exp(order), "the list of targets is wrong")
    ctx.check(sorted(nd) == sorted(exp(ids)), "the targets are wrong")
    for i, t in enumerate(ids):
        parts = [nd[x] for x in exp([t])]
        got = [s for p in parts for s in p.get("sources", [])]
        want = orig[t].get("sources", [])
        ctx.check(sorted(got) == sorted(want), "a source is lost or compiled in two shards")
        for p in parts:
            mine = [s for s in want if s in p.get("sources", [])]
            ctx.check(p.get("sources", []) == mine, "the order of sources changed")
            ctx.check(p["defines"] == ["D%d" % i] and p["type"] == "static_library" and p["toolset"] == "target", "a shard has other settings")
            ctx.check(p["dependencies"] == exp(orig[t]["dependencies"]), "dependencies do not name every shard")
            ctx.check(p.get("dependencies_original", []) == exp(orig[t].get("dependencies_original", [])), "original dependencies do not name every shard")
        nm = [p["target_name"] for p in parts]
        ctx.check(nm == (["t%d_%d" % (i, j) for j in range(counts[i])] if counts[i] else ["t%d" % i]), "shard names are wrong")


def suffix(ctx, n):
    """suffixes go before the toolset"""
    f = ctx.fn("gyp.MSVSUtil", "_SuffixName")
    name = ctx.str("name", n, alphabet="a#:")
    suf = ctx.str("suf", n, alphabet="ab")
    r = f(name, suf)
    ctx.observe(r)
    p = name.rfind("#")
    ctx.check(r == (name + "_" + suf if p < 0 else name[:p] + "_" + suf + name[p:]), "suffix in the wrong place")


def project_guid(ctx, n):
    """an explicit identifier is used if well formed, refused otherwise; else the project file decides"""
    F = ctx.fn("gyp.generator.msvs", "_GetGuidOfProject")
    ctx.patch("gyp.MSVSNew", "MakeGuid", lambda x, *a: "guid of " + x)
    g = ctx.pick("given", [None, "sym"])
    good = "0123ABCD-4567-89AB-CDEF-0123456789AB"
    at = ctx.pick("at", [0, 8, 9, 35, 36])
    v = good[:at] + ctx.str("g", n, alphabet="A9a-g") + good[at + 1:]
    spec = {"default_configuration": "D", "configurations": {"D": {}, "E": {"msvs_guid": good}}}
    if g:
        spec["configurations"]["D"]["msvs_guid"] = v
    path = "p" + ctx.str("path", n, alphabet="a\\")
    try:
        r = F(path, spec)
    except ValueError:
        r = None
    ctx.observe(r)
    if not g:
        ctx.check(r == "guid of " + path, "the identifier is not made from the project file")
        return
    ok = len(v) > 0          # documented check: upper-case hexadecimal digits and dashes
    for c in v:
        ok = ok and bool(c in "0123456789ABCDEF-")
    if ok:
        ctx.check(r == "{" + v + "}", "the given identifier is not used")
    else:
        ctx.check(r is None, "a malformed identifier is accepted")


HARNESSES = [
    Harness(conversion, dict(n=2, part=0, parts=1), dict(n=3, part=0, parts=1), "every setting of every tool; values up to n over digits, signs, letters, space; true, false, lists"),
    Harness(injective, dict(hi=5), dict(hi=10), "every setting, pairs of values below hi"),
    Harness(names, dict(n=1), dict(n=3), "known and unknown tools, settings, exclusion suffixes"),
    Harness(macros, dict(n=2), dict(n=3), "13 macros between texts of up to n characters, followed by another macro"),
    Harness(guid, dict(n=2), dict(n=4), "names and seeds up to n characters, all digests"),
    Harness(shards, dict(k=2, n=4, most=3), dict(k=3, n=4, most=3), "k targets, each unsharded or in up to 3 shards with up to n sources, all dependencies"),
    Harness(suffix, dict(n=4), dict(n=6), "names up to n over a # :"),
    Harness(project_guid, dict(n=2), dict(n=3), "identifiers differing from a good one in up to n characters at five places"),
]
