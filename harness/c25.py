import ntpath
from symex.api import Harness
import hlib

PROPERTY = "C25"
PRELOAD = ["gyp.common", "gyp.easy_xml", "gyp.MSVSVersion", "gyp.MSVSSettings", "gyp.MSVSNew", "gyp.MSVSProject", "gyp.generator.msvs"]
ASSUMPTIONS = [
    "MSBuild reads a project top to bottom; a condition compares configuration and platform; the writing of the XML text is C05, the quoting of definitions C04, the conversion of settings C20",
    "paths follow Windows rules (ntpath); file and directory names contain no $ other than a leading macro",
    "documented heuristics are part of the specification: command arguments that begin with / or - or contain = are left alone, all others are paths",
]
MS = "gyp.generator.msvs"


class Out:
    def __init__(self):
        self.files = []


def _setup(ctx, prefix):
    """capture what is written; nothing reaches the disk"""
    out = Out()
    ctx.patch("os", "path", ntpath)
    ctx.patch("os", "sep", "\\")
    ctx.patch("gyp.common", "EnsureDirExists", lambda p: None)

    def write(content, path, *a, **k):
        out.files.append((path, content))
    ctx.patch("gyp.easy_xml", "WriteXmlIfChanged", write)
    ctx.patch(MS, "_VerifySourcesExist", lambda sources, d: [])
    ctx.patch(MS, "fixpath_prefix", prefix)
    ctx.patch("ntpath", "exists", lambda p: False)
    return out


def _fix(prefix, p):
    """the path as the project file must name it"""
    if prefix is not None and p[:1] != "$" and p[:1] != "\\" and p[:1] != "/":
        p = prefix + "\\" + p
    q = ntpath.normpath(p.replace("/", "\\"))
    return q if q.count("$") == p.count("$") else p.replace("/", "\\")


class Project:
    pass


def _project(ctx, spec, deps=()):
    p = Project()
    p.path = "build\\t.vcxproj"
    p.build_file = "d/t.gyp"
    p.guid = "{G}"
    p.name = spec["target_name"]
    p.spec = spec
    p.msbuild_toolset = "v143"
    p.dependencies = list(deps)
    p.fixpath_prefix = None
    return p


def _generate(ctx, out, spec, deps=(), flags=None):
    version = ctx.fn("gyp.MSVSVersion", "_CreateVersion")("2022", "C:\\VS")
    project = _project(ctx, spec, deps)

    class Opt:
        suffix = ""
        generator_output = None
        toplevel_dir = None
    ctx.fn(MS, "_GenerateMSBuildProject")(project, Opt(), version, flags or {}, spec)
    got = [c for p, c in out.files if p == project.path]
    ctx.check(len(got) == 1, "not one project file")
    return got[0]


def _base(typ, configs, **k):
    d = {"target_name": "t", "toolset": "target", "type": typ, "configurations": configs, "default_configuration": sorted(configs)[0], "msvs_cygwin_shell": "0"}
    d.update(k)
    return d


def _conf(**k):
    d = {"msvs_windows_target_platform_version": "10.0.1"}
    d.update(k)
    return d


def _split(e):
    """an element: (tag, attributes, children, text)"""
    attrs, kids, text = {}, [], ""
    for x in e[1:]:
        if isinstance(x, dict):
            attrs = x
        elif isinstance(x, list):
            kids.append(x)
        else:
            text = text + x
    return e[0], attrs, kids, text


def _holds(ctx, attrs, name):
    c = attrs.get("Condition")
    if c is None:
        return True
    if c.startswith("exists("):
        return False
    pre = "'$(Configuration)|$(Platform)'=='"
    ctx.check(c.startswith(pre) and c.endswith("'"), "a condition of another form")
    return c[len(pre):-1] == name


class View:
    """what MSBuild sees for one configuration"""

    def __init__(self, ctx, content, name):
        self.props, self.items, self.defs = {}, [], {}
        read = []
        found = 0
        for e in content[1:]:
            if not isinstance(e, list):
                continue
            tag, attrs, kids, _ = _split(e)
            if tag == "ItemGroup" and attrs.get("Label") == "ProjectConfigurations":
                for k in kids:
                    _, a, parts, _ = _split(k)
                    if a["Include"] == name:
                        found += 1
                        sub = {}
                        for x in parts:
                            t, _, _, v = _split(x)
                            sub[t] = v
                        ctx.check(sub["Configuration"] + "|" + sub["Platform"] == name, "a configuration with two names")
                continue
            if not _holds(ctx, attrs, name):
                continue
            if tag == "PropertyGroup":
                for k in kids:
                    t, a, _, v = _split(k)
                    if _holds(ctx, a, name):
                        if t not in self.props:
                            for v2 in read:
                                ctx.check(v2.find("$(" + t + ")") < 0, "a property is read before it is defined")
                        if t in ("IntDir", "OutDir", "TargetName", "TargetExt", "TargetPath"):
                            read.append(v.replace("$(" + t + ")", ""))
                        self.props[t] = v
            elif tag == "ItemDefinitionGroup":
                for k in kids:
                    tool, a, parts, _ = _split(k)
                    d = self.defs.setdefault(tool, {})
                    for x in parts:
                        t, _, _, v = _split(x)
                        d[t] = v.replace("%(" + t + ")", d.get(t, "%(" + t + ")"))
            elif tag == "ItemGroup":
                for k in kids:
                    t, a, parts, _ = _split(k)
                    meta = {}
                    for x in parts:
                        n, xa, _, v = _split(x)
                        if _holds(ctx, xa, name):
                            meta[n] = v
                    if meta.get("ExcludedFromBuild") != "true":
                        self.items.append((t, a["Include"], meta))
        ctx.check(found == 1, "the project does not list the configuration once")

    def built(self, *tags):
        return [i for i in self.items if i[0] in tags]


TOOLS = {".c": "ClCompile", ".cc": "ClCompile", ".cpp": "ClCompile", ".cxx": "ClCompile", ".CC": "ClCompile", ".rc": "ResourceCompile", ".asm": "MASM", ".s": "MASM", ".idl": "Midl"}
BUILT = ["ClCompile", "ResourceCompile", "MASM", "MARMASM", "Midl", "CustomBuild"]


def _name(ctx, tag, n, minlen=1):
    s = ctx.str(tag, n, minlen=minlen, alphabet="ab./")
    ctx.assume(ctx.And(ctx.Not(s.startswith("/")), ctx.Not(s.endswith("/")), ctx.Not(s.endswith(".")), s.find("//") < 0))
    return s


def sources(ctx, n, exts):
    """sources: each built once by its tool, excluded ones never"""
    prefix = ctx.pick("prefix", [None, ".."])
    out = _setup(ctx, prefix)
    srcs, ex = [], []
    for i in range(2):
        s = ctx.pick("root%d" % i, ["", "$(X)/"] if i == 0 else [""]) + _name(ctx, "s%d" % i, n if i == 0 else 1) + ctx.pick("ext%d" % i, exts if i == 0 else [".cc", ".h"])
        how = ctx.pick("how%d" % i, ["source", "excluded"])
        (srcs if how == "source" else ex).append(s)
    flags = {"msvs_list_excluded_files": False} if ex and ctx.pick("unlisted", [False, True]) else {}
    pch = bool(ex) and ctx.pick("pch", [False, True])
    confs = {"Debug": _conf(), "Release": _conf()}
    if pch:
        # an excluded source that one configuration precompiles
        confs["Debug"]["msvs_precompiled_source"] = ex[0]
        confs["Debug"]["msvs_precompiled_header"] = "p.h"
    spec = _base("executable", confs, sources=list(srcs), sources_excluded=list(ex))
    fixed = [_fix(prefix, s) for s in srcs]
    exf = [_fix(prefix, s) for s in ex]
    ctx.assume(ctx.And(*[a != b for a in fixed for b in exf]))
    content = _generate(ctx, out, spec, flags=flags)
    ctx.observe(content)
    for c in ("Debug", "Release"):
        v = View(ctx, content, c + "|Win32")
        got = v.built(*BUILT)
        want = []
        for s, f in zip(srcs, fixed):
            tool = TOOLS.get(s[s.rfind("."):])
            if tool is not None and (tool, f) not in want:
                want.append((tool, f))
        for s, f in zip(ex, exf):
            tool = TOOLS.get(s[s.rfind("."):])
            if pch and c == "Debug" and f == exf[0] and tool is not None and (tool, f) not in want:
                want.append((tool, f))
        ctx.check(len(got) == len(want), "a source is built twice or not at all, or an excluded one is built")
        for t, f in want:
            ctx.check(any(g[0] == t and g[1] == f for g in got), "a source is not built by its tool")
        for g in got:
            if pch and g[0] == "ClCompile":
                own = g[1] == exf[0]
                ctx.check((g[2].get("PrecompiledHeader") == "Create") == (c == "Debug" and own), "the precompiled header is made from another source")


def settings(ctx, n):
    """definitions, directories and libraries of each configuration"""
    prefix = ctx.pick("prefix", [None, ".."])
    out = _setup(ctx, prefix)
    confs, dirs = {}, {}
    what = ctx.pick("what", ["defines", "include_dirs", "library_dirs", "warnings", "events"])
    for c in ("Debug", "Release"):
        dirs[c] = []
        confs[c] = _conf()
        for i in range(ctx.pick("count" + c, [0, 1] if c == "Release" else [0, 2])):
            if what == "defines":
                dirs[c].append(ctx.str("d%s%d" % (c, i), n, minlen=1, alphabet="AB=1_"))
            elif what == "warnings":
                dirs[c].append(ctx.str("w%s%d" % (c, i), n, minlen=1, alphabet="48"))
            else:
                dirs[c].append(ctx.pick("r%s%d" % (c, i), ["", "$(V)/", "/"] if i == 0 else [""]) + _name(ctx, "i%s%d" % (c, i), n))
        key = {"warnings": "msvs_disabled_warnings"}.get(what, what)
        if what == "events":
            if dirs[c]:
                confs[c]["msvs_prebuild"] = "run " + dirs[c][0]
            if len(dirs[c]) > 1:
                confs[c]["msvs_postbuild"] = "end " + dirs[c][1]
        elif dirs[c]:
            confs[c][key] = list(dirs[c])
    libs = []
    for i in range(ctx.pick("libs", [0, 2] if what == "warnings" else [0])):
        libs.append(ctx.pick("l%d" % i, ["-l", "", "$(L)/"]) + ctx.str("lib%d" % i, 1, minlen=1, alphabet="xy") + ctx.pick("lx%d" % i, ["", ".lib", ".obj"]))
    if libs and ctx.pick("again", [False, True]):
        libs.append(libs[0])
    spec = _base(ctx.pick("type", ["executable", "loadable_module"]), confs, sources=["a.c"])
    if libs:
        spec["libraries"] = list(libs)
    want_libs = []
    for x in libs:
        x = x[2:] if x.startswith("-l") else x
        x = x.replace("/", "\\")
        want_libs.append(x if x.endswith(".lib") or x.endswith(".obj") else x + ".lib")
    want_libs = [x for i, x in enumerate(want_libs) if x not in want_libs[i + 1:]]
    content = _generate(ctx, out, spec)
    ctx.observe(content)

    def listed(v, tool, name):
        x = v.defs.get(tool, {}).get(name, "")
        return [i for i in x.split(";") if i != "" and i != "%(" + name + ")"]
    for c in ("Debug", "Release"):
        v = View(ctx, content, c + "|Win32")
        d = dirs[c]
        fixed = [_fix(prefix, x) for x in d] if what in ("include_dirs", "library_dirs") else d
        ctx.check(listed(v, "ClCompile", "PreprocessorDefinitions") == (d if what == "defines" else []), "other definitions than the configuration's")
        ctx.check(listed(v, "ResourceCompile", "PreprocessorDefinitions") == (d if what == "defines" else []), "other definitions for resources")
        ctx.check(listed(v, "ClCompile", "AdditionalIncludeDirectories") == (fixed if what == "include_dirs" else []), "other include directories than the configuration's")
        ctx.check(listed(v, "ResourceCompile", "AdditionalIncludeDirectories") == (fixed if what == "include_dirs" else []), "other include directories for resources")
        ctx.check(listed(v, "Link", "AdditionalLibraryDirectories") == (fixed if what == "library_dirs" else []), "other library directories than the configuration's")
        ctx.check(listed(v, "ClCompile", "DisableSpecificWarnings") == (d if what == "warnings" else []), "other warnings are disabled")
        ctx.check(listed(v, "Link", "AdditionalDependencies") == want_libs, "other libraries than the target's")
        ev = d if what == "events" else []
        ctx.check(v.defs.get("PreBuildEvent", {}).get("Command") == ("run " + ev[0] if ev else None), "another command runs before the build")
        ctx.check(v.defs.get("PostBuildEvent", {}).get("Command") == ("end " + ev[1] if len(ev) > 1 else None), "another command runs after the build")


SUFFIX = {"executable": ".exe", "shared_library": ".dll", "loadable_module": ".dll", "static_library": ".lib"}
KIND = {"executable": "Application", "shared_library": "DynamicLibrary", "loadable_module": "DynamicLibrary", "static_library": "StaticLibrary", "none": "Utility"}


def product(ctx, n):
    """names, places and kinds of what is built, for each configuration"""
    prefix = ctx.pick("prefix", [None, ".."])
    out = _setup(ctx, prefix)
    where = ctx.pick("where", ["default", "product", "attributes"])
    if where == "default":
        plat = ctx.pick("platform", [None, "x64", "ARM64"])
        names = ctx.pick("configs", ["plain", "suffixed", "underscore"])
    else:
        plat, names = ctx.pick("configs", [(None, "plain"), ("x64", "suffixed")])
    typ = ctx.pick("type", {"default": ["executable", "shared_library", "loadable_module", "static_library", "none"], "product": ["executable", "static_library"], "attributes": ["loadable_module"]}[where])
    p = plat or "Win32"
    confs, full = {}, {}
    for c in ("Debug", "Release"):
        key = {"plain": c, "suffixed": c + "_" + p, "underscore": "My_" + c}[names]
        full[c] = ("My_" + c if names == "underscore" else c) + "|" + p
        confs[key] = _conf()
        if plat is not None:
            confs[key]["msvs_configuration_platform"] = plat
        full[c] = (key, full[c])
    spec = _base(typ, confs, sources=["a.c"])
    ext = pre = ""
    nm = "$(ProjectName)"
    pdir = None
    attr = {}
    if where == "product":
        nm = ctx.str("name", n, minlen=1, alphabet="ab.")
        spec["product_name"] = nm
        if ctx.pick("ext", [False, True]):
            ext = ctx.str("extension", n, minlen=1, alphabet="no")
            spec["product_extension"] = ext
        if ctx.pick("pre", [False, True]):
            pre = "lib"
            spec["product_prefix"] = pre
        if ctx.pick("dir", [False, True]):
            pdir = "$(OutDir)sub\\"
            spec["product_dir"] = pdir
    elif where == "attributes":
        for c in ("Debug", "Release"):
            a = {}
            if ctx.pick("out" + c, [False, True]):
                a["OutputDirectory"] = _name(ctx, "o" + c, n)
            if ctx.pick("int" + c, [False, True]):
                a["IntermediateDirectory"] = ctx.pick("in" + c, ["$(SolutionDir)", "$(OutDir)"] if c == "Debug" else ["$(OutDir)"]) + ctx.str("t" + c, n, minlen=1, alphabet="ab") + "\\"
            if ctx.pick("cs" + c, [False, True]):
                a["CharacterSet"] = ctx.pick("set" + c, ["0", "1", "2"])
            if ctx.pick("te" + c, [False, True]):
                a["TargetExt"] = "." + ctx.str("x" + c, 1, minlen=1, alphabet="no")
            attr[c] = a
            if a:
                confs[full[c][0]]["msbuild_configuration_attributes"] = dict(a)
    content = _generate(ctx, out, spec)
    ctx.observe(content)
    for c in ("Debug", "Release"):
        v = View(ctx, content, full[c][1])
        a = attr.get(c, {})
        ctx.check(v.props.get("ConfigurationType") == KIND[typ], "another kind of product")
        ctx.check(v.props.get("TargetName") == pre + nm, "another product name")
        ctx.check(v.props.get("TargetExt") == ("." + ext if ext else a.get("TargetExt")), "another extension")
        if "OutputDirectory" in a:
            ctx.check(v.props.get("OutDir") == _fix(prefix, a["OutputDirectory"]) + "\\", "another output directory")
        else:
            ctx.check(v.props.get("OutDir") == "$(SolutionDir)$(Configuration)\\", "another output directory")
        if "IntermediateDirectory" in a:
            ctx.check(v.props.get("IntDir") == a["IntermediateDirectory"], "another intermediate directory")
        if "CharacterSet" in a:
            ctx.check(v.props.get("CharacterSet") == {"0": "MultiByte", "1": "Unicode", "2": "MultiByte"}[a["CharacterSet"]], "another character set")
        else:
            ctx.check("CharacterSet" not in v.props, "another character set")
        if typ != "none":
            tool = "Lib" if typ == "static_library" else "Link"
            d = pdir if pdir is not None else ("$(OutDir)lib\\" if typ == "static_library" else "$(OutDir)")
            want = d + pre + nm + ("." + ext if ext else "$(TargetExt)")
            ctx.check(v.defs.get(tool, {}).get("OutputFile").replace("$(OutDir)\\", "$(OutDir)") == want.replace("$(OutDir)\\", "$(OutDir)"), "another output file")
            ctx.check(v.props.get("TargetPath").replace("$(OutDir)\\", "$(OutDir)") == want.replace("$(OutDir)\\", "$(OutDir)"), "the path of the product is not its output file")


def _arg(prefix, a):
    if a == "" or a[:1] in ("/", "-") or "=" in a:
        return a
    return _fix(prefix, a).replace("\\", "/")


def _lines(command):
    return command.split("\r\n")


def actions(ctx, n):
    """actions and copies: every command runs with its inputs and outputs"""
    prefix = ctx.pick("prefix", [None, ".."])
    out = _setup(ctx, prefix)
    acts, cps = [], []
    first = _name(ctx, "in", n) + ctx.pick("inx", [".x", ".cc"])
    other = "q/" + _name(ctx, "in2", 1) + ".y"
    for i in range(ctx.pick("count", [0, 1, 2])):
        ins = {"same": [first], "both": [first, other], "none": [], "swap": [other, first]}[ctx.pick("ins%d" % i, ["same", "both", "none", "swap"])]
        arg = ctx.str("arg%d" % i, n, alphabet="a -=/") if i == 0 else "b c"
        ctx.assume(ctx.And(arg.find("//") < 0, ctx.Not(arg.endswith("/")), ctx.Not(arg.startswith("/"))))
        acts.append({"action_name": "n%d" % i, "inputs": ins, "outputs": ["o/out%d.h" % i], "action": ["py", "s.py", arg]})
    csrc = None
    if ctx.pick("copy", [False, True]):
        csrc = _name(ctx, "c", n) + ".z"
        cps = [{"destination": "$(OutDir)/to", "files": [csrc]}]
    spec = _base("none", {"Debug": _conf(), "Release": _conf()}, sources=["m.cc"])
    if acts:
        spec["actions"] = acts
    if cps:
        spec["copies"] = cps
    gathered = []
    for i, a in enumerate(acts):
        ins = [_fix(prefix, x) for x in (a["inputs"] or ["d/t.gyp"])]
        gathered.append((ins, [_fix(prefix, x) for x in a["outputs"]], ["py"] + [_arg(prefix, x) for x in a["action"][1:]]))
    wanted = [dict(inputs=list(a["inputs"]), outputs=list(a["outputs"])) for a in acts]
    ctx.assume(csrc is None or ctx.And(_fix(prefix, csrc) != _fix(prefix, first), _fix(prefix, csrc) != _fix(prefix, other)))
    content = _generate(ctx, out, spec)
    ctx.observe(content)
    for c in ("Debug", "Release"):
        v = View(ctx, content, c + "|Win32")
        customs = v.built("CustomBuild")
        seen = []
        for t, inc, meta in customs:
            ctx.check(inc not in seen, "a file has two build steps")
            seen.append(inc)
        compiled = v.built("ClCompile")
        ctx.check(len(compiled) == 1 and compiled[0][1] == _fix(prefix, "m.cc"), "sources are not compiled")
        for k, (ins, outs, words) in enumerate(gathered):
            mine = [m for _, inc, m in customs if inc == ins[0]]
            ctx.check(len(mine) == 1, "an action is lost")
            if len(mine) != 1:
                continue
            m = mine[0]
            extra = [ins[0]] + m.get("AdditionalInputs", "").split(";")
            ctx.check(all(x in extra for x in ins), "an input of an action is not watched")
            ctx.check(all(x in m["Outputs"].split(";") for x in outs), "an output of an action is missing")
            ls = _lines(m["Command"])
            hits = 0
            for j, line in enumerate(ls):
                w = line
                while w.startswith("call "):
                    w = w[5:]
                if w == " ".join(['"' + x + '"' for x in words]):
                    hits += 1
                    ctx.check(j + 1 < len(ls) and ls[j + 1] == "if %errorlevel% neq 0 exit /b %errorlevel%", "a failing action is not noticed")
            same = len([1 for g in gathered if g[0][0] == ins[0] and g[2] == words])
            ctx.check(hits == same, "an action does not run with its arguments")
        if csrc is not None:
            mine = [m for _, inc, m in customs if inc == _fix(prefix, csrc)]
            ctx.check(len(mine) == 1, "a copy is lost")
            if len(mine) == 1:
                dst = "$(OutDir)\\to\\" + csrc.split("/")[-1]
                ctx.check(mine[0]["Outputs"] == dst, "a copy goes elsewhere")
                ctx.check(('copy /Y "' + _fix(prefix, csrc) + '" "' + dst + '"').replace("$(OutDir)\\", "$(OutDir)") in mine[0]["Command"].replace("$(OutDir)\\", "$(OutDir)"), "another file is copied")
    for a, w in zip(acts, wanted):
        ctx.check(a["outputs"] == w["outputs"], "the target is modified")


def rules(ctx, n):
    """rules: every source of the rule is an item of it, and what it makes is compiled"""
    prefix = ctx.pick("prefix", [None, ".."])
    out = _setup(ctx, prefix)
    tf = [ctx.pick("root", ["", "$(R)/"]) + _name(ctx, "t0", n) + ".x", "d/z.x"]
    where = ctx.pick("where", ["$(IntDir)/g/", "gen/", "$(InputDir)/"])
    if where == "$(InputDir)/":
        tf[0] = "e/" + _name(ctx, "t1", n) + ".x"
    how = ctx.pick("process", ["1", None])
    rule = {"rule_name": "r " + ctx.str("rn", n, minlen=1, alphabet="ab-"), "extension": "x", "rule_sources": list(tf), "inputs": ["tool.py"],
            "outputs": [where + "$(InputName).cc", where + "$(InputName).h"], "action": ["py", "tool.py", "-o=" + ctx.str("arg", n, alphabet="ab"), "$(InputPath)"]}
    if how is not None:
        rule["process_outputs_as_sources"] = how
    act = ctx.pick("action", [False, True])
    spec = _base("executable", {"Debug": _conf(), "Release": _conf()}, sources=list(tf), rules=[rule])
    if act:
        # the file is an input of an action as well, but not the one it is attached to
        spec["actions"] = [{"action_name": "n", "inputs": ["b.in", tf[0]], "outputs": ["o.h"], "action": ["py"]}]
    ctx.assume(_fix(prefix, tf[0]) != _fix(prefix, tf[1]))
    element = rule["rule_name"].replace("-", "_").replace(" ", "_")
    arg = rule["action"][2]
    want = []
    for t in tf:
        stem = t[t.rfind("/") + 1:len(t) - 2]
        d = t[:t.rfind("/") + 1] if where == "$(InputDir)/" else where
        want.append(_fix(prefix, d + stem + ".cc"))
    content = _generate(ctx, out, spec)
    ctx.observe(content)
    for c in ("Debug", "Release"):
        v = View(ctx, content, c + "|Win32")
        mine = [inc for t, inc, _ in v.built(element)]
        ctx.check(sorted(mine) == sorted([_fix(prefix, t) for t in tf]), "a source of the rule is not processed")
        comp = [inc for t, inc, _ in v.built("ClCompile")]
        w = []
        for x in want if how else []:
            if x not in w:
                w.append(x)
        ctx.check(sorted(comp) == sorted(w), "what the rule makes is not compiled, or something else is")
    imported = [k for e in content[1:] if isinstance(e, list) for k in _split(e)[2] if k[0] == "Import"]
    names = [_split(k)[1]["Project"] for k in imported]
    ctx.check("t.props" in names and "t.targets" in names, "the rule's files are not imported")
    props = [c for p, c in out.files if p == "build\\t.props"]
    ctx.check(len(props) == 1, "the rule is not defined")
    d = [k for e in props[0][1:] if isinstance(e, list) and e[0] == "ItemDefinitionGroup" for k in _split(e)[2] if k[0] == element]
    ctx.check(len(d) == 1, "the rule is not defined once")
    meta = {_split(x)[0]: _split(x)[3] for x in _split(d[0])[2]}
    tool = "tool.py" if prefix is None else "../tool.py"
    ctx.check(meta["CommandLineTemplate"] == 'call "py" "' + tool + '" "' + arg + '" "%(Identity)"', "the rule runs another command")
    ctx.check(meta["AdditionalDependencies"] == _fix(prefix, "tool.py"), "other inputs")
    o = {"$(IntDir)/g/": "$(IntDir)g\\%(Filename)", "gen/": _fix(prefix, "gen") + "\\%(Filename)", "$(InputDir)/": "%(RelativeDir)%(Filename)"}[where]
    ctx.check(meta["Outputs"].replace("(RelativeDir)\\", "(RelativeDir)") == o + ".cc;" + o + ".h", "other outputs")


def references(ctx, n):
    """dependencies"""
    out = _setup(ctx, None)
    host = ctx.pick("toolset", ["target", "host"])
    spec = _base("executable", {"Debug": _conf()}, sources=["a.c"])
    spec["toolset"] = host
    deps, want = [], []
    for i in range(ctx.pick("deps", [0, 1, 2])):
        d = _base(ctx.pick("t%d" % i, ["static_library", "shared_library", "none"]), {"Debug": _conf()})
        d["toolset"] = ctx.pick("ts%d" % i, ["target", "host"])
        d["target_name"] = "d%d" % i
        p = _project(ctx, d)
        p.path = "build\\" + ctx.str("p%d" % i, n, minlen=1, alphabet="ab") + "\\d%d.vcxproj" % i
        p.guid = "{D%d}" % i
        deps.append(p)
        if not (host == "target" and d["toolset"] == "host" and d["type"] == "static_library"):
            want.append((p.path[6:], p.guid))
    ctx.patch("gyp.common", "RelativePath", lambda path, to, *a: path[6:] if to == "build" else "?" + path)
    content = _generate(ctx, out, spec, deps)
    ctx.observe(content)
    v = View(ctx, content, "Debug|Win32")
    got = [(inc, m.get("Project")) for t, inc, m in v.items if t == "ProjectReference"]
    ctx.check(got == want, "other projects are referenced than the dependencies")


HARNESSES = [
    Harness(sources, dict(n=3, exts=[".c", ".CC", ".cxx", ".cpp", ".rc", ".asm", ".h", ".txt"]), dict(n=4, exts=[".c", ".cc", ".cpp", ".cxx", ".CC", ".rc", ".asm", ".s", ".idl", ".h", ".txt"]),
            "two sources, used or excluded, one with a name of up to n characters over a b . /; an excluded one may be precompiled by one configuration", validate=4),
    Harness(settings, dict(n=2), dict(n=4), "two configurations with up to 2 values each of up to n characters, two libraries", validate=4),
    Harness(product, dict(n=1), dict(n=3), "5 types, 3 platforms, 3 ways to name configurations, product names and per-configuration attributes of up to n characters", validate=4),
    Harness(actions, dict(n=1), dict(n=3), "up to two actions sharing inputs or not, an argument and names of up to n characters, one copy", validate=4),
    Harness(rules, dict(n=2), dict(n=4), "a rule over two sources, one with a name of up to n characters, three output directories", validate=4),
    Harness(references, dict(n=4), dict(n=6), "up to two dependencies of any type and toolset", validate=4),
]
