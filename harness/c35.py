from symex.api import Harness
import hlib

PROPERTY = "C35"
JS = True
PRELOAD = []
ASSUMPTIONS = [
    "truth values are written as the words true and false; options are text or truth values (null and lists are not used)",
    "a configuration file holds text, numbers, lists and dictionaries in the syntax that JSON and Python share",
]


def text(v):
    """truth values are written as words"""
    if type(v) is bool:
        return "true" if v else "false"
    if type(v) is dict:
        return {k: text(v[k]) for k in v}
    if type(v) is list:
        return [text(x) for x in v]
    return v


KNOWN = ["help", "arch", "debug", "jobs", "python", "msvs-version", "nodedir", "dist-url", "force-process-config", "thin", "loglevel"]


def create(ctx, plats, n, size, vary):
    """the configuration that is written"""
    pick = hlib.varier(ctx, ctx.pick("vary", vary))
    plat = ctx.pick("platform", plats)
    win = plat == "win32"
    alphabet = "a'\"\\#\n$"
    val = ctx.str("val", size, 0, alphabet)
    base = {"target_defaults": {"cflags": ["-x"], "defines": ["D"], "include_dirs": ["/i"], "libraries": ["-l"], "other": val},
            "variables": {"v8": 1, "list": [val, 2], "flag": True, "off": False, "clang": 1, "nodedir": "/wrong", "python": "/wrong", "target_arch": "wrong", "shared_x": "base"}}
    shape = pick("node", "shape", ["full", "empty", "conf"])
    if shape == "empty":
        base = {}
    elif shape == "conf":
        base["target_defaults"]["default_configuration"] = "Debug"
    opts = []
    debug = pick("user", "debug", [None, True, False, ""])
    if debug is not None:
        opts.append(["debug", debug])
    arch = pick("arch", "arch", [None, "arm64", "ia32", ""])
    if arch is not None:
        opts.append(["arch", arch])
    thin = pick("user", "thin", [None, "yes", ""])
    if thin is not None:
        opts.append(["thin", thin])
    process_arch = pick("arch", "parch", ["x64", "arm64"])
    target = arch if arch else process_arch
    extra = []
    for i in range(pick("opts", "n", list(range(n + 1)))):
        k = ctx.pick("o%dk" % i, ["known", "free", "odd", "override"])
        name = ctx.pick("o%d" % i, {"known": ["python", "dist-url", "loglevel"], "free": ["shared-x", "a_b", "a-b-c"], "odd": ["toString", "constructor", "target"],
                                    "override": ["nodedir-x", "standalone-static-library", "v8", "target-arch"]}[k])
        v = ctx.pick("o%dt" % i, [True, False, None])
        if v is None:
            v = ctx.str("o%dv" % i, size, 0, alphabet)
        ctx.assume(all(x[0] != name for x in opts))
        opts.append([name, v])
        if k != "known":
            extra.append([name.replace("-", "_"), v])
    vs = None
    if win:
        vs = {"toolset": "v143", "msBuild": "C:\\m.exe", "sdk": pick("arch", "sdk", [None, "10.0"])}
        vs["versionMajor"] = pick("arch", "major", [14, 15, 16])
        vs["versionMinor"] = ctx.int("minor", 0, 12) if target == "arm64" else 3
    nodedir = "C:\\n 'd" if win else "/n 'd"
    r = ctx.js("config.js", "create", {"platform": plat, "arch": process_arch, "config": base, "opts": opts, "buildDir": "C:\\b" if win else "/b", "nodeDir": nodedir, "vsInfo": vs, "python": "/p\"y",
                                       "files": [["C:\\b" if win else "/b", None]]})
    ctx.observe(r["config"], r["path"])
    sep = "\\" if win else "/"
    ctx.check(r["path"] == ("C:\\b" if win else "/b") + sep + "config.gypi" and r["comment"], "the file is not where build looks for it")
    ctx.check(r["untouched"], "node's own configuration is changed")
    want = text(base)
    d = dict(want.get("target_defaults", {}))
    v = dict(want.get("variables", {}))
    for k in ("cflags", "defines", "include_dirs", "libraries"):
        d[k] = []
    if debug is not None:
        d["default_configuration"] = "Debug" if debug else "Release"
    elif "default_configuration" not in d:
        d["default_configuration"] = "Release"
    v["target_arch"] = target
    if target == "arm64":
        d["msvs_configuration_platform"] = "ARM64"
        d["xcode_configuration_platform"] = "arm64"
    v["nodedir"], v["python"] = nodedir, "/p\"y"
    v["standalone_static_library"] = 0 if thin else 1
    if win:
        d["msbuild_toolset"] = "v143"
        if vs["sdk"] is not None:
            d["msvs_windows_target_platform_version"] = vs["sdk"]
        if target == "arm64" and (vs["versionMajor"] > 15 or (vs["versionMajor"] == 15 and vs["versionMinor"] >= 9)):
            d["msvs_enable_marmasm"] = 1
        v["msbuild_path"] = "C:\\m.exe"
        if "clang" in v:
            v["clang"] = 0
    for name, x in extra:
        v[name] = text(x)
    got = r["config"]
    ctx.check(set(got) == {"target_defaults", "variables"} and got["target_defaults"] == d, "target defaults differ from node's and the overrides")
    ctx.check(got["variables"] == v, "variables differ from node's, the overrides and the user's")


def source(ctx, size):
    """which configuration is the base"""
    opts = []
    own = ctx.pick("own", [None, "nodedir", "disturl", "dist-url"])
    if own is not None:
        opts.append([own, "/x"])
    force = ctx.pick("force", [None, True, ""])
    if force is not None:
        opts.append(["force-process-config", force])
    have = ctx.pick("file", ["ok", "missing", "damaged"])
    v = ctx.str("v", size, 0, "a#\" ")
    files = [["/b", None]]
    if have != "missing":
        files.append(["/n/include/node/config.gypi", "# c\n{'variables': {'from': 'file', 'v': " + repr_py(ctx, v) + "}" + ("}" if have == "ok" else "") + "\n"])
    r = ctx.js("config.js", "create", {"platform": "linux", "arch": "x64", "config": {"variables": {"from": "process"}}, "opts": opts, "buildDir": "/b", "nodeDir": "/n", "vsInfo": None, "python": "/p", "files": files})
    ctx.observe(r["config"])
    use = own is not None and not force and have == "ok"
    ctx.check(r["config"]["variables"]["from"] == ("file" if use else "process"), "another node's configuration is the base")
    ctx.check(not use or r["config"]["variables"]["v"] == v, "a value of the configuration is changed")


def repr_py(ctx, s):
    """a Python literal for s"""
    q = '"' if "'" in s and '"' not in s else "'"
    out = ""
    for c in s:
        if c == "\\" or c == q:
            out += "\\" + c
        elif c == "\n":
            out += "\\n"
        else:
            out += c
    return q + out + q


def reading(ctx, size, n):
    """configuration files in Python syntax: comments, both quotes, strings continued on the next line"""
    comment = "#" + ctx.str("comment", 2, 0, "a'\"#{")
    a = ctx.str("a", size, 0, "a#'\"\\ \n")
    b = ctx.str("b", size, 0, "a#' ")
    form = ctx.pick("form", ["plain", "joined", "trailing", "list", "double"])
    lit = repr_py(ctx, a)
    want = {"variables": {"k": a, "n": 1}}
    if form == "plain":
        t = comment + "\n{'variables': {'k': " + lit + ", 'n': 1}}\n"
    elif form == "joined":
        q = ctx.pick("indent", ["\n", "\n     ", " \n "])
        ctx.assume(lit[0] == "'" and "'" not in b)
        ctx.assume(q[0] == "\n")
        t = "{'variables': {'k': " + lit + q + "'" + b + "',\n 'n': 1}}"
        want["variables"]["k"] = a + b
    elif form == "trailing":
        t = "{'variables': {" + comment + "\n 'k': " + lit + ", " + comment + "\n\n 'n': 1}}" + comment
    elif form == "list":
        t = "{'variables': {'k': [" + lit + ",\n " + repr_py(ctx, b) + "], 'n': 1}}"
        want["variables"]["k"] = [a, b]
    else:
        ctx.assume("\"" not in a and "\\" not in a and "\n" not in a)
        t = comment + "\n{\"variables\": {\"k\": \"" + a + "\", \"n\": 1}}\n"
    r = ctx.js("config.js", "parse", {"text": t})
    ctx.observe(r["config"])
    ctx.check(r["config"] == want, "a configuration file is read differently from what it says")


HARNESSES = [
    Harness(create, dict(plats=["linux", "win32"], n=1, size=1, vary=[["node", "user"], ["arch", "user"], ["opts"]]),
            dict(plats=["linux", "win32"], n=2, size=2, vary=[["node", "user", "arch"], ["opts", "node"], ["opts", "arch"]]),
            bounds="node's configuration full, empty or with a build type; --debug, --arch, --thin and any one other option (thorough: two), known, unknown or overriding, values of up to 1 (2) characters with quotes, backslashes, newlines, #"),
    Harness(source, dict(size=2), dict(size=3), bounds="--nodedir, --dist-url, --force-process-config with a good, damaged or missing file"),
    Harness(reading, dict(size=2, n=1), dict(size=3, n=1), bounds="comments of up to 2 characters, strings of up to 2 (3) characters with both quotes, backslashes, newlines and #, continued strings"),
]
