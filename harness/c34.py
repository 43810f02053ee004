from symex.api import Harness
import hlib

PROPERTY = "C34"
JS = True
PRELOAD = []
ASSUMPTIONS = [
    "the file system, finding Python and Visual Studio, installing headers and gyp itself are models",
    "extra arguments do not start with a version number (that selects the version to compile for) and use gyp's options in the documented forms",
]


def parsed(argv):
    """gyp's reading of a command line"""
    r = {"files": [], "f": [], "I": [], "D": [], "G": [], "other": []}
    i = 0
    while i < len(argv):
        a = argv[i]
        if a in ("-f", "--format", "-I", "-D", "-G"):
            r["f" if a == "--format" else a[1:]].append(argv[i + 1] if i + 1 < len(argv) else None)
            i += 1
        elif a in ("--generator-output", "--depth"):
            r["other"].append(a + "=" + argv[i + 1])
            i += 1
        elif a[:9] == "--format=":
            r["f"].append(a[9:])
        elif a[:2] in ("-I", "-D", "-G"):
            r[a[1:2]].append(a[2:])
        elif a[:1] == "-":
            r["other"].append(a)
        else:
            r["files"].append(a)
        i += 1
    return r


def last(defs, name):
    """the value that counts for a variable"""
    v = None
    for d in defs:
        if d[:len(name) + 1] == name + "=":
            v = d[len(name) + 1:]
    return v


FORMATS = {"none": [], "-f": ["-f", "ninja"], "--format": ["--format", "ninja"], "=": ["--format=ninja"], "make": ["-f", "make"], "=make": ["--format=make-linux"],
           "--make": ["--format", "make"], "two": ["-f", "ninja", "-f", "make"]}


ALLF = list(FORMATS)
KINDS = ["default", "target", "nodedir", "home", "nodedirtarget", "prefix"]


def setup(ctx, win, plat):
    root = "C:\\usr\\share" if win else "/usr/share"
    sep = "\\" if win else "/"
    return {"platform": plat, "opts": [], "env": [["PATH", "/usr/bin"], ["PYTHON", "/other"]], "engine": None, "argv": [], "files": [], "prefix": None, "execPath": "/opt/bin/node", "nopython": False, "novs": False,
            "noinstall": False, "year": 2019, "exit": 0, "fail": None}, root, sep


def where(ctx, inp, win, sep, kinds):
    """which node directory is used: (directory, header version to install or None)"""
    kind = ctx.pick("where", kinds)
    dev = ("D:\\dev" if win else "/dev/ng") + sep
    if kind == "default":
        return dev + "18.1.0", "18.1.0"
    if kind == "target":
        inp["opts"].append(["target", "v16.2.0"])
        return dev + "16.2.0", "16.2.0"
    if kind in ("nodedir", "home", "nodedirtarget"):
        d = "/n ~d" if kind != "home" else "~/n"
        if win:
            d = "E:\\n ~d" if kind != "home" else "~\\n"
        inp["opts"].append(["nodedir", d])
        if kind == "nodedirtarget":
            inp["opts"].append(["target", "16.2.0"])
        return d if kind != "home" else ("C:\\me\\n" if win else "/home/me/n"), None
    # the prefix node was configured with, if the headers there are of the right version
    inp["prefix"] = "C:\\pre" if win else "/pre"
    h = inp["prefix"] + sep + sep.join(["include", "node", "node_version.h"])
    a = ctx.str("prea", 2, 1, "18")
    b = ctx.str("preb", 2, 1, "16")
    text = ctx.pick("pretext", ["ok", "missing", "junk"])
    if text == "ok":
        inp["files"].append([h, "// x\n#define NODE_MAJOR_VERSION " + a + "\n#define NODE_MINOR_VERSION " + b + "\n#define NODE_PATCH_VERSION 0\n"])
        if a == "18" and b == "1":
            return inp["prefix"], None
    elif text == "junk":
        inp["files"].append([h, "nothing"])
    return dev + "18.1.0", "18.1.0"


def command(ctx, plat, n, vary):
    def pick(group, tag, opts):
        return ctx.pick(tag, opts) if group in vary else opts[0]

    win = plat == "win32"
    inp, root, sep = setup(ctx, win, plat)
    nodedir, version = where(ctx, inp, win, sep, KINDS if "dirs" in vary else ["default", "nodedir"])
    if pick("dirs", "tarball", [False, True]):
        inp["opts"].append(["tarball", "/t.tgz"])
    fmt = FORMATS[pick("args", "format", ALLF)]
    user = []
    for i in range(pick("args", "n", list(range(n + 1)))):
        k = ctx.pick("u%dk" % i, ["-D", "-I", "word", "-G"])
        v = ctx.str("u%d" % i, 2, 1, "ab=")
        user += {"-D": ["-D" + v], "-I": ["-I", v], "word": [v], "-G": ["-G" + v]}[k]
    after = pick("args", "after", [False, True]) if user else False
    inp["argv"] = user + fmt if after else fmt + user
    pypath = pick("env", "pypath", [None, "", "/a"])
    if pypath is not None:
        inp["env"].append(["PYTHONPATH", pypath])
    python = pick("env", "python", [None, "/my py"])
    if python is not None:
        inp["opts"].append(["python", python])
    want = []
    for f in ("config.gypi", "common.gypi"):
        if pick("dirs", f[:3], [True, False]):
            inp["files"].append([root + sep + f, "{}"])
            want.append(root + sep + f)
    common = nodedir + sep + "common.gypi"
    if pick("dirs", "nodecommon", [True, False]):
        common = sep.join([nodedir, "include", "node", "common.gypi"])
        inp["files"].append([common, "{}"])
    inp["year"] = pick("env", "year", [2013, 2015, 2019, 2022]) if win else 2019
    engine = pick("env", "engine", [None, "chakra"])
    inp["engine"] = pick("env", "own", [None, "quick"])
    if engine is not None:
        inp["opts"].append(["node_engine", engine])
    asked = parsed(inp["argv"])
    r = ctx.js("configure.js", "configure", inp)
    ctx.observe(r["ok"], r["spawns"], r["installs"])
    ctx.check(r["ok"] and len(r["spawns"]) == 1, "configuring fails without a reason")
    if not r["ok"] or len(r["spawns"]) != 1:
        return
    s = r["spawns"][0]
    ng = "C:\\ng" if win else "/ng"
    ng = "\\ng" if win else "/ng"
    argv = s["argv"]
    py = python if python is not None else "/usr/bin/py"
    ctx.check(s["command"] == py, "another Python is used")
    ctx.check(argv[0][-len(sep.join(["ng", "gyp", "gyp_main.py"])):] == sep.join(["ng", "gyp", "gyp_main.py"]), "another gyp is used")
    got = parsed(argv[1:])
    ctx.check(got["files"] == ["binding.gyp"] + asked["files"] or got["files"] == asked["files"] + ["binding.gyp"], "other build files than asked for")
    ctx.check(got["f"] == (asked["f"] if asked["f"] else ["msvs" if win else "make"]), "another generator than asked for")
    addon = [x for x in got["I"] if x[-len("ng" + sep + "addon.gypi"):] == "ng" + sep + "addon.gypi"]
    mine = [root + sep + "build" + sep + "config.gypi"] + want + addon + [common]
    ctx.check(len(addon) == 1 and got["I"] == asked["I"] + mine, "the include files differ, or their order")
    ctx.check(asked["G"] == got["G"][:len(asked["G"])] and got["G"][len(asked["G"]):] == ["output_dir=."], "generator flags are lost")
    ctx.check(got["D"][:len(asked["D"])] == asked["D"], "the user's variables are lost")
    defs = got["D"]
    lib = nodedir + sep + ("<(target_arch)" if version is not None else "$(Configuration)") + sep + "node.lib"
    for name, v in [["library", "shared_library"], ["visibility", "default"], ["node_root_dir", nodedir], ["module_root_dir", root],
                    ["node_engine", engine if engine is not None else inp["engine"] if inp["engine"] is not None else "v8"], ["node_lib_file", lib.replace("\\", "\\\\") if win else lib]]:
        ctx.check(last(defs, name) == v, "a variable has another value: " + name)
    ctx.check(last(defs, "node_gyp_dir")[-3:] == sep + "ng", "a variable has another value: node_gyp_dir")
    for o in ["--depth=.", "--no-parallel", "--generator-output=" + (root + sep + "build" if win else "build")]:
        ctx.check(o in got["other"], "gyp is not told " + o)
    env = {x[0]: x[1] for x in s["env"]}
    ctx.check(env["PYTHON"] == py, "PYTHON differs from the Python used")
    lib = sep.join(["ng", "gyp", "pylib"])
    p = env["PYTHONPATH"]
    first = p.split(";" if win else ":")[0]
    ctx.check(first[-len(lib):] == lib and p == first + ((";" if win else ":") + pypath if pypath else ""), "gyp does not find its modules first")
    if version is not None:
        ctx.check(r["installs"] == [[[version], not any(o[0] == "tarball" for o in inp["opts"])]], "the headers that are needed are not installed")
    else:
        ctx.check(r["installs"] == [], "headers are installed although a directory was given")
    if win:
        make = [f for f in asked["f"] if f[:4] == "make"] != []
        ctx.check(len(r["vs"]) == (0 if make else 1), "Visual Studio is not looked for when it is needed")
        if not make:
            ctx.check(env["GYP_MSVS_VERSION"] == str(min(inp["year"], 2015)) and env["GYP_MSVS_OVERRIDE_PATH"] == "C:\\VS", "another Visual Studio is used")
    files = {f[0]: f[1] for f in r["files"]}
    ctx.check(root + sep + "build" + sep + "config.gypi" in files, "no configuration is written")




def failing(ctx, last):
    """every step that can fail"""
    plat = ctx.pick("platform", ["linux", "win32"])
    win = plat == "win32"
    inp, root, sep = setup(ctx, win, plat)
    nodedir, version = where(ctx, inp, win, sep, ["default", "nodedir"])
    inp["files"].append([root + sep + "config.gypi", "{}"])
    what = ctx.pick("what", ["nothing", "python", "vs", "install", "version", "gyp", "step"])
    inp["nopython"] = what == "python"
    inp["novs"] = what == "vs"
    inp["noinstall"] = what == "install"
    code = 0
    if what == "version":
        ctx.assume(version is not None)
        inp["opts"].append(["target", ctx.str("version", 2, 1, "x1.")])
    if what == "gyp":
        code = ctx.int("exit", -1, 2)
        inp["exit"] = None if ctx.pick("signal", [False, True]) else code
    at = -1
    fcode = ctx.pick("code", ["EACCES", "ENOENT"])
    if what == "step":
        at = ctx.int("at", 0, last)
        inp["fail"] = {"at": at, "code": fcode}
    r = ctx.js("configure.js", "configure", inp)
    ctx.observe(r["ok"], r["log"], len(r["spawns"]))
    good = True
    if what == "python" or (what == "vs" and win) or (what in ("install", "version") and version is not None):
        good = False
        ctx.check(r["spawns"] == [], "gyp is run although something it needs is missing")
        ctx.check(what == "vs" or not any(x[0] == "writeFile" for x in r["log"]), "a configuration is written although something it needs is missing")
    if what == "gyp" and (inp["exit"] is None or code != 0):
        good = False
    failed = [x for x in r["log"] if x[0] == "fail"]
    if failed and not (failed[0][1] == "stat" and (fcode == "ENOENT" or failed[0][2][-len("common.gypi"):] == "common.gypi" and nodedir in failed[0][2])) and failed[0][1] != "readFile":
        good = False
        ctx.check(r["spawns"] == [], "gyp is run although something it needs is missing")
    ctx.check(r["ok"] == good, "the command does not tell whether configuring succeeded")
    ctx.check(r["ok"] or r["error"] is not None, "failure without an error")
    if failed and not good:
        ctx.check(r["error"][1] == fcode, "another error than the one that happened")


def exports(ctx, n):
    """AIX, IBM i and z/OS: the file with node's exports and the zoslib headers"""
    plat = ctx.pick("platform", ["aix", "os400", "os390"])
    inp, root, sep = setup(ctx, False, plat)
    at = ctx.pick("node", ["bin", "Release", "other"])
    base, inp["execPath"] = {"bin": ("/opt", "/opt/bin/node"), "Release": ("/src/node", "/src/node/out/Release/node"), "other": (root, "/x/node")}[at]
    ext = ".x" if plat == "os390" else ".exp"
    if plat == "os390":
        cand = ["out/Release/lib.target/libnode", "out/Debug/lib.target/libnode", "out/Release/obj.target/libnode", "out/Debug/obj.target/libnode", "lib/libnode"]
    else:
        cand = ["include/node/node", "out/Release/node", "out/Debug/node", "node"]
    first = None
    for c in cand:
        if ctx.pick(c, [False, True]):
            inp["files"].append([base + "/" + c + ext, "#!"])
            first = base + "/" + c + ext if first is None else first
    inc = None
    must = False
    if plat == "os390":
        v = ctx.pick("version", ["18.1.0", "16.0.0", "15.9.0"])
        inp["opts"] += [["nodedir", "/n"], ["target", v]]
        must = v != "15.9.0"
        env = ctx.pick("env", [None, "/zos", "/none"])
        zc = ["include/node/zoslib", "include/zoslib", "zoslib/include", "install/include/node/zoslib"]
        if env is not None:
            inp["env"].append(["ZOSLIB_INCLUDES", env])
            inp["files"].append(["/zos/zos-base.h", "h"])
            inc = "/zos" if env == "/zos" else None
        have = ctx.pick("zoslib", [[], [0], [1], [2], [3], [1, 3], [0, 2]])
        for z in have:
            inp["files"].append([base + "/" + zc[z] + "/zos-base.h", "h"])
            if env is None and inc is None:
                inc = base + "/" + zc[z]
    r = ctx.js("configure.js", "configure", inp)
    ctx.observe(r["ok"], r["spawns"])
    good = first is not None and (inc is not None or not must)
    ctx.check(r["ok"] == good and (r["ok"] or r["error"] is not None), "the command does not tell whether it found what it needs")
    ctx.check(good or r["spawns"] == [], "gyp is run although something it needs is missing")
    if r["ok"]:
        defs = parsed(r["spawns"][0]["argv"])["D"]
        ctx.check(last(defs, "node_exp_file") == first, "another exports file than the first there is")
        ctx.check(last(defs, "zoslib_include_dir") == inc, "another zoslib directory")


def posix(ctx, n, vary):
    command(ctx, "linux", n, ctx.pick("vary", vary))


def windows(ctx, n, vary):
    command(ctx, "win32", n, ctx.pick("vary", vary))


VARY = [["args"], ["dirs"], ["env"]]
PAIRS = [["args", "env"], ["dirs"], ["args", "year"]]
HARNESSES = [
    Harness(posix, dict(n=1, vary=VARY), dict(n=2, vary=PAIRS),
            bounds="8 ways to select a generator with up to 1 extra argument (thorough 2) in both orders, 6 ways to select the node directory with any of the files there, Python, PYTHONPATH and engine; these groups vary alone"),
    Harness(windows, dict(n=1, vary=VARY), dict(n=2, vary=PAIRS), bounds="as posix, with Visual Studio"),
    Harness(failing, dict(last=6), bounds="any step failing: Python, Visual Studio, header install, version, gyp's exit code or signal, each file operation (up to the 6th) with two errors"),
    Harness(exports, dict(n=0), bounds="any subset of the candidate files on 3 platforms", validate=3),
]
