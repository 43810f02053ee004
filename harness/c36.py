import json
from symex.api import Harness
import hlib

PROPERTY = "C36"
JS = True
PRELOAD = []
ASSUMPTIONS = [
    "the file system, `which` and the tool itself are models; config.gypi is as configure writes it",
]
PLATFORMS = ["linux", "darwin", "win32", "freebsd", "openbsd", "netbsd", "aix", "os400", "os390", "sunos"]
BSD = ["freebsd", "openbsd", "netbsd", "netbsd", "aix", "os400"]


def config(debug, arch, python, msbuild):
    v = {"target_arch": arch, "nodedir": "/n # d", "python": python}
    if msbuild is not None:
        v["msbuild_path"] = msbuild
    d = {"cflags": []}
    if debug is not None:
        d["default_configuration"] = debug
    return "# Do not edit. File was generated by node-gyp's \"configure\" step\n" + json.dumps({"target_defaults": d, "variables": v}, indent=2) + "\n"


def take(argv, words):
    """removes the words, which must follow each other, from argv; None if they are not there exactly once"""
    n = len(words)
    at = [i for i in range(len(argv) - n + 1) if all(argv[i + k] == words[k] for k in range(n))]
    if len(at) != 1:
        return None
    return argv[:at[0]] + argv[at[0] + n:]


def number(ctx, jobs):
    """how many jobs the text asks for: a number, 'max' for one per processor, or None"""
    s = jobs.lstrip(" ")
    d = ""
    for c in s:
        if c not in "0123456789":
            break
        d += c
    if d != "":
        return int(d) if int(d) > 0 else None
    return "max" if jobs in ("max", "MAX", "Max", "mAx", "maX", "MAx", "MaX", "mAX") else None


def base(ctx, plats):
    plat = ctx.pick("platform", plats)
    win = plat == "win32"
    return {"platform": plat, "opts": [], "env": [["PATH", "/usr/bin"]], "argv": [], "verbose": False, "makefile": not win, "slns": ["build/binding.sln"] if win else [], "mk": False,
            "notool": False, "exit": [0, None], "fail": None, "files": []}, win


def put_config(inp, win, text):
    inp["files"] = [["C:\\usr\\share\\build\\config.gypi" if win else "/usr/share/build/config.gypi", text]]


def check_command(ctx, r, inp, win, msvs, tool, user, btype, arch, jobs, sln, verbose, python):
    ctx.check(len(r["spawns"]) == 1, "the tool is not run exactly once")
    if len(r["spawns"]) != 1:
        return
    s = r["spawns"][0]
    ctx.check(s["command"] == tool, "another tool is run")
    argv = s["argv"]
    n = number(ctx, jobs) if jobs is not None else None
    if n == "max":
        n = 7
    if msvs:
        own = [u for u in user if u[-4:] == ".sln"]
        if not own:
            ctx.check(argv[:1] == [sln], "the solution is not built")
            argv = argv[1:]
        plat = {"x64": "x64", "arm": "ARM", "arm64": "ARM64", "ia32": "Win32", "X64": "x64", "mips": "Win32"}[arch]
        must = [["/nologo"], ["/p:Configuration=" + btype + ";Platform=" + plat]]
        if not verbose:
            must.append(["/clp:Verbosity=minimal"])
        if n is not None:
            must.append(["/m:" + str(n)])
        want = [u if u[-4:] == ".sln" else "/t:" + u for u in user]
    else:
        must = [["BUILDTYPE=" + btype], ["-C", "build"]]
        if verbose:
            must.append(["V=1"])
        if n is not None:
            must.append(["--jobs", str(n)])
        want = user
    for m in must:
        rest = take(argv, m)
        ctx.check(rest is not None, "the tool is not told what to build")
        if rest is None:
            return
        argv = rest
    ctx.check(argv == want, "the user's arguments are not passed on in order")
    if not win:
        ctx.check(s["link"] is not None and s["link"][0] == python and s["link"][1] == "/usr/share/build/node_gyp_bins/python3" and
                  s["path"][:len("/usr/share/build/node_gyp_bins:")] == "/usr/share/build/node_gyp_bins:" and s["path"][-9:] == ":/usr/bin",
                  "the tool does not find the configured Python")


def command(ctx, plats, n, size, vary):
    """the command line"""
    group = ctx.pick("vary", vary)
    pick = hlib.varier(ctx, group)
    inp, win = base(ctx, plats if "tool" in group else plats[:1])
    conf = pick("conf", "conf", ["Release", "Debug", None])
    arch = pick("conf", "arch", ["x64", "arm", "arm64", "ia32", "X64", "mips"]) if win else "x64"
    put_config(inp, win, config(conf, arch, "/p y", "C:\\vs\\msbuild.exe"))
    debug = pick("conf", "debug", [None, True, False])
    if debug is not None:
        inp["opts"].append(["debug", debug])
    make = pick("tool", "make", ["", "opt", "env", "both"])
    if make in ("opt", "both"):
        inp["opts"].append(["make", "m k"])
    if make in ("env", "both"):
        inp["env"].append(["MAKE", "emake"])
    jobs = None
    jk = pick("jobs", "jobs", ["", "opt", "env", "both"])
    if jk in ("opt", "both"):
        jobs = ctx.str("j", size, 0, "01 x-maX")
        inp["opts"].append(["jobs", jobs])
        if len(jobs) == 0:
            jobs = None
    if jk in ("env", "both"):
        inp["env"].append(["JOBS", "3"])
        jobs = "3" if jobs is None else jobs
    solution = pick("args", "solution", [None, "x\\own.sln"]) if win else None
    if solution is not None:
        inp["opts"].append(["solution", solution])
    msvs = win
    if win:
        how = pick("tool", "generated", ["sln", "two", "make", "mk"])
        inp["slns"] = {"sln": ["build/binding.sln"], "two": ["build/a.sln", "build/b.sln"], "make": [], "mk": []}[how]
        inp["makefile"], inp["mk"] = how == "make", how == "mk"
        msvs = how in ("sln", "two")
    inp["verbose"] = pick("conf", "verbose", [False, True])
    user = []
    for i in range(pick("args", "n", list(range(n + 1)))):
        user.append(ctx.str("u%d" % i, 2, 1, "ab=- ") + (pick("args", "ext", ["", ".sln"]) if win and i == 0 else ""))
    inp["argv"] = user[:]
    tool = "C:\\vs\\msbuild.exe"
    if not msvs:
        tool = "m k" if make in ("opt", "both") else "emake" if make == "env" else "gmake" if inp["platform"] in BSD else "make"
    r = ctx.js("build.js", "build", inp)
    ctx.observe(r["ok"], r["spawns"])
    ctx.check(r["ok"], "a build fails without a reason")
    ctx.check(msvs or r["whiches"] == [tool], "the tool is not looked for")
    btype = ("Debug" if debug else "Release") if debug is not None else conf if conf is not None else "Release"
    check_command(ctx, r, inp, win, msvs, tool, user, btype, arch, jobs, solution if solution is not None else (inp["slns"] + [None])[0], inp["verbose"], "/p y")
    ctx.check(not any("node_gyp_bins" in f[0] for f in r["files"]), "files that were only needed for building are left behind")


def result(ctx, plats, last):
    """how the tool ends, and any failing operation"""
    inp, win = base(ctx, plats)
    msbuild = ctx.pick("msbuild", [True, False])
    put_config(inp, win, config("Release", "x64", "/p", "C:\\m.exe" if msbuild else None))
    state = ctx.pick("state", ["ok", "unconfigured", "nothing", "notool", "left"])
    if state == "unconfigured":
        inp["files"] = []
    if state == "nothing":
        inp["slns"], inp["makefile"] = [], False
    inp["notool"] = state == "notool"
    if state == "left" and not win:
        inp["files"].append(["/usr/share/build/node_gyp_bins/python3", "old"])
    code = ctx.int("code", -1, 3)
    sig = ctx.pick("signal", [None, "SIGKILL"])
    inp["exit"] = [code, sig]
    if ctx.pick("nocode", [False, True]):
        inp["exit"][0] = None
        code = None
    at = ctx.int("at", -1, last)
    inp["fail"] = {"at": at, "code": ctx.pick("failcode", ["EACCES", "ENOENT"])}
    r = ctx.js("build.js", "build", inp)
    ctx.observe(r["ok"], [x[0] for x in r["log"]])
    failed = [x for x in r["log"] if x[0] == "fail"]
    if r["ok"] is None:
        # the error of the handler leaves it: node reports it as an uncaught exception, and the program fails
        ctx.check("$unhandled" in r and failed[0][1] == "rm", "the command never ends")
        return
    harmless = [x for x in failed if x[1] == "unlink" and inp["fail"]["code"] == "ENOENT" and state != "left"]
    good = code == 0 and sig is None
    if state == "unconfigured" or (failed and failed[0][1] == "readFile"):
        good = False
        ctx.check(r["spawns"] == [], "the tool is run without a configuration")
        if state == "unconfigured" and not failed or failed and inp["fail"]["code"] == "ENOENT":
            ctx.check(r["error"] is not None and "node-gyp configure" in r["error"][0], "no hint to configure first")
        elif failed:
            ctx.check(r["error"] is not None and r["error"][1] == "EACCES", "another error than the one that happened")
    if win and (state == "nothing" or not msbuild):
        good = False
    if state == "notool" and not win:
        good = False
    if [x for x in failed if x not in harmless]:
        good = False
    ctx.check(r["ok"] == good, "the command does not tell whether the tool succeeded")
    ctx.check(r["ok"] or r["error"] is not None, "failure without an error")
    ctx.check(not r["ok"] or len(r["spawns"]) == 1, "success without a build")
    if not failed and r["spawns"]:
        ctx.check(not any("node_gyp_bins" in f[0] for f in r["files"]), "files that were only needed for building are left behind")


def posix(ctx, **k):
    command(ctx, **k)


def windows(ctx, **k):
    command(ctx, **k)


POSIX = [p for p in PLATFORMS if p != "win32"]
VARY = [["conf", "tool"], ["jobs"], ["args"]]
ALL = [["conf", "jobs"], ["conf", "args"], ["tool", "args"], ["jobs", "args"], ["tool", "jobs"], ["conf", "tool"]]
HARNESSES = [
    Harness(posix, dict(plats=POSIX, n=2, size=3, vary=VARY), dict(plats=POSIX, n=2, size=4, vary=ALL),
            bounds="build type from configuration and --debug, --make and MAKE, --jobs (up to 3 characters; thorough 4) and JOBS, up to 2 arguments of up to 2 characters, 9 platforms; these groups vary alone or in one pair (thorough: in pairs)"),
    Harness(windows, dict(plats=["win32"], n=2, size=3, vary=VARY), dict(plats=["win32"], n=2, size=4, vary=ALL),
            bounds="as posix, with solutions and make files, 6 architectures, --solution"),
    Harness(result, dict(plats=["linux", "win32"], last=6), bounds="any exit code and signal, every operation failing (up to the 6th), missing configuration, tool, solution"),
]
