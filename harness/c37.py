from symex.api import Harness
import hlib

PROPERTY = "C37"
JS = True
PRELOAD = []
ASSUMPTIONS = [
    "programs are models: asked for its path a command prints one or fails with no output, asked for its version a Python prints three numbers",
    "the Python programs named in different places are different files",
]


def version(ctx, tag, detail):
    """what a program prints when asked for its version, and whether that is a supported Python"""
    kind = ctx.pick(tag + "k", ["num", "none", "junk"] if detail else ["num", "none"])
    if kind == "none":
        return {"out": "", "err": "ENOENT"}, False
    if kind == "junk":
        return {"out": ctx.pick(tag + "j", ["hello\n", "3.9\n", "3.9.1 x\n", "\n"]), "err": None}, False
    if not detail:
        a, b, c = "3", ctx.pick(tag + "b", ["5", "6"]), "9" if kind == "num" else "0"
    else:
        a = ctx.str(tag + "a", 1, 1, "0123456789")
        b = ctx.str(tag + "b", 2, 1, "0123456789")
        c = ctx.str(tag + "c", 1, 1, "0123456789")
    if len(b) == 2:
        ctx.assume(b[0] != "0")
    major, minor = int(a), int(b)
    return {"out": a + "." + b + "." + c + ("\n" if len(b) == 1 else "\r\n"), "err": None}, ctx.Or(major > 3, ctx.And(major == 3, minor >= 6))


def program(ctx, tag, path, detail):
    """a command: not there, or one that leads to a path with a version"""
    if ctx.pick(tag + "there", [True, False]):
        v, ok = version(ctx, tag, detail)
        return {"out": path + "\n", "err": None}, v, ok
    return {"out": "", "err": ctx.choice(tag + "e", ["ENOENT", "EACCES"])}, None, False


def order(ctx, win, named, detail):
    """the documented order over any outcomes"""
    pre = "C:\\Program Files\\" if win else "/opt/a b/"
    env, commands, versions = [], [], []
    cand = []
    forced = ctx.pick("forced", [False, True])
    config = None

    def add(tag, word, on):
        path = pre + tag
        p, v, ok = program(ctx, tag, path, detail == tag)
        commands.append([word, p])
        if v is not None:
            versions.append([path, v])
        if on:
            cand.append((path, ok))

    if forced:
        env.append(["NODE_GYP_FORCE_PYTHON", pre + "forced me"])
        add("f", pre + "forced me", True)
    if named and ctx.pick("config", [True, False]):
        config = "cfg" if win else pre + "cfg"
        add("c", config, not forced)
    elif ctx.pick("emptyconfig", [False, True]):
        config = ""
    if named and ctx.pick("envset", [True, False]):
        env.append(["PYTHON", pre + "env py"])
        add("e", pre + "env py", not forced)
    if not forced:
        if win:
            add("l", "py.exe", True)
        add("p3", "python3", True)
        add("p", "python", True)
    else:
        commands += [["python3", {"out": "/p3\n", "err": None}], ["python", {"out": "/p3\n", "err": None}], ["py.exe", {"out": "/p3\n", "err": None}]]
        versions.append(["/p3", {"out": "3.9.1\n", "err": None}])
    r = ctx.js("python.js", "find", {"platform": "win32" if win else "linux", "env": env, "commands": commands, "versions": versions,
                                     "config": config, "nouser": False})
    ctx.observe(r["path"], len(r["calls"]))
    chosen = None
    for path, ok in cand:
        if ok:
            chosen = path
            break
    if chosen is None:
        ctx.check(r["path"] is None and r["error"] is not None, "a Python is used although none qualifies")
    else:
        ctx.check(r["path"] == chosen, "another Python than the first one that qualifies")


def defaults(ctx, n, detail):
    """Windows: nothing is named, Pythons are in default locations"""
    env = []
    local = ctx.pick("local", [True, False])
    if local:
        env.append(["LOCALAPPDATA", "D:\\me\\Local"])
    roots = ["C:\\Program Files\\Python%s", "C:\\Program Files\\Python%s-32", "C:\\Program Files (x86)\\Python%s-32"]
    if ctx.pick("programs", [True, False]):
        env += [["ProgramW6432", "E:\\P"], ["ProgramFiles", "E:\\No"], ["ProgramFiles(x86)", "E:\\P6"]]
        roots = ["E:\\P\\Python%s", "E:\\P\\Python%s-32", "E:\\P6\\Python%s-32"]
    if local:
        roots = ["D:\\me\\Local\\Programs\\Python\\Python%s", "D:\\me\\Local\\Programs\\Python\\Python%s-32"] + roots
    versions = []
    best = -1
    good = {}
    for i in range(n):
        root = ctx.pick("root%d" % i, roots if i == 0 or detail else [roots[0], root] if root != roots[0] else [root])
        minor = ctx.pick("minor%d" % i, [8, 9, 10, 11])
        path = (root % ("3%d" % minor)) + "\\python.exe"
        ctx.assume(all(path != x[0] for x in versions))
        v, ok = version(ctx, "v%d" % i, detail and i == 0)
        versions.append([path, v])
        good[path] = (ok, minor)
    r = ctx.js("python.js", "find", {"platform": "win32", "env": env, "commands": [], "versions": versions, "config": None, "nouser": ctx.pick("nouser", [False, True])})
    ctx.observe(r["path"])
    for p in good:
        if good[p][0]:
            best = max(best, good[p][1])
    if best < 0:
        ctx.check(r["path"] is None and r["error"] is not None, "a Python is used although none qualifies")
    else:
        ctx.check(r["path"] in good and good[r["path"]][0] and good[r["path"]][1] == best, "not the newest Python of the default locations")


def posix(ctx, detail):
    order(ctx, False, True, ctx.pick("detail", detail))


def windows(ctx, detail, named):
    d = ctx.pick("detail", detail)
    order(ctx, True, named and d != "l", d)


HARNESSES = [
    Harness(posix, dict(detail=["", "c", "p"]), dict(detail=["", "c", "f", "e", "p3", "p"]),
            bounds="every combination of NODE_GYP_FORCE_PYTHON, --python, PYTHON, python3, python, each missing, without a version, 3.5.9 or 3.6.9; one of them with any version 0-9.0-99.0-9 or other output", validate=6),
    Harness(windows, dict(detail=["", "l"], named=True), dict(detail=["", "l", "c", "e", "p"], named=True), bounds="as posix with the py launcher", validate=6),
    Harness(defaults, dict(n=2, detail=False), dict(n=2, detail=True), bounds="two Pythons in any of the default locations (quick: the second in the same or the first of them), with and without the variables that name them", validate=4),
]
