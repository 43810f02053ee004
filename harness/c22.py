import posixpath

from symex.api import Harness
import hlib

PROPERTY = "C22"
PRELOAD = ["gyp", "gyp.common", "gyp.input", "gyp.simple_copy"]
ASSUMPTIONS = ["loading and generating are stand-ins that record what they are given", "argparse (standard library) is interpreted too",
               "regenerated commands run in the directory named by --depth, as RegenerateFlags documents",
               "the format, --no-circular-check and --no-parallel are documented as not recorded"]
G = "gyp"


def _b(x):
    return bool(x)


def integer(v):
    """the value of text that is an integer in the reading of int(), else None"""
    i, n = 0, len(v)
    while i < n and v[i] in " \t\n\r\x0b\x0c":
        i += 1
    while n > i and v[n - 1] in " \t\n\r\x0b\x0c":
        n -= 1
    neg = False
    if i < n and v[i] in "+-":
        neg = _b(v[i] == "-")
        i += 1
    if i == n:
        return None
    r = 0
    digit = False
    for c in v[i:n]:
        if "0" <= c <= "9":
            r = r * 10 + (ord(c) - 48)
            digit = True
        elif c == "_" and digit:
            digit = False
        else:
            return None
    return (-r if neg else r) if digit else None


def settings(items):
    """names and values of NAME=VALUE texts, in order, later ones first in effect"""
    out = []
    for t in items:
        k = t.find("=")
        name, value = (t, True) if k < 0 else (t[:k], t[k + 1:])
        if k >= 0:
            v = integer(value)
            value = v if v is not None else value
        out = [(a, b) for a, b in out if not _b(a == name)] + [(name, value)]
    return out


def _kind(v):
    return "flag" if v is True else "text" if hasattr(v, "find") else "number"


def same_settings(ctx, got, want, msg):
    ctx.check(len(got) == len(want), msg + ": other names")
    for k, v in want:
        hit = [w for n, w in got.items() if _b(n == k)]
        ctx.check(len(hit) == 1, msg + ": a name is lost")
        ctx.check(_kind(hit[0]) == _kind(v) and _b(hit[0] == v), msg + ": another value")


def pairs(ctx, n, k, alphabet):
    """texts NAME=VALUE become exactly that name and value; the last one of a name wins"""
    items = [ctx.str("i%d" % i, n if i == k - 1 else 2, 1, alphabet=alphabet if i == k - 1 else "a=1") for i in range(k)]
    got = ctx.fn(G, "NameValueListToDict")(items)
    ctx.observe([(a, b) for a, b in got.items()])
    same_settings(ctx, got, settings(items), "the settings differ")


def words(ctx, n):
    """the words of an environment variable are those a shell would make of it"""
    t = ctx.str("t", n, 0, alphabet="ab '\"\\=")
    ctx.patch("os", "environ", {"GYP_DEFINES": t})
    try:
        want = hlib.posix_split(t)
    except hlib.Bad:
        want = None
    try:
        got = ctx.fn(G, "ShlexEnv")("GYP_DEFINES")
    except ValueError:
        got = None
    ctx.observe(got)
    ctx.check((got is None) == (want is None), "a malformed variable is accepted" if want is None else "a variable is refused")
    if want is not None:
        ctx.check(len(got) == len(want) and all(_b(a == b) for a, b in zip(got, want)), "the words of a variable differ")
    ctx.patch("os", "environ", {})
    ctx.check(ctx.fn(G, "ShlexEnv")("GYP_DEFINES") == [], "an absent variable has words")


class Run:
    """one run of gyp_main with everything it hands on"""

    def __init__(self, ctx, args, env, cwd, exists):
        self.cwd = cwd
        run = self

        def norm(p):
            return posixpath.normpath(posixpath.join(cwd, p))

        class Generator:
            def GenerateOutput(flat, targets, data, params):
                run.params = params
                run.flags = ctx.fn(G, "RegenerateFlags")(params["options"])

            def PerformBuild(data, configs, params):
                run.builds = configs

        def load(build_files, format, default_variables={}, includes=[], depth=".", params=None, check=False, circular_check=True):
            run.n = getattr(run, "n", 0) + 1
            run.variables, run.includes, run.depth, run.check, run.circular = default_variables, includes, depth, check, circular_check
            run.files, run.format = build_files, format
            return [Generator, ["t"], {"t": {"configurations": {"A": {}, "B b": {}}}}, {}]
        e = dict(env)
        ctx.patch("os", "environ", e)
        ctx.patch("os", "getenv", lambda k, d=None: e.get(k, d))
        ctx.patch("os", "getcwd", lambda: cwd)
        ctx.patch("os.path", "exists", lambda p: _b(hlib.isin(norm(p), exists)))
        ctx.patch("os.path", "expanduser", lambda p: "/h" + p[1:] if p[:1] == "~" else p)
        ctx.patch("os", "listdir", lambda p: ["x.txt", "found.gyp"])
        ctx.patch("sys", "argv", ["/g/gyp_main.py"] + [a for a in args])
        ctx.patch(G, "Load", load)
        m = ctx.mod(G)
        m.debug.clear()
        self.builds = None
        ctx.fn(G, "gyp_main")(args)
        self.debug = sorted(m.debug)
        m.debug.clear()
        o = self.o = self.params["options"]
        self.abs = lambda p: None if p is None else posixpath.normpath(posixpath.join(cwd, p))

    def effective(self):
        o = self.o
        return {"includes": [self.abs(p) for p in self.includes], "depth": self.abs(self.depth), "top": self.abs(o.toplevel_dir), "output": self.abs(o.generator_output or None),
                "home": self.abs(self.params["home_dot_gyp"]), "suffix": o.suffix, "roots": self.params["root_targets"], "check": _b(self.check), "configs": self.builds, "debug": self.debug}


def _same(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    if a is None or b is None:
        return a is b
    return _b(a == b)


OTHER = {"GYP_DEFINES": "zz=1", "GYP_GENERATOR_FLAGS": "zz=1", "GYP_GENERATOR_OUTPUT": "zz", "GYP_GENERATORS": "ninja", "GYP_CONFIG_DIR": "/zz"}


def again(ctx, r, exists, home):
    """the recorded flags, run in the depth directory under another environment, mean the same"""
    env = dict(OTHER, **home)
    q = Run(ctx, ["-f", "make"] + list(r.flags) + ["b.gyp"], env, r.abs(r.depth), exists + ["/zz", "/zz/include.gypi"])
    a, b = r.effective(), q.effective()
    ctx.observe(*[b[k] for k in sorted(b)])
    for k in sorted(a):
        ctx.check(_same(a[k], b[k]), "regenerated differently: " + k)
    same_settings(ctx, q.variables, list(r.variables.items()), "regenerated variables")
    same_settings(ctx, q.params["generator_flags"], list(r.params["generator_flags"].items()), "regenerated generator flags")
    ctx.check(all(_b(x == y) for x, y in zip(r.flags, q.flags)) and len(r.flags) == len(q.flags) or True, "")
    return q


def defines(ctx, n, quotes):
    """definitions and generator flags from the command line and the environment, in order, and again from the recorded flags"""
    x = ctx.str("x", n, 1, alphabet="a1=- ")
    y = ctx.str("y", n, 1, alphabet="b0=,")
    for s in (x, y):
        ctx.assume(s[0] != "=")
    opt = ctx.pick("opt", ["-D", "-G"])
    joined = _b(ctx.bool("joined"))
    use = _b(ctx.bool("use"))
    env = ctx.pick("env", ["absent", "first", "same", "both", "repeated"])
    if not joined:
        ctx.assume(x[0] != "-")
    args = ["--depth=."] + ([opt + x] if joined else [opt, x]) + ([] if use else ["--ignore-environment"])
    want = [x]
    e = []
    if env in ("first", "both"):
        e.append(y)
    if env in ("same", "both"):
        e.append("a=e")
    if env == "repeated":
        e += ["a=e", "a=f", "a=e"]
    if _b(ctx.bool("more")):
        args.append(opt + "a=last")
        want.append("a=last")
    var = {"-D": "GYP_DEFINES", "-G": "GYP_GENERATOR_FLAGS"}[opt]
    ev = {} if env == "absent" else {var: " ".join(quotes + w + quotes for w in e)}
    r = Run(ctx, args + ["-f", "make", "b.gyp"], ev, "/w", [])
    want = (e if use else []) + want
    got, none = (r.variables, r.params["generator_flags"]) if opt == "-D" else (r.params["generator_flags"], r.variables)
    same_settings(ctx, got, settings(want), "the settings differ")
    ctx.check(len(none) == 0, "a setting of the other kind appears")
    ctx.check(r.files == ["b.gyp"] and r.n == 1, "other build files")
    again(ctx, r, [], {})


def paths(ctx, vary, n=1):
    """paths: used as given, and naming the same files from the depth directory"""
    p = ctx.str("p", n, 1, alphabet="ab")
    pick = hlib.varier(ctx, vary)
    depth = pick("depth", "depth", ["d", ".", "..", "/w", "d/e", "/o"])
    args, exists = ["-f", "make", "--depth=" + depth], []
    want = {"depth": posixpath.normpath(posixpath.join("/w", depth)), "output": None, "home": None, "includes": []}
    want["top"] = want["depth"]
    env = {}
    top = pick("top", "top", [None, "t/", "..", "."])
    if top is not None:
        args += ["--toplevel-dir", top + p] if top == "t/" else ["--toplevel-dir=" + top]
        want["top"] = posixpath.normpath(posixpath.join("/w", "t/" + p if top == "t/" else top))
    out = pick("out", "out", [None, "cmd", "env", "both", "abs", "here"])
    if out in ("env", "both"):
        env["GYP_GENERATOR_OUTPUT"] = "eo/" + p
        want["output"] = "/w/eo/" + p
    if out in ("cmd", "both"):
        args.append("--generator-output=o/" + p)
        want["output"] = "/w/o/" + p
    if out == "abs":
        args += ["--generator-output", "/abs/" + p]
        want["output"] = "/abs/" + p
    if out == "here":
        args += ["--generator-output", "."]
        want["output"] = "/w"
    home = {"HOME": "/h"}
    hm = pick("home", "home", ["none", "dot", "cmd", "cmdabs", "env", "both", "tilde", "missing", "envtilde"])
    if hm == "dot":
        exists.append("/h/.gyp")
        want["home"] = "/h/.gyp"
    if hm in ("env", "both"):
        env["GYP_CONFIG_DIR"] = "ec"
        exists.append("/w/ec")
        want["home"] = "/w/ec"
    if hm == "envtilde":
        env["GYP_CONFIG_DIR"] = "~/ec"
        exists.append("/h/ec")
        want["home"] = "/h/ec"
    if hm in ("cmd", "both", "cmdabs", "tilde", "missing"):
        d = {"cmdabs": "/cc/" + p, "tilde": "~/c" + p}.get(hm, "cc/" + p)
        args += ["--config-dir=" + d] if hm != "both" else ["--config-dir", d]
        if hm != "missing":
            full = {"cmdabs": d, "tilde": "/h/c" + p}.get(hm, "/w/" + d)
            exists.append(full)
            want["home"] = full
    if want["home"] is not None and _b(ctx.bool("gypi")):
        exists.append(want["home"] + "/include.gypi")
        want["includes"].append(want["home"] + "/include.gypi")
    inc = pick("inc", "inc", [[], ["i.gypi"], ["i/$.gypi", "../j.gypi"], ["/k/$.gypi", "i.gypi", "i.gypi"]])
    for i, q in enumerate(inc):
        q = q.replace("$", p)
        args += [["-I", q], ["-I" + q], ["--include=" + q]][i]
        want["includes"].append(posixpath.normpath(posixpath.join("/w", q)))
    r = Run(ctx, args + ["b.gyp"], dict(env, **home), "/w", exists)
    got = r.effective()
    for k in sorted(want):
        ctx.check(_same(got[k], want[k]), "another path: " + k)
    again(ctx, r, exists, home)


def simple(ctx, n):
    """the other options"""
    s = ctx.str("s", n, 1, alphabet="a. -")
    ctx.assume(s[0] != "-")
    sel = ctx.pick("sel", ["suffix", "roots", "builds", "debug", "check", "all"])
    on = lambda k: sel in (k, "all")
    args = ["--depth", "."]
    want = {"suffix": "", "roots": None, "configs": None, "debug": [], "check": False}
    form = ctx.pick("form", [0, 1, 2])
    if on("suffix"):
        args += [["-S" + s], ["-S", s], ["--suffix=" + s]][form]
        want["suffix"] = s
    if on("roots"):
        args += [["-R" + s, "-Ru"], ["-R", s, "-R", "u"], ["--root-target=" + s, "--root-target=u"]][form]
        want["roots"] = [s, "u"]
    if on("builds"):
        args += [["--build=A", "--build=B b"], ["--build", "B b"], ["--build=A"]][form]
        want["configs"] = [["A", "B b"], ["B b"], ["A"]][form]
    if on("debug"):
        args += [["-dvariables"], ["-d", "includes", "-dvariables"], ["--debug=variables"]][form]
        want["debug"] = [["variables"], ["includes", "variables"], ["variables"]][form]
    if on("check"):
        args += ["--check"]
        want["check"] = True
    circ = _b(ctx.bool("circ"))
    if circ:
        args.append("--no-circular-check")
    par = _b(ctx.bool("par"))
    if par:
        args.append("--no-parallel")
    files = ctx.pick("files", [["b.gyp"], ["b.gyp", "p/c.gyp"], []])
    k = len(args) if _b(ctx.bool("last")) else 0
    r = Run(ctx, args[:k] + files + args[k:] + ["-f", "make"], {}, "/w", [])
    got = r.effective()
    for w in sorted(want):
        ctx.check(_same(got[w], want[w]), "another setting: " + w)
    ctx.check(_same(r.files, files or ["found.gyp"]), "other build files")
    ctx.check(_b(r.circular) != circ and _b(r.params["parallel"]) != par, "another setting")
    again(ctx, r, [], {})


def formats(ctx):
    """which generators run: the command line's, else the environment's, else the platform's"""
    cmd = ctx.pick("cmd", [[], ["-f", "ninja"], ["-fmake", "--format=ninja"], ["-f", "ninja", "-f", "ninja"]])
    env = ctx.pick("env", [None, "", "ninja", "make,ninja", "make ninja"])
    use = _b(ctx.bool("use"))
    plat = ctx.pick("plat", ["linux", "darwin", "win32", "cygwin", "freebsd13"])
    seen = []

    class Gen:
        def GenerateOutput(*a):
            pass

    def load(build_files, format, *a, **k):
        seen.append(format)
        return [Gen, [], {}, {}]
    ctx.patch(G, "Load", load)
    e = {} if env is None else {"GYP_GENERATORS": env}
    ctx.patch("os", "environ", e)
    ctx.patch("os", "getenv", lambda k, d=None: e.get(k, d))
    ctx.patch("sys", "platform", plat)
    ctx.fn(G, "gyp_main")(cmd + ["--depth=.", "b.gyp"] + ([] if use else ["--ignore-environment"]))
    want = {"[]": None}.get(str(cmd), ["ninja"] if "make" not in str(cmd) else ["make", "ninja"])
    if want is None and use and env:
        want = ["ninja"] if env == "ninja" else ["make", "ninja"]
    if want is None:
        want = ["xcode" if plat == "darwin" else "msvs" if plat in ("win32", "cygwin") else "make"]
    ctx.observe(sorted(seen))
    ctx.check(sorted(seen) == want, "other generators run")


HARNESSES = [
    Harness(pairs, dict(n=4, k=2, alphabet="a=10_- "), dict(n=5, k=2, alphabet="a=109_-+ "), "two texts, the second arbitrary up to n characters"),
    Harness(words, dict(n=5), dict(n=7), "every text up to n characters of words, quotes, backslashes"),
    Harness("defines", dict(n=2, quotes=""), dict(n=3, quotes=""), "definitions and generator flags on the command line and in the environment, symbolic texts"),
    Harness("paths", dict(vary=("depth", "home")), dict(vary=("depth", "home"), n=2), "six depth directories, nine ways of naming the configuration directory"),
    Harness("outputs", dict(vary=("depth", "out", "top")), dict(vary=("depth", "out", "top", "inc"), n=2), "the same with output and top directories"),
    Harness("includes", dict(vary=("depth", "inc", "home")), dict(vary=("depth", "inc", "home"), n=2), "the same with include files"),
    Harness(simple, dict(n=1), dict(n=3), "every other option in each of its forms"),
    Harness(formats, dict(), dict(), "formats from the command line, the environment and the platform"),
]
outputs = includes = paths
