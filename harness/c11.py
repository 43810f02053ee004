from symex.api import Harness
import hlib

PROPERTY = "C11"
PRELOAD = ["gyp.input", "gyp.common", "gyp.simple_copy", "gyp.generator.ninja", "gyp.generator.make"]
ASSUMPTIONS = ["no symbolic links between the directories concerned; working directory /w/x", "paths use / and contain no backslash; lists of paths hold text"]
I, C, N, M = "gyp.input", "gyp.common", "gyp.generator.ninja", "gyp.generator.make"
CWD = ["w", "x"]


def _b(x):
    return bool(x)


def _parts(p):
    return p.split("/")


def _walk(base, p):
    """the components of the absolute directory or file that p names from base"""
    out = [] if _b(p.startswith("/")) else list(base)
    for c in _parts(p):
        if _b(c == "") or _b(c == "."):
            continue
        if _b(c == ".."):
            if out:
                out.pop()
        else:
            out.append(c)
    return out


def _same(a, b):
    return len(a) == len(b) and all(_b(x == y) for x, y in zip(a, b))


def _text(parts):
    return "/" + "/".join(parts)


def _env(ctx):
    ctx.patch("os.path", "realpath", lambda p, strict=False: _text(_walk(CWD, p)))
    ctx.patch("os", "getcwd", lambda: "/w/x")


def _isrel(p):
    return not _b(p.startswith("/"))


def _path(ctx, name, n, segs=None):
    """a path of up to n components, each one of the given or one of two letters; relative or absolute; possibly with a trailing slash"""
    k = ctx.pick(name + "n", list(range(n + 1)))
    cs = [ctx.pick("%s%d" % (name, i), segs or ["..", ".", "", "L"]) for i in range(k)]
    return "/".join([ctx.str("%s%dl" % (name, i), 1, 1, "abwx") if c == "L" else c for i, c in enumerate(cs)])


def relative(ctx, n, m):
    f = ctx.fn(C, "RelativePath")
    _env(ctx)
    p, r = _path(ctx, "p", n), _path(ctx, "r", m, ["..", "L"])
    got = f(p, r)
    ctx.observe(got)
    a, b = _walk(CWD, p), _walk(CWD, r)
    ctx.check(_isrel(got), "the result is not relative")
    ctx.check(_same(_walk(b, got), a), "the result names another file")
    ctx.check(_b(got == "") == _same(a, b), "the result is empty without the paths being the same, or the other way round")
    cs = _parts(got) if _b(got != "") else []
    up = 0
    while up < len(cs) and _b(cs[up] == ".."):
        up += 1
    for c in cs[up:] if a else []:
        ctx.check(not _b(c == "") and not _b(c == ".") and not _b(c == ".."), "the result is not normalised")
    k = 0
    while k < min(len(a), len(b)) and _b(a[k] == b[k]):
        k += 1
    ctx.check(up == len(b) - k or not a or not b, "the result goes up further than needed")


def relative_links(ctx, n):
    """follow_path_symlink=False keeps the link's own name"""
    f = ctx.fn(C, "RelativePath")
    p = ctx.str("p", n, 1, alphabet="ab")
    r = ctx.pick("r", ["", "a", "../x/b"])
    ctx.patch("os", "getcwd", lambda: "/w/x")
    links = {"/w/x/a": ["z"]}

    def real(q, strict=False):
        t = _walk(CWD, q)
        if len(t) > 2 and _b(t[2] == "a"):
            t = ["z"] + t[3:]
        return _text(t)
    ctx.patch("os.path", "realpath", real)
    follow = ctx.pick("follow", [True, False, None])
    got = f(p, r) if follow is None else f(p, r, follow)
    ctx.observe(got)
    base = _walk([], real(r))
    want = CWD + [p] if follow is False else _walk([], real(p))
    ctx.check(_same(_walk(base, got), want), "the result names another file")


def invert(ctx, n):
    f = ctx.fn(C, "InvertRelativePath")
    _env(ctx)
    p = _path(ctx, "p", n)
    top = ctx.pick("top", [None, "", "..", "../y", "sub", "/", "/w"])
    got = f(p) if top is None else f(p, top)
    ctx.observe(got)
    t = _walk(CWD, top or "")
    if _b(p == ""):
        ctx.check(got == "", "an empty path has an empty inverse")
    else:
        ctx.check(_same(_walk(_walk(t, p), got), t), "the inverse does not lead back")
        ctx.check(_isrel(got), "the result is not relative")


def fix_unrelative(ctx, n, m):
    """FixIfRelativePath, UnrelativePath"""
    fix, un = ctx.fn(C, "FixIfRelativePath"), ctx.fn(C, "UnrelativePath")
    _env(ctx)
    p, r = _path(ctx, "p", n), _path(ctx, "r", m, ["..", "L"])
    if not _isrel(r):
        return
    which = ctx.pick("which", ["fix", "un"])
    if which == "fix":
        got = fix(p, r)
        ctx.observe(got)
        if not _isrel(p):
            ctx.check(got == p, "an absolute path is changed")
        else:
            ctx.check(_isrel(got) and _same(_walk(_walk(CWD, r), got), _walk(CWD, p)), "the result names another file")
    else:
        got = un(p, r + "/f.gyp")
        ctx.observe(got)
        base = _walk(CWD, r if r[:1] else "/")
        ctx.check(_same(_walk(CWD, got), _walk(base, p)), "the result names another file")


def make_relative(ctx, n):
    f = ctx.fn(I, "MakePathRelative")
    _env(ctx)
    to, fro = ctx.pick("files", [("a/t.gyp", "b.gypi"), ("t.gyp", "../c/f.gypi"), ("a/t.gyp", "a/f.gypi"), ("a/b/t.gyp", "a/c/d/f.gypi"), ("../t.gyp", "f.gypi"),
                                 ("/w/t.gyp", "a/f.gypi"), ("a/t.gyp", "/q/f.gypi"), ("a/t.gyp", "a/t.gyp"), ("t.gyp", "f.gypi")])
    item = _path(ctx, "i", n)
    got = f(to, fro, item)
    ctx.observe(got)
    if to == fro or not _isrel(item):
        ctx.check(got == item, "the item is changed")
        return
    tb, fb = _walk(CWD, to)[:-1], _walk(CWD, fro)[:-1]
    ctx.check(_isrel(got) and _same(_walk(tb, got), _walk(fb, item)), "the result names another file")
    ctx.check(_b(got.endswith("/")) == _b(item.endswith("/")), "a trailing slash is lost or added")


def make_relative_text(ctx, n):
    """which items are rebased at all: any text"""
    f = ctx.fn(I, "MakePathRelative")
    _env(ctx)
    head = ctx.str("h", 2, alphabet="-/$<>^\"'!a")
    s = head + "q/r"
    got = f("a/t.gyp", "b/f.gypi", s)
    ctx.observe(got)
    h = s[1:] if _b(s[:1] == '"') or _b(s[:1] == "'") else s
    special = any(_b(h[:1] == c) for c in "-/$<>^")
    if special:
        ctx.check(got == s, "an absolute path, flag or reference is changed")
    else:
        ctx.check(_same(_parts(got), _parts("../b/" + s)), "the result names another file")
    ctx.check(f("a/t.gyp", "a/t.gyp", s) == s, "an item of the same file is changed")


def sections(ctx, n):
    """which keys hold paths"""
    f = ctx.fn(I, "IsPathSection")
    ctx.patch(I, "path_sections", set(ctx.fn(I, "base_path_sections")))
    pre = ctx.str("pre", n, alphabet="_sx=")
    stem = ctx.pick("stem", ["", "dir", "file", "path", "dirs", "files", "paths", "sources", "libraries", "destination", "inputs", "outputs", "include_dirs", "defines", "dirx"])
    suf = ctx.str("suf", 2, alphabet="s=+?!/")
    s = pre + stem + suf
    got = f(s)
    ctx.observe(bool(got))
    t = s
    while any(_b(t.endswith(c)) for c in "=+?!"):
        t = t[:-1]
    known = any(_b(t == k) for k in ["destination", "files", "include_dirs", "inputs", "libraries", "outputs", "sources"])
    u = t[:-1] if _b(t.endswith("s")) else t
    byname = any(_b(u.endswith(e)) for e in ("_dir", "_file", "_path"))
    ctx.check(bool(got) == (known or byname), "wrong decision whether the section holds paths")


SECTIONS = ["sources", "include_dirs", "x_dir", "defines", "cflags"]


def merged(ctx, n):
    """paths taken over when a file is merged into another, at any depth"""
    f = ctx.fn(I, "MergeDicts")
    _env(ctx)
    ctx.patch(I, "path_sections", set(ctx.fn(I, "base_path_sections")))
    s = ctx.str("s", n, 1, alphabet="./a-")
    sec = ctx.pick("sec", SECTIONS)
    sfx = ctx.pick("sfx", ["", "+", "=", "?"])
    shape = ctx.pick("shape", ["list", "scalar", "deep", "listdict", "into"])
    if shape != "list" and shape != "into" and sfx:
        return
    to = {}
    val = [s, "/q"]
    if shape == "scalar":
        fro = {sec: s}
    elif shape == "deep":
        fro = {"target_defaults": {"msvs": {sec: val}}}
    elif shape == "listdict":
        fro = {"targets": [{sec: [s, "/q"], "variables": {"x": s, sec: s}}]}
    else:
        fro = {sec + sfx: val}
        if shape == "into":
            to = {sec: ["old"]}
    f(to, fro, "d/t.gyp", "e/f/g.gypi")
    ctx.observe(to)
    paths = sec in SECTIONS[:3]

    def ok(x):
        if not paths or any(_b(s[:1] == c) for c in "-/"):
            return _b(x == s)
        return _same(_walk(CWD + ["d"], x), _walk(CWD + ["e", "f"], s)) and _isrel(x) and _b(x.endswith("/")) == _b(s.endswith("/"))
    if shape == "scalar":
        ctx.check(ok(to[sec]), "a path is not rebased or other text is")
    elif shape == "deep":
        l = to["target_defaults"]["msvs"][sec]
        ctx.check(len(l) == 2 and ok(l[0]) and l[1] == "/q", "a path is not rebased or other text is")
    elif shape == "listdict":
        t = to["targets"][0]
        ctx.check(len(t[sec]) == 2 and ok(t[sec][0]) and t[sec][1] == "/q", "a path is not rebased or other text is")
        ctx.check(_b(t["variables"]["x"] == s), "text that is no path is changed")
        ctx.check(ok(t["variables"][sec]), "a path is not rebased or other text is")
    elif shape == "list":
        key = sec + "?" if sfx == "?" and sec + "?" in to else sec
        ctx.check(len(to[key]) == 2 and ok(to[key][0]) and to[key][1] == "/q", "a path is not rebased or other text is")
    else:
        l = to[sec]
        want = {"": 1, "+": 0, "=": 0, "?": None}[sfx]
        if want is None:
            ctx.check(l == ["old"], "the list is changed although it was set")
        else:
            ctx.check(ok(l[want]) and l[want + 1] == "/q", "a path is not rebased or other text is")
            ctx.check(len(l) == (2 if sfx == "=" else 3), "items lost")


BASES = ["", "a", "a/b", "../z"]


def ninja_paths(ctx, n):
    """source paths seen from the build directory"""
    W = ctx.fn(N, "NinjaWriter")
    _env(ctx)
    base, build = ctx.pick("base", BASES), ctx.pick("build", ["out/Release", "../o", "b"])
    top = ctx.pick("top", [None, "", ".."])
    w = W("h", {}, base, build, hlib.Sink(), build, "b.ninja", "linux", *([] if top is None else [top]))
    w.config_name, w.name, w.toolset = "Release", "tg", "target"
    t = _walk(CWD, top or "")
    srcdir, outdir = _walk(t, base), _walk(t, build)
    p = _path(ctx, "p", n)
    got = w.GypPathToNinja(p)
    ctx.observe(got, w.build_to_base, w.base_to_build)
    ctx.check(_same(_walk(outdir, got), _walk(srcdir, p)), "the path names another file")
    ctx.check(_isrel(got) == _isrel(p), "relative and absolute are exchanged")
    ctx.check(_same(_walk(outdir, w.build_to_base), srcdir) and _same(_walk(srcdir, w.base_to_build), outdir), "directories differ")
    if top is not None:
        ctx.check(_same(_walk([], w.abs_build_dir), outdir), "the absolute build directory differs")


def ninja_special(ctx, n):
    """$!PRODUCT_DIR and the configuration name in paths"""
    W = ctx.fn(N, "NinjaWriter")
    _env(ctx)
    base = ctx.pick("base", BASES)
    w = W("h", {}, base, "out/Release", hlib.Sink(), "out", "b.ninja", "linux")
    cfg = ctx.str("cfg", n, 1, alphabet="ab")
    w.config_name, w.name, w.toolset = cfg, "tg", "target"
    s = ctx.str("s", n, 1, alphabet="ab.")
    form, want = ctx.pick("form", [
        ("$!PRODUCT_DIR/%s", lambda: (["w", "x", "out", "Release"], s)), ("$!PRODUCT_DIR", lambda: (["w", "x", "out", "Release"], "")),
        ("$!INTERMEDIATE_DIR/%s", None), ("$!PRODUCT_DIR/$|CONFIGURATION_NAME/%s", lambda: (["w", "x", "out", "Release"], cfg + "/" + s)),
        ("d/$|CONFIGURATION_NAME/%s", lambda: (_walk(CWD, base), "d/" + cfg + "/" + s)), ("$!PRODUCT_DIR/../%s", lambda: (["w", "x", "out", "Release"], "../" + s))])
    p = form.replace("%s", s)
    got = w.GypPathToNinja(p)
    ctx.observe(got)
    out = ["w", "x", "out", "Release"]
    if want is None:
        d = w.GypPathToUniqueOutput("gen")
        ctx.check(_same(_walk(out, got), _walk(_walk(out, d), s)), "the path names another file")
        ctx.check(_same(_walk(out, got)[:4], out) and len(_walk(out, got)) > 4 or _b(s == ".."), "the intermediate directory is outside the build directory")
    else:
        b, q = want()
        ctx.check(_same(_walk(out, got), _walk(b, q)), "the path names another file")
        ctx.check("$" not in got, "a placeholder is left")


def make_paths(ctx, n):
    W = ctx.fn(M, "MakefileWriter")
    so = ctx.fn(M, "Sourceify")
    w = W({}, "linux")
    w.path = ctx.pick("base", BASES)
    var = ctx.pick("var", [False, True])
    p = _path(ctx, "p", n)
    if var:
        p = "$(obj)/" + p
    got = w.Absolutify(p)
    ctx.patch(M, "srcdir_prefix", "$(srcdir)/")
    s = so(got)
    ctx.observe(got, s)
    if var:
        while _b(p.endswith("/")):
            p = p[:-1]
        ctx.check(got == p, "a path with a variable is changed")
        ctx.check(s == got, "a path with a variable is changed")
        return
    ctx.check(_same(_walk(CWD, got), _walk(_walk(CWD, w.path), p)), "the path names another file")
    ctx.check(_isrel(got) == _isrel(p), "relative and absolute are exchanged")
    ctx.check(_b(s == (("$(srcdir)/" + got) if _isrel(p) else got)), "wrong source path")


HARNESSES = [
    Harness(relative, dict(n=2, m=2), dict(n=3, m=3), "paths of up to n and m components, each .. . empty or a symbolic letter, absolute included"),
    Harness(relative_links, dict(n=1), dict(n=2), "a symbolic name that may be a link"),
    Harness(invert, dict(n=3), dict(n=4), "paths of up to n components, seven top directories"),
    Harness(fix_unrelative, dict(n=2, m=1), dict(n=3, m=2), "paths of up to n and m components"),
    Harness(make_relative, dict(n=3), dict(n=4), "items of up to n components, nine pairs of files"),
    Harness(make_relative_text, dict(n=2), dict(n=2), "every beginning of two characters over - / $ < > ^ quotes ! a"),
    Harness(sections, dict(n=2), dict(n=3), "fifteen stems with symbolic beginning and end"),
    Harness(merged, dict(n=3), dict(n=4), "five sections, four policies, five shapes, items over . / a -"),
    Harness(ninja_paths, dict(n=2), dict(n=3), "four source and three build directories, paths of up to n components"),
    Harness(ninja_special, dict(n=2), dict(n=2), "six placeholder forms, symbolic names"),
    Harness(make_paths, dict(n=2), dict(n=4), "four directories, paths of up to n components, with and without a variable"),
]
