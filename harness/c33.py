from symex.api import Harness
import hlib

PROPERTY = "C33"
JS = True
PRELOAD = []
ASSUMPTIONS = [
    "distribution URLs are absolute http(s) URLs of a host and plain path segments (no query, fragment or dot segments)",
    "process.version is a valid version (node sets it), and process.release describes that version when it names URLs",
    "for prereleases both the full and the headers tarball are published from 3.0 on, so either is accepted",
]

D = "0123456789"


def number(ctx, name, big):
    """a number of a version, without leading zeros"""
    k = ctx.pick(name + "n", [1, 2]) if big else 1
    s = ctx.str(name, k, k, D)
    if k == 2:
        ctx.assume(s[0] != "0")
    return s


def num(s):
    r = 0
    for c in s:
        r = r * 10 + (ord(c) - 48)
    return r


def ver(ctx, tag, kinds):
    kind = ctx.pick(tag + "kind", kinds)
    if kind == "sym0":      # 0.x.y
        a, b, c = "0", number(ctx, tag + "b", True), number(ctx, tag + "c", True)
    elif kind == "sym":     # x.y.z
        a, b, c = number(ctx, tag + "a", True), number(ctx, tag + "b", False), number(ctx, tag + "c", False)
    else:
        a, b, c = kind.split(".")
    return a, b, c


def text(v, pre=""):
    return v[0] + "." + v[1] + "." + v[2] + pre


def has_headers(v):
    """layouts published: a headers tarball since 0.10.42, 0.12.10 and 3.0.0"""
    a, b, c = num(v[0]), num(v[1]), num(v[2])
    if a >= 3:
        return True
    if a == 0 and b == 12 and c >= 10:
        return True
    return bool(a == 0 and b == 10 and c >= 42)


def libs(base, major, name, bits):
    """import library of one architecture, relative to the base"""
    if major == 0:
        return name + ".lib" if bits == "x86" else bits + "/" + name + ".lib"
    return "win-" + bits + "/" + name + ".lib"


ARCH = [("ia32", "x86"), ("x64", "x64"), ("arm64", "arm64")]


def expect(ctx, r, v, vtext, name, base, tars):
    ctx.check(r["version"] == vtext and r["semver"] == vtext, "another version than the requested one")
    ctx.check(r["name"] == name, "wrong name of the runtime")
    ctx.check(r["baseUrl"] == base, "wrong distribution base")
    ctx.check(ctx.Or(*[r["tarballUrl"] == t for t in tars]), "wrong header tarball")
    ctx.check(r["shasumsUrl"] == base + "SHASUMS256.txt", "wrong checksum file")
    ctx.check(r["versionDir"] == (name + "-" + vtext if name != "node" else vtext), "wrong directory name")


DIST = [("", "", "", "linux"), ("", "", "", "win32"), ("dist-url", "http://h.example:80/a/b", "", "linux"), ("dist-url", "https://x", "//", "win32"),
        ("disturl", "https://x", "/", "linux"), ("both", "https://x/y", "", "win32"), ("mirror", "http://h.example:80/a/b", "/", "win32"),
        ("mirror", "https://x", "", "linux"), ("dist+mirror", "https://x/y", "/", "linux")]


def default_layout(ctx, kinds, pres, full):
    """versions other than the running one, or a runtime that does not describe its release"""
    v = ver(ctx, "v", kinds)
    pre = ctx.pick("pre", pres)
    if pre:
        t = ctx.str("tag", 2, 1, "ab0-")
        if len(t) == 2 and bool(t[0] == "0"):
            ctx.assume(t[1] != "0")
        pre = "-" + t + pre[1:]
    vtext = text(v, pre)
    how = ctx.pick("how", ["argv", "argv-v", "argv-build", "target", "target-v", "default"])
    opts = []
    argv = []
    version = "v18.1.0"
    if how.startswith("argv"):
        argv = [{"argv": vtext, "argv-v": "v" + vtext, "argv-build": vtext + "+b.1"}[how]]
        if how == "argv-v":
            opts.append(["target", "11.0.0"])
    elif how.startswith("target"):
        opts.append(["target", "v" + vtext if how == "target-v" else vtext])
        if how == "target":
            argv = ["--node_gyp_internal_noretry"]
    else:
        version = "v" + vtext
    if how != "default":
        ctx.assume(vtext != "18.1.0")
    base = "https://nodejs.org/dist"
    # (where the distribution URL comes from, the URL, slashes after it, platform)
    dist, given, slash, platform = ctx.pick("dist", DIST if full or (how in ("argv", "default") and not pre) else DIST[:2])
    mirror = None
    given += slash
    if dist == "dist-url" or dist == "dist+mirror":
        opts.append(["dist-url", given])
    elif dist == "disturl":
        opts.append(["disturl", given])
    elif dist == "both":
        opts += [["disturl", "http://no"], ["dist-url", given]]
    elif dist == "mirror":
        mirror = given
    if dist == "dist+mirror":
        mirror = "http://no"
    if dist:
        base = given.rstrip("/")
    base = base + "/v" + vtext + "/"
    # a release description of the running version must not be used for another one
    rel = None
    if how != "default" or dist:
        rel = {"name": "node", "headersUrl": "https://own/dist/v18.1.0/node-v18.1.0-headers.tar.gz", "libUrl": "https://own/dist/v18.1.0/win-x64/node.lib"}
    r = ctx.js("release.js", "release", {"argv": argv, "opts": opts, "version": version, "release": rel, "mirror": mirror, "platform": platform})
    major = num(v[0])
    ctx.observe(r)
    name = "iojs" if not (rel is not None and how == "default") and 1 <= major < 4 else "node"
    stem = base + name + "-v" + vtext
    h = has_headers(v)
    tars = [stem + ("-headers" if h else "") + ".tar.gz"]
    if pre and h:
        tars.append(stem + ".tar.gz")
    expect(ctx, r, v, vtext, name, base, tars)
    for arch, bits in ARCH:
        p = libs(base, major, name, bits)
        ctx.check(r[arch]["libUrl"] == base + p, "wrong import library URL")
        ctx.check(r[arch]["libPath"] == p, "wrong path of the import library in the checksum file")


def own_release(ctx, kinds):
    """the running version described by process.release"""
    v = ver(ctx, "v", kinds)
    vtext = text(v)
    major = num(v[0])
    given = ctx.pick("relname", ["node", "io.js", "iojs", "electron"])
    base = ("https://h.example/download/release" if given < "io" else "http://h/a") + "/v" + vtext + "/"
    rel = {"name": given, "headersUrl": base + "x-v1.tar.gz"}
    name = {"io.js": "iojs"}.get(given, given)
    form = ctx.pick("lib", ["none", "x64", "x86", "arm64", "ia32", "elsewhere", "plain"])
    libbase = base
    dir32 = "win-x86"
    if form == "elsewhere":
        libbase = "https://other/v/" + vtext + "/"
        rel["libUrl"] = libbase + "win-x64/" + name + ".lib"
    elif form == "plain":
        rel["libUrl"] = base
    elif form != "none":
        if form == "ia32":
            ctx.assume(major == 3)
        rel["libUrl"] = base + "win-" + form + "/" + name + ".lib"
        if form == "arm64":
            ctx.assume(major != 3)
    ctx.assume(major >= 1)
    platform = ctx.pick("platform", ["linux", "win32"])
    how = {"none": "argv", "plain": "target"}.get(form, "")
    argv = ["v" + vtext] if how == "argv" else []
    opts = [["target", vtext]] if how == "target" else []
    r = ctx.js("release.js", "release", {"argv": argv, "opts": opts, "version": "v" + vtext, "release": rel, "mirror": None, "platform": platform})
    ctx.observe(r)
    expect(ctx, r, v, vtext, name, base, [rel["headersUrl"]])
    for arch, bits in ARCH:
        ctx.check(r[arch]["libUrl"] == libbase + "win-" + bits + "/" + name + ".lib", "wrong import library URL")
        if form != "elsewhere":
            ctx.check(r[arch]["libPath"] == "win-" + bits + "/" + name + ".lib", "wrong path of the import library in the checksum file")


def invalid(ctx, n):
    """text that is no version"""
    s = ctx.str("v", n, alphabet="v1.0-x ")
    how = ctx.pick("how", ["target", "argv"])
    r = ctx.js("release.js", "release", {"argv": [s] if how == "argv" else [], "opts": [["target", s]] if how == "target" else [],
                                         "version": "v18.1.0", "release": None, "mirror": None, "platform": "linux"})
    ctx.observe(r["version"], r["semver"])
    t = s.strip(" ")
    if t[:1] == "v":
        t = t[1:]
    ok = len(t) >= 5 and valid(t)
    if not ok:
        if how == "argv" or len(s) == 0:
            ctx.check(r["version"] == "18.1.0", "words that are no version do not leave the default in place")
        else:
            ctx.check(r["semver"] is None and r["version"] == s, "text that is no version is taken for one")
            ctx.check("tarballUrl" not in r, "URLs without a version")
    else:
        ctx.check(r["semver"] is not None, "a version is refused")


def valid(t):
    ps = t.split("-", 1)
    n = ps[0].split(".")
    if len(n) != 3:
        return False
    for x in n:
        if not (x == "0" or (x != "" and x[0] == "1" and all(c == "0" or c == "1" for c in x))):
            return False
    if len(ps) == 2:
        for x in ps[1].split("."):
            if x == "" or " " in x:
                return False
            if all(c == "0" or c == "1" for c in x) and len(x) > 1 and x[0] == "0":
                return False
    return True


HARNESSES = [
    Harness(default_layout, dict(kinds=["sym0", "sym"], pres=["", "x", "x.1"], full=False), dict(kinds=["sym0", "sym"], pres=["", "x", "x.1"], full=True),
            bounds="all versions 0.0-99.0-99 and 0-99.0-9.0-9, prerelease tags of up to 2 characters and a number, every way to request one, dist-url/disturl/NODEJS_ORG_MIRROR combinations (thorough: with every way to request), posix and windows paths", validate=3),
    Harness(own_release, dict(kinds=["sym"]), bounds="versions 1-99.0-9.0-9, release names, hosts and library URL forms of process.release"),
    Harness(invalid, dict(n=6), dict(n=7), bounds="all words of up to 6 (thorough: 7) characters over v 1 . 0 - x and blank", validate=3),
]
