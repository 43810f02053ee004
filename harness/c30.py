from symex.api import Harness
import hlib

PROPERTY = "C30"
JS = True
PRELOAD = []
ASSUMPTIONS = [
    "the digest is abstract and injective: the modelled sha256 of a file is its content",
    "tar, the streams, the network and the file system are models (harness/js/env.js): an archive is a list of entries, tar reports damage through onwarn, a broken response rejects the pipeline",
    "no two lines of the checksum file name the same file",
]
BASE = "https://nodejs.org/dist/"
NAMES = ["node/include/node.h", "node/common.gypi", "node/a.c", "node/b.hpp", "node/.h", "node/h"]
WANTED = NAMES[:2]


def where(win, version):
    dev = "D:\\dev" if win else "/dev/ng"
    sep = "\\" if win else "/"
    return dev, sep, dev + sep + version


def run(ctx, win, version, arch, opts, files, archive, net, **more):
    dev, sep, vdir = where(win, version)
    inp = {"platform": "win32" if win else "linux", "arch": arch, "version": "18.1.0", "devDir": dev, "needed": 11, "opts": opts,
           "argv": [version], "files": files, "archive": archive, "net": net, "fail": None, "cwd": None}
    inp.update(more)
    return ctx.js("install.js", "install", inp)


def urls(version, arch):
    b = BASE + "v" + version + "/"
    tar = "node-v" + version + "-headers.tar.gz"
    lib = "win-" + {"ia32": "x86"}.get(arch, arch) + "/node.lib"
    return b, tar, lib


def content(ctx, tag, breaks):
    """a response: chunks of symbolic text, possibly broken off"""
    a, b = ctx.str(tag + "1", 1, 1, "ab"), ctx.str(tag + "2", 1, 1, "ab")
    body = [a, b]
    broken = ctx.pick(tag + "brk", [False, True]) if breaks else False
    if broken:
        body = [a, {"error": "ECONNRESET"}]
    return body, a + b, broken


def tampering(ctx, win, lines, fails):
    """any content, any checksum file, any status, with the headers downloaded"""
    version = "16.2.0"
    arch = ctx.pick("arch", ["x64", "ia32", "arm64"]) if win else "x64"
    b, tar, lib = urls(version, arch)
    dev, sep, vdir = where(win, version)
    tbody, ttext, tbroken = content(ctx, "t", fails)
    net = [{"url": b + tar, "status": ctx.int("tst", 199, 201) if fails else 200, "body": tbody}]
    sums = {}
    text = []
    for i in range(ctx.pick("n", range(lines + 1))):
        kind = ctx.pick("line%d" % i, [tar, "./" + tar, lib, "other.tar.gz", "one"] if win else [tar, "./" + tar, "other.tar.gz", "one"])
        h = "sha256=" + ctx.str("h%d" % i, 3 if i == 0 else 2, 1 if i == 0 else 2, "ab")
        if kind == "one":
            text.append(h)
            ctx.assume(i == 0 or text[0] != h)
            break
        name = kind[2:] if kind[0] == "." else kind
        ctx.assume(name not in sums)
        sums[name] = h
        text.append(h + ["  ", " ", "\t"][i % 3] + kind)
    eol = ctx.pick("eol", ["\n", "\r\n"])
    net.append({"url": b + "SHASUMS256.txt", "status": ctx.int("sst", 199, 201) if fails else 200, "body": [eol.join(text) + eol],
                "late": ctx.pick("slow", [0, 5]) if win else 0})
    lbroken, ltext = False, ""
    if win:
        lbody, ltext, lbroken = content(ctx, "l", fails)
        net.append({"url": b + lib, "status": ctx.int("lst", 199, 201) if fails else 200, "body": lbody, "late": 2})
    r = run(ctx, win, version, arch, [], [], [["node/include/node.h", "H"]], net)
    ctx.observe(r["ok"])
    good = ctx.And(net[0]["status"] == 200, net[1]["status"] == 200, not tbroken, not lbroken,
                   tar in sums and sums[tar] == "sha256=" + ttext)
    if win:
        good = ctx.And(good, net[2]["status"] == 200, lib in sums and sums[lib] == "sha256=" + ltext)
    ctx.check(ctx.Implies(r["ok"], good), "files that fail their checksum, or did not arrive, are installed")
    ctx.check(ctx.Implies(good, r["ok"]), "a download with the published checksum is refused")
    fs = [(f[0], f[1]) for f in r["files"] if f[0][:len(vdir)] == vdir]
    if r["ok"]:
        want = [(vdir, None), (vdir + sep + "include", None), (vdir + sep + "include" + sep + "node.h", "H"), (vdir + sep + "installVersion", "11\n")]
        if win:
            want += [(vdir + sep + arch, None), (vdir + sep + arch + sep + "node.lib", ltext)]
        hlib.same_files(ctx, fs, want, "installed files")
    else:
        ctx.check(fs == [], "files that fail their checksum are left in place")


def extraction(ctx, win, n):
    """which entries of the archive are installed, from a download or a given tarball"""
    version = "16.2.0"
    b, tar, lib = urls(version, "x64")
    dev, sep, vdir = where(win, version)
    archive = []
    warned = False
    for i in range(ctx.pick("n", range(n + 1))):
        e = ctx.pick("e%d" % i, NAMES + ["!"])
        if e == "!":
            archive.append({"warn": "TAR_ENTRY_ERROR"})
            warned = True
        else:
            ctx.assume(all(e != x[0] for x in archive if isinstance(x, list)))
            archive.append([e, "T%d" % i])
    given = ctx.pick("tarball", [False, True])
    opts = [["tarball", "/t.tgz"]] if given else []
    net = [{"url": b + tar, "status": 200, "body": ["a"]},
           {"url": b + "SHASUMS256.txt", "status": 200, "body": ["sha256=a  " + tar + "\nsha256=b  " + lib + "\n"]},
           {"url": b + lib, "status": 200, "body": ["b"]}]
    r = run(ctx, win, version, "x64", opts, [], archive, net)
    ctx.observe(r["ok"])
    wanted = [x for x in archive if isinstance(x, list) and x[0] in WANTED]
    good = not warned and len(wanted) > 0
    ctx.check(r["ok"] == good, "an archive without usable files, or a damaged one, must fail the install, and any other must not")
    fs = [(f[0], f[1]) for f in r["files"] if f[0][:len(vdir)] == vdir]
    if good:
        want = [(vdir, None), (vdir + sep + "installVersion", "11\n")]
        for e, t in wanted:
            p = vdir + sep + e[5:].replace("/", sep)
            want.append((p, t))
            if e == NAMES[0]:
                want.append((vdir + sep + "include", None))
        if win:
            want += [(vdir + sep + "x64", None), (vdir + sep + "x64" + sep + "node.lib", "b")]
        hlib.same_files(ctx, fs, want, "installed files")
        ctx.check(ctx.Implies(given, b + tar not in r["fetches"]), "the tarball is downloaded although one was given")
    else:
        ctx.check(fs == [], "files of a bad archive are left in place")


def posix(ctx, **k):
    tampering(ctx, win=False, **k)


def windows(ctx, **k):
    tampering(ctx, win=True, **k)


def posix_extraction(ctx, **k):
    extraction(ctx, win=False, **k)


def windows_extraction(ctx, **k):
    extraction(ctx, win=True, **k)


HARNESSES = [
    Harness(posix, dict(lines=2, fails=True), dict(lines=3, fails=True),
            bounds="tarball of two chunks, any content and digest, broken off or not, any status of each response, checksum files of up to 2 (thorough: 3) lines"),
    Harness(windows, dict(lines=2, fails=True), dict(lines=3, fails=True),
            bounds="as posix, with the import library of three architectures and both orders of arrival"),
    Harness(posix_extraction, dict(n=2), dict(n=3), bounds="archives of up to 2 (thorough: 3) entries over 6 kinds of name and damage, downloaded or given"),
    Harness(windows_extraction, dict(n=2), dict(n=3), bounds="as posix_extraction, copied from the temporary directory"),
]
