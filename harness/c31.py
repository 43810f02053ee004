from symex.api import Harness
import hlib

PROPERTY = "C31"
JS = True
PRELOAD = []
ASSUMPTIONS = [
    "tar, the streams, the network, the file system and the digest are models (harness/js/env.js); each operation happens completely or not at all",
    "one operation fails per run (in `denied`: every one that needs a permission); removing the directory again does not fail too",
    "under --ensure on Windows a file that is busy and exists already counts as installed (parallel installs)",
]
VER = "16.2.0"
BASE = "https://nodejs.org/dist/v16.2.0/"
TAR = "node-v16.2.0-headers.tar.gz"


def where(win, tmp=False):
    if win:
        return "C:\\tmp\\.node-gyp" if tmp else "D:\\dev"
    return "/tmp/.node-gyp" if tmp else "/dev/ng"


STATES = ["absent", "empty", "old", "current", "newer", "garbage", "nolib"]


def state(kind, win):
    """files of the version directory before the run, and whether --ensure may reuse them (None: only the library is missing)"""
    sep = "\\" if win else "/"
    d = where(win) + sep + VER
    if kind == "absent":
        return [], False
    fs = [[d, None]]
    if kind == "empty":
        return fs, False
    fs.append([d + sep + "include" + sep + "node.h", "OLD"])
    if kind != "nolib":
        fs.append([d + sep + "x64" + sep + "node.lib", "OLDLIB"])
    fs.append([d + sep + "installVersion", {"old": "9\n", "current": "11\n", "newer": "12", "garbage": "x", "nolib": "11\n"}[kind]])
    if kind == "nolib":
        return fs, None if win else True
    return fs, kind in ("current", "newer")


def setup(ctx, win, kinds):
    kind = ctx.pick("state", kinds)
    files, reuse = state(kind, win)
    ensure = ctx.pick("ensure", [True, False])
    good = ctx.pick("sums", ["good", "tar", "lib"] if win else ["good", "tar"])
    sums = "sha256=" + ("x" if good == "tar" else "T") + "  " + TAR + "\nsha256=" + ("x" if good == "lib" else "L") + "  win-x64/node.lib\n"
    net = [{"url": BASE + TAR, "status": 200, "body": ["T"]}, {"url": BASE + "SHASUMS256.txt", "status": 200, "body": [sums], "late": 2},
           {"url": BASE + "win-x64/node.lib", "status": 200, "body": ["L"], "late": 1}]
    how = ctx.pick("how", ["argv", "target"])
    inp = {"platform": "win32" if win else "linux", "arch": "x64", "version": "18.1.0", "devDir": where(win), "needed": 11,
           "opts": ([["ensure", True]] if ensure else []) + ([["target", VER]] if how == "target" else []),
           "argv": [VER] if how == "argv" else [], "files": files, "archive": [["node/include/node.h", "H"], ["node/x.c", "C"], ["node/c.gypi", "G"]],
           "net": net, "fail": None, "cwd": None}
    return inp, kind, files, (reuse if ensure else False), good, ensure


def judge(ctx, inp, r, win, files, reuse, good, ensure, lax):
    sep = "\\" if win else "/"
    dirs = [where(win) + sep + VER, where(win, True) + sep + VER]
    final = [r["devDir"] + sep + VER]
    ops = r["log"]
    have = {f[0]: f[1] for f in r["files"]}
    failed = [x for x in ops if x[0] == "fail"]
    headers = {"include" + sep + "node.h": "H", "c.gypi": "G"}
    for m in r["markers"]:
        d = m["path"][:-len(sep + "installVersion")]
        if d not in dirs or reuse is None:
            continue
        got = {f[0]: f[1] for f in m["have"]}
        for h in headers:
            p = d + sep + h
            ctx.check(p in got and (got[p] == headers[h] or lax), "the marker is written before the files it vouches for")
        ctx.check(BASE + "SHASUMS256.txt" in m["fetched"] and good != "tar", "the marker is written before the download is verified")
    tmp = [p for p in have if "node-gyp-tmp-" in p]
    ctx.check(tmp == [] or any(x[1] == "rm" for x in failed), "the temporary directory is left behind")
    if r["ok"]:
        d = final[0]
        marker = d + sep + "installVersion"
        ctx.check(marker in have and (lax or (have[marker] != "9\n" and have[marker] != "x")), "success without a complete installation")
        if not reuse and not lax:
            ctx.check(have[marker] == "11\n", "success without a complete installation")
        if reuse is False:
            for h in headers:
                ctx.check(d + sep + h in have and (have[d + sep + h] == headers[h] or lax), "success without all files")
        if win and not reuse:
            ctx.check(d + sep + "x64" + sep + "node.lib" in have, "success without the import library")
        return
    ctx.check(r["error"] is not None, "failure without an error")
    for d in dirs:
        touched = any(len(x) > 1 and x[0] not in ("fail", "fetched", "fetch") and (x[1] == d or x[1][:len(d) + 1] == d + sep) for x in ops)
        gone = not any(p == d or p[:len(d) + 1] == d + sep for p in have)
        removal = any(x[1] == "rm" for x in failed) or [x for x in ops if x[0] != "fetched"][-1:] == [["fail", "stat", d]]
        if touched:
            ctx.check(gone or removal, "a failed install leaves the version directory behind")
        else:
            before = sorted(f[0] for f in files if f[0][:len(d)] == d and f[1] is not None)
            ctx.check(gone or sorted(p for p in have if p[:len(d)] == d and have[p] is not None) == before or removal,
                      "files changed without a trace")


def faults(ctx, win, kinds, last):
    """any single operation fails"""
    inp, kind, files, reuse, good, ensure = setup(ctx, win, kinds)
    code = ctx.pick("code", ["ENOSPC", "EACCES", "EBUSY"] if win else ["ENOSPC", "EACCES"])
    at = ctx.int("at", -1, last)
    inp["fail"] = {"at": at, "code": code}
    r = ctx.js("install.js", "install", inp)
    ctx.observe(r["ok"], [x[0] for x in r["log"]])
    ctx.check(r != {"$never": True}, "the command never ends")
    failed = [x for x in r["log"] if x[0] == "fail"]
    touched_dev = [x for x in r["log"] if x[0] not in ("fail", "fetched")]
    if not failed:
        want = reuse is True or (good == "good") or (reuse is None and good == "tar") or (not win and good == "lib")
        ctx.check(r["ok"] == want, "the command does not report whether it installed the version")
        if reuse is True:
            ctx.check(r["fetches"] == [] and touched_dev == [], "an installed version is installed again")
        elif reuse is None:
            ctx.check(BASE + TAR not in r["fetches"], "headers that are installed are downloaded again")
        else:
            ctx.check(BASE + TAR in r["fetches"], "an older installation is taken for a current one")
    elif r["ok"]:
        # a failure that does not matter: retried copies, cleaning up, the permission fallback
        op = failed[0][1]
        ctx.check(op == "copyFile" or (op == "rm" and "node-gyp-tmp-" in failed[0][2]) or
                  (code == "EACCES" and r["devDir"] == where(win, True)) or (op == "stat" and code == "EBUSY"), "a failed step is ignored")
    judge(ctx, inp, r, win, files, reuse if r["devDir"] == where(win) else False, good, ensure, code == "EBUSY" and ensure and win)


def denied(ctx, win, last):
    """no permission for the development directory: the version goes to the temporary directory, once"""
    inp, kind, files, reuse, good, ensure = setup(ctx, win, ["absent", "old", "current"])
    inp["denied"] = [where(win)]
    inp["cwd"] = ctx.pick("cwd", [None, "C:\\tmp" if win else "/tmp"])
    inp["nouser"] = ctx.pick("nouser", [False, True])
    if ctx.pick("tmp", [False, True]):
        inp["denied"].append(where(win, True))
    r = ctx.js("install.js", "install", inp)
    ctx.observe(r["ok"], [x[0] for x in r["log"]])
    both = len(inp["denied"]) == 2
    ctx.check(r["devDir"] == where(win, True), "no fallback to the temporary directory")
    ctx.check(r["ok"] == (not both and good == "good"), "the fallback does not report its result")
    if both:
        ctx.check(r["fetches"] == [], "download without a place to put it")
        return
    ctx.check(BASE + TAR in r["fetches"], "the fallback installs another version")
    names = [x["name"] for x in r["todo"]]
    if inp["cwd"] is not None:
        ctx.check(names == ["remove"] and r["todo"][0]["args"] == inp["argv"], "files in the temporary directory are not removed")
    else:
        ctx.check(names == [], "installed files are removed again")
    judge(ctx, inp, r, win, files, False, good, ensure, False)


def posix(ctx, **k):
    faults(ctx, win=False, **k)


def windows(ctx, **k):
    faults(ctx, win=True, **k)


def posix_denied(ctx, **k):
    denied(ctx, win=False, **k)


def windows_denied(ctx, **k):
    denied(ctx, win=True, **k)


HARNESSES = [
    Harness(posix, dict(kinds=STATES, last=20), bounds="every failing operation of a run (none to the 20th), 2 error codes, every earlier state of the version directory, with and without --ensure, good and bad checksums"),
    Harness(windows, dict(kinds=STATES, last=40), bounds="as posix, up to the 40th operation, 3 error codes, import library included"),
    Harness(posix_denied, dict(last=0), bounds="no permission in the development directory, or in the temporary one too"),
    Harness(windows_denied, dict(last=0), bounds="as posix_denied"),
]
