from symex.api import Harness
import hlib

PROPERTY = "C32"
JS = True
PRELOAD = []
ASSUMPTIONS = [
    "the file system is a recorder: it answers that everything (or nothing) exists and notes the path of every change",
    "the development directory is an absolute, normalised path",
]


def child(ctx, p, dev, win):
    """p is a direct child of dev"""
    sep = "\\" if win else "/"
    if p[:len(dev) + 1] != dev + sep:
        return False
    rest = p[len(dev) + 1:]
    return ctx.And(rest != "", rest != ".", rest != "..", *[c != "/" if not win else ctx.And(c != "\\", c != "/") for c in rest])


def request(ctx, n, alphabet):
    win = ctx.pick("win", [False, True])
    dev = "C:\\u\\dev" if win else "/u/dev"
    text = ctx.str("v", n, alphabet=alphabet + ("\\:" if win else ""))
    how = ctx.pick("how", ["argv", "target"])
    return win, dev, text, ([text] if how == "argv" else []), ([["target", text]] if how == "target" else []), how


def remove(ctx, n):
    """remove with any word"""
    win, dev, text, argv, opts, how = request(ctx, n, "./0av-")
    exists = ctx.pick("exists", [True, False])
    r = ctx.js("contain.js", "run", {"command": "remove", "platform": "win32" if win else "linux", "devDir": dev, "argv": argv, "opts": opts,
                                     "exists": exists, "broken": False, "release": None})
    ctx.observe(r["ops"], r["failed"])
    for op, p in r["ops"]:
        ctx.check(child(ctx, p, dev, win), "a path outside the development directory, or the directory itself, is changed")
        ctx.check(op == "rm", "remove writes")
    if len(text) == 0:
        ctx.check(r["failed"], "remove without a version does something")
    if not exists:
        ctx.check(r["ops"] == [], "something is deleted that is not there")
    plain = ctx.And(text != "", text != ".", text != "..", *[ctx.And(c != "/", c != "\\", c != ":") for c in text])
    if plain and exists:
        ctx.check(not r["failed"] and len(r["ops"]) == 1, "an installed version is not removed")
        if text[:1] not in ("v", "=") and not semverish(text):
            ctx.check(r["ops"][0][1] == dev + ("\\" if win else "/") + text, "another directory is removed")


def semverish(t):
    return t[:1] == "0" and t[1:2] == "."


def versions(ctx, dummy):
    """remove and failed installs with proper versions, however they are spelled"""
    win = ctx.pick("win", [False, True])
    dev = "C:\\u\\dev" if win else "/u/dev"
    a, b, c = ctx.str("a", 2, 1, "0123456789"), ctx.str("b", 1, 1, "0123456789"), ctx.str("c", 1, 1, "0123456789")
    if len(a) == 2:
        ctx.assume(a[0] != "0")
    pre = ctx.pick("pre", ["", "-rc.1", "-a-b"])
    v = a + "." + b + "." + c + pre
    spell = ctx.pick("spell", ["", "v", " ", "+b"])
    text = v + spell if spell == "+b" else spell + v
    how = ctx.pick("how", ["argv", "target"])
    command = ctx.pick("command", ["remove", "install"])
    r = ctx.js("contain.js", "run", {"command": command, "platform": "win32" if win else "linux", "devDir": dev,
                                     "argv": [text] if how == "argv" else ["--x"] if command == "install" else [],
                                     "opts": [["target", text]] if how == "target" else [], "exists": True, "broken": ctx.pick("broken", [True, False]) if command == "install" else False,
                                     "release": {"name": "node"}})
    ctx.observe(r["ops"], r["failed"])
    sep = "\\" if win else "/"
    major = int(a)
    name = "iojs-" if ctx.And(major >= 1, major < 4, v != "18.1.0") else ""
    if command == "remove":
        ctx.check(r["ops"] == [["rm", dev + sep + v]], "remove does not delete exactly the directory of the version")
        return
    if ctx.And(major == 0, ctx.Or(int(b) < 8, ctx.And(int(b) == 8, int(c) == 0, pre != ""))):
        ctx.check(r["failed"] and r["ops"] == [], "a version that is too old is installed")
        return
    for op, p in r["ops"]:
        if op in ("mkdir", "rm"):
            ctx.check(ctx.Or(p == dev + sep + name + v, "node-gyp-tmp-" in p), "an install touches another directory than its version's")
    ctx.check(r["failed"] and r["ops"][-1] == ["rm", dev + sep + name + v], "a failed install does not remove its directory")


def junk(ctx, n):
    """install with words that are no version"""
    win, dev, text, argv, opts, how = request(ctx, n, "./0v")
    ctx.assume(how == "target" and len(text) > 0)
    r = ctx.js("contain.js", "run", {"command": "install", "platform": "win32" if win else "linux", "devDir": dev, "argv": argv, "opts": opts,
                                     "exists": False, "broken": False, "release": None})
    ctx.observe(r["ops"], r["failed"])
    t = text[1:] if text[:1] == "v" else text
    ctx.check(r["failed"], "text that is no version is installed")
    ctx.check(r["ops"] == [], "text that is no version leads to changes")


HARNESSES = [
    Harness(remove, dict(n=4), dict(n=5), bounds="all words of up to 4 (thorough: 5) characters over . / 0 a v - (and \\ : on Windows), installed or not, both platforms"),
    Harness(versions, dict(dummy=0), bounds="versions 0-99.0-9.0-9 with prerelease tags, four spellings"),
    Harness(junk, dict(n=4), dict(n=5), bounds="all words of up to 4 (thorough: 5) characters over . / 0 v"),
]
