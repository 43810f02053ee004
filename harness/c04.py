import ntpath
import posixpath

from symex.api import Harness
import hlib

PROPERTY = "C04"
PRELOAD = ["gyp.common", "gyp.msvs_emulation", "gyp.generator.msvs"]
ASSUMPTIONS = [
    "argument model: CommandLineToArgvW / MSVC run-time rules for backslashes, quotes, spaces and tabs",
    "documented heuristics are part of the specification: % is doubled, arguments that look like paths are normalised, # in definitions becomes \\043",
    "vcproj lists: items separated by , or ; outside double quotes (backslashes do not escape there); definitions with an odd number of quotes are "
    "refused with a warning by design and are excluded",
]
EMU = "gyp.msvs_emulation"
MS = "gyp.generator.msvs"


def _pathmod(ctx, which):
    if which == "nt":
        ctx.patch("os", "path", ntpath)
        return ntpath
    return posixpath


def _split(ctx, s):
    try:
        return hlib.windows_split(s)
    except hlib.Bad as e:
        ctx.check(False, "misread: %s" % e)


def _expect(ctx, pm, arg):
    if bool(ctx.Or(arg.find("/") > 0, arg.count("/") > 1)):
        arg = pm.normpath(arg)
    return arg.replace("%", "%%")


ALPHA = 'a\\"% \t/.'


def rsp_argument(ctx, n, alpha):
    pm = _pathmod(ctx, ctx.pick("os", ["posix", "nt"]))
    s = ctx.str("s", n, alphabet=alpha)
    out = ctx.fn(EMU, "QuoteForRspFile")(s)
    ctx.observe(out)
    w = _split(ctx, out)
    ctx.check(len(w) == 1, "not exactly one argument")
    ctx.check(w[0] == _expect(ctx, pm, s), "argument differs")


def rsp_any(ctx, n):
    """no path separators: any Unicode"""
    s = ctx.str("s", n, alphabet=[(1, 46), (48, 0xD7FF), (0xE002, 0x10FFFF)])
    out = ctx.fn(EMU, "QuoteForRspFile")(s)
    ctx.observe(out)
    w = _split(ctx, out)
    ctx.check(len(w) == 1, "not exactly one argument")
    ctx.check(w[0] == s.replace("%", "%%"), "argument differs")


def rsp_list(ctx, n, k):
    pm = _pathmod(ctx, "nt")
    f = ctx.fn(EMU, "EncodeRspFileList")
    prog = ctx.pick("prog", ["tool.exe", "a/b/../tool.exe", "call a/../x.bat", "echo"])
    args = [ctx.str("a%d" % i, n, alphabet='a\\" ') for i in range(k)]
    out = f([prog] + args, True)
    ctx.observe(out)
    want_prog = {"tool.exe": "tool.exe", "a/b/../tool.exe": "a\\tool.exe", "call a/../x.bat": "call x.bat", "echo": "echo"}[prog]
    ctx.check(out.startswith(want_prog + (" " if k else "")), "program differs")
    w = _split(ctx, out[len(want_prog):])
    ctx.check(len(w) == k, "number of arguments changed")
    ctx.check(ctx.And(*[a == b for a, b in zip(w, args)]), "arguments differ")
    raw = f([prog] + args, False)
    ctx.check(raw == " ".join([want_prog] + args), "unquoted mode changed the arguments")
    ctx.check(f([], True) == "", "empty list")


def msvs_define(ctx, n):
    d = ctx.str("d", n, alphabet=[(32, 126)])
    nq = 0
    for c in d:
        nq += 1 if bool(c == '"') else 0
    ctx.assume(nq % 2 == 0)
    out = ctx.fn(MS, "_EscapeCppDefineForMSVS")(d)
    ctx.observe(out)
    inq = False
    for c in out:
        if c == '"':
            inq = not inq
        elif not inq:
            ctx.check(ctx.And(c != ",", c != ";"), "the project file would split the definition")
    ctx.check(not inq, "unbalanced quotes")
    w = _split(ctx, out)
    ctx.check(len(w) == 1, "not exactly one argument")
    ctx.check(w[0] == d.replace("%", "%%").replace("#", "\\043"), "definition differs")


def msbuild_define(ctx, n):
    d = ctx.str("d", n, alphabet=[(32, 126)])
    out = ctx.fn(MS, "_EscapeCppDefineForMSBuild")(d)
    ctx.observe(out)
    i = 0
    t = ""
    while i < len(out):
        c = out[i]
        if c == "%":
            h = out[i + 1:i + 3]
            ctx.check(len(h) == 2, "bad escape")
            ctx.check(ctx.And(*[x in "0123456789ABCDEFabcdef" for x in h]), "bad escape")
            t += chr(int(str(ctx.concrete(h)), 16))
            i += 3
        else:
            ctx.check(ctx.Not(c in ";$@'?*"), "a special character is not escaped")
            t += c
            i += 1
    ctx.assume(ctx.Not('\\"' in d))
    ctx.check(t == d.replace("%", "%%").replace("#", "\\043"), "definition differs")


def macros(ctx, n):
    """known macros are replaced everywhere, everything else is kept"""
    f = ctx.fn(EMU, "ExpandMacros")
    val = ctx.str("val", n, alphabet="ab\\ )")
    exp = {"$(OutDir)\\": "out\\", "$(OutDir)": val, "$(InputName)": "${root}"}
    parts, want = [], []
    for i in range(3):
        k = ctx.pick("k%d" % i, ["lit", "$(OutDir)", "$(Unknown)", "$(InputName)"])
        if k == "lit":
            lit = ctx.str("l%d" % i, 1, alphabet="a)($")
            parts.append(lit)
            want.append(lit)
        else:
            parts.append(k + "x")
            want.append(exp.get(k, k) + "x")
    s = "".join(parts)
    out = f(s, exp)
    ctx.observe(out)
    ctx.check(out == "".join(want), "expansion differs")


def env_block(ctx, n, k):
    f = ctx.fn(EMU, "_FormatAsEnvironmentBlock")
    ks = ["K%d" % i for i in range(ctx.pick("k", list(range(k + 1))))]
    d = {}
    for i, x in enumerate(ks):
        d[x] = ctx.str("v%d" % i, n, alphabet="a=; ")
    out = f(d)
    ctx.observe(out)
    ctx.check(out.endswith("\0"), "not terminated")
    body = out[:-1]
    if not d:
        return
    items = body.split("\0")
    ctx.check(items[-1] == "", "last variable is not terminated")
    items = items[:-1]
    ctx.check(len(items) == len(ks), "number of variables differs")
    for x in ks:
        ctx.check(ctx.Or(*[it == x + "=" + d[x] for it in items]), "a variable is lost or changed")


def environment(ctx, n):
    """the needed variables of `set` output are taken over with their values"""
    f = ctx.fn(EMU, "_ExtractImportantEnvironment")
    v = ctx.str("v", n, alphabet="a=;:\\ ")
    w = ctx.str("w", n, alphabet="A=P")
    name = ctx.pick("name", ["INCLUDE", "Lib", "LIBPATH", "PathExt", "goma_x", "PATH", "Other", "XPATH", "INCLUDEX"])
    miss = ctx.pick("miss", [None, "SYSTEMROOT", "TEMP", "TMP"])
    base = [("SystemRoot", "C:\\W"), ("TEMP", "t"), ("TMP", "u" + w)]
    lines = [k + "=" + x for k, x in base if k.upper() != miss] + ["Z=1", name + "=" + v]
    try:
        env = f("\r\n".join(lines) + "\r\n")
    except Exception as e:
        ctx.check(miss is not None, "refused although everything is set")
        return
    ctx.observe(env)
    ctx.check(miss is None, "missing variable is not reported")
    import sys
    want = {"SYSTEMROOT": "C:\\W", "TEMP": "t", "TMP": "u" + w}
    if name == "PATH":
        ctx.check(env.pop("PATH").endswith(":" + v), "PATH value is lost")
    elif name not in ("Other", "XPATH", "INCLUDEX"):
        want[name.upper()] = v
    ctx.check(len(env) == len(want), "unexpected variables")
    for k, x in want.items():
        ctx.check(k in env and env[k] == x, "value differs: " + k)


HARNESSES = [
    Harness(rsp_argument, dict(n=4, alpha='a\\"% /.'), dict(n=6, alpha=ALPHA), "any string up to n over a \\ \" % space / ., POSIX and Windows path rules"),
    Harness(rsp_any, dict(n=4), dict(n=7), "any string without / up to n Unicode characters"),
    Harness(rsp_list, dict(n=2, k=2), dict(n=3, k=2), "k arguments up to n over a \\ \" space, four programs"),
    Harness(msvs_define, dict(n=4), dict(n=7), "any printable definition up to n with an even number of quotes"),
    Harness(msbuild_define, dict(n=3), dict(n=5), "any printable definition up to n"),
    Harness(macros, dict(n=1), dict(n=2), "three segments, literal or macro, symbolic macro value"),
    Harness(env_block, dict(n=2, k=2), dict(n=3, k=3), "up to k variables with symbolic values"),
    Harness(environment, dict(n=2), dict(n=3), "set output with one more variable of nine names, symbolic values, one required variable missing"),
]
