from symex.api import Harness
import hlib

PROPERTY = "C38"
JS = True
PRELOAD = []
ASSUMPTIONS = [
    "PowerShell, the VSSetup module, the registry and the file system are models; both ways to list installations see the same ones",
    "installations have different paths",
]
COMP = "Microsoft.VisualStudio.Component."
BASE = "Microsoft.VisualStudio.VC.MSBuild.Base"
YEARS = {"15": 2017, "16": 2019, "17": 2022}
TOOLSET = {2017: "v141", 2019: "v142", 2022: "v143"}


def digits(s):
    d = ""
    for c in s:
        if c not in "0123456789":
            break
        d += c
    return d


def year_of(version):
    """the year of a version M.N..., None if unknown"""
    major = digits(version)
    if major == "" or version[len(major):len(major) + 1] != "." or digits(version[len(major) + 1:]) == "":
        return None
    for y in YEARS:
        if major == y:
            return YEARS[y]
    return None


def sdk_of(packages):
    best = 0
    for p in packages:
        for pre in (COMP + "Windows10SDK.", COMP + "Windows11SDK."):
            if p[:len(pre)] == pre:
                parts = p[len(pre):].split(".")
                d = digits(parts[0])
                if d != "" and (len(parts) == 1 or parts[1] == "Desktop"):
                    best = int(d) if int(d) > best else best
    if best > 0:
        return "10.0." + str(best) + ".0"
    return "8.1" if COMP + "Windows81SDK" in packages else None


def usable(x, arch, exist):
    """what an installation offers: (year, msbuild, toolset, sdk) or None"""
    year = year_of(x["version"])
    if year is None:
        return None
    p = x["path"]
    current, arm = p + "\\MSBuild\\Current\\Bin\\MSBuild.exe", p + "\\MSBuild\\Current\\Bin\\arm64\\MSBuild.exe"
    if arch == "arm64" and arm in exist and (year != 2017 or BASE not in x["packages"]):
        ms = arm
    elif year == 2017 and BASE in x["packages"]:
        ms = p + "\\MSBuild\\15.0\\Bin\\MSBuild.exe"
    elif (year == 2019 and BASE in x["packages"]) or current in exist:
        ms = current
    else:
        return None
    has = x["packages"]
    if not (COMP + "VC.Tools.x86.x64" in has or "Microsoft.VisualStudio.WDExpress" in has or (arch == "arm64" and COMP + "VC.Tools.ARM64" in has)):
        return None
    sdk = sdk_of(has)
    if sdk is None:
        return None
    return year, ms, TOOLSET[year], sdk


def install(ctx, tag, path, kinds, exist):
    version = ctx.pick(tag + "v", ["15.9.1", "16.4.2", "17.1.0"] + (["14.0.1", "18.0.1"] if kinds else []))
    what = ctx.pick(tag + "w", ["complete", "notools"] + (["exists", "nomsbuild", "nosdk", "express", "arm"] if kinds else []))
    pk = ["Microsoft.Other"]
    if what != "notools":
        pk.append({"express": "Microsoft.VisualStudio.WDExpress", "arm": COMP + "VC.Tools.ARM64"}.get(what, COMP + "VC.Tools.x86.x64"))
    if what not in ("nomsbuild", "exists"):
        pk.append(BASE)
    if what == "exists" or (what in ("complete", "express", "arm") and version == "17.1.0"):
        exist.append(path + "\\MSBuild\\Current\\Bin\\MSBuild.exe")
    if what != "nosdk":
        pk.append(COMP + "Windows10SDK.19041")
    return {"path": path, "version": version, "packages": pk}


def base(ctx, arch):
    return {"arch": arch, "env": [["SystemRoot", "C:\\Windows"]], "node": {"major": 18, "minor": 1, "patch": 0}, "config": None, "installs": [], "exist": [], "registry": [], "setup": "no", "script": "ok"}


def judge(ctx, r, allowed):
    """allowed: [(year, path, msbuild, toolset, sdk, version)] that satisfy every requirement"""
    if not allowed:
        ctx.check(r["info"] is None and r["error"] is not None, "an installation is used although none qualifies")
        return
    ctx.check(r["info"] is not None, "no installation is used although one qualifies")
    if r["info"] is None:
        return
    best = max(a[0] for a in allowed)
    i = r["info"]
    ctx.check(i["versionYear"] == best, "not the newest of the installations that qualify")
    ctx.check([i["versionYear"], i["path"], i["msBuild"], i["toolset"], i["sdk"], i["version"]] in [list(a) for a in allowed],
              "the installation used does not qualify, or its parts are not its own")


def several(ctx, n, archs, ways):
    """several installations and what the user asked for"""
    arch = ctx.pick("arch", archs)
    inp = base(ctx, arch)
    paths = ["C:\\VS\\A", "D:\\VS b\\B", "C:\\VS\\C"]
    kinds = ctx.pick("kinds", [True, False])
    for i in range(n):
        inp["installs"].append(install(ctx, "i%d" % i, paths[i], kinds, inp["exist"]))
    way = ctx.pick("way", ways if kinds else ["script", "setup", "both", "none"])
    inp["setup"], inp["script"] = {"script": ("no", "ok"), "setup": ("yes", "fails"), "both": ("yes", "ok"), "none": ("fails", "junk")}[way]
    want = None if kinds else ctx.pick("want", [None, "year", "first", "last", "other", ""])
    year = None
    path = None
    if want == "year":
        inp["config"] = ctx.choice("wanted", ["2017", "2019", "2022", "2015"])
        year = inp["config"]
    elif want is not None and want != "":
        path = {"first": paths[0], "last": paths[n - 1], "other": "C:\\VS"}[want]
        inp["config"] = path + ctx.pick("slash", ["", "\\", "\\x\\..\\"])
    elif want == "":
        inp["config"] = ""
    major = ctx.int("major", 20, 23)
    inp["node"]["major"] = major
    r = ctx.js("vs.js", "find", inp)
    ctx.observe(r["info"], r["error"])
    allowed = []
    for x in inp["installs"]:
        u = usable(x, arch, inp["exist"])
        if u is None or way == "none" or (u[0] == 2017 and major >= 22):
            continue
        if (year is not None and year != str(u[0])) or (path is not None and path.lower() != x["path"].lower()):
            continue
        v = x["version"] if way == "script" else None
        allowed.append((u[0], x["path"], u[1], u[2], u[3], v))
    if way != "script":
        for a in range(len(allowed)):
            v = [x["version"] for x in inp["installs"] if x["path"] == allowed[a][1]][0].split(".")
            allowed[a] = allowed[a][:5] + (v[0] + "." + v[1] + ".1.2",)
    judge(ctx, r, allowed)


def details(ctx, size, nsdk):
    """one installation: any version, any SDKs, compilers and MSBuild programs"""
    arch = ctx.pick("arch", ["x64", "arm64"])
    inp = base(ctx, arch)
    path = "C:\\VS\\A"
    k = ctx.pick("k", ["version", "sdk", "parts"])
    version = "16.3.2"
    if k == "version":
        version = ctx.str("version", 5, 1, "1567.x")
    elif k == "parts":
        version = ctx.pick("version_", ["15.1.1", "16.1.1", "17.1.1"])
    pk = []
    if k == "parts":
        for name, tag in [(BASE, "base"), (COMP + "VC.Tools.x86.x64", "x64"), (COMP + "VC.Tools.ARM64", "armtools"), ("Microsoft.VisualStudio.WDExpress", "express")]:
            if ctx.pick(tag, [True, False]):
                pk.append(name)
        for p in (path + "\\MSBuild\\Current\\Bin\\MSBuild.exe", path + "\\MSBuild\\Current\\Bin\\arm64\\MSBuild.exe"):
            if ctx.pick(p, [True, False]):
                inp["exist"].append(p)
    else:
        pk = [BASE, COMP + "VC.Tools.x86.x64"]
    if k == "sdk":
        for i in range(ctx.pick("n", list(range(nsdk + 1)))):
            kind = ctx.pick("s%dk" % i, ["10", "11", "8", "other"])
            if kind == "8":
                pk.append(COMP + "Windows81SDK")
            elif kind == "other":
                pk.append(COMP + ctx.pick("s%do" % i, ["Windows10SDK.IpOverUsb", "Windows10SDK", "Windows11SDKs.5", "Windows10SDK."]))
            else:
                num = ctx.str("s%dn" % i, size, 1, "0129")
                pk.append(COMP + "Windows" + kind + "SDK." + num + ctx.pick("s%dt" % i, ["", ".Desktop", ".Mobile", ".UWP"]))
    else:
        pk.append(COMP + "Windows11SDK.22000")
    inp["installs"] = [{"path": path, "version": version, "packages": pk}]
    r = ctx.js("vs.js", "find", inp)
    ctx.observe(r["info"], r["error"])
    u = usable(inp["installs"][0], arch, inp["exist"])
    judge(ctx, r, [] if u is None else [(u[0], path, u[1], u[2], u[3], version)])


def prompt(ctx, n):
    """in a Visual Studio command prompt"""
    k = ctx.pick("k", ["env", "inst"])
    pick = hlib.varier(ctx, [k])
    inp = base(ctx, "x64")
    name = ctx.str("name", 2, 1, "A' ")
    ctx.assume(name[0] != " " and name[len(name) - 1] != " ")
    path = "C:\\VS\\" + name
    inp["env"].append(["VCINSTALLDIR", path + "\\VC" + pick("env", "slash", ["\\", ""])])
    given = ctx.pick("version", ["16.0", None] + (["15.9.2", "17.2.1", "14.0"] if k == "env" else []))
    if given is not None:
        inp["env"].append(["VSCMD_VER", given])
    sdk = pick("env", "sdk", ["10.0.17763.0\\", None, "8.1\\"])
    if sdk is not None:
        inp["env"].append(["WindowsSDKVersion", sdk])
    if pick("env", "msbuild", [True, False]):
        inp["exist"].append(path + "\\MSBuild\\Current\\Bin\\MSBuild.exe")
    major = ctx.int("major", 20, 23)
    inp["node"]["major"] = major
    inp["setup"] = ctx.pick("setup", ["no", "yes"])
    inp["script"] = "ok" if inp["setup"] == "no" else ctx.pick("script", ["ok", "fails"])
    allowed = []
    if given is not None and sdk == "10.0.17763.0\\":
        u = usable({"path": path, "version": given, "packages": [BASE, COMP + "VC.Tools.x86.x64", COMP + "Windows10SDK.17763.Desktop"]}, "x64", inp["exist"])
        if u is not None and not (u[0] == 2017 and major >= 22):
            allowed.append((u[0], path, u[1], u[2], u[3], given))
    # what is installed there, and something newer elsewhere
    inside = pick("inst", "inside", [None, "15.9.1", "16.4.2"])
    if inside is not None:
        x = {"path": path, "version": inside, "packages": [BASE, COMP + "VC.Tools.x86.x64", COMP + "Windows10SDK.19041"]}
        inp["installs"].append(x)
        u = usable(x, "x64", inp["exist"])
        if u is not None and not (u[0] == 2017 and major >= 22):
            allowed.append((u[0], path, u[1], u[2], u[3], inside if inp["setup"] == "no" else inside[:5] + "1.2"))
    if pick("inst", "outside", [False, True]):
        inp["installs"].append({"path": "C:\\VS\\B", "version": "17.4.1", "packages": [BASE, COMP + "VC.Tools.x86.x64", COMP + "Windows10SDK.19041"]})
        inp["exist"].append("C:\\VS\\B\\MSBuild\\Current\\Bin\\MSBuild.exe")
    want = pick("inst", "want", [None, "2017", "2019", path, "C:\\VS\\B"])
    inp["config"] = want
    if want in ("2017", "2019"):
        allowed = [a for a in allowed if str(a[0]) == want]
    elif want == "C:\\VS\\B":
        allowed = []
    r = ctx.js("vs.js", "find", inp)
    ctx.observe(r["info"], r["error"])
    if inside is not None and inp["setup"] == "yes":
        # both ways see the installation, each with its own form of the version
        allowed = allowed + [a[:5] + (inside,) for a in allowed]
    judge(ctx, r, allowed)


def old(ctx, n):
    """Visual Studio 2015 and 2013 in the registry"""
    arch = ctx.pick("arch", ["x64", "ia32", "arm64"])
    inp = base(ctx, arch)
    major = ctx.int("major", 7, 20)
    inp["node"]["major"] = major
    reg = "HKLM\\Software\\"
    allowed = []
    want = ctx.pick("want", [None, "2013", "2015", "2017", "path"])
    for year, ver, ts, last in ((2015, "14.0", "v140", 18), (2013, "12.0", "v120", 8)):
        vc = ctx.pick("vc%d" % year, [None, "", "Wow6432Node\\", "both"])
        path = "C:\\VS%d" % year
        if vc is not None:
            for k in (["", "Wow6432Node\\"] if vc == "both" else [vc]):
                inp["registry"].append([reg + k + "Microsoft\\VisualStudio\\SxS\\VC7", ver, path + ("" if k == "" or vc != "both" else "x") + "\\VC\\", None])
        ms = ctx.pick("ms%d" % year, [True, False])
        if ms:
            inp["registry"].append([reg + "Microsoft\\MSBuild\\ToolsVersions\\" + ver, "MSBuildToolsPath", "C:\\MS" + ver + "\\", None if arch == "ia32" else "/reg:32"])
        if vc is not None and ms and major <= last and want in (None, str(year)) or (vc is not None and ms and major <= last and want == "path" and year == 2013):
            allowed.append((year, path, "C:\\MS" + ver + "\\MSBuild.exe", ts, None, ver))
    inp["config"] = "C:\\VS2013\\" if want == "path" else want
    r = ctx.js("vs.js", "find", inp)
    ctx.observe(r["info"], r["error"])
    judge(ctx, r, allowed)


HARNESSES = [
    Harness(several, dict(n=2, archs=["x64"], ways=["script", "setup"]), dict(n=2, archs=["x64", "arm64"], ways=["script", "setup", "both", "none"]), bounds="two installations: any of 5 versions x 7 sets of components without a request; versions 2017/2019/2022 complete or without tools, with every kind of request (year, path in 3 spellings, empty) and each of the 4 ways they are listed; Node majors 20-23", validate=6),
    Harness(details, dict(size=2, nsdk=2), dict(size=3, nsdk=2), bounds="one installation: any version of up to 5 characters over '1567.x'; up to two SDK packages of any number of 2 (thorough: 3) digits and 4 suffixes; any combination of the compiler and MSBuild packages and programs; x64 and arm64", validate=3),
    Harness(prompt, dict(n=1), bounds="a command prompt whose directory has any name of up to 2 characters over A, apostrophe and blank; any of the variables missing or wrong; at most one installation inside and one elsewhere; each way of listing them", validate=3),
    Harness(old, dict(n=1), bounds="2015 and 2013 in either registry view, or both; MSBuild registered or not; Node majors 7-20; any request; x64, ia32 and arm64", validate=2),
]
