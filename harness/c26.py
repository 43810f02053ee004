import os
from symex.api import Harness

PROPERTY = "C26"
PRELOAD = ["gyp.common", "gyp.xcode_emulation"]
ASSUMPTIONS = [
    "the answers of xcrun, xcodebuild, pkgutil, sw_vers and security stand for the programs, which run only on macOS",
    "the meaning of each documented xcode_settings key is that of Apple's build setting reference, as far as gyp supports the key; garbage in a file name after -Wl, (a second comma) is left out",
    "numbers in versions of Xcode other than the first have one digit",
]
X = "gyp.xcode_emulation"
SDKS = {"": "/sdk/Mac", "macosx": "/sdk/Mac", "macosx11": "/sdk/Mac11", "iphoneos": "/sdk/iPhoneOS", "iphonesimulator": "/sdk/iPhoneSimulator"}


class Tools:
    """the programs that are asked about the machine"""

    def __init__(self, ctx, have=("xcodebuild", "xcrun"), version="9.4.1", clt=None):
        import gyp
        x = ctx.mod(X)
        self.have, self.gone, self.version, self.clt = have, [], version, clt or {}
        ctx.patch(X, "XCODE_VERSION_CACHE", None)
        ctx.patch(X, "XCODE_ARCHS_DEFAULT_CACHE", None)
        for k in ("_sdk_path_cache", "_platform_path_cache", "_sdk_root_cache", "_plist_cache", "_codesigning_key_cache"):
            setattr(x.XcodeSettings, k, {})
        ctx.patch("gyp.common", "CrossCompileRequested", lambda: False)

        def run(cmd):
            self.gone.append(cmd)
            tool = cmd[0].split("/")[-1]
            if tool == "xcrun" and tool in have:
                sdk = cmd[2]
                if cmd[1] == "--sdk" and sdk in SDKS:
                    p = SDKS[sdk]
                    return {"--show-sdk-path": p, "--show-sdk-platform-path": "/platform" + p, "--show-sdk-version": "v" + (sdk or "d"), "--show-sdk-build-version": "b" + sdk}[cmd[3]]
            elif tool == "xcodebuild" and tool in have:
                if cmd[1] == "-version":
                    return "Xcode " + self.version + "\nBuild version 9F2000"
                return "macOS SDKs:\n\tmacOS 11 \t-sdk macosx11\n\tmacOS 10 \t-sdk macosx\n"
            elif tool == "pkgutil" and cmd[2] in self.clt:
                return "package-id: x\nversion: " + self.clt[cmd[2]] + "\nvolume: /\n"
            elif tool == "softwareupdate" and "history" in self.clt:
                return "Command Line Tools for Xcode    " + self.clt["history"] + "    01/01/2020\n"
            elif tool == "sw_vers":
                return "17G65"
            raise x.GypError("no " + cmd[0])
        ctx.patch(X, "GetStdout", run)
        ctx.patch(X, "GetStdoutQuiet", run)
        self.x = x

    def settings(self, configs, typ="executable", **k):
        spec = dict({"target_name": "t", "type": typ, "configurations": {}}, **k)
        for c, s in configs.items():
            spec["configurations"][c] = s if s is None or "!" in s else {"xcode_settings": s}
            if "!" in s:
                del s["!"]
        return self.x.XcodeSettings(spec)


def _same(ctx, got, want, msg):
    """the same words, in any order; words that belong together are lists"""
    got = list(got)
    for w in want:
        ws = w if isinstance(w, list) else [w]
        hit = None
        for i in range(len(got) - len(ws) + 1):
            if all(bool(got[i + j] == ws[j]) for j in range(len(ws))):
                hit = i
                break
        if hit is None:
            ctx.check(False, msg)
            return
        del got[hit:hit + len(ws)]
    ctx.check(got == [], msg)


# setting: (place, {value: flags}); None stands for any other or no value
SWITCHES = {
    "CLANG_WARN_CONSTANT_CONVERSION": ("c", {"YES": ["-Wconstant-conversion"]}),
    "GCC_CHAR_IS_UNSIGNED_CHAR": ("c", {"YES": ["-funsigned-char"]}),
    "GCC_CW_ASM_SYNTAX": ("c", {"YES": ["-fasm-blocks"], None: []}, "-fasm-blocks"),
    "GCC_DYNAMIC_NO_PIC": ("c", {"YES": ["-mdynamic-no-pic"]}),
    "GCC_ENABLE_PASCAL_STRINGS": ("c", {"YES": ["-mpascal-strings"], None: []}, "-mpascal-strings"),
    "GCC_GENERATE_DEBUGGING_SYMBOLS": ("c", {"YES": ["-gdwarf-2"], None: []}, "-gdwarf-2"),
    "GCC_STRICT_ALIASING": ("c", {"YES": ["-fstrict-aliasing"], "NO": ["-fno-strict-aliasing"]}),
    "GCC_SYMBOLS_PRIVATE_EXTERN": ("c", {"YES": ["-fvisibility=hidden"]}),
    "GCC_TREAT_WARNINGS_AS_ERRORS": ("c", {"YES": ["-Werror"]}),
    "GCC_WARN_ABOUT_MISSING_NEWLINE": ("c", {"YES": ["-Wnewline-eof"]}),
    "LLVM_LTO": ("c", {"YES": ["-flto"]}),
    "GCC_ENABLE_SSE3_EXTENSIONS": ("x86", {"YES": ["-msse3"]}),
    "GCC_ENABLE_SUPPLEMENTAL_SSE3_INSTRUCTIONS": ("x86", {"YES": ["-mssse3"]}),
    "GCC_ENABLE_SSE41_EXTENSIONS": ("x86", {"YES": ["-msse4.1"]}),
    "GCC_ENABLE_SSE42_EXTENSIONS": ("x86", {"YES": ["-msse4.2"]}),
    "GCC_ENABLE_CPP_RTTI": ("cc", {"NO": ["-fno-rtti"]}),
    "GCC_ENABLE_CPP_EXCEPTIONS": ("cc", {"NO": ["-fno-exceptions"]}),
    "GCC_INLINES_ARE_PRIVATE_EXTERN": ("cc", {"YES": ["-fvisibility-inlines-hidden"]}),
    "GCC_THREADSAFE_STATICS": ("cc", {"NO": ["-fno-threadsafe-statics"]}),
    "GCC_WARN_ABOUT_INVALID_OFFSETOF_MACRO": ("cc", {"NO": ["-Wno-invalid-offsetof"]}),
    "CLANG_ENABLE_OBJC_ARC": ("m mm", {"YES": ["-fobjc-arc"]}),
    "CLANG_WARN_OBJC_MISSING_PROPERTY_SYNTHESIS": ("m mm", {"YES": ["-Wobjc-missing-property-synthesis"]}),
    "GCC_OBJC_CALL_CXX_CDTORS": ("mm", {"YES": ["-fobjc-call-cxx-cdtors"]}),
    "GCC_ENABLE_OBJC_GC": ("m mm", {"supported": ["-fobjc-gc"], "required": ["-fobjc-gc-only"]}),
    "DEAD_CODE_STRIPPING": ("ld", {"YES": ["-Wl,-dead_strip"]}),
    "PREBINDING": ("ld", {"YES": ["-Wl,-prebind"]}),
    "SOMETHING_ELSE": ("", {}),
    "DEBUG_INFORMATION_FORMAT": ("", {}),
}
VALUES = {
    "GCC_OPTIMIZATION_LEVEL": ("c", "-O", "-Os"),
    "MACOSX_DEPLOYMENT_TARGET": ("c ld", "-mmacosx-version-min=", None),
    "GCC_C_LANGUAGE_STANDARD": ("C", "-std=", None),
    "CLANG_CXX_LANGUAGE_STANDARD": ("cc", "-std=", None),
    "CLANG_CXX_LIBRARY": ("cc ld", "-stdlib=", None),
    "DYLIB_COMPATIBILITY_VERSION": ("ld", "-compatibility_version ", None),
    "DYLIB_CURRENT_VERSION": ("ld", "-current_version ", None),
}
BASE = {"c": ["-fasm-blocks", "-mpascal-strings", "-Os", "-gdwarf-2"], "C": [], "cc": [], "m": [], "mm": [], "ld": ["-Lout"]}


def _flags(s, config, arch):
    return {"c": s.GetCflags(config, arch), "C": s.GetCflagsC(config), "cc": s.GetCflagsCC(config), "m": s.GetCflagsObjC(config), "mm": s.GetCflagsObjCC(config),
            "ld": s.GetLdflags(config, "out", lambda p: "B/" + p, arch)}


def switches(ctx, n):
    """every single setting turns on exactly its own flags, in its own configuration"""
    t = Tools(ctx)
    key = ctx.pick("setting", sorted(SWITCHES) + sorted(VALUES))
    arch = ctx.pick("arch", ["x86_64", "arm64", "i386"])
    here = ctx.pick("here", ["Debug", "Release"])
    number = False
    if key in VALUES:
        number = ctx.pick("number", [False, True])
    if key == "DEBUG_INFORMATION_FORMAT":
        value = ctx.pick("format", ["dwarf", "dwarf-with-dsym"])
    else:
        value = ctx.pick("given", [3, 11]) if number else ctx.str("value", n, minlen=1, alphabet="YESNOansiupordtqe0")
    s = t.settings({"Debug": {key: value} if here == "Debug" else {}, "Release": {key: value} if here == "Release" else {}})
    for c in ("Debug", "Release"):
        want = {k: list(v) for k, v in BASE.items()}
        want["c"].append(["-arch", arch])
        want["ld"].append(["-arch", arch])
        if c == here and key in SWITCHES:
            e = SWITCHES[key]
            add = e[1].get(None, [])
            for v, f in e[1].items():
                if v is not None and bool(value == v):
                    add = f
            if len(e) > 2:
                want["c"].remove(e[2])
            for place in e[0].split(" "):
                if place == "x86":
                    if arch != "arm64":
                        want["c"] += add
                elif place:
                    want[place] += add
        elif c == here:
            places, prefix, default = VALUES[key]
            text = prefix + str(value)
            if key == "GCC_C_LANGUAGE_STANDARD" and not number and bool(value == "ansi"):
                text = "-ansi"
            for place in places.split(" "):
                if default is not None:
                    want[place].remove(default)
                want[place].append(text)
        got = _flags(s, c, arch)
        ctx.observe(got)
        for place in want:
            _same(ctx, got[place], want[place], "other flags than the configuration asks for")


def lists(ctx, n):
    """flags given as lists, and directories"""
    sdk = ctx.pick("sdk", [None, "macosx", "/own/sdk", "other"])
    t = Tools(ctx, have=ctx.pick("tools", [("xcodebuild", "xcrun"), ()] if sdk == "macosx" else [("xcodebuild", "xcrun")]), clt={"com.apple.pkg.CLTools_Executables": "9.4.0.1"})
    conf = {}
    w = {}
    for k, opts in (("WARNING_CFLAGS", 2), ("OTHER_CFLAGS", 2)):
        w[k] = [ctx.str("%s%d" % (k, i), n if i == 0 else 1, minlen=1, alphabet="-fW= ") for i in range(ctx.pick("n" + k, [None, 1, opts] if sdk is None else [None, opts]) or 0)]
        if w[k]:
            conf[k] = list(w[k])
    cpp = ctx.pick("cplus", [None, "own", "inherit", "both", "mixed"] if sdk is None else [None, "both"])
    inh = ctx.pick("inherited", ["$(inherited)", "$inherited", "${inherited}", "$(OTHER_CFLAGS)", "$OTHER_CFLAGS", "${OTHER_CFLAGS}"]) if cpp in ("inherit", "both", "mixed") else None
    own = ctx.str("plus", n, minlen=1, alphabet="-f $") if cpp in ("own", "both", "mixed") else None
    if own is not None:
        ctx.assume(ctx.Not(own == "$"))
    seq = {None: None, "own": [own], "inherit": [inh], "both": [own, inh], "mixed": [inh, own]}[cpp]
    if seq is not None:
        conf["OTHER_CPLUSPLUSFLAGS"] = list(seq)
    want_cc = []
    for f in seq if seq is not None else ["$(inherited)"]:
        want_cc += w["OTHER_CFLAGS"] if f is inh or seq is None else [f]
    if sdk:
        conf["SDKROOT"] = sdk
    root = {None: None, "macosx": "/sdk/Mac" if "xcrun" in t.have else None, "/own/sdk": "/own/sdk", "other": None}[sdk]
    default = "/sdk/Mac" if sdk is None else root
    dirs = [ctx.pick("fd%d" % i, ["$(SDKROOT)/F", "abs/F"]) + ctx.str("fw%d" % i, 1, minlen=1, alphabet="x ") for i in range(ctx.pick("dirs", [0, 2]))]
    s = t.settings({"Debug": {"!": 1, "xcode_settings": conf, "mac_framework_dirs": list(dirs)}})
    given = {k: list(v) if isinstance(v, list) else v for k, v in conf.items()}
    got = _flags(s, "Debug", "arm64")
    ctx.observe(got)
    iso = [["-isysroot", root]] if root else []
    fd = ["-F" + d.replace("$(SDKROOT)", default or "") for d in dirs]
    _same(ctx, got["c"], BASE["c"] + [["-arch", "arm64"]] + iso + ([w["WARNING_CFLAGS"]] if w["WARNING_CFLAGS"] else []) + ([fd] if fd else []), "other compiler flags")
    if w["WARNING_CFLAGS"]:
        at = [i for i, f in enumerate(got["c"]) if bool(f == w["WARNING_CFLAGS"][0])]
        ctx.check(at and at[-1] > max(got["c"].index(f) for f in BASE["c"]), "the flags asked for come before those they must override")
    ctx.check(got["C"] == w["OTHER_CFLAGS"], "other flags for C")
    ctx.check(got["cc"] == want_cc, "other flags for C++")
    _same(ctx, got["ld"], BASE["ld"] + [["-arch", "arm64"]] + iso + ([fd] if fd else []), "other linker flags")
    for k, v in given.items():
        ctx.check(conf[k] == v, "asking for flags changed the target")
    again = _flags(s, "Debug", "arm64")
    ctx.check(again == got, "asking twice gives other flags")


def link(ctx, n):
    """the linker's flags name the same files as the build file"""
    t = Tools(ctx)
    typ = ctx.pick("type", ["executable", "shared_library", "loadable_module"])
    bundle = ctx.pick("bundle", [0, 1])
    conf, want = {}, [["-arch", "arm64"]]
    name = ctx.str("file", n, minlen=1, alphabet="ab./-")
    kind = ctx.pick("kind", ["none", "flag", "sect", "search", "order", "rpath", "L", "plain"])
    m = "B/" + name
    if kind == "flag":
        f = ctx.pick("flag", ["-exported_symbols_list", "-unexported_symbols_list", "-reexported_symbols_list"])
        pre, sep = ctx.pick("form", [("", " "), ("-Wl,", ","), ("-Wl,", " ")])
        more = ctx.pick("more", ["", " -y"])
        conf["OTHER_LDFLAGS"] = [pre + f + sep + name + more, "-z"]
        want += [[pre + f + sep + m + more, "-z"]]
    elif kind == "sect":
        pre, sep = ctx.pick("form", [("", " "), ("-Wl,", ",")])
        conf["OTHER_LDFLAGS"] = [pre + "-sectcreate" + sep + "__TEXT" + sep + "__x" + sep + name]
        want.append(pre + "-sectcreate" + sep + "__TEXT" + sep + "__x" + sep + m)
    elif kind == "search":
        conf["LIBRARY_SEARCH_PATHS"] = [name, "two"]
        want.append(["-L" + m, "-LB/two"])
    elif kind == "order":
        conf["ORDER_FILE"] = name
        want.append(["-Wl,-order_file", "-Wl," + m])
    elif kind == "rpath":
        conf["LD_RUNPATH_SEARCH_PATHS"] = [name, "@loader_path"]
        want.append(["-Wl,-rpath," + name, "-Wl,-rpath,@loader_path"])
    elif kind == "L":
        conf["OTHER_LDFLAGS"] = ["-L" + name]
        want.append("-L" + m)
    elif kind == "plain":
        f = ctx.str("word", n, minlen=1, alphabet="-exL,")
        ctx.assume(ctx.Not(f.startswith("-L")))
        conf["OTHER_LDFLAGS"] = [f]
        want.append(f)
    out = ctx.pick("out", [".", "o/lib"])
    want.append("-L" + {".": "./"}.get(out, out))
    base = ctx.pick("base", [None, "@rpath", "@executable_path/../F", "/usr/x/../lib", "@loader_path//x/", "own"]) if kind == "none" else None
    iname = ctx.pick("iname", [None, "@rpath/my lib", "$(DYLIB_INSTALL_NAME_BASE:standardizepath)/$(WRAPPER_NAME)/$(PRODUCT_NAME)"] if bundle else [None, "@rpath/my lib"]) if kind == "none" else None
    if base is not None:
        conf["DYLIB_INSTALL_NAME_BASE"] = base
    if iname is not None:
        conf["LD_DYLIB_INSTALL_NAME"] = iname
    k = {"mac_bundle": bundle}
    pname = "t"
    if kind == "none":
        pname = ctx.str("product", n, minlen=1, alphabet="ab ")
        k["product_name"] = pname
    s = t.settings({"Debug": dict(conf), "Release": dict(conf)}, typ, **k)
    got = s.GetLdflags("Debug", out, lambda p: "B/" + p, "arm64")
    ctx.observe(got)
    if typ == "shared_library":
        b = base if base is not None else "/Library/Frameworks" if bundle else "/usr/local/lib"
        b = {"/usr/x/../lib": "/usr/lib", "@loader_path//x/": "@loader_path/x"}.get(b, b)
        full = pname + ".framework/Versions/A/" + pname if bundle else "lib" + pname + ".dylib"
        text = b + "/" + full if iname is None else b + "/" + pname + ".framework/" + pname if iname[0] == "$" else iname
        want.append(["-install_name", text.replace(" ", "\\ ")])
        ctx.check(s.GetInstallName() == text, "another install name")
    _same(ctx, got, want, "the linker is called with other flags")


def extensions(ctx, n):
    """extensions and tests of applications are linked as such"""
    version = ctx.pick("version", ["8.3.3", "9.0", "9.4.1"])
    t = Tools(ctx, version=version)
    kind = ctx.pick("kind", ["app", "ios_app_extension", "ios_watchkit_extension", "test", "uitest"])
    extra = ctx.str("flag", n, minlen=1, alphabet="-e ")
    k = {"mac_bundle": 1}
    if kind.startswith("ios"):
        k[kind] = 1
    elif kind == "test":
        k["mac_xctest_bundle"] = 1
    elif kind == "uitest":
        k["mac_xcuitest_bundle"] = 1
    s = t.settings({"Debug": {"OTHER_LDFLAGS": [extra]}}, typ="loadable_module" if "test" in kind else "executable", **k)
    got = _flags(s, "Debug", "arm64")
    ctx.observe(got)
    want = BASE["ld"] + [["-arch", "arm64"], extra]
    wc = BASE["c"] + [["-arch", "arm64"]]
    if kind.startswith("ios"):
        if version[0] == "8":
            want += ["-lpkstart", "/sdk/Mac/System/Library/PrivateFrameworks/PlugInKit.framework/PlugInKit"]
        else:
            want.append(["-e", "_NSExtensionMain"])
        want.append("-fapplication-extension")
    elif kind == "test":
        f = "-F/platform/sdk/Mac/Developer/Library/Frameworks/"
        want.append([f, "-framework", "XCTest"])
        wc = wc + [f]
    _same(ctx, got["ld"], want, "other flags to link an extension or a test")
    _same(ctx, got["c"], wc, "other flags to compile an extension or a test")


def libraries(ctx, n):
    """libraries are named in the form that the linker takes"""
    sdk = ctx.pick("sdk", [None, "iphoneos", "/own"])
    t = Tools(ctx)
    s = t.settings({"Debug": {"SDKROOT": sdk} if sdk else {}, "Release": {"SDKROOT": "macosx11"} if sdk == "iphoneos" else {"SDKROOT": sdk} if sdk else {}})
    root = SDKS.get(sdk or "", sdk)
    form = ctx.pick("form", ["framework", "pathframework", "lib", "libpath", "flag", "sdklib", "sdkframework"])
    x = ctx.str("name", n, minlen=1, alphabet="ab.+")
    have = ctx.pick("there", ["dylib", "tbd", "both", "neither"]) if form == "sdklib" else None
    ext = ctx.pick("ext", [".a", ".dylib", ".tbd"]) if form in ("lib", "libpath", "sdklib") else ""
    given = {"framework": x + ".framework", "pathframework": "q/" + x + ".framework", "lib": "lib" + x + ext, "libpath": "q/lib" + x + ext, "flag": "-l" + x,
             "sdklib": "$(SDKROOT)/usr/lib/lib" + x + ext, "sdkframework": "$(SDKROOT)/F/" + x + ".framework"}[form]
    here = []
    if have in ("dylib", "both"):
        here.append(root + "/usr/lib/lib" + x + ".dylib")
    if have in ("tbd", "both"):
        here.append(root + "/usr/lib/lib" + x + ".tbd")
    ctx.patch("os.path", "exists", lambda p: any(bool(p == h) for h in here))
    ctx.assume(ctx.Not(x.endswith(".")))
    lead = x
    got = s.AdjustLibraries([given, "-lz"], "Debug")
    ctx.observe(got)
    if form in ("framework", "pathframework", "sdkframework"):
        want = "-framework " + lead
    elif form == "lib" and ext != ".tbd":
        want = "-l" + x
    elif form == "sdklib":
        want = root + "/usr/lib/lib" + x + (".tbd" if ext == ".dylib" and have == "tbd" else ext)
    else:
        want = given
    ctx.check(got == [want, "-lz"], "another library is linked")


def architectures(ctx, n):
    """the architectures that a target is built for"""
    parts = [ctx.pick("major", ["4", "5", "6", "9", "10", "15"])]
    for i in range(ctx.pick("parts", [0, 1, 2])):
        parts.append(ctx.str("v%d" % i, 1, 1, alphabet="0123"))
    t = Tools(ctx, version=".".join(parts))
    sdk = ctx.pick("sdk", [None, "macosx", "iphoneos", "iPhoneSimulator9.0", "/x/iPhoneOS.sdk"])
    std, inc = "$(ARCHS_STANDARD)", "$(ARCHS_STANDARD_INCLUDING_64_BIT)"
    archs = ctx.pick("archs", [None, [], [std], [inc], ["arm64", std], "one", ["$(OTHER)", "arm64"], [inc, "x86_64"]])
    if archs == "one":
        archs = [ctx.str("arch", 5, minlen=1, alphabet="armv7s64")]
    valid = ctx.pick("valid", [None, ["x86_64"], ["arm64", "i386", "armv7"], ["none"]])
    conf = {}
    if sdk:
        conf["SDKROOT"] = sdk
    if archs is not None:
        conf["ARCHS"] = list(archs)
    if valid is not None:
        conf["VALID_ARCHS"] = list(valid)
    s = t.settings({"Debug": conf})
    got = s.GetActiveArchs("Debug")
    ctx.observe(got)
    v = int(parts[0]) * 100
    minor = 0 if len(parts) < 2 else ord(parts[1]) - 48
    era = 2
    if v < 500:
        era = 0
    elif v == 500 and bool(minor < 1):
        era = 1
    plat = "ios" if sdk in ("iphoneos", "/x/iPhoneOS.sdk") else "sim" if sdk and sdk[0] == "i" else "mac"
    table = {0: {"mac": (["i386"], None), "sim": (["i386"], None), "ios": (["armv7"], None)},
             1: {"mac": (["x86_64"], ["x86_64"]), "sim": (["i386"], ["i386", "x86_64"]), "ios": (["armv7", "armv7s"], ["armv7", "armv7s", "arm64"])},
             2: {"mac": (["x86_64"],) * 2, "sim": (["i386", "x86_64"],) * 2, "ios": (["armv7", "armv7s", "arm64"],) * 2}}[era][plat]
    want = []
    for a in archs or [inc if era == 1 else std]:
        more = table[0] if a == std else (table[1] or []) if a == inc else [] if a == "$(OTHER)" else [a]
        want += [m for m in more if m not in want]
    if valid:
        want = [a for a in want if a in valid]
    ctx.check(got == want, "built for other architectures")
    if len(want) == 1:
        fl = s.GetCflags("Debug")
        k = fl.index("-arch")
        ctx.check(fl[k + 1] == want[0] and fl.count("-arch") == 1, "compiled for another architecture")
        fl = s.GetLdflags("Debug", "o", lambda p: p)
        k = fl.index("-arch")
        ctx.check(fl[k + 1] == want[0] and fl.count("-arch") == 1, "linked for another architecture")


def versions(ctx, n):
    """the version of the tools"""
    parts = [ctx.str("v0", 2, 1, alphabet="0123456789")]
    for i in range(ctx.pick("parts", [0, 1, 2, 3])):
        parts.append(ctx.str("v%d" % (i + 1), 1, 1, alphabet="0123456789"))
    v = ".".join(parts)
    src = ctx.pick("source", ["xcode", "CLTools_Executables", "DeveloperToolsCLILeo", "DeveloperToolsCLI", "history", "none"])
    clt = {}
    if src == "history":
        clt["history"] = v
    elif src.startswith("C") or src.startswith("D"):
        clt["com.apple.pkg." + src] = v
    worse = {"CLTools_Executables": "com.apple.pkg.DeveloperToolsCLI", "DeveloperToolsCLI": "history", "xcode": "com.apple.pkg.CLTools_Executables"}.get(src)
    if worse and ctx.pick("another", [False, True]):
        clt[worse] = "3.2.1"
    t = Tools(ctx, have=("xcodebuild",) if src == "xcode" else (), version=v, clt=clt)
    try:
        got = t.x.XcodeVersion()
    except t.x.GypError:
        got = None
    ctx.observe(got)
    if src == "none":
        ctx.check(got is None, "a version from nowhere")
        return
    ctx.check(got is not None, "the tools are not found")
    want = ("0" if len(parts[0]) == 1 else "") + parts[0]
    for i in (1, 2):
        want += parts[i] if i < len(parts) else "0"
    ctx.check(got[0] == want, "another version")
    ctx.check(got[1] == ("9F2000" if src == "xcode" else ""), "another build")
    k = len(t.gone)
    ctx.check(t.x.XcodeVersion() == got and len(t.gone) == k, "asked again")


def layout(ctx, n):
    """names and places of what is built"""
    t = Tools(ctx)
    typ = ctx.pick("type", ["executable", "shared_library", "loadable_module", "static_library"])
    ios = ctx.pick("ios", [False, True])
    kind = ctx.pick("kind", ["plain", "bundle", "test", "extension", "watch"] if typ in ("executable", "loadable_module") else ["plain", "bundle"] if typ == "shared_library" else ["plain"])
    k, conf = {}, {}
    if ios:
        conf["IPHONEOS_DEPLOYMENT_TARGET"] = "9.0"
    if kind != "plain":
        if kind == "test" and ctx.pick("ui", [False, True]):
            k["mac_xcuitest_bundle"] = 1
        elif kind == "test":
            k["mac_xctest_bundle"] = 1
        else:
            k["mac_bundle"] = ctx.pick("one", [1, "1"])
        if kind == "extension":
            k["ios_app_extension"] = 1
        if kind == "watch":
            k["ios_watchkit_extension"] = 1
    target = ctx.str("target", n, minlen=1, alphabet="lib.x")
    k["target_name"] = target
    name = None
    if ctx.pick("named", [False, True]):
        name = ctx.str("name", n, minlen=1, alphabet="libx")
        k["product_name"] = name
    ext = pre = None
    if ctx.pick("ext", [False, True]):
        ext = ctx.str("extension", n, minlen=1, alphabet="xy")
        k["product_extension"] = ext
    if kind == "plain" and ctx.pick("pre", [False, True]):
        pre = ctx.str("prefix", n, alphabet="pq")
        k["product_prefix"] = pre
    wrap = fwv = None
    if kind != "plain":
        wrap = ctx.pick("wrap", [None, "wx"])
        if wrap:
            conf["WRAPPER_EXTENSION"] = wrap
        fwv = ctx.pick("framework", [None, "B", 2]) if typ == "shared_library" else None
        if fwv:
            conf["FRAMEWORK_VERSION"] = fwv
    s = t.settings({"Debug": dict(conf), "Release": dict(conf)}, typ, **k)
    env = dict(t.x.GetSortedXcodeEnv(s, "/out", "/src", "Debug"))
    ctx.observe(sorted(env.items()))
    ctx.check(env["PRODUCT_NAME"] == (name if name is not None else target), "another product name")
    if kind == "plain":
        base = name if name is not None else target[3:] if typ != "executable" and bool(target.startswith("lib")) else target
        p = pre if pre is not None else "lib" if typ in ("shared_library", "static_library") else ""
        e = "." + ext if ext is not None else {"executable": "", "static_library": ".a", "shared_library": ".dylib", "loadable_module": ".so"}[typ]
        full = p + base + e
        for x in ("EXECUTABLE_NAME", "EXECUTABLE_PATH", "FULL_PRODUCT_NAME"):
            ctx.check(env[x] == full, "another name of the product")
        ctx.check("CONTENTS_FOLDER_PATH" not in env and "WRAPPER_NAME" not in env and env["BUILT_FRAMEWORKS_DIR"] == "/out", "a file is taken for a bundle")
        ctx.check(env["PRODUCT_TYPE"] == "com.apple.product-type." + {"executable": "tool", "static_library": "library.static"}.get(typ, "library.dynamic"), "another type of product")
    else:
        base = name if name is not None else target
        if typ == "executable":
            e = ext if ext is not None else "appex" if kind in ("extension", "watch") else "app"
        else:
            e = ext if ext is not None else wrap if wrap else {"shared_library": "framework", "loadable_module": "bundle"}[typ]
        w = base + "." + e
        contents = w if ios else w + "/Versions/" + str(fwv or "A") if typ == "shared_library" else w + "/Contents"
        exe = contents if ios or typ == "shared_library" else contents + "/MacOS"
        res = contents if ios else contents + "/Resources"
        want = {"WRAPPER_NAME": w, "FULL_PRODUCT_NAME": w, "EXECUTABLE_NAME": base, "CONTENTS_FOLDER_PATH": contents, "EXECUTABLE_FOLDER_PATH": exe, "EXECUTABLE_PATH": exe + "/" + base,
                "UNLOCALIZED_RESOURCES_FOLDER_PATH": res, "JAVA_FOLDER_PATH": res + "/Java", "FRAMEWORKS_FOLDER_PATH": contents + "/Frameworks", "PLUGINS_FOLDER_PATH": contents + "/PlugIns",
                "SHARED_FRAMEWORKS_FOLDER_PATH": contents + "/SharedFrameworks", "XPCSERVICES_FOLDER_PATH": contents + "/XPCServices", "BUILT_FRAMEWORKS_DIR": "/out/" + contents + "/Frameworks",
                "SHARED_SUPPORT_FOLDER_PATH": res if typ == "shared_library" else contents + "/SharedSupport",
                "INFOPLIST_PATH": (contents if typ != "shared_library" or ios else contents + "/Resources") + "/Info.plist"}
        for x, v in want.items():
            ctx.check(env[x] == v, "a part of the bundle is somewhere else")
        kinds = {"extension": "app-extension", "watch": "watchkit-extension"}
        pt = kinds.get(kind) or ("bundle.ui-testing" if k.get("mac_xcuitest_bundle") else {"executable": "application", "loadable_module": "bundle", "shared_library": "framework"}[typ])
        ctx.check(env["PRODUCT_TYPE"] == "com.apple.product-type." + pt, "another type of product")
    ctx.check(env.get("MACH_O_TYPE") == (None if kind == "plain" and typ == "executable" else {"executable": "mh_execute", "static_library": "staticlib", "shared_library": "mh_dylib", "loadable_module": "mh_bundle"}[typ]), "another kind of binary")
    ctx.check(env["BUILT_PRODUCTS_DIR"] == "/out" and env["TARGET_BUILD_DIR"] == "/out" and env["SRCROOT"] == "/src" and env["CONFIGURATION"] == "Debug", "another place")


def resources(ctx, n):
    """resources and Info.plist of a bundle"""
    t = Tools(ctx)
    ios = ctx.pick("ios", [False, True])
    typ = ctx.pick("type", ["executable", "shared_library"])
    file = ctx.pick("dir", ["", "d/", "d/en.lproj/", "en.lproj/", "x.lproj/d/"])
    base = ctx.str("base", n, minlen=1, alphabet="ab.")
    ctx.assume(ctx.Not(base.startswith(".")))
    ext = ctx.pick("ext", [".png", ".xib", ".storyboard", ".strings", ""])
    conf = {}
    if ios:
        conf["IPHONEOS_DEPLOYMENT_TARGET"] = "9.0"
    how = ctx.pick("plist", ["none", "copied", "defines", "off"])
    if how != "none":
        conf["INFOPLIST_FILE"] = "p/Info.plist"
    if how in ("defines", "off"):
        conf["INFOPLIST_PREPROCESSOR_DEFINITIONS"] = 'A=1 "B=x y"'
        conf["INFOPLIST_PREPROCESS"] = "YES" if how == "defines" else "NO"
    other = dict(conf)
    conf["ONLY_DEBUG"] = "1"
    s = t.settings({"Debug": conf, "Release": other}, typ, mac_bundle=1)
    got = list(t.x.GetMacBundleResources("prod", s, ["r/" + file + base + ext, "plain"]))
    ctx.observe(got)
    w = "prod/t." + {"executable": "app", "shared_library": "framework"}[typ]
    if not ios:
        w += "/Contents" if typ == "executable" else "/Versions/A"
    r = w if ios else w + "/Resources"
    sub = "/en.lproj" if file.endswith("en.lproj/") else ""
    ctx.check(got == [(r + sub + "/" + base + {".xib": ".nib", ".storyboard": ".storyboardc"}.get(ext, ext), "r/" + file + base + ext), (r + "/plain", "plain")], "a resource is put somewhere else")
    src, dst, defs, env = t.x.GetMacInfoPlist("prod", s, lambda p: "B/" + p)
    if how == "none":
        ctx.check(src is None and dst is None, "an Info.plist from nowhere")
    else:
        ctx.check(src == "B/p/Info.plist", "another Info.plist")
        ctx.check(dst == (w if ios or typ == "executable" else w + "/Resources") + "/Info.plist", "Info.plist is put somewhere else")
        ctx.check(list(defs) == (["A=1", "B=x y"] if how == "defines" else []), "other definitions for Info.plist")
        ctx.check("ONLY_DEBUG" not in env and env["INFOPLIST_FILE"] == "p/Info.plist", "a setting of one configuration is used for all")


def environment(ctx, n):
    """variables: each is set after those that it uses, and expands fully"""
    t = Tools(ctx)
    typ = ctx.pick("type", ["executable", "none"])
    s = t.settings({"Debug": {}}, typ, product_name="prod")
    names = ["AA", "AAB", "C_1"]
    extra, parts = {}, {}
    forms = {"${": "}", "$(": ")", "$": ""}
    for k in names[:ctx.pick("count", [1, 2, 3])]:
        kind = ctx.pick("k" + k, ["text", "ref", "two", "list"])
        txt = ctx.str("s" + k, n, alphabet="x -") if k == "AA" or kind == "list" else "t"
        tgt = ctx.pick("r" + k, ["AA", "AAB", "C_1", "PRODUCT_NAME", "NONE"]) if kind in ("ref", "two") else None
        f = (ctx.pick("f" + k, sorted(forms)) if k != "AAB" else "$(") if tgt else None
        v = {"text": txt, "ref": None, "two": None, "list": [txt, "l2"]}[kind]
        if tgt:
            v = txt + f + tgt + forms[f] + ("" if kind == "ref" else "/${SRCROOT}")
        extra[k] = v
        parts[k] = (txt, tgt, kind)
    used = {k: set(x for x in ([p[1]] + (["SRCROOT"] if p[2] == "two" else [])) if x in extra or x in ("PRODUCT_NAME", "SRCROOT")) for k, p in parts.items()}
    cyc = False
    for k in extra:
        seen, todo = [], [k]
        while todo:
            for u in used.get(todo.pop(), ()):
                if u == k:
                    cyc = True
                if u not in seen:
                    seen.append(u)
                    todo.append(u)
    try:
        env = t.x.GetSortedXcodeEnv(s, "/out", "/src", "Debug", dict(extra))
    except t.x.GypError:
        env = None
    ctx.observe(env)
    ctx.check((env is None) == cyc, "a cycle is not noticed" if cyc else "variables without a cycle are refused")
    if cyc:
        return
    order = [k for k, _ in env]
    vals = dict(env)
    ctx.check(len(vals) == len(order) and all(k in vals for k in extra), "a variable is lost")
    for k in used:
        for u in used[k]:
            ctx.check(order.index(u) < order.index(k), "a variable is used before it is set")

    def full(k):
        if k not in parts:
            return {"PRODUCT_NAME": "prod", "SRCROOT": "/src"}.get(k, "${" + k + "}")
        txt, tgt, kind = parts[k]
        if kind == "text":
            return txt
        if kind == "list":
            return txt + " l2"
        return txt + full(tgt) + ("" if kind == "ref" else "//src")
    for k in extra:
        for f in sorted(forms):
            ctx.check(t.x.ExpandEnvVars("<" + f + k + forms[f] + ">", env) == "<" + full(k) + ">", "a variable expands to something else")
    ctx.check(t.x.ExpandEnvVars("$NONE-$AABX", env) == "$NONE-$AABX", "an unknown variable is expanded")


def pertarget(ctx, n):
    """settings that all configurations share, and those of one"""
    t = Tools(ctx)
    confs = {}
    count = ctx.pick("count", [1, 2, 3])
    for i in range(count):
        c = {}
        for k in ("A", "B"):
            if ctx.pick("has%s%d" % (k, i), [False, True]):
                c[k] = ctx.str("v%s%d" % (k, i), n, alphabet="xy")
        confs["c%d" % i] = c
    glob = {}
    if ctx.pick("global", [False, True]):
        glob["A"] = "G"
    spec = {"target_name": "t", "type": "executable", "configurations": {c: {"xcode_settings": dict(v)} for c, v in confs.items()}}
    t.x.MergeGlobalXcodeSettingsToSpec({"xcode_settings": dict(glob)} if glob else {}, spec)
    s = t.x.XcodeSettings(spec)
    for v in confs.values():
        if glob and "A" not in v:
            v["A"] = "G"
    got = s.GetPerTargetSettings()
    ctx.observe(got)
    for k in ("A", "B"):
        vals = [c.get(k) for c in confs.values()]
        same = all(v is not None for v in vals) and all(bool(v == vals[0]) for v in vals)
        ctx.check((k in got) == same, "a setting of some configurations is taken for the target's" if not same else "a setting of the target is lost")
        if same:
            ctx.check(got[k] == vals[0], "another value")
        for c in confs:
            ctx.check(s.GetPerConfigSetting(k, c, "none") == confs[c].get(k, "none"), "another value for the configuration")
        none = all(v is None for v in vals)
        try:
            one = s.GetPerTargetSetting(k, "none")
        except AssertionError:
            one = None
        ctx.check(one == ("none" if none else vals[0]) if none or same else one is None, "a setting that differs is used")


def conditional(ctx, n):
    """settings for devices only"""
    t = Tools(ctx)
    name = ctx.pick("config", ["Debug", "Debug-iphoneos", "Debug-iphonesimulator"])
    cond = ctx.pick("cond", ["[sdk=iphoneos*]", "[sdk=macosx*]", "[arch=x]"])
    conf = {"K" + cond: ctx.str("v", n, alphabet="xy")}
    plain = ctx.pick("plain", [False, True])
    if plain:
        conf["K"] = "p"
    v = conf["K" + cond]
    s = t.settings({name: conf, "Other": {"K": "o"}})
    ctx.observe(s.xcode_settings[name])
    use = name == "Debug-iphoneos" and cond == "[sdk=iphoneos*]"
    want = {"K": v} if use else {"K": "p"} if plain else {}
    ctx.check(s.xcode_settings[name] == want and s.xcode_settings["Other"] == {"K": "o"}, "a conditional setting is used elsewhere")


def devices(ctx, n):
    """targets for devices and simulators"""
    t = Tools(ctx)
    td, had = {}, {}
    ios = False
    for i in range(2):
        conf = {"defines": ["D"]}
        has = ctx.pick("has%d" % i, ["no", "empty", "ios", "other"])
        if has != "no":
            conf["xcode_settings"] = {"empty": {}, "ios": {"IPHONEOS_DEPLOYMENT_TARGET": "9"}, "other": {"SDKROOT": "macosx", "X": "1"}}[has]
        ios = ios or has == "ios"
        ts = ctx.pick("ts%d" % i, ["target", "host"])
        td["t%d" % i] = {"toolset": ts, "configurations": {"Debug": conf}}
        had["t%d" % i] = (ts, dict(conf.get("xcode_settings", {})))
    got = t.x.CloneConfigurationForDeviceAndEmulator(td)
    ctx.observe(sorted((k, sorted(v["configurations"])) for k, v in got.items()))
    for k, (ts, before) in had.items():
        c = got[k]["configurations"]
        if not ios:
            ctx.check(sorted(c) == ["Debug"] and c["Debug"].get("xcode_settings", {}) == before, "other configurations without an iOS target")
            continue
        ctx.check(sorted(c) == ["Debug", "Debug-iphoneos", "Debug-iphonesimulator"], "configurations are missing")
        for dev in ("iphoneos", "iphonesimulator"):
            want = dict(before)
            if ts == "target":
                want["SDKROOT"] = dev
            ctx.check(c["Debug-" + dev].get("xcode_settings", {}) == want and c["Debug-" + dev]["defines"] == ["D"], "a configuration for another device")


def postbuilds(ctx, n):
    """what runs after linking"""
    t = Tools(ctx)
    typ = ctx.pick("type", ["executable", "shared_library", "loadable_module", "static_library"])
    bundle = ctx.pick("bundle", [0, 1]) if typ != "static_library" else 0
    conf = {}
    for key, vals in (("DEPLOYMENT_POSTPROCESSING", [None, "YES", "NO"]), ("STRIP_INSTALLED_PRODUCT", [None, "YES"]), ("DEBUG_INFORMATION_FORMAT", [None, "dwarf", "dwarf-with-dsym"]),
                      ("GCC_GENERATE_DEBUGGING_SYMBOLS", [None, "NO"]), ("STRIP_STYLE", [None, "all", "non-global", "debugging"])):
        if key == "STRIP_STYLE" and conf.get("STRIP_INSTALLED_PRODUCT") is None:
            continue
        v = ctx.pick(key, vals)
        if v is not None:
            conf[key] = v
    extra = ctx.str("flags", n, alphabet="-x") if conf.get("STRIP_INSTALLED_PRODUCT") else ""
    if extra:
        conf["STRIPFLAGS"] = extra + " $(F)"
    quiet = ctx.pick("quiet", [False, True])
    s = t.settings({"Debug": conf, "Release": {}}, typ, mac_bundle=bundle)
    mine = ["mine"]
    got = s.AddImplicitPostbuilds("Debug", "out", "out/bin", mine, quiet)
    ctx.observe(got)
    want = []
    if conf.get("GCC_GENERATE_DEBUGGING_SYMBOLS") != "NO" and conf.get("DEBUG_INFORMATION_FORMAT") == "dwarf-with-dsym" and typ != "static_library":
        want += ["echo DSYMUTIL\\(t\\)"] * (not quiet) + ["dsymutil out/bin -o out.dSYM"]
    if conf.get("DEPLOYMENT_POSTPROCESSING") == "YES" and conf.get("STRIP_INSTALLED_PRODUCT") == "YES":
        style = conf.get("STRIP_STYLE") or ("non-global" if typ == "loadable_module" and bundle else "all" if typ == "executable" else "debugging")
        f = {"all": "", "non-global": "-x", "debugging": "-S"}[style] + (" " + extra + " ${F}" if extra else "")
        want += ["echo STRIP\\(t\\)"] * (not quiet) + ["strip " + f + " out/bin"]
    ctx.check(len(got) == len(want) + 1 and [_words(x) for x in got] == [_words(x) for x in want + ["mine"]], "other commands run after linking")
    ctx.check(mine == ["mine"], "the list of commands is changed")
    ctx.check(s.AddImplicitPostbuilds("Release", "out", "out/bin", mine, quiet) == ["mine"], "a command of another configuration runs")


def _words(x):
    return [w for w in x.split(" ") if w != ""]


def signing(ctx, n):
    """a product for devices is signed with the identity asked for"""
    t = Tools(ctx)
    idents = [ctx.str("id%d" % i, n, minlen=1, alphabet="ab") for i in range(2)]
    lines = [b"  1) F00 \"", b"  2) F11 \""]

    class Text:
        """the bytes that a program wrote"""

        def __init__(self, s):
            self.s = s

        def decode(self, *a):
            return self.s
    text = "".join(["  %d) F%d%d \"" % (i + 1, i, i) + "<" + x + ">\"\n" for i, x in enumerate(idents)]) + "     2 valid identities found\n"

    class Sub:
        @staticmethod
        def check_output(cmd, **k):
            return text if k.get("text") or k.get("universal_newlines") or k.get("encoding") else Text(text)
    ctx.patch(X, "subprocess", Sub)
    ident = ctx.pick("which", ["first", "second", "none", "missing"])
    conf = {"IPHONEOS_DEPLOYMENT_TARGET": "9"}
    ctx.assume(idents[0] != idents[1])
    if ident != "none":
        conf["CODE_SIGN_IDENTITY"] = {"first": "<" + idents[0] + ">", "second": "<" + idents[1] + ">", "missing": "zzz"}[ident]
    if ctx.pick("more", [False, True]):
        conf["CODE_SIGN_ENTITLEMENTS"] = "ent"
        conf["PROVISIONING_PROFILE"] = "prof"
    s = t.settings({"Debug": conf}, "executable", mac_bundle=1)
    got = s.AddImplicitPostbuilds("Debug", "o", "o/b", ["mine"], True)
    ctx.observe(len(got))
    if ident in ("none", "missing"):
        ctx.check(got == ["mine"], "signed without an identity")
        return
    ctx.check(len(got) == 2 and got[0] == "mine", "not signed after everything else")
    want = ' ${TARGET_BUILD_DIR}/gyp-mac-tool code-sign-bundle "F%s" "%s" "%s" "${BUILT_PRODUCTS_DIR}/t.app" False' % (
        {"first": "00", "second": "11"}[ident], conf.get("CODE_SIGN_ENTITLEMENTS", ""), conf.get("PROVISIONING_PROFILE", ""))
    ctx.check(got[1].endswith(want), "signed with something else")


def plist(ctx, n):
    """what is added to Info.plist belongs to the target and its configuration"""
    version = ctx.pick("xcode", ["4.2.0", "4.3.1", "6.0", "9.4.1"])
    t = Tools(ctx, version=version)
    confs, all_ = [], []
    for i in range(2):
        c = {}
        sdk = ctx.pick("sdk%d" % i, [None, "macosx11", "iphoneos"])
        if sdk:
            c["SDKROOT"] = sdk
        if sdk == "iphoneos":
            c["IPHONEOS_DEPLOYMENT_TARGET"] = ctx.str("min%d" % i, n, minlen=1, alphabet="89")
            fam = ctx.pick("fam%d" % i, [None, 2, "1,2"])
            if fam is not None:
                c["TARGETED_DEVICE_FAMILY"] = fam
        if ctx.pick("gcc%d" % i, [False, True]):
            c["GCC_VERSION"] = ctx.str("comp%d" % i, n, minlen=1, alphabet="cg")
        confs.append(c)
        all_.append(t.settings({"Debug-iphoneos": c}, mac_bundle=1))
    for i in (0, 1, 0):
        c = confs[i]
        got = all_[i].GetExtraPlistItems("Debug-iphoneos")
        ctx.observe(sorted(got.items()))
        sdk = c.get("SDKROOT", "")
        if not sdk and version[0] != "4":
            sdk = "macosx"
        want = {"BuildMachineOSBuild": "17G65", "DTXcode": {"4.2.0": "0420", "4.3.1": "0431", "6.0": "0600", "9.4.1": "0941"}[version], "DTXcodeBuild": "9F2000", "DTSDKName": sdk + "v" + (sdk or "d"),
                "DTSDKBuild": "b" + sdk if version == "9.4.1" else "17G65" if version == "4.2.0" else "v" + (sdk or "d")}
        if "GCC_VERSION" in c:
            want["DTCompiler"] = c["GCC_VERSION"]
        if "IPHONEOS_DEPLOYMENT_TARGET" in c:
            want.update(MinimumOSVersion=c["IPHONEOS_DEPLOYMENT_TARGET"], DTPlatformName=sdk, DTPlatformVersion="v" + sdk, CFBundleSupportedPlatforms=["iPhoneOS"], DTPlatformBuild=want["DTSDKBuild"],
                        UIDeviceFamily={None: [1], 2: [2], "1,2": [1, 2]}[c.get("TARGETED_DEVICE_FAMILY")])
        ctx.check(got == want, "other entries than those of the target")


def prefix(ctx, n):
    """the header that every source includes"""
    t = Tools(ctx)
    header = ctx.pick("header", [None, "h/p.h"])
    pre = ctx.pick("compiled", [None, "NO", "YES"])
    conf = {}
    if header:
        conf["GCC_PREFIX_HEADER"] = header
    if pre:
        conf["GCC_PRECOMPILE_PREFIX_HEADER"] = pre
    s = t.settings({"Debug": dict(conf), "Release": dict(conf)})
    p = t.x.MacPrefixHeader(s, lambda x: "B/" + x, lambda x, l: "O/" + l + "/" + x)
    arch = ctx.pick("arch", [None, "arm64"])
    base = ctx.str("src", n, minlen=1, alphabet="ac.m")
    ctx.assume(ctx.Not(base.startswith(".")))
    ext = ctx.pick("ext", [".c", ".cc", ".cpp", ".cxx", ".m", ".mm", ".s", ".h"])
    lang = {".cpp": "cc", ".cxx": "cc", ".s": None, ".h": None}.get(ext, ext[1:])
    srcs = ["q/" + base + ext, "z.c"]
    deps = p.GetObjDependencies(srcs, ["1.o", "2.o"], arch)
    cmds = p.GetPchBuildCommands(arch)
    ctx.observe(deps, cmds)
    use = header is not None and pre == "YES"
    tail = "" if arch is None else ".arm64"
    gch = {l: "O/" + l + "/h/p.h" + tail for l in ("c", "cc", "m", "mm")}
    for l in gch:
        ctx.check(p.GetInclude(l, arch) == ("" if header is None else "-include " + (gch[l] if use else "B/h/p.h")), "another header is included")
    want = ([(srcs[0], "1.o", gch[lang] + ".gch")] if lang else []) + [("z.c", "2.o", gch["c"] + ".gch")]
    ctx.check(list(deps) == (want if use else []), "an object does not wait for its compiled header")
    flag = {"c": "-x c-header", "cc": "-x c++-header", "m": "-x objective-c-header", "mm": "-x objective-c++-header"}
    ctx.check(sorted(cmds) == (sorted((gch[l] + ".gch", flag[l], l, "B/h/p.h") for l in gch) if use else []), "other headers are compiled")


HARNESSES = [
    Harness(switches, dict(n=9), dict(n=11), "one of 34 settings in one of two configurations, values of up to n characters or numbers, 3 architectures", validate=4),
    Harness(lists, dict(n=2), dict(n=4), "up to two flags of up to n characters per list, 4 kinds of SDK", validate=4),
    Harness(link, dict(n=3), dict(n=5), "one file name and product name of up to n characters, 8 kinds of flags", validate=4),
    Harness(extensions, dict(n=2), dict(n=4), "applications, extensions and tests with 3 versions of Xcode, one flag of up to n characters", validate=4),
    Harness(libraries, dict(n=5), dict(n=6), "one library with a name of up to n characters in 7 forms", validate=4),
    Harness(architectures, dict(n=1), dict(n=1), "6 major versions with any minor ones, 5 SDKs, 8 lists of architectures, one with a name of up to 5 characters", validate=4),
    Harness(versions, dict(n=1), dict(n=1), "versions of up to 4 parts from any of 5 sources", validate=4),
    Harness(layout, dict(n=2), dict(n=4), "4 types as files, bundles, tests or extensions, names of up to n characters", validate=4),
    Harness(resources, dict(n=3), dict(n=6), "resources with names of up to n characters in 5 directories, 4 ways to give Info.plist", validate=4),
    Harness(environment, dict(n=1), dict(n=2), "up to 3 more variables of up to n characters that refer to one another in 3 notations", validate=4),
    Harness(pertarget, dict(n=2), dict(n=3), "up to 3 configurations with two settings of up to n characters", validate=4),
    Harness(conditional, dict(n=2), dict(n=3), "3 conditions, 3 configurations", validate=4),
    Harness(devices, dict(n=1), dict(n=1), "two targets with any settings and toolsets", validate=4),
    Harness(postbuilds, dict(n=2), dict(n=4), "4 types, every combination of 5 settings", validate=4),
    Harness(signing, dict(n=2), dict(n=3), "two identities of up to n characters", validate=4),
    Harness(plist, dict(n=1), dict(n=2), "two targets, 4 versions of Xcode, 3 SDKs", validate=4),
    Harness(prefix, dict(n=2), dict(n=4), "any source name of up to n characters with 8 extensions", validate=4),
]
