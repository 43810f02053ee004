import posixpath
from symex.api import Harness
import hlib

PROPERTY = "C27"
PRELOAD = ["gyp.common", "gyp.xcodeproj_file", "gyp.generator.xcode"]
ASSUMPTIONS = [
    "Xcode reads old-style property lists: quoted strings with C escapes and \\U0000, unquoted strings of letters, digits and $ . / _ - :, comments between tokens where a token may begin",
    "Xcode itself cannot tell a carriage return from a new line in most objects; it is excluded",
    "SHA-1 has no collisions: a stand-in that gives different inputs different digests replaces it",
]
XF = "gyp.xcodeproj_file"
XC = "gyp.generator.xcode"


# ---------------------------------------------------------------- property lists

class Reader:
    def __init__(self, text):
        self.s, self.i = text, 0

    def ws(self):
        s = self.s
        while self.i < len(s):
            c = s[self.i]
            if c == " " or c == "\n" or c == "\t":
                self.i += 1
            elif c == "/" and s[self.i + 1:self.i + 2] == "/":
                while self.i < len(s) and s[self.i] != "\n":
                    self.i += 1
            elif c == "/" and s[self.i + 1:self.i + 2] == "*":
                self.i += 2
                while True:
                    if self.i + 1 >= len(s):
                        raise hlib.Bad("comment without end")
                    if s[self.i] == "*" and s[self.i + 1] == "/":
                        break
                    self.i += 1
                self.i += 2
            else:
                return

    def want(self, c):
        self.ws()
        if self.s[self.i:self.i + 1] != c:
            raise hlib.Bad("expected " + c)
        self.i += 1

    def at(self, c):
        self.ws()
        if self.s[self.i:self.i + 1] == c:
            self.i += 1
            return True
        return False

    def value(self):
        self.ws()
        s = self.s
        if self.i >= len(s):
            raise hlib.Bad("value missing")
        c = s[self.i]
        if c == "{":
            self.i += 1
            out = []
            while not self.at("}"):
                k = self.value()
                self.want("=")
                out.append((k, self.value()))
                self.want(";")
            return out
        if c == "(":
            self.i += 1
            out = ()
            while not self.at(")"):
                out += (self.value(),)
                if not self.at(","):
                    self.want(")")
                    break
            return list(out), "list"
        if c == '"':
            return self.quoted()
        out = ""
        while self.i < len(s):
            c = s[self.i]
            if not (("a" <= c and c <= "z") or ("A" <= c and c <= "Z") or ("0" <= c and c <= "9") or c in "$./_-:"):
                break
            out += c
            self.i += 1
        if out == "":
            raise hlib.Bad("unexpected character")
        return out

    def quoted(self):
        s = self.s
        self.i += 1
        out = ""
        while True:
            if self.i >= len(s):
                raise hlib.Bad("string without end")
            c = s[self.i]
            self.i += 1
            if c == '"':
                return out
            if c == "\\":
                e = s[self.i:self.i + 1]
                self.i += 1
                if e == "U":
                    out += chr(int(s[self.i:self.i + 4], 16))
                    self.i += 4
                elif e == "a":
                    out += "\a"
                elif e == "b":
                    out += "\b"
                elif e == "t":
                    out += "\t"
                elif e == "n":
                    out += "\n"
                elif e == "v":
                    out += "\v"
                elif e == "f":
                    out += "\f"
                else:
                    out += e
            else:
                out += c


def _read(ctx, text):
    try:
        r = Reader(text)
        v = r.value()
        r.ws()
        ctx_ok = r.i == len(text) or bool(text[r.i:] == ";") or bool(text[r.i:r.i + 1] == ";")
    except hlib.Bad as e:
        ctx.check(False, "the project file cannot be read: %s" % e)
        return None
    ctx.check(ctx_ok, "text after the value")
    return v


def _entry(ctx, text):
    """`key = value;` with nothing else"""
    try:
        r = Reader(text)
        k = r.value()
        r.want("=")
        v = r.value()
        r.want(";")
        r.ws()
        rest = len(text) - r.i
    except hlib.Bad as e:
        ctx.check(False, "the project file cannot be read: %s" % e)
        return None
    ctx.check(rest == 0, "text after the value")
    return k, v


def _like(ctx, got, want, msg):
    if isinstance(want, dict):
        ctx.check(isinstance(got, list) and len(got) == len(want), msg)
        for k, v in got:
            hit = [w for w in want if bool(w == k)]
            ctx.check(len(hit) == 1, msg)
            _like(ctx, v, want[hit[0]], msg)
    elif isinstance(want, list):
        ctx.check(isinstance(got, tuple) and got[1] == "list" and len(got[0]) == len(want), msg)
        for g, w in zip(got[0], want):
            _like(ctx, g, w, msg)
    else:
        ctx.check(isinstance(got, str), msg)
        ctx.check(got == str(want) if isinstance(want, int) else got == want, msg)


TEXT = [(0, 12), (14, 0x17F)]


def strings(ctx, n):
    """any text reads back as it was given"""
    x = ctx.mod(XF)
    where = ctx.pick("where", ["script", "file", "setting", "listed", "only", "key"])
    a = ctx.str("text", n, alphabet=TEXT)
    if where == "key":
        ctx.assume(ctx.Not(a == "K"))
    out = hlib.Sink()
    if where == "script":
        x.PBXShellScriptBuildPhase({"shellScript": a})._XCKVPrint(out, 3, "shellScript", a)
        want = a
    elif where == "file":
        x.PBXFileReference({"path": "p"})._XCKVPrint(out, 3, "path", a)
        want = a
    else:
        v = {"setting": {"K": a, "N": 7}, "listed": {"K": [a, "b"]}, "only": {"K": [a]}, "key": {a: "v", "K": []}}[where]
        want = {"setting": {"K": a, "N": 7}, "listed": {"K": [a, "b"]}, "only": {"K": a}, "key": {a: "v", "K": ""}}[where]
        x.XCBuildConfiguration({"name": "n", "buildSettings": v})._XCKVPrint(out, 3, "buildSettings", v)
    text = out.text()
    ctx.observe(text)
    e = _entry(ctx, text)
    _like(ctx, e[1], want, "another value than was given")


def comments(ctx, n):
    """the name of an object never ends its comment"""
    x = ctx.mod(XF)
    a = ctx.str("name", n, minlen=1, alphabet="*/a\" ;")
    single = ctx.pick("single", [False, True])
    if single:
        o = x.PBXFileReference({"path": "p", "name": a})
    else:
        o = x.PBXGroup({"name": a, "path": "p"})
    o.id = "0123456789ABCDEF01234567"
    out = hlib.Sink()
    o.Print(out)
    text = out.text()
    ctx.observe(text)
    e = _entry(ctx, text)
    ctx.check(e[0] == o.id, "another object")
    want = {"isa": "PBXFileReference" if single else "PBXGroup", "name": a, "path": "p", "sourceTree": "<group>"}
    want.update({"lastKnownFileType": "text"} if single else {"children": []})
    _like(ctx, e[1], want, "another value than was given")


# ---------------------------------------------------------------- files and groups

def _refs(g):
    out = []
    for c in g._properties["children"]:
        if "children" in c._properties:
            out += _refs(c)
        else:
            out.append(c)
    return out


def _tree(ctx, x, g, sort, top=True):
    """every child knows its group; groups before files, by name"""
    prev = None
    for c in g._properties["children"]:
        ctx.check(c.parent is g, "a child of another group")
        rank = 0 if c.__class__ is x.PBXGroup else 1
        if prev is not None and sort and not top:
            ctx.check(prev[0] < rank or (prev[0] == rank and bool(prev[1] <= c.Name())), "not sorted")
        prev = (rank, c.Name())
        if "children" in c._properties:
            _tree(ctx, x, c, sort, False)


def files(ctx, n):
    """one reference for each file, however often and in whatever form it is named"""
    x = ctx.mod(XF)
    p = x.PBXProject(path="d/p.xcodeproj")
    flat = ctx.pick("flat", [False, True])
    group = p.FrameworksGroup() if flat else None
    k = ctx.pick("files", [2, 3])
    given, refs = [], []
    for i in range(k):
        dirs = ["", "s/", "/s/", "s/t/", "../", "$(INTERMEDIATE_DIR)/", "$(SDKROOT)/", "./s/../"] if k == 2 else ["", "s/", "s/t/", "$(INTERMEDIATE_DIR)/"]
        d = ctx.pick("dir%d" % i, dirs if flat else dirs + ["s/en.lproj/", "s/fr.lproj/"])
        name = ctx.str("name%d" % i, n, minlen=1, alphabet="ab")
        form = ctx.pick("kind%d" % i, [".x"] if "lproj" in d else ["", ".c", "/"] if k == 2 else ["", "/"])
        path = d + name + form
        norm = posixpath.normpath(d + "q")[:-1] + name + form
        plain = norm[:-1] if form == "/" else norm
        for g, _ in given:
            o = g[:-1] if bool(g[-1:] == "/") else g
            # a name is not both a directory with listed contents and a file
            ctx.assume(ctx.Not(plain.startswith(o + "/")))
            ctx.assume(ctx.Not(o.startswith(plain + "/")))
            ctx.assume(ctx.Or(ctx.Not(o == plain), g == norm))
        given.append((norm, plain))
        refs.append(group.AddOrGetFileByPath(path, False) if flat else p.AddOrGetFileInRootGroup(path))
    distinct = []
    for i, (g, plain) in enumerate(given):
        hit = [j for j in range(i) if bool(given[j][0] == g)]
        if not hit:
            distinct.append(plain)
        else:
            ctx.check(refs[hit[0]] is refs[i], "a second reference for the same file")
    if not flat:
        p.RootGroupsTakeOverOnlyChildren(True)
        p.SortGroups()
    got = [r.FullPath() for r in _refs(p._properties["mainGroup"])]
    ctx.observe(got)
    ctx.check(len(got) == len(distinct), "not one reference for each file")
    for want in distinct:
        ctx.check(any(bool(g == want) for g in got), "a file is not referred to by its path")
    _tree(ctx, x, p._properties["mainGroup"], not flat)
    if not flat:
        order = [c.Name() for c in p._properties["mainGroup"]._properties["children"]]
        ctx.check(order == [c for c in ("Source", "Intermediates") if c in order], "the main groups are out of order")
    for (g, plain), r in zip(given, refs):
        if r.__class__ is x.PBXFileReference:
            ctx.check(r.FullPath() == plain, "the reference is to another file")
            if g is not plain:
                ctx.check(r._properties["lastKnownFileType"] == "folder", "a directory as a file")
        else:
            ctx.check(r.__class__ is x.PBXVariantGroup and any(bool(c.FullPath() == plain) for c in r._properties["children"]), "the reference is to another file")
            ctx.check(r.Name() == posixpath.basename(plain), "variants under another name")


def destination(ctx, n):
    """copy phases go where the build file says"""
    x = ctx.mod(XF)
    subs = {16: "$(BUILT_PRODUCTS_DIR)", 10: "$(BUILT_PRODUCTS_DIR)/$(FRAMEWORKS_FOLDER_PATH)", 1: "$(BUILT_PRODUCTS_DIR)/$(WRAPPER_NAME)", 6: "$(BUILT_PRODUCTS_DIR)/$(EXECUTABLE_FOLDER_PATH)",
            7: "$(BUILT_PRODUCTS_DIR)/$(UNLOCALIZED_RESOURCES_FOLDER_PATH)", 15: "$(BUILT_PRODUCTS_DIR)/$(JAVA_FOLDER_PATH)", 11: "$(BUILT_PRODUCTS_DIR)/$(SHARED_FRAMEWORKS_FOLDER_PATH)",
            12: "$(BUILT_PRODUCTS_DIR)/$(SHARED_SUPPORT_FOLDER_PATH)", 13: "$(BUILT_PRODUCTS_DIR)/$(PLUGINS_FOLDER_PATH)", 0: ""}
    first = ctx.pick("first", ["$(BUILT_PRODUCTS_DIR)", "$(BUILT_FRAMEWORKS_DIR)", "$(SRCROOT)", "$(OTHER)", "", "rel"])
    second = ctx.pick("second", ["", "/$(WRAPPER_NAME)", "/$(EXECUTABLE_FOLDER_PATH)", "/$(UNLOCALIZED_RESOURCES_FOLDER_PATH)", "/$(JAVA_FOLDER_PATH)", "/$(FRAMEWORKS_FOLDER_PATH)",
                                 "/$(SHARED_FRAMEWORKS_FOLDER_PATH)", "/$(SHARED_SUPPORT_FOLDER_PATH)", "/$(PLUGINS_FOLDER_PATH)", "/$(XPCSERVICES_FOLDER_PATH)", "/$(UNKNOWN)"]) if first.startswith("$(BUILT_P") else ctx.pick("within", ["", "/$(WRAPPER_NAME)", "/$(UNKNOWN)"]) if first.startswith("$(BUILT_F") else ""
    name = ctx.str("rest", n, alphabet="ab/ ")
    rest = "/" + name if ctx.pick("more", [False, True]) or first in ("", "rel") else ""
    ctx.assume(ctx.Not(ctx.Or(name.startswith("/"), name.endswith("/"))))
    path = first + second + rest
    o = x.PBXCopyFilesBuildPhase({"name": "c"})
    try:
        o.SetDestination(path)
        failed = False
    except ValueError:
        failed = True
    if first == "rel":
        ctx.check(failed, "a relative destination is accepted")
        return
    ctx.check(not failed, "a destination is refused")
    sub, dst = o._properties["dstSubfolderSpec"], o._properties["dstPath"]
    ctx.observe(sub, dst)
    ctx.check(sub in subs, "unknown place")
    base = subs[sub]
    if sub == 0 and not dst.startswith("$"):
        base = "/"
        got = "/" + dst
    else:
        got = base + ("/" if base and dst else "") + dst
    want = path
    if first == "$(BUILT_FRAMEWORKS_DIR)":
        want = "$(BUILT_PRODUCTS_DIR)/$(FRAMEWORKS_FOLDER_PATH)" + second + rest
    elif second == "/$(XPCSERVICES_FOLDER_PATH)":
        want = "$(BUILT_PRODUCTS_DIR)/$(CONTENTS_FOLDER_PATH)/XPCServices" + rest
    if rest == "/" or bool(rest == "/"):
        want = want[:-1] if first else want
        got = got[:-1] if first and bool(got.endswith("/")) else got
    ctx.check(got == want, "copied to another place")


def settings(ctx, n):
    """settings of all configurations at once"""
    x = ctx.mod(XF)
    names = ["A", "B", "C"][:ctx.pick("configurations", [1, 2, 3])]
    l = x.XCConfigurationList({"buildConfigurations": [x.XCBuildConfiguration({"name": c}) for c in names]})
    vals = []
    for i, c in enumerate(names):
        kind = ctx.pick("has%d" % i, ["no", "text", "list"])
        if kind == "no":
            vals.append(None)
            continue
        v = ctx.str("v%d" % i, n, alphabet="ab")
        v = [v] if kind == "list" else v
        vals.append(v)
        l.ConfigurationNamed(c).SetBuildSetting("K", v)
    have = [v for v in vals if v is not None]
    eq = all(type(v) is type(have[0]) and bool(v == have[0]) for v in have)
    want = 0 if not have else 1 if len(have) == len(vals) and eq else -1
    got = l.HasBuildSetting("K")
    ctx.observe(got)
    ctx.check(got == want, "not told apart whether all configurations have the setting")
    try:
        v = l.GetBuildSetting("K")
    except (ValueError, KeyError):
        v = None
    if want == 1:
        ctx.check(v == have[0], "another value")
    else:
        ctx.check(v is None, "a value that not all configurations have")
    op = ctx.pick("then", ["set", "append", "delete"])
    if op == "set":
        l.SetBuildSetting("K", "new")
        after = ["new"] * len(names)
    elif op == "delete":
        l.DelBuildSetting("K")
        after = [None] * len(names)
    else:
        if any(v is not None and not isinstance(v, list) for v in vals):
            return
        l.AppendBuildSetting("K", "new")
        after = [(list(v) if v is not None else []) for v in vals]
        after = [v if v[-1:] == ["new"] else v + ["new"] for v in after]
    for c, v in zip(names, after):
        conf = l.ConfigurationNamed(c)
        ctx.check((conf.GetBuildSetting("K") if conf.HasBuildSetting("K") else None) == v, "a configuration has another value afterwards")


# ---------------------------------------------------------------- whole projects

class Opt:
    suffix = ""
    generator_output = None
    toplevel_dir = "."


class Hash:
    digest_size = 20

    def __init__(self, seen, data=()):
        self.seen, self.data = seen, data

    def copy(self):
        return Hash(self.seen, self.data)

    def update(self, d):
        self.data += (d,)

    def digest(self):
        for i, o in enumerate(self.seen):
            if len(o) == len(self.data) and all(len(a) == len(b) for a, b in zip(o, self.data)) and all(bool(a == b) for a, b in zip(o, self.data)):
                break
        else:
            i = len(self.seen)
            self.seen.append(self.data)
        return i.to_bytes(20, "big")


class Sha:
    def __init__(self):
        self.seen = []

    def sha1(self, *a):
        return Hash(self.seen)


def _generate(ctx, specs, extra=None, flags=None, output=None, ids=False):
    """the projects for specs {qualified name: target}, as objects, and the other files written"""
    g = ctx.mod(XC)
    written = {}
    ctx.patch("os", "makedirs", lambda *a, **k: None)

    def op(path, mode="r", *a, **k):
        written[path] = hlib.Sink()
        return written[path]
    ctx.patch_builtin("open", op)
    ctx.patch(XF, "hashlib", Sha())
    projects = {}

    def write(self):
        projects[self.gyp_path] = self.project
    g.XcodeProject.Write = write
    if not ids:
        g.gyp.xcodeproj_file.XCProjectFile.ComputeIDs = lambda self, *a: None
        g.gyp.xcodeproj_file.XCProjectFile.EnsureNoIDCollisions = lambda self: None
    data = {}
    for q, s in specs.items():
        f = q.split(":")[0]
        data.setdefault(f, dict({"targets": [], "included_files": [f.split("/")[-1]]}, **(extra or {})))["targets"].append(s)
        s.setdefault("toolset", "target")
        s.setdefault("configurations", {"Debug": {}, "Release": {}})
        s.setdefault("default_configuration", sorted(s["configurations"])[0])
    o = Opt()
    o.generator_output = output
    g.GenerateOutput(list(specs), dict(specs), data, {"options": o, "generator_flags": flags or {}})
    return projects, {k: v.text() for k, v in written.items()}


def _target(p, name):
    hit = [t for t in p._properties["targets"] if t.Name() == name]
    return hit[0] if len(hit) == 1 else None


def _phase(x, t, cls):
    return [f._properties["fileRef"].FullPath() for ph in t._properties["buildPhases"] if ph.__class__ is cls for f in ph._properties["files"]]


def _conf(t, c):
    return t.ConfigurationNamed(c)._properties["buildSettings"]


KINDS = {
    ("executable", 0): ("tool", "compiled.mach-o.executable", "", ""), ("static_library", 0): ("library.static", "archive.ar", "lib", "a"),
    ("shared_library", 0): ("library.dynamic", "compiled.mach-o.dylib", "lib", "dylib"), ("loadable_module", 0): ("library.dynamic", "compiled.mach-o.dylib", "", "so"),
    ("executable", 1): ("application", "wrapper.application", "", "app"), ("shared_library", 1): ("framework", "wrapper.framework", "", "framework"),
    ("loadable_module", 1): ("bundle", "wrapper.cfbundle", "", "bundle"), ("none", 0): None,
}


def product(ctx, n):
    """what is built, under which name, and of which sources"""
    x = ctx.mod(XF)
    typ, bundle = ctx.pick("kind", sorted(KINDS))
    spec = {"target_name": "t", "type": typ}
    if bundle:
        spec["mac_bundle"] = 1
    name = "t"
    if ctx.pick("named", [False, True]):
        name = spec["product_name"] = ctx.str("product", n + 3, minlen=1, alphabet="libx")
    kind = KINDS[typ, bundle]
    prefix, ext = (kind[2], kind[3]) if kind else ("", "")
    if ctx.pick("prefixed", [False, True]):
        prefix = spec["product_prefix"] = ctx.str("prefix", n, alphabet="xl")
    if ctx.pick("extended", [False, True]):
        ext = spec["product_extension"] = ctx.str("extension", n, minlen=1, alphabet="xyz")
    if ctx.pick("placed", [False, True]):
        spec["product_dir"] = "$(BUILT_PRODUCTS_DIR)/sub"
    ps, _ = _generate(ctx, {"d/a.gyp:t#target": spec})
    p = ps["d/a.gyp"]
    t = _target(p, "t")
    ctx.check(t is not None, "target lost")
    if kind is None:
        ctx.check(t.__class__ is x.PBXAggregateTarget, "a target that builds nothing has a product")
        return
    ctx.check(t._properties["productType"] == "com.apple.product-type." + kind[0], "another type of product")
    ref = t._properties["productReference"]
    ctx.check(ref.parent is p.ProductsGroup(), "the product is not listed")
    if not (typ == "executable" and not bundle and "product_extension" in spec) and bool(prefix != "") and bool(name.startswith(prefix)):
        name = name[len(prefix):]
    elif typ == "executable" and not bundle and "product_extension" in spec and bool(prefix != "") and bool(name.startswith(prefix)):
        name = name[len(prefix):]
    full = prefix + name + ("." + ext if bool(ext != "") else "")
    ctx.observe(ref._properties["path"])
    ctx.check(ref._properties["path"] == full and ref._properties["sourceTree"] == "BUILT_PRODUCTS_DIR", "the product has another name")
    ctx.check(ref._properties["explicitFileType"] == kind[1], "the product is of another type")
    for c in ("Debug", "Release"):
        b = _conf(t, c)
        pre = b.get("WRAPPER_PREFIX" if bundle else "EXECUTABLE_PREFIX", kind[2])
        suf = b.get("WRAPPER_EXTENSION" if bundle else "EXECUTABLE_EXTENSION", kind[3])
        pn = b["PRODUCT_NAME"]
        if typ == "executable" and not bundle:
            suf = ""
        ctx.check(pre + pn + ("." + suf if bool(suf != "") else "") == full, "the settings give the product another name")
        ctx.check(b.get("TARGET_BUILD_DIR") == spec.get("product_dir"), "the product goes elsewhere")
        ctx.check((b.get("MACH_O_TYPE") == "mh_bundle") == (typ == "loadable_module" and not bundle), "another kind of binary")


def sources(ctx, n):
    """which files are compiled, linked, copied as resources or only listed"""
    x = ctx.mod(XF)
    typ = ctx.pick("type", ["executable", "none", "static_library"])
    skip = ctx.pick("skip", [0, 1])
    bundle = ctx.pick("bundle", [0, 1]) if typ == "executable" else 0
    k = ctx.pick("count", [1, 2])
    spec = {"target_name": "t", "type": typ, "sources": [], "sources_excluded": ["gone.c"]}
    for i in range(k):
        ext = ctx.pick("ext%d" % i, [".c", ".CC", ".S", ".mm", ".h", ".o", ".framework", ".in", ""])
        spec["sources"].append(ctx.pick("dir%d" % i, ["", "s/", "$(INTERMEDIATE_DIR)/"]) + ctx.str("name%d" % i, n, minlen=1, alphabet="ab") + ext)
    if k == 2:
        ctx.assume(ctx.Not(spec["sources"][0] == spec["sources"][1]))
    if bundle:
        spec.update({"mac_bundle": 1, "mac_bundle_resources": ["r/x.png", "en.lproj/m.xib", "fr.lproj/m.xib"], "mac_framework_headers": ["pub.h"], "mac_framework_private_headers": ["priv.h"]})
    elif typ == "static_library":
        spec["mac_framework_headers"] = ["pub.h"]
    given = list(spec["sources"])
    ps, _ = _generate(ctx, {"d/a.gyp:t#target": spec}, flags={"xcode_list_excluded_files": 0} if skip else {})
    p = ps["d/a.gyp"]
    t = _target(p, "t")
    comp, link = [], []
    for f in given:
        e = posixpath.splitext(f)[1]
        if typ != "none" and e in (".c", ".CC", ".S", ".mm"):
            comp.append(f)
        elif typ != "none" and e in (".o", ".framework"):
            link.append(f)
    got = _phase(x, t, x.PBXSourcesBuildPhase)
    ctx.observe(got)
    ctx.check(got == comp, "other files are compiled")
    got = _phase(x, t, x.PBXFrameworksBuildPhase)
    ctx.check(len(got) == len(link) and all(any(bool(a == b) for b in got) for a in link), "other files are linked")
    everything = [r.FullPath() for r in _refs(p._properties["mainGroup"])]
    for f in given:
        ctx.check(sum(1 for e in everything if bool(e == f)) == 1, "a file is not listed once")
    ctx.check(("gone.c" in [e for e in everything if isinstance(e, str)]) == (not skip), "excluded files are listed or not, against the flag")
    heads = [(f._properties["fileRef"].FullPath(), f._properties["settings"]) for ph in t._properties["buildPhases"] if ph.__class__ is x.PBXHeadersBuildPhase for f in ph._properties["files"]]
    pub, priv = ("pub.h", "{ATTRIBUTES = (Public, ); }"), ("priv.h", "{ATTRIBUTES = (Private, ); }")
    ctx.check(sorted(heads) == ([priv, pub] if bundle else [pub] if typ == "static_library" else []), "other headers are published")
    res = [f._properties["fileRef"] for ph in t._properties["buildPhases"] if ph.__class__ is x.PBXResourcesBuildPhase for f in ph._properties["files"]]
    ctx.check(sorted(r.Name() for r in res) == (["m.xib", "x.png"] if bundle else []), "other resources")
    order = [ph.__class__.__name__ for ph in t._properties["buildPhases"]]
    want = [c for c in ("PBXHeadersBuildPhase", "PBXResourcesBuildPhase", "PBXSourcesBuildPhase", "PBXFrameworksBuildPhase") if c in order]
    ctx.check(order == want, "the phases are out of order")


def _words(ctx, text):
    try:
        return hlib.posix_split(text, dollar=True)
    except hlib.Bad as e:
        ctx.check(False, "the script is not a command: %s" % e)


def _definition(s):
    """what remains of a definition after one reading that takes quotes and backslashes
    away and splits at spaces; variables are left alone"""
    out, i, quote = "", 0, ""
    while i < len(s):
        c = s[i]
        if c == "\\" and quote != "'":
            if i + 1 >= len(s):
                return None
            out += s[i + 1]
            i += 2
            continue
        if quote:
            if c == quote:
                quote = ""
            else:
                out += c
        elif c == "'":
            quote = "'"
        elif c == '"':
            quote = '"'
        elif c == " ":
            return None
        else:
            out += c
        i += 1
    return None if quote else out


def configured(ctx, n):
    """settings of a configuration apply to it and to no other"""
    confs = {}
    given = {}
    for c in ("Debug", "Release"):
        kind = ctx.pick("in" + c, ["defines", "include_dirs", "library_dirs", "mac_framework_dirs", "xcode_settings", "none"])
        v = ctx.str("v" + c, n, minlen=1, alphabet="a=\"\\' /")
        w = ctx.pick("second" + c, ["zz", "$(SDKROOT)/usr/lib"])
        if kind == "xcode_settings":
            confs[c] = {kind: {"OWN": v, "HEADER_SEARCH_PATHS": [w]}}
        elif kind == "none":
            confs[c] = {}
        else:
            confs[c] = {kind: [v, w] if ctx.pick("two" + c, [False, True]) else [v]}
        given[c] = (kind, v, w, list(confs[c].get(kind, ())) if kind != "xcode_settings" else None)
    lib = ctx.pick("library", [None, "lib/libz.a", "$(SDKROOT)/usr/lib/libz.dylib"])
    spec = {"target_name": "t", "type": "executable", "configurations": confs, "default_configuration": ctx.pick("default", ["Debug", "Release"])}
    if lib:
        spec["libraries"] = [lib]
    top = ctx.pick("global", [False, True])
    extra = {"xcode_settings": {"G": "all", "H": "all"}, "configurations": {"Release": {"xcode_settings": {"H": "rel"}}}} if top else {}
    ps, _ = _generate(ctx, {"d/a.gyp:t#target": spec}, extra=extra)
    p = ps["d/a.gyp"]
    t = _target(p, "t")
    l = t._properties["buildConfigurationList"]
    ctx.check(l._properties["defaultConfigurationName"] == spec["default_configuration"], "another default configuration")
    ctx.check(sorted(c.Name() for c in l._properties["buildConfigurations"]) == ["Debug", "Release"], "other configurations")
    for c in ("Debug", "Release"):
        kind, v, w, vals = given[c]
        b = dict(_conf(t, c))
        ctx.observe(b)
        base = {"PRODUCT_NAME": "t", "EXECUTABLE_PREFIX": ""}
        search = ["lib"] if lib == "lib/libz.a" else []
        if kind == "include_dirs":
            base["HEADER_SEARCH_PATHS"] = vals
        elif kind == "mac_framework_dirs":
            base["FRAMEWORK_SEARCH_PATHS"] = vals
        elif kind == "library_dirs":
            search = search + [d for d in vals if d != "$(SDKROOT)/usr/lib"]
        elif kind == "xcode_settings":
            base.update({"OWN": v, "HEADER_SEARCH_PATHS": [w]})
        if search:
            base["LIBRARY_SEARCH_PATHS"] = search
        if kind == "defines":
            got = b.pop("GCC_PREPROCESSOR_DEFINITIONS", [])
            ctx.check(len(got) == len(vals), "other definitions")
            for g, d in zip(got, vals):
                r = _definition(g)
                ctx.check(r is not None and r == d, "another definition reaches the compiler")
        ctx.check(sorted(b) == sorted(base), "other settings")
        for key, val in base.items():
            ctx.check(b[key] == val, "a setting has another value")
        g = p._properties["buildConfigurationList"].ConfigurationNamed(c)._properties["buildSettings"]
        ctx.check(g.get("G") == ("all" if top else None) and g.get("H") == (("rel" if c == "Release" else "all") if top else None), "other settings for the project")
        ctx.check(g["INTERMEDIATE_DIR"] == "$(PROJECT_DERIVED_FILE_DIR)/$(CONFIGURATION)" and g["SHARED_INTERMEDIATE_DIR"] == "$(SYMROOT)/DerivedSources/$(CONFIGURATION)", "other intermediate directories")


def actions(ctx, n):
    """actions run as given, before what needs them"""
    x = ctx.mod(XF)
    typ = ctx.pick("type", ["executable", "none"])
    k = ctx.pick("actions", [1, 2])
    as_src = ctx.pick("as_sources", [0, 1])
    acts = []
    for i in range(k):
        a = {"action_name": "act%d" % i, "inputs": ["in%d" % i], "outputs": ["$(INTERMEDIATE_DIR)/o%d.c" % i], "process_outputs_as_sources": as_src,
             "action": ["run", ctx.str("arg%d" % i, n if k == 1 else 1, alphabet="a \"'\\;#$"), ctx.pick("var%d" % i, ["$(INTERMEDIATE_DIR)/x", "plain"])]}
        if ctx.pick("told%d" % i, [False, True]):
            a["message"] = "made $(V) now"
        acts.append(a)
    spec = {"target_name": "t", "type": typ, "actions": acts, "dependencies": ["d/a.gyp:dep#target"]}
    post = ctx.pick("post", [0, 2])
    if post:
        spec["postbuilds"] = [{"postbuild_name": "p%d" % i, "action": ["post", "x y", "%d" % i]} for i in range(post)]
    given = [(list(a["action"]), a.get("message")) for a in acts]
    ps, _ = _generate(ctx, {"d/a.gyp:dep#target": {"target_name": "dep", "type": "none"}, "d/a.gyp:t#target": spec})
    p = ps["d/a.gyp"]
    t = _target(p, "t")
    sup = _target(p, "t Support")
    ctx.check((sup is not None) == (typ != "none"), "the actions have no target of their own, or need none")
    holder = sup or t
    deps = [d._properties["target"] for d in t._properties["dependencies"]]
    dep = _target(p, "dep")
    ctx.check(dep in deps and (sup is None or sup in deps), "a dependency is lost")
    if sup:
        ctx.check(dep in [d._properties["target"] for d in sup._properties["dependencies"]], "the actions run before the dependencies")
    phases = [ph for ph in holder._properties["buildPhases"] if ph.__class__ is x.PBXShellScriptBuildPhase]
    ctx.observe([ph._properties["shellScript"] for ph in phases])
    ctx.check(len(phases) == k + (post if not sup else 0), "not one script for each action")
    for ph, a, (words, message), i in zip(phases, acts, given, range(k)):
        pr = ph._properties
        ctx.check(pr["inputPaths"] == ["in%d" % i] and pr["outputPaths"] == ["$(INTERMEDIATE_DIR)/o%d.c" % i], "other inputs or outputs")
        script = pr["shellScript"]
        if message:
            line, script = script.split("\n", 1)
            ctx.check(_words(ctx, line) == ["echo", "note:", "made ${V} now"], "another message")
        ctx.check(script.startswith("exec ") and script.endswith("\nexit 1\n"), "another script")
        ctx.check(_words(ctx, script[5:-8]) == [w.replace("$(INTERMEDIATE_DIR)", "${INTERMEDIATE_DIR}") for w in words], "another command is run")
    posts = [ph for ph in t._properties["buildPhases"] if ph.__class__ is x.PBXShellScriptBuildPhase][-post:] if post else []
    for i, ph in enumerate(posts):
        s = ph._properties["shellScript"]
        ctx.check(s.startswith("exec ") and s.endswith("\nexit 1\n") and _words(ctx, s[5:-8]) == ["post", "x y", "%d" % i], "another command is run after the build")
    if post:
        ctx.check([ph for ph in t._properties["buildPhases"]][-post:] == posts, "something happens after the commands that come last")
    got = _phase(x, t, x.PBXSourcesBuildPhase)
    ctx.check(got == (["$(INTERMEDIATE_DIR)/o%d.c" % i for i in range(k)] if as_src and typ != "none" else []), "other outputs are compiled")


def rules(ctx, n):
    """a rule runs for each of its sources"""
    x = ctx.mod(XF)
    typ = ctx.pick("type", ["executable", "none"])
    k = ctx.pick("sources", [1, 2])
    ext = ctx.pick("ext", ["y", "s"])
    srcs = [ctx.pick("dir%d" % i, ["", "s/t/"]) + ctx.str("name%d" % i, n, minlen=1, alphabet="ab") + "." + ext for i in range(k)]
    if k == 2:
        ctx.assume(ctx.Not(srcs[0] == srcs[1]))
    r = {"rule_name": "ru-le", "extension": ext, "rule_sources": list(srcs), "inputs": ["tool"] if ctx.pick("inputs", [False, True]) else [],
         "action": ["gen", "$(INPUT_FILE_PATH)", "-d$(INPUT_FILE_DIRNAME)", "$(INTERMEDIATE_DIR)/$(INPUT_FILE_BASE)", "$(INPUT_FILE_NAME)", "x y"]}
    r["outputs"] = ["$(INTERMEDIATE_DIR)/g$(INPUT_FILE_DIRNAME)/$(INPUT_FILE_BASE).c"] + (["o/$(INPUT_FILE_BASE)$(INPUT_FILE_SUFFIX).h"] if ctx.pick("outputs", [1, 2]) == 2 else [])
    if ctx.pick("told", [False, True]):
        r["message"] = "doing $(INPUT_FILE_NAME)"
    as_src = ctx.pick("as_sources", [0, 1])
    r["process_outputs_as_sources"] = as_src
    spec = {"target_name": "t", "type": typ, "rules": [r], "sources": list(srcs) + ["own.c"]}
    ps, written = _generate(ctx, {"d/a.gyp:t#target": spec})
    p = ps["d/a.gyp"]
    t = _target(p, "t")
    sup = _target(p, "t Support")
    ctx.check((sup is not None) == (typ != "none"), "the rules have no target of their own, or need none")
    ctx.check(sup is None or sup in [d._properties["target"] for d in t._properties["dependencies"]], "the rules do not run first")
    holder = sup or t

    def fill(s, src):
        d, f = posixpath.split(src)
        for a, b in (("BASE", f[:-2]), ("SUFFIX", "." + ext), ("NAME", f), ("PATH", src), ("DIRNAME", d)):
            s = s.replace("$(INPUT_FILE_%s)" % a, b)
        return s
    name = "d/a.xcodeproj/t_ru_le.make"
    ctx.check(list(written) == [name], "other files are written")
    text = written[name]
    ctx.observe(text)
    lines = [q for q in text.replace("\\\n", " ").split("\n") if q != ""]
    want_out = [[fill(o, s) for o in r["outputs"]] for s in srcs]
    ctx.check(hlib.make_words(lines[0]) == ["all:"] + [o[0] for o in want_out], "other files are made")
    i = 1
    for s, outs in zip(srcs, want_out):
        ctx.check(i < len(lines), "a source is not used")
        words = hlib.make_words(lines[i])
        ctx.check(words == outs + [":"] + [s] + r["inputs"], "other outputs or inputs")
        i += 1
        cmds = []
        while i < len(lines) and bool(lines[i][:1] == "\t"):
            cmds.append(lines[i][1:])
            i += 1
        if cmds and bool(cmds[0].startswith("@mkdir")):
            dirs = _words(ctx, cmds.pop(0)[1:])
            ctx.check(dirs[:2] == ["mkdir", "-p"] and all(any(bool(posixpath.dirname(o) == d) for d in dirs[2:]) for o in outs if posixpath.dirname(o)), "a directory is not made")
        if "message" in r:
            ctx.check(cmds and _words(ctx, cmds.pop(0)[1:]) == ["echo", "note:", fill(r["message"], s)], "another message")
        ctx.check(len(cmds) == 1 and _words(ctx, cmds[0]) == [fill(w, s) for w in ["gen", "$(INPUT_FILE_PATH)", "-d$(INPUT_FILE_DIRNAME)", "$(INTERMEDIATE_DIR)/$(INPUT_FILE_BASE)", "$(INPUT_FILE_NAME)", "x y"]], "another command is run")
    ctx.check(i == len(lines), "something else is made")
    ph = [q for q in holder._properties["buildPhases"] if q.__class__ is x.PBXShellScriptBuildPhase]
    ctx.check(len(ph) == 1 and "/t_ru_le.make\"" in ph[0]._properties["shellScript"], "the rule is not run")
    got = _phase(x, t, x.PBXSourcesBuildPhase)
    want = [f for o in want_out for f in o if f.endswith(".c")] if as_src else []
    ctx.check(got == (want + ["own.c"] if typ != "none" else []), "other files are compiled")


def dependencies(ctx, n):
    """dependencies are built and, where they are libraries, linked"""
    x = ctx.mod(XF)
    files_ = ["d/a.gyp", "d/a.gyp" if ctx.pick("projects", [1, 2]) == 1 else "e/b.gyp"]
    top = ctx.pick("top", ["executable", "static_library", "none", "shared_library"])
    kinds = [ctx.pick("dep", ["static_library", "shared_library", "loadable_module", "executable", "none", "framework"])]
    if ctx.pick("deps", [1, 2]) == 2:
        kinds.append("static_library")
    name = ctx.str("product", n, minlen=1, alphabet="ab")
    specs = {}
    for i, k in enumerate(kinds):
        s = {"target_name": "dep%d" % i, "type": "shared_library" if k == "framework" else k}
        if k == "framework":
            s["mac_bundle"] = 1
        if i == 0 and k != "none":
            s["product_name"] = name
        specs["%s:dep%d#target" % (files_[1], i)] = s
    quiet = ctx.pick("quiet", [0, 1])
    t = {"target_name": "t", "type": top, "dependencies": list(specs)}
    if quiet:
        specs[files_[1] + ":dep0#target"]["suppress_wildcard"] = 1
    q = "d/a.gyp:t#target"
    later = len(kinds) == 2 and ctx.pick("later", [False, True])
    allspecs = dict(specs)
    allspecs[q] = t
    tops = [(t, top, range(len(kinds)))]
    if later:
        # another target that needs more of the same project, which has grown since
        d1 = files_[1] + ":dep1#target"
        t["dependencies"] = [k for k in specs if k != d1]
        u = {"target_name": "u", "type": "executable", "dependencies": list(specs)}
        allspecs[d1] = allspecs.pop(d1)
        allspecs["d/a.gyp:u#target"] = u
        tops = [(t, top, [0]), (u, "executable", [0, 1])]
    ps, _ = _generate(ctx, allspecs, ids=ctx.pick("ids", [False, True]))
    p = ps["d/a.gyp"]
    other = ps[files_[1]]
    for spec, typ, needs in tops:
        xt = _target(p, spec["target_name"])
        deps = [d._properties["targetProxy"]._properties["remoteGlobalIDString"] for d in xt._properties["dependencies"]]
        ctx.check(deps == [_target(other, "dep%d" % i) for i in needs], "other dependencies")
        for d in xt._properties["dependencies"]:
            portal = d._properties["targetProxy"]._properties["containerPortal"]
            if other is p:
                ctx.check(portal is p, "another project")
            else:
                ctx.check(portal.FullPath() == "$(SOURCE_ROOT)/../e/b.xcodeproj" or portal._properties["path"] == "../e/b.xcodeproj", "another project")
        linked = []
        for ph in xt._properties["buildPhases"]:
            if ph.__class__ is x.PBXFrameworksBuildPhase:
                for f in ph._properties["files"]:
                    r = f._properties["fileRef"]
                    ctx.check(r is not None and r.PBXProjectAncestor() is p, "a reference to an object of another project")
                    linked.append(None if r is None else r if r.__class__ is x.PBXFileReference else r._properties["remoteRef"]._properties["remoteGlobalIDString"])
        want = [_target(other, "dep%d" % i)._properties["productReference"] for i in needs if kinds[i] in ("static_library", "shared_library", "framework") and typ in ("executable", "shared_library")]
        ctx.check(linked == want, "other libraries are linked")
    for f, proj in ps.items():
        mine = [s for qn, s in allspecs.items() if qn.startswith(f + ":")]
        every = [s["target_name"] for s in mine if not s.get("suppress_wildcard")]
        a = _target(proj, "All")
        if len(every) > 1:
            ctx.check(a is not None and a is proj._properties["targets"][0] and [d._properties["target"].Name() for d in a._properties["dependencies"]] == every, "not everything is built by default")
        else:
            ctx.check(a is None, "a target that is not needed")
        ctx.check([q.Name() for q in proj._properties["targets"] if q.Name() != "All"] == [s["target_name"] for s in mine], "other targets")


def copies(ctx, n):
    """files are copied where they are asked to be"""
    x = ctx.mod(XF)
    k = ctx.pick("copies", [1, 2])
    groups, want = [], {}
    for i in range(k):
        dest = ctx.pick("to%d" % i, ["$(BUILT_PRODUCTS_DIR)/", "/abs/", "", "$(SRCROOT)/"]) + ctx.str("d%d" % i, n, minlen=1, alphabet="ab")
        fs = ["f%d.x" % i] + (["g%d.x" % i] if ctx.pick("two%d" % i, [False, True]) else [])
        sign = ctx.pick("sign%d" % i, [0, 1])
        c = {"destination": dest, "files": list(fs)}
        if sign:
            c["xcode_code_sign"] = 1
        groups.append(c)
        full = dest if dest[0] in ("/", "$") else "$(SRCROOT)/" + dest
        want.setdefault(full, [])
        want[full] += [(f, sign) for f in fs]
    spec = {"target_name": "t", "type": ctx.pick("type", ["executable", "none"]), "copies": groups, "sources": ["m.c"]}
    ps, _ = _generate(ctx, {"d/a.gyp:t#target": spec})
    t = _target(ps["d/a.gyp"], "t")
    got = {}
    for ph in t._properties["buildPhases"]:
        if ph.__class__ is x.PBXCopyFilesBuildPhase:
            pr = ph._properties
            base = {0: "", 16: "$(BUILT_PRODUCTS_DIR)/"}[pr["dstSubfolderSpec"]]
            full = base + pr["dstPath"]
            if base == "" and not full.startswith("$"):
                full = "/" + full
            got.setdefault(full, [])
            got[full] += [(f._properties["fileRef"].FullPath(), 1 if "CodeSignOnCopy" in f._properties.get("settings", "") else 0) for f in pr["files"]]
    ctx.observe(got)
    ctx.check(len(got) == len(want), "other destinations")
    for d, fs in want.items():
        hit = [g for g in got if bool(g == d)]
        ctx.check(len(hit) == 1 and got[hit[0]] == fs, "other files are copied there")


HARNESSES = [
    Harness(strings, dict(n=2), dict(n=3), "any text of up to n characters (U+0000 to U+017F) in 6 places", validate=4),
    Harness(comments, dict(n=4), dict(n=5), "names of up to n characters", validate=4),
    Harness(files, dict(n=1), dict(n=2), "2 or 3 files in 10 directories, as files, directories or variants, names of up to n characters", validate=4),
    Harness(destination, dict(n=3), dict(n=5), "every known variable, further path of up to n characters", validate=4),
    Harness(product, dict(n=1), dict(n=2), "8 kinds of targets, product names of up to n+3, prefixes and extensions of up to n characters", validate=4),
    Harness(sources, dict(n=1), dict(n=2), "up to 2 sources of 9 kinds in 3 directories, names of up to n characters", validate=4),
    Harness(configured, dict(n=2), dict(n=3), "two configurations, values of up to n characters", validate=4),
    Harness(actions, dict(n=2), dict(n=3), "up to two actions with an argument of up to n characters, up to two commands after the build", validate=4),
    Harness(rules, dict(n=1), dict(n=2), "one rule, up to two sources with names of up to n characters", validate=4),
    Harness(dependencies, dict(n=1), dict(n=2), "up to two dependencies of 6 kinds, in the same or another project", validate=4),
    Harness(copies, dict(n=1), dict(n=2), "up to two groups of copies, directories of up to n characters", validate=4),
    Harness(settings, dict(n=1), dict(n=2), "up to 3 configurations, values of up to n characters", validate=4),
]
