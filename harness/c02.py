from symex.api import Harness
import hlib

PROPERTY = "C02"
PRELOAD = ["gyp.common", "gyp.generator.make"]
ASSUMPTIONS = [
    "make model: GNU make 4 variable assignment (continuations, comments, backslashes before #, $$), POSIX shell word splitting",
    "definitions contain no newline (a Makefile variable cannot hold one); file names use letters, digits, . / - _ and spaces",
    "the writer object is driven through its list, rule and source writing entry points with an in-memory file",
]


def _writer(ctx, flavor="linux"):
    W = ctx.fn("gyp.generator.make", "MakefileWriter")
    w = W({}, flavor)
    w.fp = hlib.Sink()
    w.target = "t"
    w.qualified_target = "a.gyp:t#target"
    w.path = "sub"
    w.toolset = "target"
    w.type = "executable"
    w.xcode_settings = None
    w.is_mac_bundle = False
    return w


def define_list(ctx, n, k):
    """-D options written by WriteList with the define quoter"""
    w = _writer(ctx)
    quoter = ctx.fn("gyp.generator.make", "EscapeCppDefine")
    defs = [ctx.str("d%d" % i, n, alphabet="print") for i in range(k)]
    w.WriteList(defs, "DEFS_Release", prefix="-D", quoter=quoter)
    text = w.fp.text()
    ctx.observe(text)
    ctx.check(text.endswith("\n\n"), "no blank line after the variable")
    try:
        val = hlib.make_value(text.rstrip("\n") + "\n")
        words = hlib.posix_split(val)
    except hlib.Bad as e:
        ctx.check(False, "make or the shell misreads the definitions: %s" % e)
        return
    ctx.check(len(words) == k, "number of options changed")
    ctx.check(ctx.And(*[a == "-D" + d for a, d in zip(words, defs)]), "an option differs from the definition")


def sources_defines(ctx, n):
    """definitions of a target through WriteSources, per configuration"""
    w = _writer(ctx)
    d = ctx.str("d", n, minlen=1, alphabet="print")
    flag = "-O2"
    inc = ctx.str("inc", 2, minlen=1, alphabet="ab.")
    configs = {"Debug": {"defines": ["DBG", d], "cflags": [flag, "-g"], "include_dirs": [inc, "x"]},
               "Release": {"defines": [d], "cflags": [flag]}}
    src = ["s1.cc", "s2.c", "readme.txt"]
    link = []
    nopch = type("P", (), {"GetInclude": lambda self, *a, **k: "", "GetObjDependencies": lambda self, *a: [],
                           "GetPchBuildCommands": lambda self, *a: []})()
    w.WriteSources(configs, ["dep1"], src, [], link, True, nopch)
    text = w.fp.text()
    ctx.observe(text)
    for cfg in ("Debug", "Release"):
        for key, var, prefix in (("defines", "DEFS_", "-D"), ("cflags", "CFLAGS_", "")):
            head = var + cfg + " :="
            i = text.find(head)
            ctx.check(i >= 0, "no variable " + head)
            j = text.find("\n\n", i)
            try:
                words = hlib.posix_split(hlib.make_value(text[i:j] + "\n"))
            except hlib.Bad as e:
                ctx.check(False, "misread %s: %s" % (head, e))
                return
            want = [prefix + x for x in configs[cfg][key]]
            ctx.check(len(words) == len(want), "items lost or added in " + head)
            ctx.check(ctx.And(*[a == b for a, b in zip(words, want)]), "items differ in " + head)
    i = text.find("OBJS :=")
    objs = hlib.make_words(text[i + 7:text.find("\n\n", i)].replace("\\\n", " "))
    ctx.check(len(objs) == 2, "an object is missing from OBJS")
    ctx.check(objs[0].endswith("s1.o") and objs[1].endswith("s2.o"), "objects out of order")
    ctx.check("$(OBJS)" in link, "objects are not linked")
    ctx.check("$(OBJS): | dep1" in text, "objects do not wait for the dependencies")


NAME = "ab./-_ "


def make_rule(ctx, n, outs, ins):
    """every output is a target, every input a prerequisite"""
    w = _writer(ctx)

    def name(nm):
        s = ctx.str(nm, n, minlen=1, alphabet=NAME)
        return "o" + s if nm[0] == "o" else "i" + s
    no = ctx.pick("no", list(range(1, outs + 1)))
    ni = ctx.pick("ni", list(range(0, ins + 1)))
    outputs = [name("o%d" % i) for i in range(no)]
    inputs = [name("i%d" % i) for i in range(ni)]
    for s in outputs + inputs:
        ctx.assume(ctx.Not(s.endswith(" ")) if len(s) else False)
    if no > 1:
        ctx.assume(outputs[0] != outputs[1])
    order_only = ctx.bool("order_only")
    force = ctx.bool("force")
    phony = ctx.bool("phony")
    actions = ["$(call do_cmd,x)"]
    w.WriteMakeRule(list(outputs), list(inputs), actions=actions if not order_only else None, comment="c",
                    order_only=order_only, force=force, phony=phony, command="cmd")
    text = w.fp.text()
    ctx.observe(text)
    rules = []          # (targets, prerequisites, order-only prerequisites, recipe)
    for line in text.split("\n"):
        if line == "" or line.startswith("#") or ": TOOLSET := " in line:
            continue
        if line.startswith("\t"):
            rules[-1][3].append(line[1:])
            continue
        p = line.find(":")
        ctx.check(p >= 0, "line is no rule")
        pre = line[p + 1:]
        q = pre.find("|")
        normal, oo = (pre, "") if q < 0 else (pre[:q], pre[q + 1:])
        rules.append((hlib.make_words(line[:p]), hlib.make_words(normal), hlib.make_words(oo), []))

    def has(lst, x):
        return ctx.Or(*[x == y for y in lst])

    def prereqs(t, want_oo):
        got = []
        for tg, pre, oo, _ in rules:
            if has(tg, t):
                got.extend(oo if want_oo else pre)
        return got
    for o in outputs:
        mine = prereqs(o, bool(order_only))
        if not bool(order_only):
            mid = [x for x in mine if x.endswith(".intermediate")]
            for m in mid:
                mine = mine + prereqs(m, False)
        for i in inputs:
            ctx.check(has(mine, i), "an input is not a prerequisite of an output")
        if bool(force):
            ctx.check(has(mine, "FORCE_DO_CMD"), "forced rule does not depend on FORCE_DO_CMD")
        if bool(phony):
            ctx.check(has([x for tg, pre, oo, _ in rules if ".PHONY" in tg for x in pre], o), "phony output is not declared")
    if not bool(order_only):
        cmds = [c for tg, pre, oo, rec in rules for c in rec]
        ctx.check(actions[-1] in cmds or "$(call do_cmd,x)" in cmds, "the command is not in any recipe")


def do_cmd(ctx, n):
    """do_cmd rules run their command for the output and are tracked in all_deps"""
    w = _writer(ctx)
    o = "o" + ctx.str("o", n, alphabet="ab ./")
    i = "i" + ctx.str("i", n, alphabet="ab ./")
    post = ctx.bool("post")
    w.WriteDoCmd([o], [i], "copy", True, postbuilds=post)
    text = w.fp.text()
    ctx.observe(text)
    lines = text.split("\n")
    esc = lambda s: s.replace(" ", "\\ ")
    want = esc(o) + ": " + esc(i) + " FORCE_DO_CMD"
    ctx.check(ctx.Or(*[ln == want for ln in lines]), "no rule for the output")
    ctx.check(("\t$(call do_cmd,copy%s)" % (",,1" if post else "")) in lines, "no recipe")
    ctx.check(ctx.Or(*[ln == "all_deps += " + o.replace(" ", "?") for ln in lines]), "not tracked in all_deps")


def variable_name(ctx, n):
    f = ctx.fn("gyp.generator.make", "StringToMakefileVariable")
    s = ctx.str("s", n)
    r = f(s)
    ctx.observe(r)
    ctx.check(len(r) == len(s), "length changed")
    for a, b in zip(r, s):
        ok = a in "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"
        ctx.check(ok, "not a make variable character")
        ctx.check(ctx.Or(a == b, a == "_"), "a good character was changed")


def _write(ctx, spec, base="sub", outputs=None, links=None):
    """run the generator's entry point for one target; returns the parsed .mk file"""
    sink = hlib.Sink()
    ctx.patch("os", "environ", {})
    ctx.patch("gyp.common", "EnsureDirExists", lambda p: None)
    ctx.patch_builtin("open", lambda *a, **k: sink)
    M = ctx.mod("gyp.generator.make")
    ctx.patch("gyp.generator.make", "srcdir_prefix", "$(srcdir)/")
    ctx.patch("gyp.generator.make", "target_outputs", dict(outputs or {}))
    ctx.patch("gyp.generator.make", "target_link_deps", dict(links or {}))
    w = ctx.fn("gyp.generator.make", "MakefileWriter")({}, "linux")
    w.Write("sub/a.gyp:t#target", base, "/out/t.mk", spec, spec["configurations"], True)
    text = sink.text()
    ctx.observe(text)
    try:
        return hlib.mk_parse(text)
    except hlib.Bad as e:
        ctx.check(False, "make cannot parse it: %s" % e)


def _spec(srcs, typ, **k):
    d = {"target_name": "t", "toolset": "target", "type": typ,
         "configurations": {"Release": {"defines": ["A=1"], "include_dirs": ["inc"], "cflags": ["-O2"], "ldflags": ["-Wl,-x"]}}}
    if srcs:
        d["sources"] = list(srcs)
    d.update(k)
    return d


def _has(ctx, lst, x):
    return ctx.Or(*[x == y for y in lst])


def target_build(ctx, n, exts):
    """objects of exactly the compilable sources, linked with what the dependencies provide"""
    import posixpath
    k = ctx.pick("k", [1, 2])
    srcs, kinds = [], []
    for i in range(k):
        e = ctx.pick("e%d" % i, exts if i == 0 else [".cc", ".h"])
        srcs.append("s%d" % i + ctx.str("s%d" % i, n, alphabet="ab./") + "x" + e)
        kinds.append(e)
    typ = ctx.pick("type", ["executable", "static_library", "shared_library", "loadable_module", "none"])
    dep = ctx.pick("dep", [None, "static_library", "shared_library", "none"])
    outs, links = {}, {}
    spec = _spec(srcs, typ)
    if dep:
        spec["dependencies"] = ["d.gyp:dep#target"]
        path = {"static_library": "$(obj).target/libdep.a", "shared_library": "$(builddir)/libdep.so", "none": "$(obj).target/dep.stamp"}[dep]
        outs["d.gyp:dep#target"] = path
        if dep != "none":
            links["d.gyp:dep#target"] = path
    f = _write(ctx, spec, outputs=outs, links=links)
    comp = [s for s, e in zip(srcs, kinds) if e in (".c", ".cc", ".cpp", ".cxx", ".s", ".S")]
    plain = [s for s, e in zip(srcs, kinds) if e == ".o"]
    want = ["$(obj).target/$(TARGET)/" + posixpath.normpath("sub/" + posixpath.splitext(s)[0]) + ".o" for s in comp]
    objs = hlib.make_words(f.var("OBJS") or "")
    # pre-built objects may be linked too
    ctx.check(len(objs) == len(want) + (len(plain) if len(objs) > len(want) else 0), "number of objects differs from the number of sources")
    ctx.check(ctx.And(*[_has(ctx, objs, x) for x in want]), "a source has no object")
    if dep and comp:
        ctx.check(_has(ctx, f.prereqs("$(OBJS)", True), path), "objects do not wait for the dependency")
    if typ == "none":
        return
    binary = M_output(ctx, typ)
    pre = f.prereqs(binary)
    ctx.check(len(f.recipes(binary)) > 0, "the target has no build rule")
    if comp:
        ctx.check("$(OBJS)" in pre, "the target does not depend on its objects")
    if dep in ("static_library", "shared_library"):
        ctx.check(_has(ctx, pre + f.prereqs(binary, True), path), "the target does not depend on its dependency")
    ins = [v for tg, nme, op, v in f.tvars if nme == "LD_INPUTS" and binary in tg]
    if typ in ("executable", "shared_library"):
        ctx.check(len(ins) == 1, "no linker inputs")
        words = hlib.make_words(ins[0])
        if comp:
            ctx.check("$(OBJS)" in words, "objects are not linked")
        if dep in ("static_library", "shared_library"):
            ctx.check(_has(ctx, words, path), "the dependency is not linked")
    cmd = {"executable": "do_cmd,link)", "static_library": "create_thin_archive,", "shared_library": "do_cmd,solink)", "loadable_module": "do_cmd,solink_module)"}[typ]
    ctx.check(any(cmd in r for r in f.recipes(binary)), "not linked with the right command")


def M_output(ctx, typ):
    return {"executable": "$(builddir)/t", "static_library": "$(obj).target/sub/libt.a", "shared_library": "$(obj).target/sub/libt.so",
            "loadable_module": "$(obj).target/sub/libt.so"}[typ]


ARG = "ab #'|&;<>()*?~!%=:,{}[]^@" + chr(34) + chr(92) + chr(96)
CD = "; cd $(srcdir)/sub; "


def _cmd_words(ctx, raw):
    v = hlib.mk_raw_value(raw)
    p = v.find(CD)
    ctx.check(p >= 0, "does not run in the directory of the .gyp file")
    v = v[p + len(CD):]
    if v.startswith("mkdir -p "):
        v = v[v.find("; ") + 2:]
    try:
        return hlib.posix_split(v, True)
    except hlib.Bad as e:
        ctx.check(False, "the shell misreads the command: %s" % e)


def _cmd_for(ctx, f, out):
    recs = f.recipes(out)
    for t in f.prereqs(out):
        if bool(t.endswith(".intermediate")):
            recs = recs + f.recipes(t)
    names = [r[r.find("do_cmd,") + 7:].rstrip(")") for r in recs if "do_cmd," in r]
    raws = [f.var("cmd_" + nme) for nme in names if nme != "touch"]
    ctx.check(len(raws) == 1 and raws[0] is not None, "not exactly one command makes the output")
    return raws[0]


def action_step(ctx, n):
    args = ["prog", "p" + ctx.str("a0", n, alphabet=ARG), ctx.str("a1", 1, alphabet="a #'"), "$(builddir)/x"]
    o, i, two = ctx.pick("form", [("", "", False), ("s/", "../", True), ("../", "./q//", False), (".", ".", True)])
    o1 = "$(builddir)/o" + o + "1"
    i1 = "i" + i + "1"
    outs = [o1] + (["gen2"] if bool(two) else [])
    act = {"action_name": "act-1", "action": list(args), "inputs": [i1, "i2"], "outputs": list(outs)}
    f = _write(ctx, _spec(["s.c"], "executable", actions=[act]))
    import posixpath
    for o in [posixpath.normpath(o1)] + (["sub/gen2"] if bool(two) else []):
        pre = f.prereqs(o)
        for m in [x for x in pre if bool(x.endswith(".intermediate"))]:
            pre = pre + f.prereqs(m)
        for i in ("$(srcdir)/" + posixpath.normpath("sub/" + i1), "$(srcdir)/sub/i2"):
            ctx.check(_has(ctx, pre, i), "an input is not a prerequisite of an output")
        words = _cmd_words(ctx, _cmd_for(ctx, f, o))
        ctx.check(len(words) == len(args), "number of arguments changed")
        ctx.check(ctx.And(*[a == b for a, b in zip(words, args)]), "arguments differ")
    ctx.check(any("action_" in x for x in f.prereqs("$(OBJS)", True)), "sources are compiled before the action ran")


def rule_step(ctx, n):
    import posixpath
    s1 = "r" + ctx.str("r", n, alphabet="ab./") + "x.in"
    srcs = [s1, "d/other.in"]
    arg = ctx.str("arg", n, alphabet="a #'" + chr(92))
    rule = {"rule_name": "rl", "extension": "in", "action": ["gen", arg, "-o", "$(builddir)/%(INPUT_ROOT)s.out", "%(INPUT_DIRNAME)s"],
            "inputs": ["tool.py"], "outputs": ["$(builddir)/%(INPUT_ROOT)s.out"], "rule_sources": list(srcs)}
    f = _write(ctx, _spec(["s.c"], "executable", rules=[rule]))
    for s in srcs:
        d, b = posixpath.split(s)
        root = posixpath.splitext(b)[0]
        o = "$(builddir)/" + root + ".out"
        pre = f.prereqs(o)
        ctx.check(_has(ctx, pre, "$(srcdir)/" + posixpath.normpath("sub/" + s)), "the source is not a prerequisite")
        ctx.check("$(srcdir)/sub/tool.py" in pre, "an input is not a prerequisite")
        if bool(s1 != srcs[1]) and bool(posixpath.splitext(posixpath.split(s1)[1])[0] != "other"):
            words = _cmd_words(ctx, _cmd_for(ctx, f, o))
            want = ["gen", arg, "-o", o, d]
            ctx.check(len(words) == len(want), "number of arguments changed")
            ctx.check(ctx.And(*[a == b2 for a, b2 in zip(words, want)]), "arguments differ")


def copy_step(ctx, n):
    import posixpath
    base = "f" + ctx.str("f", n, alphabet="ab. ") + "x"
    d = "q" + ctx.str("d", n, alphabet="ab./")
    dest = ctx.pick("dest", ["$(builddir)/res", "$(builddir)", "../up"])
    f = _write(ctx, _spec([], "none", copies=[{"files": [d + "/" + base, "second"], "destination": dest}]))
    to = dest if dest.startswith("$") else "$(srcdir)/up"
    for s, b in ((d + "/" + base, base), ("second", "second")):
        o = to + "/" + b
        pre = f.prereqs(o)
        ctx.check(_has(ctx, pre, "$(srcdir)/" + posixpath.normpath("sub/" + s)), "does not copy from the file")
        ctx.check(any("do_cmd,copy)" in r for r in f.recipes(o)), "no copy command")


HARNESSES = [
    Harness(define_list, dict(n=4, k=1), dict(n=6, k=1), "k definitions, each any printable string up to n characters"),
    Harness("define_pair", dict(n=2, k=2), dict(n=3, k=2), "two definitions, each any printable string up to n characters"),
    Harness(sources_defines, dict(n=2), dict(n=3), "definition: any printable string up to n; include dir up to 2 over a b ."),
    Harness(make_rule, dict(n=2, outs=2, ins=1), dict(n=3, outs=2, ins=2), "1-2 outputs, 0-2 inputs, names of up to n+1 characters over letters . / - _ space; all flags"),
    Harness(do_cmd, dict(n=2), dict(n=4), "names of up to n+1 characters over a b space . /"),
    Harness(variable_name, dict(n=3), dict(n=5), "any string up to n Unicode characters"),
    Harness(target_build, dict(n=1, exts=[".c", ".cc", ".S", ".h", ".o", ".s", ".cpp", ".cxx"]), dict(n=2, exts=[".c", ".cc", ".S", ".h", ".o", ".s", ".cpp", ".cxx"]),
            "1-2 sources with symbolic names over a b . /, eight extensions, five target types, a dependency of four kinds"),
    Harness(action_step, dict(n=2), dict(n=3), "two symbolic arguments over shell- and make-special characters without $; symbolic input and output"),
    Harness(rule_step, dict(n=2), dict(n=3), "two sources, one symbolic over a b . /, symbolic argument"),
    Harness(copy_step, dict(n=2), dict(n=3), "two files, symbolic directory and name, three destinations"),
]
define_pair = define_list
