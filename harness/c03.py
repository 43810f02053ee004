from symex.api import Harness
import hlib

PROPERTY = "C03"
PRELOAD = ["gyp.common", "gyp.ninja_syntax", "gyp.generator.ninja"]
ASSUMPTIONS = [
    "ninja model: ninja 1.11 lexer (variables, paths, $-escapes, line continuations), compared with the installed ninja when it was written",
    "file names contain no line break, `|` (ninja cannot express it) or `$` (a ninja variable reference)",
    "variable values do not begin with a space (ninja drops it) and contain no line break",
]

SYN = "gyp.ninja_syntax"


def _writer(ctx, **k):
    out = hlib.Sink()
    return ctx.fn(SYN, "Writer")(out, **k), out


def _parse(ctx, text, env=None):
    try:
        return hlib.ninja_parse(text, env)
    except hlib.Bad as e:
        ctx.check(False, "ninja cannot parse what was written: %s" % e)


def wrapping(ctx, n, pads, alpha):
    """a long value means the same after line wrapping as on one line"""
    w, out = _writer(ctx)
    pad = ctx.pick("pad", pads)
    v = "x" * pad + ctx.str("v", n, alphabet=alpha) + "y" * 6
    key = "k"
    try:
        want = hlib.ninja_eval(v + "\n", 0, False)[0]
    except hlib.Bad:
        return
    w.variable(key, v)
    text = out.text()
    ctx.observe(text)
    f = _parse(ctx, text)
    ctx.check(len(f.vars) == 1 and len(f.edges) == 0 and len(f.rules) == 0, "wrapped value is no longer one variable")
    got = f.vars[0][1]
    ctx.check(f.vars[0][0] == key and len(got) == len(want), "wrapped value has other parts")
    ctx.check(ctx.And(*[a == b for a, b in zip(got, want)]), "wrapping changed the value")


def wrapped_words(ctx, n, words):
    """lists of escaped words: narrow writer, several wraps"""
    width = ctx.pick("width", [10, 13, 16])
    w, out = _writer(ctx, width=width)
    esc = ctx.fn(SYN, "escape")
    vals = ["w" + ctx.str("w%d" % i, n, alphabet="a $") + "w" for i in range(words)]
    w.variable("key", [esc(v) for v in vals], indent=1)
    text = out.text()
    ctx.observe(text)
    try:
        name, v, i = hlib.ninja_ident(text, 2), None, None
        j = name[1]
        parts, i = hlib.ninja_eval(text, hlib.ninja_ws(text, j + 1), False)
        got = hlib.ninja_flat(parts)
    except hlib.Bad as e:
        ctx.check(False, "ninja misreads it: %s" % e)
        return
    ctx.check(i == len(text) - 1, "text after the value")
    ctx.check(got == " ".join(vals), "the list value changed")


def escape_value(ctx, n):
    w, out = _writer(ctx)
    esc = ctx.fn(SYN, "escape")
    v = ctx.str("v", n, minlen=1, alphabet=[(1, 9), (11, 12), (14, 0xD7FF), (0xE002, 0x10FFFF)])
    ctx.assume(v[0] != " ")
    w.variable("k", esc(v))
    text = out.text()
    ctx.observe(text)
    f = _parse(ctx, text)
    ctx.check(len(f.vars) == 1, "not one variable")
    ctx.check(hlib.ninja_flat(f.vars[0][1]) == v, "escaped value differs")


NAME = "ab :.'#="


def build_edge(ctx, n, lists, pad, vlen):
    """every path and variable of a build statement comes back in its place"""
    width, form = ctx.pick("form", [(78, "list"), (24, "scalar"), (24, "dict")])
    w, out = _writer(ctx, width=width)

    def names(k, nm):
        r = [("p" * pad if i else "") + ctx.str("%s%d" % (nm, i), n if nm in "oi" and i == 0 else 1, minlen=1, alphabet=NAME) for i in range(k)]
        return r
    no, ni, nimp, noo = ctx.pick("shape", lists)
    outs, ins, imp, oo = names(no, "o"), names(ni, "i"), names(nimp, "m"), names(noo, "q")
    val = ctx.str("val", vlen, alphabet="a='")
    variables = [("v1", val), ("v2", None), ("v3", ["x", "", "y"])]
    if form == "dict":
        variables = dict(variables)
    a_in = ins if len(ins) != 1 or form != "scalar" else ins[0]
    a_oo = oo if len(oo) != 1 or form != "scalar" else oo[0]
    a_out = outs if len(outs) != 1 or form != "scalar" else outs[0]
    snap = list(ins)
    r = w.build(a_out, "cc", a_in, implicit=imp, order_only=a_oo, variables=variables)
    text = out.text()
    ctx.observe(text)
    f = _parse(ctx, text)
    ctx.check(len(f.edges) == 1 and len(f.vars) == 0 and len(f.rules) == 0, "not exactly one build statement")
    e = f.edges[0]
    ctx.check(e["rule"] == "cc", "another rule")
    for k, want in (("outs", outs), ("ins", ins), ("implicit", imp), ("order", oo)):
        ctx.check(len(e[k]) == len(want), "number of paths changed: " + k)
        ctx.check(ctx.And(*[a == b for a, b in zip(e[k], want)]), "paths differ: " + k)
    ctx.check(len(e["vars"]) == 2, "variables lost or added")
    ctx.check(e["vars"][0][0] == "v1" and hlib.ninja_flat(e["vars"][0][1]) == val, "variable value differs")
    ctx.check(hlib.ninja_flat(e["vars"][1][1]) == "x y", "list variable differs")
    ctx.check(len(r) == len(outs) and ctx.And(*[a == b for a, b in zip(r, outs)]), "returned outputs differ")
    ctx.check(len(ins) == len(snap), "the caller's list was changed")


def path_text(ctx, n):
    """a dollar before a space in a path is text; both survive"""
    f = ctx.fn(SYN, "escape_path")
    p = ctx.str("a", n, alphabet=NAME) + ctx.pick("mid", ["$ ", " $ ", "$  ", "$ :", "$ $ "]) + ctx.str("b", n, alphabet=NAME)
    w, out = _writer(ctx)
    w.build(["o"], "cc", ["x", p])
    text = out.text()
    ctx.observe(text)
    ctx.check(text == "build o: cc x " + f(p) + "\n", "not written as one path")
    e = _parse(ctx, text).edges[0]
    ctx.check(len(e["ins"]) == 2 and e["ins"][1] == p, "the path differs")


def rule_block(ctx, n):
    w, out = _writer(ctx)
    esc = ctx.fn(SYN, "escape")
    cmd = "c" + ctx.str("cmd", n, alphabet="a $'")
    kw = {}
    for k in ("description", "depfile", "pool", "rspfile", "rspfile_content", "deps"):
        if bool(ctx.bool("has_" + k)):
            kw[k] = "val_" + k
    for k in ("generator", "restat"):
        if bool(ctx.bool("has_" + k)):
            kw[k] = True
    w.rule("r1", esc(cmd), **kw)
    text = out.text()
    ctx.observe(text)
    f = _parse(ctx, text)
    ctx.check(len(f.rules) == 1 and f.rules[0][0] == "r1", "not exactly the rule")
    got = {}
    for k, v in f.rules[0][1]:
        ctx.check(k not in got, "binding twice")
        got[k] = hlib.ninja_flat(v)
    ctx.check(got.pop("command") == cmd, "command differs")
    for k, v in kw.items():
        ctx.check(got.pop(k, None) == ("1" if v is True else v), "binding lost: " + k)
    ctx.check(len(got) == 0, "unexpected binding")


def define(ctx, n):
    """-D through ninja's variable, then through the shell (or CommandLineToArgvW)"""
    flavor = ctx.pick("flavor", ["linux", "mac", "win"])
    D = ctx.fn("gyp.generator.ninja", "Define")
    d = ctx.str("d", n, minlen=1, alphabet=[(32, 126), (0xE9, 0xE9)])
    w, out = _writer(ctx)
    w.variable("defines", [D(d, flavor), D("LAST", flavor)])
    text = out.text()
    ctx.observe(text)
    try:
        val = hlib.ninja_value(text)
        words = hlib.windows_split(val) if flavor == "win" else hlib.posix_split(val)
    except hlib.Bad as e:
        ctx.check(False, "ninja or the shell misreads the definition: %s" % e)
        return
    want = "-D" + (d.replace("#", "\\043") if flavor == "win" else d)
    known = [("win-define-slash", "/" in d), ("win-define-percent", "%" in d)] if flavor == "win" else None
    ctx.check(len(words) == 2, "number of options changed", known)
    ctx.check(ctx.And(words[0] == want, words[1] == "-DLAST"), "definition differs", known)


def _ninja_writer(ctx, out, base="sub", build="out/Release", toolset="target"):
    N = ctx.fn("gyp.generator.ninja", "NinjaWriter")
    return N("hash", {}, base, build, out, build, "obj/sub/t.ninja", "linux", toplevel_dir="/top")


def _spec(ctx, srcs, typ, d, inc):
    config = {"defines": ["A=1", d], "include_dirs": [inc, "../up"], "cflags": ["-O2"], "cflags_cc": ["-fno-rtti"],
              "ldflags": ["-Wl,-x"], "libraries": []}
    return {"target_name": "t", "toolset": "target", "type": typ, "sources": list(srcs), "configurations": {"Release": config},
            "product_name": "prod"}


def target_flags(ctx, n):
    """definitions, include directories and flags of a target reach the compiler"""
    out = hlib.Sink()
    ctx.patch("os", "environ", {})
    w = _ninja_writer(ctx, out)
    d = ctx.str("d", n, minlen=1, alphabet="print")
    inc = "i" + ctx.str("inc", n, minlen=1, alphabet=" !#%'()+,-:;=@^_`{}~\\abcXYZ09|&<>*?[]" + chr(34))
    w.WriteSpec(_spec(ctx, ["s.c"], "executable", d, inc), "Release", {})
    text = out.text()
    ctx.observe(text)
    f = _parse(ctx, text)
    try:
        words = hlib.posix_split(hlib.ninja_flat(f.var("defines")))
        incs = hlib.posix_split(hlib.ninja_flat(f.var("includes")))
        cf = hlib.posix_split(hlib.ninja_flat(f.var("cflags")))
        ld = hlib.posix_split(hlib.ninja_flat(f.var("ldflags")))
    except hlib.Bad as e:
        ctx.check(False, "the shell misreads an option: %s" % e)
        return
    ctx.check(len(words) == 2 and words[0] == "-DA=1" and words[1] == "-D" + d, "definitions differ")
    ctx.check(len(incs) == 2 and incs[0] == "-I../../sub/" + inc and incs[1] == "-I../../up", "include directories differ")
    ctx.check(len(cf) == 1 and cf[0] == "-O2", "flags differ")
    ctx.check(len(ld) == 1 and ld[0] == "-Wl,-x", "linker flags differ")


def target_edges(ctx, n, nsrc, exts, exts2):
    """a whole target: every source is compiled from its own file, every object linked"""
    out = hlib.Sink()
    ctx.patch("os", "environ", {})
    w = _ninja_writer(ctx, out)
    k = ctx.pick("k", list(range(1, nsrc + 1)))
    srcs, kinds = [], []
    for i in range(k):
        e = ctx.pick("e%d" % i, exts if i == 0 else exts2)
        srcs.append("s%d" % i + ctx.str("s%d" % i, n, alphabet="ab /") + "x" + e)
        kinds.append(e)
    typ = ctx.pick("type", ["executable", "static_library", "shared_library", "loadable_module"])
    dep = ctx.pick("dep", [None, "static_library", "shared_library", "none"]) if k == 1 else None
    spec = _spec(ctx, srcs, typ, "B", "inc")
    if dep:
        T = ctx.fn("gyp.generator.ninja", "Target")(dep)
        if dep == "none":
            T.actions_stamp = "obj/dep.stamp"
        else:
            T.binary = "obj/libdep.a" if dep == "static_library" else "lib/libdep.so"
        spec["dependencies"] = ["d.gyp:dep#target"]
        w.target_outputs["d.gyp:dep#target"] = T
    res = w.WriteSpec(spec, "Release", {})
    text = out.text()
    ctx.observe(text)
    f = _parse(ctx, text)
    tool = {".c": "cc", ".cc": "cxx", ".cpp": "cxx", ".cxx": "cxx", ".S": "cc", ".s": "cc_s"}
    compiled = [(s, e) for s, e in zip(srcs, kinds) if e in tool]
    if res is None:
        ctx.check(not dep and len(compiled) == 0 and ".o" not in kinds, "nothing is built")
        return
    edges = [e for e in f.edges if e["rule"] in ("cc", "cxx", "cc_s")]
    ctx.check(len(edges) == len(compiled), "number of compile steps differs from the number of sources")
    import posixpath
    norm = lambda s: posixpath.normpath("../../sub/" + s)
    for e, (s, ext) in zip(edges, compiled):
        ctx.check(e["rule"] == tool[ext], "compiled with the wrong tool")
        ctx.check(len(e["ins"]) == 1 and e["ins"][0] == norm(s), "compiles another file")
        ctx.check(len(e["outs"]) == 1 and e["outs"][0].endswith(".o"), "no object")
        if dep == "none":
            ctx.check("obj/dep.stamp" in e["order"], "does not wait for what the dependency generates")
    objs = [e["outs"][0] for e in edges] + [norm(s) for s, e in zip(srcs, kinds) if e == ".o"]
    rule = {"executable": "link", "static_library": "alink_thin", "shared_library": "solink", "loadable_module": "solink_module"}[typ]
    if typ != "static_library" and dep == "static_library":
        objs.append("obj/libdep.a")
    links = [e for e in f.edges if e["rule"] in ("alink", "link", "solink", "solink_module", "alink_thin")]
    if not links:
        ctx.check(dep is not None and len(objs) == 0 or typ == "static_library" and len(compiled) == 0, "no link step")
        return
    ctx.check(len(links) == 1 and links[0]["rule"] == rule, "no link step of the right kind")
    ctx.check(len(links[0]["ins"]) == len(objs), "number of linked objects differs")
    ctx.check(ctx.And(*[ctx.Or(*[a == b for b in links[0]["ins"]]) for a in objs]), "an object is not linked")
    ctx.check(res.FinalOutput() in links[0]["outs"], "the final output is not what is linked")
    if typ != "static_library":
        if dep == "shared_library":
            v = [hlib.ninja_flat(x) for k2, x in links[0]["vars"] if k2 == "solibs"]
            ctx.check(len(v) == 1 and v[0].strip() == "lib/libdep.so", "shared library is not linked")
            ctx.check("lib/libdep.so.TOC" in links[0]["implicit"], "does not relink when the shared library changes")
        uses_cpp = any(e["rule"] == "cxx" for e in edges)
        ld = [v for k2, v in links[0]["vars"] if k2 == "ld"]
        ctx.check((len(ld) == 1) == uses_cpp, "C++ linker is chosen exactly for C++ sources")


def _quiet(ctx):
    ctx.patch("os", "environ", {})


def _find_edge(ctx, f, out):
    es = [e for e in f.edges if bool(ctx.Or(*[o == out for o in e["outs"]]))]
    ctx.check(len(es) == 1, "not exactly one step makes the output")
    return es[0]


def _rule_of(ctx, f, e):
    rs = [dict(v) for nme, v in f.rules if bool(nme == e["rule"])]
    ctx.check(len(rs) == 1, "the rule is not defined exactly once")
    return rs[0]


def _command(ctx, parts, env, prefix):
    text = hlib.ninja_flat(parts, env)
    ctx.check(text.startswith(prefix), "does not run in the directory of the .gyp file")
    try:
        return hlib.posix_split(text[len(prefix):])
    except hlib.Bad as e:
        ctx.check(False, "the shell misreads the command: %s" % e)


ARG = "ab #'|&;<>()*?~!%=:,{}[]^@" + chr(34) + chr(92) + chr(96)


def action_step(ctx, n, k):
    """an action runs with exactly its arguments, in its directory, making its outputs from its inputs"""
    out = hlib.Sink()
    _quiet(ctx)
    w = _ninja_writer(ctx, out)
    args = ["prog"] + ["p" * 30 + ctx.str("a%d" % i, n, alphabet=ARG) for i in range(k)] + ["<!PRODUCT_DIR/x", "last"]
    args[-2] = "$!PRODUCT_DIR/x"
    o1 = "gen/o" + ctx.str("o", 1, alphabet="a :/") + "1"
    i1 = "i" + ctx.str("i", 1, alphabet="a :/") + "1"
    act = {"action_name": "act-1", "action": list(args), "inputs": [i1, "i2"], "outputs": ["$!PRODUCT_DIR/" + o1, "$!INTERMEDIATE_DIR/o2"],
           "message": "making $things"}
    as_src = ctx.bool("as_sources")
    if bool(as_src):
        act["process_outputs_as_sources"] = "1"
        act["outputs"].append("$!PRODUCT_DIR/gen.cc")
    spec = _spec(ctx, [], "none", "D", "inc")
    spec["actions"] = [act]
    if bool(as_src):
        spec["type"] = "executable"
    res = w.WriteSpec(spec, "Release", {})
    text = out.text()
    ctx.observe(text)
    f = _parse(ctx, text)
    e = _find_edge(ctx, f, o1)
    ctx.check("obj/sub/t.gen/o2" in e["outs"], "second output is missing")
    import posixpath
    for i in (posixpath.normpath("../../sub/" + i1), "../../sub/i2"):
        ctx.check(ctx.Or(*[i == x for x in e["ins"] + e["implicit"]]), "an input is missing")
    r = _rule_of(ctx, f, e)
    words = _command(ctx, r["command"], None, "cd ../../sub; ")
    want = args[:-2] + ["../out/Release/x", "last"]
    ctx.check(len(words) == len(want), "number of arguments changed")
    ctx.check(ctx.And(*[a == b for a, b in zip(words, want)]), "arguments differ")
    if bool(as_src):
        c = [x for x in f.edges if x["rule"] == "cxx"]
        ctx.check(len(c) == 1 and c[0]["ins"] == ["gen.cc"], "generated source is not compiled")
    ctx.check(res is not None, "nothing to build")


def rule_step(ctx, n):
    """a rule makes one step per source, with the parts of that source put into arguments and outputs"""
    out = hlib.Sink()
    _quiet(ctx)
    w = _ninja_writer(ctx, out)
    root = "r" + ctx.str("r", n, alphabet="ab./")
    ext = ctx.pick("ext", [".in", ".x.in"])
    s1 = root + "x" + ext
    srcs = [s1, "d/other.in"]
    arg = ctx.str("arg", n, alphabet="a #'")
    rule = {"rule_name": "rl", "extension": "in", "action": ["gen", arg, "${source}", "-o", "$!PRODUCT_DIR/${root}.out", "n=${name}", "e=${ext}", "d=${dirname}"],
            "inputs": ["tool.py"], "outputs": ["$!PRODUCT_DIR/${root}.out", "$!INTERMEDIATE_DIR/${dirname}/${name}.h"], "rule_sources": list(srcs)}
    spec = _spec(ctx, [], "none", "D", "inc")
    spec["rules"] = [rule]
    w.WriteSpec(spec, "Release", {})
    text = out.text()
    ctx.observe(text)
    f = _parse(ctx, text)
    import posixpath
    for s in srcs:
        sn = posixpath.normpath(s)
        d, b = posixpath.split(sn)
        rt, ex = posixpath.splitext(b)
        es = [e for e in f.edges if bool(ctx.Or(*[i == posixpath.normpath("../../sub/" + s) for i in e["ins"]]))]
        ctx.check(len(es) == 1, "not exactly one step for a source")
        e = es[0]
        ctx.check(ctx.Or(*[o == rt + ".out" for o in e["outs"]]), "first output is missing")
        o2 = posixpath.normpath("obj/sub/t.gen/" + d + "/" + b + ".h")
        ctx.check(ctx.Or(*[posixpath.normpath(o) == o2 for o in e["outs"]]), "second output is missing")
        ctx.check("../../sub/tool.py" in e["ins"] + e["implicit"], "additional input is missing")
        r = _rule_of(ctx, f, e)
        env = {}
        for k, v in e["vars"]:
            env[k] = hlib.ninja_flat(v)
        words = _command(ctx, r["command"], env, "cd ../../sub; ")
        want = ["gen", arg, sn, "-o", "../out/Release/" + rt + ".out", "n=" + b, "e=" + ex, "d=" + d]
        ctx.check(len(words) == len(want), "number of arguments changed")
        ctx.check(ctx.And(*[a == b2 for a, b2 in zip(words, want)]), "arguments differ")


def copy_step(ctx, n):
    out = hlib.Sink()
    _quiet(ctx)
    w = _ninja_writer(ctx, out)
    base = "f" + ctx.str("f", n, alphabet="ab. :")
    ctx.assume(ctx.Not(base.endswith(" ")))
    d = ctx.str("d", n, alphabet="ab./")
    ctx.assume(ctx.Not(d.startswith("/")))
    slash = ctx.pick("slash", ["", "/"])
    dest = ctx.pick("dest", ["$!PRODUCT_DIR/res", "$!PRODUCT_DIR", "../up"])
    spec = _spec(ctx, [], "none", "D", "inc")
    spec["copies"] = [{"files": [d + "q/" + base + slash, "second"], "destination": dest}]
    w.WriteSpec(spec, "Release", {})
    text = out.text()
    ctx.observe(text)
    f = _parse(ctx, text)
    import posixpath
    to = {"$!PRODUCT_DIR/res": "res/", "$!PRODUCT_DIR": "", "../up": "../../up/"}[dest]
    for s, b in ((d + "q/" + base, base), ("second", "second")):
        e = _find_edge(ctx, f, to + b)
        ctx.check(e["rule"] == "copy" and len(e["outs"]) == 1, "not a copy")
        ctx.check(len(e["ins"]) == 1 and e["ins"][0] == posixpath.normpath("../../sub/" + s), "copies another file")


HARNESSES = [
    Harness(wrapping, dict(n=4, pads=[66, 67, 68, 70], alpha="a $:"), dict(n=6, pads=list(range(62, 76)), alpha="a $:"),
            "values x^pad s y^6 with s any string up to n over a space $ :, default width"),
    Harness(wrapped_words, dict(n=2, words=3), dict(n=2, words=4), "lists of words w s w, s up to n over a space $; widths 10, 13, 16"),
    Harness(escape_value, dict(n=3), dict(n=5), "any value up to n Unicode characters without line breaks"),
    Harness(build_edge, dict(n=2, lists=[(1, 1, 0, 0), (1, 1, 1, 0), (1, 0, 0, 1), (2, 1, 0, 0)], pad=8, vlen=1),
            dict(n=2, lists=[(1, 1, 0, 0), (1, 1, 1, 1), (1, 0, 0, 1), (2, 1, 0, 0), (1, 2, 0, 0)], pad=8, vlen=2),
            "0-2 outputs, inputs, implicit and order-only inputs; names of up to n characters over letters space : . ' # ="),
    Harness(path_text, dict(n=1), dict(n=3), "paths with a dollar before a space and up to n characters on both sides"),
    Harness(rule_block, dict(n=2), dict(n=3), "command of up to n+1 characters, all subsets of the optional bindings"),
    Harness(define, dict(n=4), dict(n=6), "any printable definition (and a non-ASCII letter) up to n characters; linux, mac, win"),
    Harness(target_flags, dict(n=1), dict(n=2), "a definition and an include directory of up to n (+1) printable characters"),
    Harness(target_edges, dict(n=1, nsrc=2, exts=[".c", ".cc", ".S", ".h", ".o", ".s", ".cpp", ".cxx"], exts2=[".cc", ".o"]),
            dict(n=2, nsrc=2, exts=[".c", ".cc", ".S", ".h", ".o", ".s", ".cpp", ".cxx"], exts2=[".c", ".cc", ".o"]),
            "1-2 sources s<i>+(up to n over a b space /)+x, eight extensions, four target types, a dependency of four kinds"),
    Harness(action_step, dict(n=1, k=2), dict(n=3, k=2), "two symbolic arguments up to n over shell-special characters without $; input and output names"),
    Harness(rule_step, dict(n=2), dict(n=3), "two sources, one with a symbolic name over a b . /; symbolic argument"),
    Harness(copy_step, dict(n=2), dict(n=3), "two files, symbolic directory and name, three destinations"),
]
