import posixpath

from symex.api import Harness
import hlib

PROPERTY = "C24"
PRELOAD = ["gyp.input", "gyp.common", "gyp.simple_copy"]
ASSUMPTIONS = ["files are in-memory stand-ins; Python's own parser turns their text into syntax trees (it runs unmodified)",
               "files that include each other in a circle are outside the property"]
I = "gyp.input"


def _b(x):
    return bool(x)


def _at(dirname, other, item):
    """the path of item (relative to other) as seen from dirname"""
    return posixpath.relpath(posixpath.join(other, item), dirname or ".") if not item.startswith("/") else item


def _uniq(l):
    out = []
    for x in l:
        if x.startswith("-") or not hlib.isin(x, out):
            out.append(x)
    return out


def _eq(a, b):
    return len(a) == len(b) and all(_b(x == y) for x, y in zip(a, b))


def chain(ctx, n, early):
    """a file that includes files that include files: merged where named, paths rebased, each file read once, all recorded"""
    opened = []
    gd = ctx.pick("gd", ["", "p", "p/q"])
    ds = [ctx.pick("d%d" % i, ["", "p", "r"]) for i in range(2)]
    names = [posixpath.join(gd, "a.gyp"), posixpath.join(ds[0], "b.gypi"), posixpath.join(ds[1], "c.gypi")]
    x = [ctx.str("x%d" % i, n, 1, alphabet="ab") for i in range(3)]
    s = ["s%d.c" % i for i in range(3)]
    dirs = [posixpath.dirname(p) for p in names]
    ab, ac, bc, use = [_b(ctx.bool(k)) for k in ("ab", "ac", "bc", "extra")]
    first = _b(ctx.bool("first")) if ab and ac else False
    where = ctx.pick("where", ["target", "defaults", "nested"]) if early == 0 else "target"

    def rel(i, j):
        return posixpath.relpath(names[j], dirs[i] or ".")

    def body(i, inc):
        d = {"includes": [rel(i, j) for j in inc]} if inc else {}
        d.update({"defines": [x[i]], "sources": [s[i]], "variables": {"v%d" % i: "w"}})
        return d
    inc0 = ([2, 1] if first else [1, 2]) if ab and ac else [1] if ab else [2] if ac else []
    b, c = body(1, [2] if bc else []), body(2, [])
    t = body(0, inc0)
    t.update({"target_name": "t", "type": "none"})
    files = {names[1]: b, names[2]: c}
    if where == "target":
        files[names[0]] = {"targets": [t]}
    elif where == "defaults":
        d = dict(t)
        del d["target_name"]
        files[names[0]] = {"target_defaults": d, "targets": [{"target_name": "t", "type": "none", "defines": ["own"]}]}
    else:
        d = dict(t)
        for k in ("target_name", "type", "variables"):
            d.pop(k, None)
        files[names[0]] = {"targets": [{"target_name": "t", "type": "none", "conditions": [["OS=='linux'", d]]}]}
    texts = {k: hlib.gyp_text(v) for k, v in files.items()}
    ctx_files = dict(texts)
    if use:
        ctx_files["u.gypi"] = hlib.gyp_text({"target_defaults": {"defines": ["u"], "sources": ["u.c"]}})
    opened = hlib.vfs(ctx, ctx_files)
    info = dict(hlib.INFO, path_sections=[])
    try:
        flat, targets, data = ctx.fn(I, "Load")([names[0]], {"OS": "linux"}, ["u.gypi"] if use else [], ".", info, False, True, False, None)
    except Exception as e:
        ctx.check(False, "refused: " + type(e).__name__)
        return
    td = targets[names[0] + ":t#target"]
    got_d, got_s = td["configurations"]["Default"].get("defines", []), td.get("sources", [])
    ctx.observe(got_d, got_s)

    def merge(i, inc):
        D, S = [x[i]], [s[i]]
        for j in inc:
            d2, s2 = merge(j, [2] if j == 1 and bc else [])
            D = _uniq(D + d2)
            S = _uniq(S + [_at(dirs[i], dirs[j], q) for q in s2])
        return D, S
    D, S = merge(0, inc0)
    if where == "defaults":
        D = _uniq(D + ["own"])
    if use:
        D, S = (_uniq(["u"] + D), _uniq([_at(dirs[0], "", "u.c")] + S)) if where != "defaults" else (None, None)
    if D is not None:
        ctx.check(_eq(got_d, D), "settings of the included files are not merged as named")
        named = lambda l: _uniq([posixpath.normpath(posixpath.join("/w/x", dirs[0], q)) for q in l])
        ctx.check(_eq(named(got_s), named(S)), "a path from an included file names another file")
    else:
        ctx.check(all(hlib.isin(q, got_d) for q in ["u", "own"] + x[:1]), "settings of the included files are not merged as named")
    want = {names[0]} | {names[j] for j in inc0} | ({names[2]} if ab and bc else set()) | ({"u.gypi"} if use else set())
    ctx.check(len(opened) == len(set(opened)), "a file is read more than once")
    ctx.check(set(opened) == want, "other files are read")
    rec = data[names[0]]["included_files"]
    ctx.check(sorted(rec) == sorted(posixpath.relpath(w, dirs[0] or ".") for w in want), "the record of contributing files is wrong")
    ctx.check("includes" not in td and not any(k == "includes" for k in data[names[0]]), "the includes key remains")


def shared(ctx, n):
    """two targets and two files include the same file: neither sees what the other adds"""
    x, y, z = [ctx.str(k, n, 1, alphabet="ab") for k in "xyz"]
    gd = ctx.pick("gd", ["", "p"])
    inc = {"defines": ["c"], "variables": {"k": "v"}, "sources": ["c.c"], "configurations": {"Debug": {"ldflags": ["-c"]}}}
    f1 = {"targets": [{"includes": ["i/c.gypi"], "target_name": "t", "type": "none", "defines": [x], "sources": ["t.c"], "configurations": {"Debug": {"ldflags": ["-t"]}}},
                      {"target_name": "u", "type": "none", "includes": ["i/c.gypi"], "defines": [y], "dependencies": [posixpath.join(gd, "e.gyp") + ":w"]}]}
    up = posixpath.relpath("i/c.gypi", gd or ".")
    f2 = {"targets": [{"target_name": "w", "type": "none", "includes": [up], "defines": [z]}]}
    e = posixpath.join(gd, "e.gyp")
    opened = hlib.vfs(ctx, {"a.gyp": hlib.gyp_text(f1), e: hlib.gyp_text(f2), "i/c.gypi": hlib.gyp_text(inc)})
    flat, targets, data = ctx.fn(I, "Load")(["a.gyp"], {"OS": "linux"}, [], ".", dict(hlib.INFO), False, True, False, None)
    got = [targets[q + "#target"] for q in ("a.gyp:t", "a.gyp:u", e + ":w")]
    ctx.observe(*got)
    for g, v, src, ld in zip(got, (x, y, z), (["t.c", "i/c.c"], ["i/c.c"], [_at(gd, "i", "c.c")]), (["-t", "-c"], ["-c"], ["-c"])):
        ctx.check(_eq(g["configurations"]["Debug"]["defines"], _uniq([v, "c"])), "settings of the included file are not merged as named")
        ctx.check(_eq(g["sources"], src), "a path from an included file names another file")
        ctx.check(_eq(g["configurations"]["Debug"]["ldflags"], ld), "settings of the included file are not merged as named")
    ctx.check(sorted(opened) == sorted(["a.gyp", e, "i/c.gypi"]), "a file is read more than once")


def defaults(ctx, n):
    """target_defaults are defaults of every target: the target's own settings win and no target sees another's"""
    x, y, z, w = [ctx.str(k, n, 1, alphabet="ab") for k in "xyzw"]
    pol = ctx.pick("pol", ["", "+", "=", "?"])
    has = _b(ctx.bool("has"))
    d = {"defines": [x], "variables": {"k": y}, "type": "none", "xs": {"FLAG": y, "l": ["m"]}, "actions": [{"action_name": "n", "inputs": [], "outputs": ["o"], "action": ["a"]}]}
    f = {"target_defaults": d, "targets": [
        {"target_name": "t", "defines" + pol: [z], "type": "executable", "xs": {"l": ["t"]}},
        {"target_name": "u", "xs": {"FLAG": w}, "conditions": [["OS==\"linux\"", {"defines" + pol: [w]}]]},
        {"target_name": "v"}]}
    if has:
        f["targets"][2]["sources"] = ["s.c"]
        f["targets"][0]["toolsets"] = ["host", "target"]
    try:
        flat, targets, data = hlib.gyp_load(ctx, {"a.gyp": f}, ["a.gyp"])
    except Exception as e:
        ctx.check(False, "refused: " + type(e).__name__)
        return
    g = {k: targets["a.gyp:%s#target" % k] for k in "tuv"}
    ctx.observe(*g.values())
    if has:
        h = targets["a.gyp:t#host"]
        ctx.check(len(targets) == 4 and h["toolset"] == "host", "a toolset is lost")
        g["h"] = h
    else:
        ctx.check(len(targets) == 3, "other targets appear")
    m = lambda v: _uniq([x, v]) if pol == "" else _uniq([v, x]) if pol == "+" else [v] if pol == "=" else [x]
    for k, t in g.items():
        c = t["configurations"]["Default"]
        want = m(z) if k in "th" else _uniq([x, w]) if k == "u" else [x]
        ctx.check(_eq(c["defines"], want), "a target's settings are not its defaults and its own")
        ctx.check(_eq(c["xs"]["l"], ["m", "t"] if k in "th" else ["m"]) and _b(c["xs"]["FLAG"] == (w if k == "u" else y)), "a target's settings are not its defaults and its own")
        ctx.check(t["type"] == ("executable" if k in "th" else "none") and len(t["actions"]) == 1, "a target's settings are not its defaults and its own")
        ctx.check(t.get("sources") == (["s.c"] if k == "v" and has else None), "a target's settings are not its defaults and its own")
    ctx.check("target_defaults" not in data["a.gyp"], "the defaults remain")


def options(ctx, n):
    """skip_includes keeps the file as it is; a missing include, or text that is no dictionary, is an error"""
    skip = ctx.choice("skip", ["absent", "0", "1"])
    skip = str(skip) if ctx.native else ctx.to_str(skip)
    kind = ctx.pick("kind", ["fine", "missing", "list", "syntax", "chained"])
    extra = _b(ctx.bool("extra"))
    x = ctx.str("x", n, 1, alphabet="ab")
    d = {"includes": ["i.gypi"], "targets": [{"target_name": "t", "type": "none", "defines": [x]}]}
    if _b(skip == "0"):
        d["skip_includes"] = 0
    elif _b(skip == "1"):
        d["skip_includes"] = 1
    on = _b(skip == "1")
    files = {"a.gyp": hlib.gyp_text(d)}
    if kind != "missing":
        files["i.gypi"] = {"fine": "{'target_defaults': {'defines': ['I']}}", "list": "['a']", "syntax": "{'a': ", "chained": "{'includes': ['j.gypi'], 'target_defaults': {'defines': ['I']}}"}[kind]
    if kind == "chained":
        files["j.gypi"] = "{'target_defaults': {'defines': ['J']}}"
    if extra:
        files["u.gypi"] = "{'target_defaults': {'defines': ['U']}}"
    opened = hlib.vfs(ctx, files)
    try:
        flat, targets, data = ctx.fn(I, "Load")(["a.gyp"], {"OS": "linux"}, ["u.gypi"] if extra else [], ".", dict(hlib.INFO), False, True, False, None)
    except Exception as e:
        n_ = type(e).__name__
        ctx.check(not on and kind in ("missing", "list", "syntax"), "refused: " + n_)
        ctx.check(n_ == ("SyntaxError" if kind == "syntax" else "GypError"), "the wrong error")
        ctx.check("a.gyp" in str(e) or kind == "syntax", "the error does not name the file")
        return
    ctx.check(on or kind in ("fine", "chained"), "an unusable include is ignored")
    got = targets["a.gyp:t#target"]["configurations"]["Default"]["defines"]
    ctx.observe(got)
    want = [x] if on else (["U"] if extra else []) + ["I"] + (["J"] if kind == "chained" else []) + [x]
    ctx.check(_eq(got, want), "settings of the included files are not merged as named")


def depth(ctx):
    """DEPTH leads from each build file's directory to the top directory"""
    dirs = [ctx.pick("d%d" % i, ["", "p", "p/q", "r"]) for i in range(2)]
    top = ctx.pick("top", [".", "p", "../w"])
    phase = ctx.pick("phase", ["<(DEPTH)", ">(DEPTH)"])
    names = [posixpath.join(dirs[0], "a.gyp"), posixpath.join(dirs[1], "b.gyp")]
    x = [ctx.str("x%d" % i, 1, 1, alphabet="ab") for i in range(2)]
    inc = posixpath.relpath("i.gypi", dirs[1] or ".")
    f0 = {"targets": [{"target_name": "t", "type": "none", "defines": [phase + "/" + x[0]], "dependencies": [posixpath.relpath(names[1], dirs[0] or ".") + ":u"]}]}
    f1 = {"targets": [{"target_name": "u", "type": "none", "defines": [phase + "/" + x[1]], "includes": [inc]}]}
    hlib.vfs(ctx, {names[0]: hlib.gyp_text(f0), names[1]: hlib.gyp_text(f1), "i.gypi": hlib.gyp_text({"ldflags": [phase]})})
    flat, targets, data = ctx.fn(I, "Load")([names[0]], {"OS": "linux"}, [], top, dict(hlib.INFO), False, True, False, None)
    for i, q in ((0, names[0] + ":t#target"), (1, names[1] + ":u#target")):
        c = targets[q]["configurations"]["Default"]
        d = posixpath.relpath(posixpath.join("/w/x", top), posixpath.join("/w/x", dirs[i]))
        ctx.observe(c)
        ctx.check(_eq(c["defines"], [d + "/" + x[i]]), "DEPTH does not lead to the top directory")
        if i:
            ctx.check(_eq(c["ldflags"], [d]), "DEPTH does not lead to the top directory")


HARNESSES = [
    Harness("chain", dict(n=1, early=0), dict(n=2, early=0), "all include relations of three files in three directories each, three places, symbolic settings"),
    Harness(shared, dict(n=1), dict(n=2), "one file included three times"),
    Harness(defaults, dict(n=1), dict(n=2), "three targets, four list policies, symbolic settings"),
    Harness(options, dict(n=1), dict(n=2), "skip_includes absent/0/1, five kinds of included file, global includes"),
    Harness(depth, dict(), dict(), "two files in four directories each, three top directories, early and late references"),
]
