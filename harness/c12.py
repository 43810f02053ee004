from symex.api import Harness
import hlib

PROPERTY = "C12"
PRELOAD = ["gyp.input", "gyp.common"]
ASSUMPTIONS = ["target names contain no `:`, toolsets no `:` or `#` (the separators); working directory /w/x without symbolic links"]
I, C = "gyp.input", "gyp.common"
CWD = ["w", "x"]


def _b(x):
    return bool(x)


def _walk(base, p):
    out = [] if _b(p.startswith("/")) else list(base)
    for c in p.split("/"):
        if _b(c == "") or _b(c == "."):
            continue
        if _b(c == ".."):
            if out:
                out.pop()
        else:
            out.append(c)
    return out


def _same(a, b):
    return len(a) == len(b) and all(_b(x == y) for x, y in zip(a, b))


def _env(ctx):
    ctx.patch("os.path", "realpath", lambda p, strict=False: "/" + "/".join(_walk(CWD, p)))
    ctx.patch("os", "getcwd", lambda: "/w/x")


def names(ctx, n):
    """writing and parsing qualified names"""
    q, p, bf, fq = (ctx.fn(C, x) for x in ("QualifiedTarget", "ParseQualifiedTarget", "BuildFile", "FindQualifiedTargets"))
    f = ctx.str("f", n, alphabet="a:#/")
    t = ctx.str("t", n, 1, alphabet="a#/.")
    s = ctx.str("s", n - 1, alphabet="ab")
    none = ctx.pick("none", [False, True]) if _b(s == "") else False
    name = q(f, t, None if none else s)
    got = p(name)
    ctx.observe(name, got)
    ctx.check(len(got) == 3, "not three parts")
    ctx.check(_b(got[0] == f), "the build file differs")
    ctx.check(_b(bf(name) == f), "the build file differs")
    if _b(s != ""):
        ctx.check(_b(got[1] == t) and got[2] is not None and _b(got[2] == s), "target or toolset differ")
        ctx.check(_b(name == f + ":" + t + "#" + s), "not the documented form")
        ctx.check(len(fq(t, [name, "z:zz#z", q("y", t, "b")])) == 2, "the target is not found by name")
        ctx.check(fq(t + "q", [name]) == [], "another target is found")
    elif "#" not in t:
        ctx.check(_b(got[1] == t) and got[2] is None, "target or toolset differ")


def distinct(ctx, n):
    """different targets have different qualified names"""
    q = ctx.fn(C, "QualifiedTarget")
    a = [ctx.str("a%s" % k, n, 0 if k == "f" else 1, alphabet="a:#" if k == "f" else "a#" if k == "t" else "ab") for k in "fts"]
    b = [ctx.str("b%s" % k, n, 0 if k == "f" else 1, alphabet="a:#" if k == "f" else "a#" if k == "t" else "ab") for k in "fts"]
    x, y = q(*a), q(*b)
    ctx.observe(x, y)
    same = all(_b(i == j) for i, j in zip(a, b))
    ctx.check(_b(x == y) == same, "two targets have the same qualified name, or one has two")


def resolve(ctx, n):
    f = ctx.fn(C, "ResolveTarget")
    q = ctx.fn(C, "QualifiedTarget")
    _env(ctx)
    d = ctx.pick("dir", ["", "d/", "../e/", "d/../", "/abs/", "./"])
    owner = d + "o.gyp"
    t = ctx.str("t", 2, 1, alphabet="a#" if n > 2 else "a")
    k = ctx.pick("nf", list(range(n + 1)))
    segs = [ctx.pick("s%d" % i, ["..", ".", "", "L"]) for i in range(k)]
    file = "/".join([ctx.str("l%d" % i, 1, 1, "adex") if c == "L" else c for i, c in enumerate(segs)] + ["f.gyp"]) if ctx.pick("hasf", [True, False]) else ""
    if k and file == "":
        return
    ts = ctx.pick("ts", ["", "#host", "#target", "#"])
    if "#" in t and ts != "#host":
        return
    default = ctx.pick("default", ["target", "host"])
    form = ctx.pick("form", ["%s:%s%s", "%s%s"]) if _b(file == "") else "%s:%s%s"
    dep = file + ":" + t + ts if form == "%s:%s%s" else t + ts
    base = ctx.pick("owner", [True, False]) if d == "" else True
    got = f(owner if base else "", dep, default)
    ctx.observe(got)
    want_ts = ts[1:] if len(ts) > 1 else default
    ctx.check(_b(got[1] == t), "the target differs")
    ctx.check(_b(got[2] == want_ts), "the toolset differs")
    if _b(file == ""):
        ctx.check(_b(got[0] == (owner if base else "")), "another file is named")
        return
    if not base:
        ctx.check(_b(got[0] == file), "another file is named")
        return
    want = _walk(_walk(CWD, "/" + d if d == "/abs/" else d), file)
    ctx.check(_same(_walk(CWD, got[0]), want), "another file is named")
    if _b(file.startswith("/")) or d == "/abs/":
        ctx.check(_b(got[0] == "/" + "/".join(want)) or _b(got[0] == "//" + "/".join(want)), "not the canonical name")
    else:
        i = 0
        while i < 2 and i < len(want) and _b(want[i] == CWD[i]):
            i += 1
        ctx.check(_b(got[0] == "/".join([".."] * (2 - i) + want[i:])), "not the canonical name")
    again = f("zz.gyp", got[0] + ":" + got[1] + "#" + got[2], "other")
    ctx.check(all(_b(x == y) for x, y in zip(again, got)), "resolving again changes the name")


def build_targets(ctx, n, k):
    f = ctx.fn(I, "BuildTargetsDict")
    files = ["a.gyp", "d/a.gyp"]
    data = {"target_build_files": list(files), "a.gyp": {"targets": []}, "d/a.gyp": {}, "x.gypi": {"targets": [{"target_name": "no", "toolset": "no"}]}}
    ts = []
    for i in range(k):
        where = files[i % 2] if i < 2 else ctx.pick("f%d" % i, files)
        t = {"target_name": ctx.str("t%d" % i, n, 1, alphabet="a#"), "toolset": ctx.pick("s%d" % i, ["target", "host", "a"])}
        ts.append((where, t))
        data[where].setdefault("targets", []).append(t)
    dup = any(ts[i][0] == ts[j][0] and _b(ts[i][1]["target_name"] == ts[j][1]["target_name"]) and _b(ts[i][1]["toolset"] == ts[j][1]["toolset"])
              for i in range(k) for j in range(i))
    try:
        got = f(data)
    except Exception as e:
        ctx.check(dup and type(e).__name__ == "GypError", "refused")
        return
    ctx.check(not dup, "two targets of the same name are accepted")
    ctx.observe(sorted(got))
    ctx.check(len(got) == k, "targets lost or invented")
    for where, t in ts:
        key = where + ":" + t["target_name"] + "#" + t["toolset"]
        ctx.check(key in got and got[key] is t, "a target is not found under its name")


SECTIONS = ["dependencies", "export_dependent_settings", "dependencies!", "export_dependent_settings!"]


def qualify(ctx, n):
    f = ctx.fn(I, "QualifyDependencies")
    _env(ctx)
    multi = ctx.pick("multi", [True, False])
    ctx.patch(I, "multiple_toolsets", multi)
    own = ctx.pick("own", ["target", "host"])
    t = ctx.str("t", n, 1, alphabet="ab")
    forms = [("%s", "d/o.gyp", None), ("%s#host", "d/o.gyp", "host"), (":%s", "d/o.gyp", None), ("p.gyp:%s", "d/p.gyp", None), ("../p.gyp:%s#target", "p.gyp", "target"),
             ("/p.gyp:%s#host", "/p.gyp", "host"), ("../d/o.gyp:%s", "d/o.gyp", None), ("p.gyp:*", None, None)]
    form, file, ts = ctx.pick("form", forms[:-1])
    sec = ctx.pick("sec", SECTIONS)
    listed = ctx.pick("listed", [True, False]) if sec != "dependencies" else True
    dep = form % t
    want = file + ":" + t + "#" + (ts if ts and multi else own)
    td = {"target_name": "o", "toolset": own, "dependencies": ["zz"] + ([dep] if listed else []), "sources": [dep], "dependencies/": [["exclude", "a"]],
          "export_dependent_settings/": [["include", "a:b"]]}
    if sec != "dependencies":
        td[sec] = [dep]
    other = {"target_name": "u", "toolset": "target"}
    try:
        f({"d/o.gyp:o#" + own: td, "d/o.gyp:u#target": other})
    except Exception as e:
        ctx.check(not listed and type(e).__name__ == "GypError", "refused")
        ctx.check(_b(want != "d/o.gyp:zz#" + own), "refused although listed")
        return
    ctx.observe(td)
    ctx.check(listed or _b(want == "d/o.gyp:zz#" + own), "a dependency that is not listed under dependencies is accepted")
    ctx.check(td["dependencies"][0] == "d/o.gyp:zz#" + own and len(td["dependencies"]) == (2 if listed else 1), "another dependency changed")
    if listed:
        ctx.check(_b(td["dependencies"][1] == want), "the dependency does not name the target")
    ctx.check(len(td.get(sec, [])) == (2 if sec == "dependencies" else 1) and _b(td[sec][-1] == want), "the dependency does not name the target")
    ctx.check(_b(td["sources"][0] == dep), "text that is no dependency is changed")
    ctx.check(td["dependencies/"] == [["exclude", "a"]] and td["export_dependent_settings/"] == [["include", "a:b"]], "a pattern is changed")
    ctx.check(len(other) == 2, "another target changed")


def wildcards(ctx, k, n):
    f = ctx.fn(I, "ExpandWildcardDependencies")
    uniq = ctx.fn(I, "RemoveDuplicateDependencies")
    tds, targets = [], {}
    for i in range(k):
        td = {"target_name": ctx.str("n%d" % i, n, 1, alphabet="ab"), "toolset": ctx.pick("s%d" % i, ["target", "host"])}
        sup = ctx.pick("x%d" % i, [None, 1, 0]) if i == 0 else None
        if sup is not None:
            td["suppress_wildcard"] = sup
        tds.append(td)
    data = {"p.gyp": {"targets": tds}, "o.gyp": {}}
    wn = ctx.pick("wn", ["*", "a"])
    wt = ctx.pick("wt", ["*", "target"])
    pre = ctx.pick("pre", [[], ["q.gyp:z#target"], ["p.gyp:a#target"]])
    post = ctx.pick("post", [[], ["p.gyp:a#target"], ["p.gyp:*#host"]])
    sec = ctx.pick("sec", ["dependencies", "export_dependent_settings"])
    me = {"target_name": "me", "toolset": "target", sec: pre + ["p.gyp:%s#%s" % (wn, wt)] + post}
    f({"o.gyp:me#target": me}, data)
    ctx.observe(me)

    def expand(d):
        if "*" not in d:
            return [d]
        a, b = d[6:].split("#")
        return ["p.gyp:" + t["target_name"] + "#" + t["toolset"] for t in tds
                if (a == "*" or _b(t["target_name"] == a)) and (b == "*" or t["toolset"] == b) and not t.get("suppress_wildcard")]
    want = []
    for d in pre + ["p.gyp:%s#%s" % (wn, wt)] + post:
        want += expand(d)
    ctx.check(_same(me[sec], want), "not exactly the matching targets")
    uniq({"o.gyp:me#target": me})
    u = []
    for w in want:
        if not any(_b(w == x) for x in u):
            u.append(w)
    ctx.check(_same(me[sec], u), "a dependency is listed twice, or lost")


def wildcard_self(ctx):
    f = ctx.fn(I, "ExpandWildcardDependencies")
    w = ctx.pick("w", ["o.gyp:*#target", "o.gyp:*#*", "o.gyp:x#*", "p.gyp:*#target", "o.gyp:x#target"])
    sec = ctx.pick("sec", ["dependencies", "export_dependent_settings"])
    data = {"o.gyp": {"targets": [{"target_name": "me", "toolset": "target"}, {"target_name": "x", "toolset": "target"}]}, "p.gyp": {"targets": []}}
    me = {"target_name": "me", "toolset": "target", sec: [w]}
    try:
        f({"o.gyp:me#target": me}, data)
    except Exception as e:
        ctx.check(w.startswith("o.gyp") and "*" in w and type(e).__name__ == "GypError", "refused")
        return
    ctx.observe(me)
    ctx.check("*" not in w or w.startswith("p."), "a wildcard for the target's own file is accepted")
    ctx.check(me[sec] == ([w] if "*" not in w else []), "dependencies differ")


def pruning(ctx, k):
    """prune_self_dependency and link_dependency"""
    fs, fl = ctx.fn(I, "RemoveSelfDependencies"), ctx.fn(I, "RemoveLinkDependenciesFromNoneTargets")
    which = ctx.pick("which", ["self", "link"])
    ts = {}
    for i in range(k):
        ts["t%d" % i] = {"type": ctx.pick("y%d" % i, ["none", "executable"]) if which == "link" and i < 2 else "none", "variables": {}}
        m = ctx.pick("m%d" % i, [None, 0, 1] if i == 0 else [None, 1])
        if m is not None:
            ts["t%d" % i]["variables"]["prune_self_dependency" if which == "self" else "link_dependency"] = m
    sec = ctx.pick("sec", ["dependencies", "export_dependent_settings"])
    deps = {}
    for i in range(2):
        deps["t%d" % i] = ["t%d" % j for j in range(k) if _b(ctx.bool("e%d%d" % (i, j)))]
        ts["t%d" % i][sec] = list(deps["t%d" % i])
    (fs if which == "self" else fl)(ts)
    ctx.observe(ts)
    for i in range(2):
        t = "t%d" % i
        if which == "self":
            want = [d for d in deps[t] if not (d == t and ts[t]["variables"].get("prune_self_dependency"))]
        else:
            want = [d for d in deps[t] if not (ts[t]["type"] == "none" and ts[d]["variables"].get("link_dependency"))]
        ctx.check(ts[t][sec] == want, "not exactly the marked dependencies are removed")


def colliding(ctx, n):
    """two targets of one directory may not share a name"""
    f = ctx.fn(I, "VerifyNoCollidingTargets")
    d = [ctx.str("d%d" % i, 1, alphabet="ab") for i in range(2)]
    t = [ctx.str("t%d" % i, n, 1, alphabet="a#/") for i in range(2)]
    s = [ctx.pick("s%d" % i, ["target", "host"]) for i in range(2)]
    fn = ctx.pick("fn", [("a.gyp", "b.gyp"), ("a.gyp", "a.gyp")])
    q = [(d[i] + "/" if _b(d[i] != "") else "") + fn[i] + ":" + t[i] + "#" + s[i] for i in range(2)]
    if _b(q[0] == q[1]):
        return
    clash = _b(d[0] == d[1]) and _b(t[0] == t[1]) and s[0] == s[1]
    try:
        f(q)
    except Exception as e:
        ctx.check(clash and type(e).__name__ == "GypError", "refused")
        return
    ctx.check(not clash, "two targets of the same name in one directory are accepted")


def roots(ctx, k):
    """only the requested targets and what they depend on are kept"""
    f = ctx.fn(I, "PruneUnwantedTargets")
    b = ctx.fn(I, "BuildDependencyList")
    targets, data = {}, {"target_build_files": ["a.gyp", "b.gyp", "c.gyp"], "a.gyp": {"targets": []}, "b.gyp": {"targets": []}, "c.gyp": {}}
    qs = []
    for i in range(k):
        file = "ab"[i % 2] + ".gyp"
        td = {"target_name": "t%d" % (i // 2), "toolset": "target"}
        q = "%s:t%d#target" % (file, i // 2)
        deps = [qs[j] for j in range(i) if _b(ctx.bool("e%d%d" % (i, j)))]
        if deps:
            td["dependencies"] = deps
        qs.append(q)
        targets[q] = td
        data[file]["targets"].append(td)
    nodes, flat = b(targets)
    req = ctx.pick("req", [["t0"], [" t1 "], ["t0", "t1"], ["none"], ["t1", "nope"]])
    try:
        wt, wf = f(targets, flat, nodes, req, data)
    except Exception as e:
        ctx.check(("none" in req or "nope" in req) and type(e).__name__ == "GypError", "refused")
        return
    ctx.check("none" not in req and "nope" not in req, "an unknown target is accepted")
    want = set()
    todo = [q for q in qs if q.split(":")[1].split("#")[0] in [r.strip() for r in req]]
    while todo:
        q = todo.pop()
        if q not in want:
            want.add(q)
            todo += targets[q].get("dependencies", [])
    ctx.observe(sorted(wt), wf)
    ctx.check(sorted(wt) == sorted(want), "not exactly the requested targets and their dependencies")
    ctx.check(wf == [t for t in flat if t in want], "the order changed")
    ctx.check(all(wt[q] is targets[q] for q in wt), "a target changed")
    left = [t for file in ("a.gyp", "b.gyp") for t in data[file]["targets"]]
    ctx.check(len(left) == len(want) and all(any(t is targets[q] for q in want) for t in left), "the file's targets differ")


HARNESSES = [
    Harness(names, dict(n=3), dict(n=4), "files over a : # /, targets over a # / . and toolsets of up to n"),
    Harness(distinct, dict(n=1), dict(n=2), "two triples of file, target, toolset up to n"),
    Harness(resolve, dict(n=1), dict(n=3), "six owners, paths of up to n components, toolset forms"),
    Harness(build_targets, dict(n=1, k=3), dict(n=2, k=4), "k targets in two files, symbolic names, three toolsets"),
    Harness(qualify, dict(n=1), dict(n=2), "seven forms, four sections, symbolic target"),
    Harness(wildcards, dict(k=2, n=1), dict(k=3, n=1), "k targets with symbolic names, wildcards for names and toolsets, surrounding dependencies"),
    Harness(wildcard_self, {}, {}, "five dependencies, two sections"),
    Harness(pruning, dict(k=3), dict(k=4), "k targets, all marks, all edges from two of them"),
    Harness(colliding, dict(n=2), dict(n=3), "two targets, symbolic directory and name"),
    Harness(roots, dict(k=4), dict(k=5), "all graphs of k targets in two files, five requests"),
]
