import json
import posixpath

from symex.api import Harness
import hlib
from hlib import reach, graph, perms

PROPERTY = "C18"
PRELOAD = ["gyp.generator.analyzer", "gyp.common"]
ASSUMPTIONS = ["the dependency graph is acyclic and target names are unique among the loaded files (requests name targets without file and toolset)",
               "a static library is built with another static library only if something links both; every other dependency is built with its dependent",
               "sources are given relative to the build file"]
A = "gyp.generator.analyzer"
LINKED = ["executable", "shared_library"]


def _b(x):
    return bool(x)


def _is(t, names):
    return any(_b(t == n) for n in names)


def _order(ctx, names, ranks):
    """sets of targets are iterated in any order"""
    T = ctx.fn(A, "Target")
    rank = dict(zip(names, ranks))

    class Ranked(T):
        def __hash__(self):
            return rank.get(self.name, 7)

        def __eq__(self, o):
            return self is o
    ctx.patch(A, "Target", Ranked)


def _built(e, ty, i):
    """what building target i builds (static libraries only through something that links them)"""
    out, todo = [], [i]
    while todo:
        a = todo.pop()
        if a in out:
            continue
        out.append(a)
        if _b(ty[a] == "static_library"):
            todo += [b for b in e[a] if not _b(ty[b] == "static_library")]
        elif _b(ty[a] == "none"):
            todo += e[a]
        else:
            link, q = [], list(e[a])
            while q:
                b = q.pop()
                if b not in link:
                    link.append(b)
                    if _is(ty[b], ["static_library", "none"]):
                        q += e[b]
            todo += link
    return out


def _world(ctx, k, order, changed, kinds, act=False, other=None):
    e = graph(ctx, k) if order <= 4 or act else [[], [0], [1]]
    names = ["%s.gyp:%s#target" % ("g" if i == other else "f", "abcd"[i]) for i in range(k)]
    ty = [ctx.choice("t%d" % i, kinds) for i in range(k)]
    ch = [_b(ctx.bool("c%d" % i)) for i in range(k)] if changed is None else changed
    dicts = {}
    for i in range(k):
        d = {"target_name": "abcd"[i], "toolset": "target", "type": ty[i], "dependencies": [names[j] for j in e[i]], "sources": ["x%d.c" % i, "other.c"]}
        dicts[names[i]] = d
    acts = [False] * k
    if act:
        for i in range(k):
            if _b(ty[i] == "none") and _b(ctx.bool("a%d" % i)):
                acts[i] = True
                dicts[names[i]]["actions"] = [{"inputs": [], "outputs": []}]
    ps = perms(k)
    ps = [(ps[0], ps[0]), (ps[-1], ps[0]), (ps[1], ps[-1]), (ps[-1], ps[-1])][:order] if order <= 4 else [(p, q) for p in ps for q in ps if order > 6 or q == p[::-1]]
    perm, rank = ctx.pick("order", ps)
    tl = [names[p] for p in perm]
    _order(ctx, names, rank)
    files = ["x%d.c" % i for i in range(k) if ch[i]] + ["unused.c"]
    return e, names, ty, ch, acts, dicts, tl, files, {q: {"included_files": [q]} for q in ("f.gyp", "g.gyp")}


def _roots(e, other=None):
    return [i for i in range(len(e)) if not any(i in d for d in e) and i != other]


def tests(ctx, k, order):
    """exactly the requested test targets that depend on a changed one"""
    other = ctx.pick("other", [None, k - 1])
    e, names, ty, ch, acts, dicts, tl, files, data = _world(ctx, k, order, None, ["none"], other=other)
    want_all = _b(ctx.bool("all"))
    req = [_b(ctx.bool("q%d" % i)) for i in range(k)]
    test = {"abcd"[i] for i in range(k) if req[i]} | ({"all"} if want_all else set())
    unknown = want_all and req[0]
    if unknown:
        test.add("zz")
    C = ctx.fn(A, "TargetCalculator")(files, [], test, data, tl, dicts, "/top", ["f.gyp"])
    hit = [ch[i] or any(ch[j] for j in reach(e, i)) for i in range(k)]
    ctx.check(list(C.invalid_targets) == (["zz"] if unknown else []), "unknown targets are not exactly those reported")
    ctx.check(bool(C.is_build_impacted()) == any(ch), "a change is overlooked or imagined")
    if not any(ch):
        return
    got = sorted(C.find_matching_test_target_names())
    ctx.observe(got)
    want = ["abcd"[i] for i in range(k) if req[i] and hit[i]] + (["all"] if want_all and any(hit[i] for i in _roots(e, other)) else [])
    ctx.check(got == sorted(want), "not exactly the requested tests that depend on a change")


def compile_targets(ctx, k, order, act, subsets):
    """building the compile targets rebuilds everything affected below the requested targets, and they contain nothing unaffected"""
    e, names, ty, ch, acts, dicts, tl, files, data = _world(ctx, k, order, None, LINKED + ["static_library", "none"], act)
    if subsets:
        mode = ctx.pick("mode", ["all", "some"])
        sup = _roots(e) if mode == "all" else [i for i in range(k) if _b(ctx.bool("q%d" % i))]
    else:
        mode = ctx.pick("mode", ["all"] + list(range(k)))
        sup = _roots(e) if mode == "all" else [mode]
    C = ctx.fn(A, "TargetCalculator")(files, ["all"] if mode == "all" else ["abcd"[i] for i in sup], [], data, tl, dicts, "/top", ["f.gyp"])
    if not any(ch):
        return
    C.find_matching_test_target_names()
    got = C.find_matching_compile_target_names()
    ctx.check(len(set(got)) == len(got), "a target is listed twice")
    got = sorted("abcd".index(g) for g in got)
    ctx.observe(got)
    below = set(sup)
    for i in sup:
        below |= set(reach(e, i))
    hit = [ch[i] or any(ch[j] for j in reach(e, i)) for i in range(k)]
    for i in got:
        ctx.check(i in below, "a target no requested target needs is listed")
        ctx.check(hit[i], "a target no change reaches is listed")
    full, real = set(got), set()
    for i in got:
        full |= set(reach(e, i))
    for i in range(k):
        if i not in below or not hit[i]:
            continue
        if i not in got and _b(ty[i] == "executable"):
            ctx.check(False, "an affected executable is not listed")
        if i not in full and (acts[i] or not _b(ty[i] == "none")):
            ctx.check(False, "an affected target is not built")
    for i in range(k):
        if i in below and ch[i] and i not in got:
            if not any(i in _built(e, ty, r) for r in got):
                ctx.check(_b(ty[i] == "none") and not acts[i], "a changed target is not built",
                          known=[("shared-below-static-chain", i in full and not _b(ty[i] == "static_library"))])


def sources(ctx, n):
    """a target is changed exactly if a changed file is one of its sources or inputs"""
    f = ctx.fn(A, "_ExtractSources")
    gd = ctx.pick("gd", ["", "p", "p/q"])
    ab = ctx.pick("abs", ["", "/u/top/", "/u/topx/", "../o/"])
    kind = ctx.pick("kind", ["sources", "actions", "rules"])
    src = ctx.pick("up", ["", "../", "../../", "../../../"]) + ctx.str("src", n, 1, alphabet="ab./")
    ctx.assume(not _b(src.startswith("/")))
    d = {"target_name": "t", "type": "none"}
    if kind == "sources":
        d["sources"] = [src]
    else:
        d[kind] = [{"inputs": [src], "outputs": []}]
    got = f(ab + posixpath.join(gd, "f.gyp") + ":t#target", d, "/u/top")
    named = posixpath.normpath(posixpath.join("/u/top", ab, gd, src))
    norm = [posixpath.normpath(g) for g in got]
    ctx.observe(norm)
    inside = _b(named.startswith("/u/top/"))
    if inside:
        ctx.check(len(norm) == 1 and _b(norm[0] == named[len("/u/top/"):]), "a source inside the tree is missed")
    else:
        ctx.check(not norm or _b(norm[0].startswith("/")) or _b(norm[0].startswith("..")) or _b(norm[0] == "."), "a file outside the tree is taken for one inside")


def sources_variables(ctx, n):
    """generated files and variables are ignored"""
    f = ctx.fn(A, "_ExtractSources")
    s = ctx.str("s", n, alphabet="ab/.")
    pre = ctx.choice("pre", ["!!!", "$(x)", "$"])
    pre = str(pre) if ctx.native else ctx.to_str(pre)
    ctx.check(f("p/f.gyp:t#target", {"target_name": "t", "type": "none", "sources": [pre + s, "k.c", ""]}, "/top") == ["p/k.c"], "a generated file is taken for a source")


def build_files(ctx, n):
    """a changed build file or included file changes all its targets and no others"""
    gd, hd = ctx.pick("gd", ["", "p"]), ctx.pick("hd", ["", "q"])
    ab = ctx.pick("abs", ["", "/top/"])
    inc = ctx.pick("inc", [[], ["i.gypi"], ["../i.gypi", "s/j.gypi"]])
    ch = ctx.str("ch", n, 1, alphabet="ipqs./gy")
    f1, f2 = ab + posixpath.join(gd, "f.gyp"), ab + posixpath.join(hd, "h.gyp")
    data = {f1: {"included_files": ["f.gyp"] + inc}, f2: {"included_files": ["h.gyp"]}}
    names = [f1 + ":a#target", f1 + ":b#target", f2 + ":c#target"]
    dicts = {q: {"target_name": q[-8], "toolset": "target", "type": "none"} for q in names}
    which = ctx.pick("which", ["text", "f", "h", "i0", "i1"])
    files = {"text": [ch], "f": [posixpath.join(gd, "f.gyp")], "h": [posixpath.join(hd, "h.gyp")]}.get(which)
    if files is None:
        k = int(which[1])
        if k >= len(inc):
            return
        files = [posixpath.relpath(posixpath.join("/u/top", gd, inc[k]), "/u/top")]
        if files[0].startswith(".."):
            return
    C = ctx.fn(A, "TargetCalculator")(files, [], ["a", "b", "c"], data, names, dicts, "/top", [f1])
    mine = [posixpath.join(gd, "f.gyp")] + [posixpath.relpath(posixpath.join("/u/top", gd, i), "/u/top") for i in inc]
    c1, c2 = hlib.isin(files[0], mine), hlib.isin(files[0], [posixpath.join(hd, "h.gyp")])
    ctx.check(bool(C.is_build_impacted()) == (c1 or c2), "a changed build file is overlooked or imagined")
    if c1 or c2:
        got = sorted(C.find_matching_test_target_names())
        ctx.observe(got)
        ctx.check(got == (["a", "b"] if c1 else []) + (["c"] if c2 else []), "not exactly the targets of the changed build file")


class Out:
    def __init__(self, box):
        self.box = box

    def write(self, s):
        self.box.append(s)

    def close(self):
        pass


class Options:
    includes = None
    toplevel_dir = "/top"


def output(ctx, k):
    """the written result combines these answers"""
    e, names, ty, ch, acts, dicts, tl, files, data = _world(ctx, k, 1, None, ["executable", "none"])
    test = ["abcd"[i] for i in range(k) if _b(ctx.bool("q%d" % i))]
    comp = ctx.pick("comp", [["a"], [], ["zz", "b"]])
    incl = ctx.pick("incl", [None, ["u.gypi"], ["./p/../u.gypi"], ["v.gypi"]])
    state = ctx.pick("state", ["fine", "nofiles", "missing", "text", "list"])
    cfg = {"files": files + ["u.gypi"], "test_targets": test, "additional_compile_targets": comp}
    if state == "nofiles":
        del cfg["files"]
    text = {"text": "{", "list": "[]"}.get(state, json.dumps(cfg))
    box = []

    def op(p, mode="r", *a, **kw):
        if p == "/cfg" and state != "missing":
            return hlib.VFile(text)
        if p == "/out" and "w" in mode:
            return Out(box)
        raise FileNotFoundError(2, "no such file", p)
    ctx.patch_builtin("open", op)
    o = Options()
    o.includes = incl
    ctx.fn(A, "GenerateOutput")(tl, dicts, data, {"generator_flags": {"config_path": "/cfg", "analyzer_output_path": "/out"}, "options": o, "build_files": ["f.gyp"]})
    got = json.loads("".join(box))
    ctx.observe(json.dumps(got, sort_keys=True))
    if state != "fine":
        ctx.check(set(got) == {"error"}, "an unusable request is answered")
        return
    ctx.check("error" not in got, "an error")
    bad = [t for t in comp if t == "zz" or t not in "abcd"[:k]]
    if incl in (["u.gypi"], ["./p/../u.gypi"]):
        ctx.check(got["status"] == "Found dependency (all)" and sorted(got["test_targets"]) == sorted(test) and sorted(got["compile_targets"]) == sorted(set(test + comp)),
                  "a changed global include does not change everything")
        return
    hit = [ch[i] or any(ch[j] for j in reach(e, i)) for i in range(k)]
    ctx.check(sorted(got.get("invalid_targets", [])) == bad, "unknown targets are not exactly those reported")
    wt = ["abcd"[i] for i in range(k) if "abcd"[i] in test and hit[i]]
    ctx.check(sorted(got["test_targets"]) == wt, "not exactly the requested tests that depend on a change")
    ctx.check(set(wt) <= set(got["compile_targets"]), "a test target is not compiled")
    below = set()
    for i in range(k):
        if "abcd"[i] in test + comp:
            below |= {i} | set(reach(e, i))
    aff = [i for i in below if hit[i]]
    ctx.check(all("abcd"[i] in got["compile_targets"] for i in aff if _b(ty[i] == "executable")), "an affected executable is not listed")
    ctx.check(all("abcd".index(c) in aff for c in got["compile_targets"]), "a target no change reaches is listed")
    if any(_b(ty[i] == "executable") for i in aff):
        ctx.check(got["status"] == "Found dependency", "a dependency is not reported")
    if not aff:
        ctx.check(got["status"] == "No dependencies", "a dependency is imagined")


HARNESSES = [
    Harness(tests, dict(k=3, order=1), dict(k=4, order=2), "all graphs, changed sets and requests, several listing and set orders"),
    Harness(compile_targets, dict(k=3, order=1, act=False, subsets=False), dict(k=3, order=99, act=True, subsets=True), "all graphs, changed sets and types, requests for one target or all, several listing and set orders"),
    Harness("compile_chain", dict(order=6), dict(order=99), "all changed sets, requests and types of a chain of three targets, in every listing and set order"),
    Harness(sources, dict(n=4), dict(n=6), "any source path, three directories of the tree, of one beside it and of one whose name continues its name"),
    Harness(sources_variables, dict(n=2), dict(n=3), ""),
    Harness(build_files, dict(n=2), dict(n=5), "two build files, up to two includes"),
    Harness(output, dict(k=2), dict(k=3), "the whole generator"),
]


def compile_chain(ctx, order):
    compile_targets(ctx, 3, order, False, True)
