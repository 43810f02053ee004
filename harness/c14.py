from symex.api import Harness
import hlib
from hlib import reach, graph

PROPERTY = "C14"
PRELOAD = ["gyp.input", "gyp.common", "gyp.simple_copy"]
ASSUMPTIONS = ["the dependency graph is acyclic; exported dependencies are dependencies (both are checked by the loader, C12/C13)"]
I = "gyp.input"
KINDS = ["all_dependent_settings", "direct_dependent_settings", "link_settings"]
TYPES = ["executable", "static_library", "shared_library", "loadable_module", "none"]
LINKED = ["executable", "shared_library", "loadable_module", "mac_kernel_extension", "windows_driver"]


def _b(x):
    return bool(x)


def _is(t, names):
    return any(_b(t == n) for n in names)


def _imported(edges, exports, i):
    out, todo = [], list(edges[i])
    while todo:
        j = todo.pop(0)
        if j not in out:
            out.append(j)
            todo += exports[j]
    return out


def _linked(edges, types, i, stop=(), noshared=False):
    """whose link settings reach target i"""
    if not _is(types[i], LINKED):
        return []
    out, todo = [i], list(edges[i])
    while todo:
        j = todo.pop(0)
        if j in out:
            continue
        if _is(types[j], ["executable", "loadable_module", "mac_kernel_extension", "windows_driver"]):
            continue
        if _b(types[j] == "shared_library"):
            if not noshared:
                out.append(j)
            continue
        out.append(j)
        if j not in stop:
            todo += edges[j]
    return out


def _run(ctx, ts, kinds=KINDS):
    nodes, flat = ctx.fn(I, "BuildDependencyList")(ts)
    f = ctx.fn(I, "DoDependentSettings")
    for key in kinds:
        f(key, flat, ts, nodes)
        for t in flat:
            if key in ts[t]:
                del ts[t][key]


def _names(k, order):
    return ["d%d/f.gyp:%s#target" % (i % 2, "abcdef"[order[i]]) for i in range(k)]


def _has(l, x):
    return len([1 for y in l if y == x])


def all_dependents(ctx, k):
    e = graph(ctx, k)
    names = _names(k, ctx.pick("order", [[0, 1, 2, 3, 4, 5], [5, 4, 3, 2, 1, 0], [2, 0, 3, 1, 5, 4]]))
    v = ctx.str("v", 1, 1, alphabet="ab")
    ts = {}
    for i in range(k):
        ts[names[i]] = {"target_name": "n", "type": "none", "dependencies": [names[j] for j in e[i]], "defines": ["own"],
                        "all_dependent_settings": {"defines": ["A%d" % i + v], "sub": {"flags": ["F%d" % i]}}}
    _run(ctx, ts)
    ctx.observe(ts)
    for i in range(k):
        t = ts[names[i]]
        want = reach(e, i)
        for j in range(k):
            n = len([1 for y in t["defines"] if _b(y == "A%d" % j + v)])
            ctx.check(n == (1 if j in want else 0), "a setting for all dependents is missing where it applies, or present where it does not")
            ctx.check(_has(t.get("sub", {}).get("flags", []), "F%d" % j) == (1 if j in want else 0), "a nested setting is missing or misplaced")
        ctx.check(t["defines"][0] == "own" and len(t["defines"]) == len(want) + 1, "other settings changed")
        ctx.check(not any(kk in t for kk in KINDS), "the declaration itself is left")


def direct_dependents(ctx, k):
    e = graph(ctx, k)
    x = [[j for j in e[i] if i < k - 1 and _b(ctx.bool("x%d%d" % (i, j)))] for i in range(k)]
    names = _names(k, ctx.pick("order", [[0, 1, 2, 3, 4, 5], [5, 4, 3, 2, 1, 0]]))
    decl = [True] * k
    ts = {}
    for i in range(k):
        ts[names[i]] = {"target_name": "n", "type": "none", "dependencies": [names[j] for j in e[i]], "defines": ["own"], "export_dependent_settings": [names[j] for j in x[i]],
                        "direct_dependent_settings": {"defines": ["D%d" % i]}}
    _run(ctx, ts)
    ctx.observe(ts)
    for i in range(k):
        t = ts[names[i]]
        want = _imported(e, x, i)
        for j in range(k):
            ctx.check(_has(t["defines"], "D%d" % j) == (1 if j in want else 0), "a setting for direct dependents is missing where it applies, or present where it does not")
        ctx.check(t["defines"][0] == "own" and len(t["defines"]) == len(want) + 1, "other settings changed")
        ctx.check(t["dependencies"] == [names[j] for j in e[i]], "dependencies changed")


def link(ctx, k, types):
    e = graph(ctx, k)
    ty = [ctx.choice("t%d" % i, types) for i in range(k)]
    names = _names(k, [0, 1, 2, 3, 4, 5])
    ts = {}
    for i in range(k):
        ts[names[i]] = {"target_name": "n", "type": ty[i], "dependencies": [names[j] for j in e[i]], "link_settings": {"libraries": ["-lL%d" % i]}}
    _run(ctx, ts)
    for i in range(k):
        t = ts[names[i]]
        want = _linked(e, ty, i)
        for j in range(k):
            ctx.check(_has(t.get("libraries", []), "-lL%d" % j) == (1 if j in want else 0), "link settings are missing where they apply, or present where they do not")
        ctx.check("link_settings" not in t, "the declaration itself is left")


def link_flags(ctx):
    """dependencies_traverse and allow_sharedlib_linksettings_propagation, on a fixed-shape graph: t -> a, b; a -> b, c; b -> c"""
    e = [[], [0] if _b(ctx.bool("e10")) else [], [j for j in (0, 1) if _b(ctx.bool("e2%d" % j))], [j for j in (0, 1, 2) if _b(ctx.bool("e3%d" % j))]]
    ty = [ctx.choice("t0", ["static_library", "shared_library", "none"]), ctx.choice("t1", ["none", "static_library", "shared_library"]),
          ctx.choice("t2", ["none", "static_library"]), ctx.pick("t3", ["executable", "shared_library"])]
    trav = [None, ctx.pick("v1", [None, 0]), ctx.pick("v2", [None, 0]), None]
    allow = ctx.pick("allow", [None, 0])
    names = _names(4, [3, 2, 1, 0])
    ts = {}
    for i in range(4):
        ts[names[i]] = {"target_name": "n", "type": ty[i], "dependencies": [names[j] for j in e[i]], "link_settings": {"libraries": ["-lL%d" % i]}}
        if trav[i] is not None:
            ts[names[i]]["dependencies_traverse"] = trav[i]
    if allow is not None:
        ts[names[3]]["allow_sharedlib_linksettings_propagation"] = allow
    _run(ctx, ts)
    t = ts[names[3]]
    want = _linked(e, ty, 3, [i for i in (1, 2) if trav[i] == 0 and _b(ty[i] == "none")], allow == 0)
    ctx.observe(t.get("libraries", []))
    for j in range(4):
        if j == 3:
            if allow == 0 and ty[3] == "shared_library":
                continue
        ctx.check(_has(t.get("libraries", []), "-lL%d" % j) == (1 if j in want else 0), "link settings are missing where they apply, or present where they do not")


def nested(ctx, k):
    """link settings inside settings for dependents"""
    e = graph(ctx, k)
    ty = [ctx.pick("t%d" % i, ["static_library", "executable"]) for i in range(k)]
    kind = ctx.pick("kind", KINDS[:2])
    names = _names(k, [0, 1, 2, 3])
    ts = {}
    for i in range(k):
        ts[names[i]] = {"target_name": "n", "type": ty[i], "dependencies": [names[j] for j in e[i]]}
    ts[names[0]][kind] = {"link_settings": {"libraries": ["N"]}}
    _run(ctx, ts)
    ctx.observe(ts)
    carriers = [i for i in range(k) if 0 in (reach(e, i) if kind == KINDS[0] else e[i])]
    for i in range(k):
        want = any(j in carriers for j in _linked(e, ty, i))
        ctx.check(_has(ts[names[i]].get("libraries", []), "N") == (1 if want else 0), "link settings passed on to dependents do not reach exactly what links them")


def chained(ctx):
    """settings for dependents inside settings for all dependents"""
    e = graph(ctx, 3)
    names = _names(3, [1, 2, 0])
    ts = {names[i]: {"target_name": "n", "type": "none", "dependencies": [names[j] for j in e[i]]} for i in range(3)}
    ts[names[0]]["all_dependent_settings"] = {"direct_dependent_settings": {"defines": ["X"]}}
    _run(ctx, ts)
    ctx.observe(ts)
    for i in range(3):
        want = any(0 in reach(e, j) for j in e[i])
        ctx.check(_has(ts[names[i]].get("defines", []), "X") == (1 if want else 0), "settings passed on twice do not reach exactly the dependents")


def policies(ctx, n):
    """the declared settings follow the merge rules and are rebased between directories"""
    v = ctx.str("v", n, 1, alphabet="ab./-")
    pol = ctx.pick("pol", ["", "+", "=", "?"])
    key = ctx.pick("key", ["defines", "include_dirs"])
    kind = ctx.pick("kind", KINDS)
    have = ctx.pick("have", [None, ["own"]])
    same = ctx.pick("same", [True, False])
    a, b = "d/a.gyp:t#target", ("d/a.gyp" if same else "e/b.gyp") + ":u#target"
    ctx.patch(I, "path_sections", {"include_dirs"})
    ctx.patch("os", "getcwd", lambda: "/w/x")
    import posixpath
    ctx.patch("os.path", "realpath", lambda p, strict=False: posixpath.normpath(posixpath.join("/w/x", p)))
    decl = {key + pol: [v]}
    ts = {a: {"target_name": "t", "type": "executable", "dependencies": [b]}, b: {"target_name": "u", "type": "static_library", kind: decl}}
    if have:
        ts[a][key] = list(have)
    _run(ctx, ts)
    ctx.observe(ts)
    w = v
    if key == "include_dirs" and not same and not _b(v[:1] == "/") and not _b(v[:1] == "-"):
        w = "../e/" + v
        got = ts[a].get(key, [])
        if pol == "?" and have:
            ctx.check(got == have, "a default replaced a value")
            return
        item = got[0] if pol in ("+", "=") or not have else got[-1]
        ctx.check(_b(posixpath.normpath(item) == posixpath.normpath(w)), "a path is not rebased")
        ctx.check(_b(item.endswith("/")) == _b(v.endswith("/")), "a trailing slash is lost or added")
        ctx.check(len(got) == (1 if pol == "=" or not have else 2), "items lost")
        return
    if not have or pol == "=":
        want = [w]
    elif pol == "?":
        want = have
    else:
        want = [w] + have if pol == "+" else have + [w]
    k2 = key if key in ts[a] else key + pol
    ctx.check(len(ts[a][k2]) == len(want) and all(_b(x == y) for x, y in zip(ts[a][k2], want)), "the settings are not merged by the rules")


def load(ctx, k):
    """through the whole loading step: targets in two directories, all kinds at once"""
    e = graph(ctx, k)
    types = ["executable", "static_library", "none"]
    ty = [ctx.pick("t%d" % i, types[:2]) if i else "static_library" for i in range(k)]
    x = [[j for j in e[i] if i < k - 1 and _b(ctx.bool("x%d%d" % (i, j)))] for i in range(k)]
    rev = ctx.pick("rev", [False, True])
    fs = {"a.gyp": {"targets": []}, "d/b.gyp": {"targets": []}}
    names = []
    for i in range(k):
        file = ["a.gyp", "d/b.gyp"][i % 2]
        names.append("%s:t%d#target" % (file, i))
    rel = [["", "d/b.gyp:"], ["../a.gyp:", ""]]
    for i in range(k):
        dep = lambda j: rel[i % 2][j % 2] + "t%d" % j
        t = {"target_name": "t%d" % i, "type": ty[i], "defines": ["own"], "dependencies": [dep(j) for j in e[i]], "export_dependent_settings": [dep(j) for j in x[i]],
             "all_dependent_settings": {"defines": ["A%d" % i]}, "direct_dependent_settings": {"defines": ["D%d" % i], "include_dirs": ["i%d" % i]},
             "link_settings": {"ldflags": ["L%d" % i]}}
        l = fs[["a.gyp", "d/b.gyp"][i % 2]]["targets"]
        if rev:
            l.insert(0, t)
        else:
            l.append(t)
    flat, ts, data = hlib.gyp_load(ctx, fs, ["a.gyp", "d/b.gyp"], circular=False)
    ctx.observe(ts)
    for i in range(k):
        t = ts[names[i]]["configurations"]["Default"]
        for j in range(k):
            ctx.check(_has(t["defines"], "A%d" % j) == (1 if j in reach(e, i) else 0), "a setting for all dependents is missing where it applies, or present where it does not")
            d = 1 if j in _imported(e, x, i) else 0
            ctx.check(_has(t["defines"], "D%d" % j) == d, "a setting for direct dependents is missing where it applies, or present where it does not")
            path = [["", "d/"], ["../", ""]][i % 2][j % 2] + "i%d" % j
            ctx.check(_has(t.get("include_dirs", []), path) == d, "an include directory is missing, misplaced or not rebased")
            ctx.check(_has(t.get("ldflags", []), "L%d" % j) == (1 if j in _linked(e, ty, i) else 0), "link settings are missing where they apply, or present where they do not")
        ctx.check(not any(kk in t or kk in ts[names[i]] for kk in KINDS), "the declaration itself is left")


HARNESSES = [
    Harness(all_dependents, dict(k=4), dict(k=5), "all acyclic graphs of k targets, three name orders"),
    Harness(direct_dependents, dict(k=4), dict(k=5), "all acyclic graphs of k targets, all export lists, two name orders"),
    Harness(link, dict(k=4, types=["executable", "static_library", "shared_library", "none"]), dict(k=4, types=TYPES), "all acyclic graphs of k targets, all types, decided where compared"),
    Harness(link_flags, {}, {}, "all graphs of four targets without edges into the last, types, both flags"),
    Harness(nested, dict(k=3), dict(k=4), "all acyclic graphs of k targets, two types"),
    Harness(chained, {}, {}, "all acyclic graphs of three targets"),
    Harness(policies, dict(n=2), dict(n=3), "two targets, four policies, two keys, three kinds, symbolic item"),
    Harness(load, dict(k=3), dict(k=4), "all acyclic graphs of k targets in two directories, all export lists, two types"),
]
