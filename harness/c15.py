from symex.api import Harness
import hlib
from hlib import reach, graph

PROPERTY = "C15"
PRELOAD = ["gyp.input", "gyp.common", "gyp.simple_copy"]
ASSUMPTIONS = ["the dependency graph is acyclic; exported dependencies are dependencies (both are checked by the loader, C12/C13)"]
I = "gyp.input"
LINKED = ["executable", "shared_library", "loadable_module", "mac_kernel_extension", "windows_driver"]
FINAL = ["executable", "loadable_module", "mac_kernel_extension", "windows_driver"]


def _b(x):
    return bool(x)


def _is(t, names):
    return any(_b(t == n) for n in names)


def _linked(edges, types, i, stop=()):
    """what is linked into target i"""
    out, todo = [], list(edges[i])
    while todo:
        j = todo.pop(0)
        if j in out or _is(types[j], FINAL):
            continue
        out.append(j)
        if not _b(types[j] == "shared_library") and j not in stop:
            todo += edges[j]
    return out


def _imported(edges, exports, i):
    out, todo = [], list(edges[i])
    while todo:
        j = todo.pop(0)
        if j not in out:
            out.append(j)
            todo += exports[j]
    return out


def _names(k, order):
    return ["f.gyp:%s#target" % "abcdef"[order[i]] for i in range(k)]


def _adjust(ctx, ts, sort):
    nodes, flat = ctx.fn(I, "BuildDependencyList")(ts)
    ctx.fn(I, "AdjustStaticLibraryDependencies")(flat, ts, nodes, sort)
    return flat


def _check(ctx, names, ts, e, x, ty, hard, sort, stop=()):
    k = len(names)
    for i in range(k):
        t = ts[names[i]]
        got = t.get("dependencies", [])
        orig = [names[j] for j in e[i]]
        ctx.check(len(set(got)) == len(got), "a dependency is listed twice")
        if _is(ty[i], LINKED):
            link = _linked(e, ty, i, stop)
            want = set(orig) | {names[j] for j in link}
            ctx.check(set(got) == want, "not exactly the libraries needed for linking and the target's own dependencies")
            if sort:
                pos = {n: p for p, n in enumerate(got)}
                for a in range(k):
                    for b in reach(e, a):
                        if names[a] in pos and names[b] in pos:
                            ctx.check(pos[names[a]] < pos[names[b]], "a library comes before one that uses it")
            else:
                ctx.check(got[:len(orig)] == orig, "the target's own dependencies are reordered")
        elif _b(ty[i] == "static_library"):
            if orig:
                ctx.check(t.get("dependencies_original") == orig, "the original dependencies are lost")
            want = set()
            for j in _imported(e, x, i):
                if _b(ty[j] == "static_library"):
                    if _b(hard[j]):
                        want.add(names[j])
                elif j in e[i]:
                    want.add(names[j])
            ctx.check(set(got) == want, "a static library's dependencies are not exactly those it needs to be built first")
            ctx.check("dependencies" not in t or got or not orig, "an empty list is left")
        else:
            ctx.check(got == orig, "another target's dependencies changed")


def adjust(ctx, k, types, hards):
    """all graphs, types decided where compared, both sort modes"""
    e = graph(ctx, k)
    ty = [ctx.choice("t%d" % i, types) for i in range(k)]
    hard = [ctx.bool("h%d" % i) if i < hards else False for i in range(k)]
    names = _names(k, [0, 1, 2, 3, 4])
    ts = {}
    for i in range(k):
        ts[names[i]] = {"target_name": "n", "type": ty[i]}
        if i < hards:
            ts[names[i]]["hard_dependency"] = hard[i]
        if e[i]:
            ts[names[i]]["dependencies"] = [names[j] for j in e[i]]
    _adjust(ctx, ts, False)
    ctx.observe([ts[n].get("dependencies") for n in names])
    _check(ctx, names, ts, e, [[] for _ in e], ty, hard, False)


def exported(ctx, k):
    """static libraries with hard dependencies passed on by export_dependent_settings"""
    e = graph(ctx, k)
    x = [[j for j in e[i] if i < k - 1 and _b(ctx.bool("x%d%d" % (i, j)))] for i in range(k)]
    hard = [ctx.bool("h%d" % i) for i in range(k)]
    ty = ["static_library"] * k
    odd = ctx.pick("odd", [None, 0, 1])
    if odd is not None:
        ty[odd] = "none"
    names = _names(k, [3, 1, 2, 0, 4])
    ts = {}
    for i in range(k):
        ts[names[i]] = {"target_name": "n", "type": ty[i], "hard_dependency": hard[i], "export_dependent_settings": [names[j] for j in x[i]]}
        if e[i]:
            ts[names[i]]["dependencies"] = [names[j] for j in e[i]]
    _adjust(ctx, ts, False)
    ctx.observe([ts[n].get("dependencies") for n in names])
    _check(ctx, names, ts, e, x, ty, hard, False)


def sorted_order(ctx, k):
    """generators that want sorted dependencies"""
    e = graph(ctx, k)
    ty = ["static_library"] * (k - 1) + [ctx.pick("top", ["executable", "shared_library", "loadable_module"])]
    mid = ctx.pick("mid", [None, 0, 1, k - 2])
    if mid is not None:
        ty[mid] = ctx.pick("midtype", ["shared_library", "none"])
    order = ctx.pick("order", [[0, 1, 2, 3, 4], [4, 3, 2, 1, 0], [2, 0, 4, 1, 3]])
    names = _names(k, order)
    ts = {}
    for i in ctx.pick("listing", [list(range(k)), list(range(k - 1, -1, -1))]):
        ts[names[i]] = {"target_name": "n", "type": ty[i]}
        if e[i]:
            ts[names[i]]["dependencies"] = [names[j] for j in e[i]]
    _adjust(ctx, ts, True)
    ctx.observe([ts[n].get("dependencies") for n in names])
    _check(ctx, names, ts, e, [[] for _ in e], ty, [False] * k, True)


def no_traverse(ctx, k):
    """none targets that ask not to be looked through"""
    e = graph(ctx, k)
    ty = ["static_library", "none", "none", "executable"] if k == 4 else ["none", "static_library", "none", "none", "executable"]
    tv = {i: ctx.pick("v%d" % i, [None, 0, 1]) for i in range(k) if ty[i] == "none" and i}
    names = _names(k, [0, 1, 2, 3, 4])
    ts = {}
    for i in range(k):
        ts[names[i]] = {"target_name": "n", "type": ty[i], "dependencies": [names[j] for j in e[i]]}
        if tv.get(i) is not None:
            ts[names[i]]["dependencies_traverse"] = tv[i]
    _adjust(ctx, ts, False)
    ctx.observe([ts[n].get("dependencies") for n in names])
    _check(ctx, names, ts, e, [[] for _ in e], ty, [False] * k, False, [i for i in tv if tv[i] == 0])


def shared_nodes(ctx):
    """the adjusted lists are not shared between targets"""
    e = graph(ctx, 3)
    names = _names(3, [0, 1, 2])
    ty = [ctx.pick("t%d" % i, ["static_library", "executable"]) for i in range(3)]
    ts = {names[i]: {"target_name": "n", "type": ty[i], "dependencies": [names[j] for j in e[i]], "hard_dependency": 1} for i in range(3)}
    _adjust(ctx, ts, ctx.pick("sort", [False, True]))
    for i in range(3):
        before = [list(ts[n].get("dependencies", [])) for n in names]
        if "dependencies" in ts[names[i]]:
            ts[names[i]]["dependencies"].append("X")
        for j in range(3):
            if j != i:
                ctx.check(ts[names[j]].get("dependencies", []) == before[j], "two targets share a list")
        if "dependencies_original" in ts[names[i]]:
            ctx.check("X" not in ts[names[i]]["dependencies_original"], "two lists of one target are shared")


def load(ctx, k):
    """through the whole loading step"""
    e = graph(ctx, k)
    ty = [ctx.pick("t%d" % i, ["static_library", "shared_library"]) for i in range(k - 1)] + ["executable"]
    sort = ctx.pick("sort", [False, True])
    adj = ctx.pick("adjust", [True, False]) if not sort else True
    fs = {"f.gyp": {"targets": []}}
    names = ["f.gyp:%s#target" % "abcdef"[i] for i in range(k)]
    for i in range(k):
        t = {"target_name": "abcdef"[i], "type": ty[i]}
        if e[i]:
            t["dependencies"] = ["abcdef"[j] for j in e[i]]
        fs["f.gyp"]["targets"].insert(0, t)
    flat, ts, data = hlib.gyp_load(ctx, fs, ["f.gyp"], info=dict(generator_wants_sorted_dependencies=sort, generator_wants_static_library_dependencies_adjusted=adj))
    ctx.observe([ts[n].get("dependencies") for n in names])
    if adj:
        _check(ctx, names, ts, e, [[] for _ in e], ty, [False] * k, sort)
    else:
        for i in range(k):
            ctx.check(ts[names[i]].get("dependencies", []) == [names[j] for j in e[i]], "dependencies changed although the generator wants none of it")


HARNESSES = [
    Harness(adjust, dict(k=4, types=["executable", "static_library", "shared_library", "none"], hards=0),
            dict(k=4, types=["executable", "static_library", "shared_library", "loadable_module", "none"], hards=2), "all acyclic graphs of k targets, all types"),
    Harness(exported, dict(k=3), dict(k=4), "all acyclic graphs of k static libraries, all export lists and hard dependencies"),
    Harness(sorted_order, dict(k=4), dict(k=5), "all acyclic graphs of k targets, one of another type, three name and two listing orders"),
    Harness(no_traverse, dict(k=4), dict(k=5), "all acyclic graphs of k targets with none targets that are or are not looked through"),
    Harness(shared_nodes, {}, {}, "all acyclic graphs of three targets"),
    Harness(load, dict(k=4), dict(k=5), "all acyclic graphs of k targets through the whole loading step"),
]
