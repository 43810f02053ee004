from symex.api import Harness
import hlib
from hlib import reach, cyclic, graph, perms

PROPERTY = "C13"
PRELOAD = ["gyp.input", "gyp.common", "gyp.simple_copy"]
ASSUMPTIONS = ["target names are distinct"]
I, C = "gyp.input", "gyp.common"


def _b(x):
    return bool(x)


def _names(ctx, k, alphabet):
    """k distinct names, in any alphabetical order"""
    ns = [ctx.str("n%d" % i, 1, 1, alphabet=alphabet) for i in range(k)]
    for i in range(k):
        for j in range(i):
            ctx.assume(ns[i] != ns[j])
    return ["f.gyp:" + n + "#target" for n in ns]


def _targets(names, edges, order):
    ts = {}
    for i in order:
        ts[names[i]] = {"target_name": "t%d" % i}
        if edges[i]:
            ts[names[i]]["dependencies"] = [names[j] for j in edges[i]]
    return ts


def _ordered(ctx, got, names, edges):
    k = len(names)
    ctx.check(len(got) == k, "a target is missing or listed twice")
    pos = []
    for n in names:
        at = [p for p, g in enumerate(got) if _b(g == n)]
        ctx.check(len(at) == 1, "a target is missing or listed twice")
        pos.append(at[0])
    for i in range(k):
        for j in edges[i]:
            ctx.check(pos[j] < pos[i], "a target comes before one it depends on")


def _order(ctx, names, edges, order):
    f = ctx.fn(I, "BuildDependencyList")
    bad = cyclic(edges)
    ts = _targets(names, edges, order)
    try:
        nodes, flat = f(ts)
    except Exception as e:
        ctx.check(bad, "refused without a cycle")
        ctx.check(type(e).__name__ == "CircularException", "wrong kind of error")
        return
    ctx.check(not bad, "a cycle is accepted")
    ctx.observe(flat)
    _ordered(ctx, flat, names, edges)
    for i in range(len(names)):
        n = nodes[names[i]]
        direct = n.DirectDependencies()
        ctx.check(len(direct) == len(edges[i]) and all(any(_b(d == names[j]) for d in direct) for j in edges[i]), "direct dependencies differ")
        deep = list(n.DeepDependencies())
        want = reach(edges, i)
        ctx.check(len(deep) == len(want) and all(any(_b(d == names[j]) for d in deep) for j in want), "indirect dependencies differ")


def order(ctx, k):
    """acyclic graphs in any listing order, any alphabetical order of names"""
    names = _names(ctx, k, "abcdef"[:k])
    p = ctx.pick("order", perms(k))
    _order(ctx, names, graph(ctx, k), p)


def any_graph(ctx, k, loops):
    """all graphs, with and without cycles, on fixed names"""
    names = ["f.gyp:%s#target" % "abcdef"[i] for i in range(k)]
    e = graph(ctx, k, True, loops)
    _order(ctx, names, e, ctx.pick("order", [list(range(k)), list(range(k - 1, -1, -1))]))


def repeated(ctx):
    """a dependency listed twice, and one that does not exist"""
    f = ctx.fn(I, "BuildDependencyList")
    n = ctx.str("n", 1, 1, alphabet="abc")
    d = ctx.pick("d", [["b", "b"], ["b", "c", "b"], [], None])
    ts = {"a": {}, "b": {"dependencies": ["c"]}, "c": {}}
    if d is not None:
        ts["a"]["dependencies"] = d
    extra = ctx.str("x", 1, alphabet="abcd")
    if _b(n == "a") and d is not None:
        ts["a"]["dependencies"] = d + [extra]
    else:
        ts[str(n)].setdefault("dependencies", []).append(extra)
    names = ["a", "b", "c"]
    bad = not any(_b(extra == x) for x in names)
    if not bad:
        e = [[i for i in range(3) if any(_b(x == names[i]) for x in ts[t].get("dependencies", []))] for t in names]
        bad = cyclic(e)
    try:
        nodes, flat = f(ts)
    except Exception as ex:
        ctx.check(bad and type(ex).__name__ in ("GypError", "CircularException"), "refused")
        return
    ctx.check(not bad, "a cycle or an unknown dependency is accepted")
    _ordered(ctx, flat, names, e)


def files(ctx, k, nf):
    """cycles between files"""
    f = ctx.fn(I, "VerifyNoGYPFileCircularDependencies")
    where = [0] + [ctx.pick("w%d" % i, list(range(min(i, nf - 1) + 1))) for i in range(1, k)]
    e = graph(ctx, k, True)
    fn = ctx.pick("fn", [["a.gyp", "b.gyp", "c.gyp"], ["b.gyp", "a/a.gyp", "a.gyp"]])[:nf]
    names = ["%s:t%d#target" % (fn[where[i]], i) for i in range(k)]
    ts = _targets(names, e, range(k))
    fe = [[] for _ in range(nf)]
    for i in range(k):
        for j in e[i]:
            if where[i] != where[j]:
                fe[where[i]].append(where[j])
    bad = cyclic(fe)
    try:
        f(ts)
    except Exception as ex:
        ctx.check(bad, "refused without a cycle")
        ctx.check(type(ex).__name__ == "CircularException", "wrong kind of error")
        return
    ctx.check(not bad, "a cycle between files is accepted")


def missing_file(ctx):
    f = ctx.fn(I, "VerifyNoGYPFileCircularDependencies")
    dep = ctx.pick("d", ["a.gyp:x#target", "c.gyp:y#target", "b.gyp:y#host"])
    try:
        f({"a.gyp:t#target": {"dependencies": [dep]}, "b.gyp:y#target": {}})
    except Exception as e:
        ctx.check("c.gyp" in dep and type(e).__name__ == "GypError", "refused")
        return
    ctx.check("c.gyp" not in dep, "an unknown file is accepted")


def toposort(ctx, k):
    f = ctx.fn(C, "TopologicallySorted")
    names = _names(ctx, k, "abcdef"[:k])
    e = graph(ctx, k, True, True) if k < 3 else graph(ctx, k, True)
    listed = ctx.pick("listed", ["all", "first"])
    calls = []

    def edges(n):
        calls.append(n)
        for i in range(k):
            if _b(n == names[i]):
                return tuple(names[j] for j in e[i])
    roots = range(k) if listed == "all" else [0]
    want = list(range(k)) if listed == "all" else sorted(set([0] + reach(e, 0)))
    bad = any(i in reach(e, i) for i in want)
    try:
        got = f([names[i] for i in roots], edges)
    except Exception as ex:
        ctx.check(bad and type(ex).__name__ == "CycleError", "refused")
        return
    ctx.check(not bad, "a cycle is accepted")
    ctx.observe(got)
    ctx.check(len(got) == len(want), "a node is missing or listed twice")
    pos = {}
    for i in want:
        at = [p for p, g in enumerate(got) if _b(g == names[i])]
        ctx.check(len(at) == 1, "a node is missing or listed twice")
        pos[i] = at[0]
    for i in want:
        for j in e[i]:
            ctx.check(pos[i] < pos[j], "a node comes after one it has an edge to")
    ctx.check(len(calls) == len(want), "edges are asked for more than once")


def find_cycles(ctx, k):
    """what is reported as a cycle is one, and one is reported if there is any"""
    N = ctx.fn(I, "DependencyGraphNode")
    e = graph(ctx, k, True, True)
    nodes = [N("n%d" % i) for i in range(k)]
    for i in range(k):
        for j in e[i]:
            nodes[i].dependencies.append(nodes[j])
            nodes[j].dependents.append(nodes[i])
    got = nodes[0].FindCycles()
    ctx.observe([[n.ref for n in c] for c in got])
    rev = [[i for i in range(k) if j in e[i]] for j in range(k)]
    near = sorted(set([0] + reach(rev, 0)))
    ctx.check((len(got) > 0) == any(i in reach(rev, i) for i in near), "a cycle is missed or invented")
    for c in got:
        ctx.check(len(c) > 1 and c[0] is c[-1], "what is reported is not a cycle")
        for a, b in zip(c, c[1:]):
            ctx.check(int(b.ref[1:]) in [j for j in e[int(a.ref[1:])]], "what is reported is not a cycle")


def load(ctx, k):
    """the whole loading step: order and refusal"""
    fs = {"a.gyp": {"targets": []}, "b.gyp": {"targets": []}}
    e = graph(ctx, k, True)
    names, where = [], []
    circ = ctx.pick("circular", [True, False])
    for i in range(k):
        w = "ab"[ctx.pick("w%d" % i, [0, 1])] if i else "a"
        where.append(w)
        names.append("%s.gyp:t%d#target" % (w, i))
    for i in range(k):
        t = {"target_name": "t%d" % i, "type": "none"}
        if e[i]:
            t["dependencies"] = [names[j][:-7] if where[j] != where[i] else "t%d" % j for j in e[i]]
        fs[where[i] + ".gyp"]["targets"].append(t)
    bad = cyclic(e)
    if circ:
        fe = [[], []]
        for i in range(k):
            fe["ab".index(where[i])] += ["ab".index(where[j]) for j in e[i] if where[j] != where[i]]
        bad = bad or cyclic(fe)
    try:
        flat, targets, data = hlib.gyp_load(ctx, fs, ["a.gyp", "b.gyp"], circular=circ)
    except Exception as ex:
        ctx.check(bad and type(ex).__name__ == "CircularException", "refused")
        return
    ctx.check(not bad, "a cycle is accepted")
    ctx.observe(flat)
    _ordered(ctx, flat, names, e)
    ctx.check(sorted(targets) == sorted(names), "targets differ")


HARNESSES = [
    Harness(order, dict(k=3), dict(k=4), "all acyclic graphs of k targets, all listing orders, symbolic names in any alphabetical order"),
    Harness(any_graph, dict(k=4, loops=False), dict(k=4, loops=True), "all graphs of k targets, cyclic ones included, two listing orders"),
    Harness(repeated, {}, {}, "symbolic additional dependency, repeated or unknown"),
    Harness(files, dict(k=3, nf=3), dict(k=4, nf=3), "all graphs of k targets spread over up to nf files in every way"),
    Harness(missing_file, {}, {}, "three dependencies"),
    Harness(toposort, dict(k=3), dict(k=4), "all graphs of k nodes, symbolic names, complete or single-root node lists"),
    Harness(find_cycles, dict(k=3), dict(k=4), "all graphs of k nodes with loops"),
    Harness(load, dict(k=3), dict(k=4), "all graphs of k targets in two files, through the whole loading step"),
]
