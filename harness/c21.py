import posixpath
import sys
import types

from symex.api import Harness
import hlib

PROPERTY = "C21"
PRELOAD = ["gyp.input", "gyp.common", "gyp.simple_copy"]
ASSUMPTIONS = ["multiprocessing.Pool and threading.Condition are stand-ins with the documented behaviour: arguments and results are copied, a worker that exits never answers, a callback runs in another thread as soon as the lock is free, "
               "waiting ends only when notified",
               "files are in-memory stand-ins; Python's own parser turns their text into syntax trees (it runs unmodified)",
               "a worker that is killed by the system from outside is out of scope, and so is preemption inside a critical section"]
I = "gyp.input"


def _b(x):
    return bool(x)


class Stuck(BaseException):
    """the run would never end"""


def cp(x):
    if isinstance(x, dict):
        return {cp(k): cp(v) for k, v in x.items()}
    if isinstance(x, list):
        return [cp(v) for v in x]
    if isinstance(x, tuple):
        return tuple(cp(v) for v in x)
    if isinstance(x, (set, frozenset)):
        return type(x)(cp(v) for v in x)
    return x


class World:
    """processes, lock and condition as the code sees them; which result arrives when is symbolic"""

    def __init__(self, ctx, spawn, workers, late):
        self.ctx, self.late = ctx, late
        self.mod = ctx.mod(I)
        self.init = self.state()
        self.spawn = spawn
        self.nworkers = workers
        self.pools, self.actor = [], "main"
        self.lost, self.step, self.conds = 0, 0, []
        self.tasks = []
        w = self
        ctx.patch("multiprocessing", "Pool", lambda *a, **k: Pool(w))
        ctx.patch("multiprocessing", "cpu_count", lambda: workers)
        ctx.patch("threading", "Condition", lambda *a, **k: Cond(w))
        ctx.patch("signal", "signal", lambda *a: None)
        ctx.patch("os", "chdir", lambda p: None)
        self.err = hlib.Sink()
        ctx.patch("sys", "stderr", self.err)

    def state(self):
        return {k: cp(v) for k, v in self.mod.__dict__.items() if not k.startswith("__") and not callable(v) and not isinstance(v, types.ModuleType)}

    def pick(self, tag, opts):
        self.step += 1
        return opts[0] if len(opts) == 1 else self.ctx.pick("%s%d" % (tag, self.step), opts)

    def stuck(self, why):
        raise Stuck(why)

    def free(self):
        return all(c.owner is None for c in self.conds)

    def arrive(self):
        """one outstanding task ends and its callback runs"""
        out = [t for p in self.pools for t in p.out]
        t = out[self.pick("next", list(range(len(out))))]
        t.pool.out.remove(t)
        t.run()

    def arrivals(self):
        """results that arrive while the main thread does not hold the lock"""
        while self.late and self.free() and any(p.out for p in self.pools) and self.pick("now", [False, True]):
            self.arrive()


class Task:
    def __init__(self, pool, func, args, kwds, callback, error_callback):
        self.pool, self.func, self.args, self.kwds = pool, func, cp(args), cp(kwds)
        self.callback, self.error_callback = callback, error_callback

    def run(self):
        w = self.pool.w
        k = w.pick("worker", list(range(w.nworkers)))
        mine = w.state()
        keep = {n: w.mod.__dict__[n] for n in mine}
        w.mod.__dict__.update(self.pool.states[k])
        e = None
        try:
            w.actor = "worker"
            r = cp(self.func(*self.args, **self.kwds))
        except (SystemExit, KeyboardInterrupt):
            r = Task
        except Exception as x:
            e = x
        finally:
            self.pool.states[k] = {n: w.mod.__dict__[n] for n in mine}
            w.mod.__dict__.update(keep)
            w.actor = "main"
        if e is None and r is Task:
            w.lost += 1
            return
        cb, v = (self.error_callback, e) if e is not None else (self.callback, r)
        if cb is None:
            return
        w.actor = "callback"
        try:
            cb(v)
        except Exception as x:
            w.stuck("the callback fails with " + type(x).__name__)
        finally:
            w.actor = "main"
        for c in w.conds:
            if c.owner == "callback":
                w.stuck("the callback keeps the lock")


class Pool:
    def __init__(self, w):
        self.w, self.out, self.closed = w, [], False
        w.pools.append(self)
        self.states = [cp(w.init) if w.spawn else w.state() for _ in range(w.nworkers)]

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        if self.closed:
            raise ValueError("Pool not running")
        self.out.append(Task(self, func, args, kwds, callback, error_callback))
        self.w.tasks.append(args)
        self.w.arrivals()

    def close(self):
        self.closed = True

    def terminate(self):
        self.closed = True
        self.out = []
        self.w.lost = 0

    def join(self):
        if not self.closed:
            raise ValueError("Pool is still running")
        while self.out:
            if not self.w.free():
                self.w.stuck("the lock is held while the pool is joined")
            self.w.arrive()
        if self.w.lost:
            self.w.stuck("a worker never answered")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


class Cond:
    def __init__(self, w):
        self.w, self.owner, self.n, self.notified = w, None, 0, False
        w.conds.append(self)

    def acquire(self, *a, **k):
        if self.w.actor == "main":
            self.w.arrivals()
        if self.owner not in (None, self.w.actor):
            self.w.stuck("the lock is never released")
        self.owner = self.w.actor
        self.n += 1
        return True

    def release(self):
        if self.owner != self.w.actor:
            raise RuntimeError("cannot release un-acquired lock")
        self.n -= 1
        if not self.n:
            self.owner = None
            if self.w.actor == "main":
                self.w.arrivals()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def wait(self, timeout=None):
        if self.owner != self.w.actor:
            raise RuntimeError("cannot wait on un-acquired lock")
        n, self.n, self.owner, self.notified = self.n, 0, None, False
        while not self.notified:
            if not any(p.out for p in self.w.pools):
                self.w.stuck("waiting for a result that never comes")
            self.w.arrive()
        self.w.arrivals()
        self.owner, self.n = self.w.actor, n
        return True

    def wait_for(self, predicate, timeout=None):
        while not predicate():
            self.wait()
        return True

    def notify(self, n=1):
        if self.owner != self.w.actor:
            raise RuntimeError("cannot notify on un-acquired lock")
        self.notified = True

    notify_all = notify


def _same(ctx, a, b):
    """conditions under which two loaded values are equal; False when they cannot be"""
    if isinstance(a, dict):
        if not isinstance(b, dict) or sorted(a) != sorted(b):
            return False
        return all(_same(ctx, a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(_same(ctx, x, y) for x, y in zip(a, b))
    return type(a) is type(b) and _b(a == b)


def both(ctx, files, roots, variables, includes, info, spawn=False, workers=1, late=True):
    """loads in sequence, then in parallel: ((flat, targets, data) or error name) twice, files opened by the parallel run"""
    opened = hlib.vfs(ctx, files)
    w = World(ctx, spawn, workers, late)
    load = ctx.fn(I, "Load")
    res = []
    for par in (False, True):
        del opened[:]
        try:
            res.append(tuple(load(list(roots), cp(variables), list(includes), ".", cp(info), False, False, par, None)))
        except SystemExit as e:
            res.append(("exit", e.code))
        except Stuck as e:
            res.append(("stuck", e.args[0]))
        except Exception as e:
            res.append(type(e).__name__)
    return res[0], res[1], opened, w


def judge(ctx, files, a, b, opened):
    ctx.check(b[0] != "stuck", "never ends: " + str(b[1])[:60])
    if isinstance(a, str) or len(a) == 2:
        ctx.check(isinstance(b, str) or len(b) == 2 and b[1] not in (None, 0), "a failure is not reported: " + str(b)[:60])
        return
    ctx.check(isinstance(b, tuple) and len(b) == 3, "refused: " + str(b)[:60])
    if not (isinstance(b, tuple) and len(b) == 3):
        return
    ctx.check(sorted(a[0]) == sorted(b[0]), "other targets are loaded")
    ctx.check(sorted(a[2]["target_build_files"]) == sorted(b[2]["target_build_files"]), "other files are loaded")
    ctx.observe(*[b[1][k] for k in sorted(b[1])])
    ctx.check(_same(ctx, a[1], b[1]), "the targets differ from those loaded in sequence")
    for f in a[2]["target_build_files"]:
        ctx.check(f in b[2] and _same(ctx, a[2][f], b[2][f]), "the data of a file differs from that loaded in sequence")
    gyps = [f for f in opened if f.endswith(".gyp")]
    ctx.check(len(gyps) == len(set(gyps)), "a file is loaded more than once")


def _f(i, deps, names, **more):
    here = posixpath.dirname(names[i])
    d = {"targets": [{"target_name": "t", "type": "none", "dependencies": [posixpath.relpath(names[j], here or ".") + ":u" for j in deps]},
                     {"target_name": "u", "type": "none", "defines": ["<(DEPTH)"]}]}
    d.update(more)
    return d


def graphs(ctx, k, late=True):
    """all dependency relations among files, cyclic ones included, in every completion order"""
    names = ["a.gyp", "p/b.gyp", "r/c.gyp", "s/d.gyp"][:k]
    roots = names[:1] + (names[1:2] if _b(ctx.bool("two")) else [])
    e = [[j for j in range(k) if (i != j or i == 0) and (k == 3 or i < j) and _b(ctx.bool("e%d%d" % (i, j)))] for i in range(k)]
    files = {names[i]: hlib.gyp_text(_f(i, e[i], names)) for i in range(k)}
    a, b, opened, w = both(ctx, files, roots, {"OS": "linux"}, [], dict(hlib.INFO, path_sections=[]), late=late)
    judge(ctx, files, a, b, opened)


def wide(ctx, k, late):
    """the same for acyclic relations of more files"""
    graphs(ctx, k, late)


def failing(ctx, k):
    """any of the files may be missing, malformed, wrong, or end the worker: the run ends with an error exactly if it does in sequence"""
    names = ["a.gyp", "p/b.gyp", "r/c.gyp"]
    e = [[[1], [2], []], [[1, 2], [], []], [[1], [2], [0]], [[1, 2], [2], [1]]][ctx.pick("shape", [0, 1, 2, 3])]
    roots = names[:1]
    kinds = [ctx.pick("k%d" % i, ["fine", "missing", "syntax", "undefined", "exits"] if i < k else ["fine", "undefined"]) for i in range(3)]
    bad = types.ModuleType("vsx_mod")
    bad.DoMain = lambda args: sys.exit(3)
    sys.modules["vsx_mod"] = bad
    files = {}
    for i in range(3):
        if kinds[i] == "missing":
            continue
        f = _f(i, e[i], names)
        if kinds[i] == "undefined":
            f["targets"][1]["defines"] = ["<(nowhere)"]
        elif kinds[i] == "exits":
            f["targets"][1]["defines"] = ["<!pymod_do_main(vsx_mod)"]
        files[names[i]] = "{'targets': [" if kinds[i] == "syntax" else hlib.gyp_text(f)
    a, b, opened, w = both(ctx, files, roots, {"OS": "linux"}, [], dict(hlib.INFO, path_sections=[]))
    judge(ctx, files, a, b, opened)


def contents(ctx, n):
    """variables, includes, toolsets and generator settings reach every worker, and no worker's files influence another's"""
    x = [ctx.str("x%d" % i, n, 1, alphabet="ab<") for i in range(2)]
    for s in x:
        ctx.assume(s.find("<") < 0 if ctx.native else ctx.Not(s.find("<") >= 0))
    multi = _b(ctx.bool("multi"))
    spawn = _b(ctx.bool("spawn"))
    skip = _b(ctx.bool("skip"))
    names = ["a.gyp", "p/b.gyp", "p/q/c.gyp"]
    shape = ctx.pick("shape", [[[1, 2], [], []], [[1], [2], []]])
    inc = {"target_defaults": {"defines": ["<(v)", "<(cmd)"], "my_paths": ["m.c"], "my_words": ["m.c"], "sources": ["s.c"]}, "variables": {"v": "w"}}
    files = {"inc/c.gypi": hlib.gyp_text(inc), "glob.gypi": hlib.gyp_text({"target_defaults": {"ldflags": ["-g"], "my_paths": ["g.c"]}})}
    for i in range(3):
        f = _f(i, shape[i], names)
        if i or not skip:
            f["includes"] = [posixpath.relpath("inc/c.gypi", posixpath.dirname(names[i]) or ".")]
        f["targets"][1].update({"defines": [x[i % 2], "<(DEPTH)"], "toolsets": ["host", "target"], "my_paths": ["o%d.c" % i], "conditions": [["_toolset=='host'", {"defines": ["H"]}], ["OS=='linux'", {"defines": ["L"]}]]})
        if i == 1:
            f["variables"] = {"v": "mine"}
        files[names[i]] = hlib.gyp_text(f)
    info = dict(hlib.INFO, path_sections=["my_paths"], non_configuration_keys=["my_words"], generator_supports_multiple_toolsets=multi)
    a, b, opened, w = both(ctx, files, names[:1], {"OS": "linux", "cmd": "c"}, ["glob.gypi"], info, spawn=spawn, workers=2, late=False)
    judge(ctx, files, a, b, opened)


def real(ctx):
    """the oracle's side: loading in sequence gives every file of the relation, so that equality is not vacuous"""
    names = ["a.gyp", "p/b.gyp", "r/c.gyp"]
    e = [[j for j in range(3) if i != j and _b(ctx.bool("e%d%d" % (i, j)))] for i in range(3)]
    files = {names[i]: hlib.gyp_text(_f(i, e[i], names)) for i in range(3)}
    a, b, opened, w = both(ctx, files, names[:1], {"OS": "linux"}, [], dict(hlib.INFO, path_sections=[]), late=False)
    seen, todo = set(), [0]
    while todo:
        i = todo.pop()
        if i not in seen:
            seen.add(i)
            todo += e[i]
    ctx.check(isinstance(b, tuple) and len(b) == 3 and sorted(b[2]["target_build_files"]) == sorted(names[i] for i in seen), "other files are loaded")
    ctx.check(sorted(opened) == sorted(names[i] for i in seen), "a file is loaded more than once")


HARNESSES = [
    Harness(graphs, dict(k=3), dict(k=3), "every dependency relation among three files, cyclic ones included, one or two roots, every completion order, results arriving at any moment"),
    Harness(wide, dict(k=4, late=False), dict(k=4, late=True), "every acyclic dependency relation among four files, every completion order"),
    Harness(failing, dict(k=3), dict(k=3), "four relations of three files, failing files of five kinds (the first k files; wrong or fine for the others), every completion order"),
    Harness(contents, dict(n=2), dict(n=3), "two workers, fresh or forked; every assignment of files to workers; symbolic settings, shared includes, toolsets on or off"),
    Harness(real, dict(), dict(), "every dependency relation among three files"),
]
