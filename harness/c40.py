from symex.api import Harness
import hlib

PROPERTY = "C40"
JS = True
PRELOAD = []
ASSUMPTIONS = [
    "the commands are models that end as told: with a result, with an error at once or later, with an exception outside of any promise, or never",
]
COMMANDS = ["build", "clean", "configure", "rebuild", "install", "list", "remove"]
OUT = ["done", "values", "one", "empty", "fail", "throw", "never", "crash"]


def expect(todo, outcomes):
    """what runs and how it ends: (commands started, exit status 0?)"""
    todo = [[x[0], x[1]] for x in todo]
    started, out = [], []
    k = 0
    while todo:
        name, args = todo.pop(0)
        if name == "rebuild":
            todo += [["clean", []], ["configure", args], ["build", []]]
            continue
        o = outcomes[k] if k < len(outcomes) else "done"
        k += 1
        started.append([name, args])
        if o in ("fail", "throw", "never", "crash"):
            return started, out, False
        if name == "list":
            if o == "values":
                out += [["out", "v1"], ["out", "v2"]]
            elif o == "one":
                out.append(["out", "v1"])
            else:
                out.append(None)
        elif o == "values":
            out.append(["out", "v2"])
        elif o == "one":
            out.append(["out"])
    return started, out, True


def run(ctx, n, m, outs):
    """any commands with any outcomes"""
    argv, todo = [], []
    for i in range(n):
        name = ctx.choice("c%d" % i, COMMANDS)
        todo.append([name, []])
        argv.append(name)
        if ctx.pick("args%d" % i, [False, True]):
            a = ctx.str("a%d" % i, 1, 1, "xyz")
            argv.append(a)
            todo[i][1].append(a)
    outcomes = [ctx.choice("o%d" % i, outs) for i in range(m)]
    r = ctx.js("main.js", "main", {"argv": ["node", "node-gyp"] + argv, "env": [], "home": "/h", "dir": "yes", "outcomes": outcomes})
    ctx.observe(r["trace"], r["exit"])
    started, out, ok = expect(todo, outcomes)
    ctx.check([[x[1], x[2]] for x in r["trace"] if x[0] == "start"] == started, "other commands are run than were asked for")
    ctx.check(all(x[3] == 0 for x in r["trace"] if x[0] == "start"), "a command starts before the one before it has ended")
    ctx.check((r["exit"] == 0) == ok, "the exit status does not tell whether all commands succeeded")
    ctx.check(([x for x in r["trace"] if x[0] == "ok"] == [["ok"]]) == ok, "ok is reported although a command failed")
    got = [x for x in r["trace"] if x[0] == "out"]
    ctx.check(len(got) == len(out) and all(w is None or g == w for g, w in zip(got, out)), "other output than the results")


def start(ctx, n, m, outs):
    """directories and the empty command line"""
    argv, env = ["node", "node-gyp"], []
    what = ctx.pick("what", ["none", "version", "v", "command", "word"])
    argv += {"none": [], "version": ["--version"], "v": ["-v"], "command": ["build"], "word": ["nothing"]}[what]
    dev = ctx.pick("dev", [None, "option", "env"])
    want = "/h/.cache/node-gyp"
    home = ctx.pick("home", ["/h", ""])
    if dev is not None:
        d = ctx.str("devdir", 3, 1, "~/d")
        if dev == "option":
            argv.append("--devdir=" + d)
        else:
            env.append(["npm_config_devdir", d])
        want = home + d[1:] if d[0] == "~" else d
    chdir = ctx.pick("chdir", [None, "-C", "--directory"])
    exists = "yes"
    if chdir is not None:
        exists = ctx.pick("dir", ["yes", "no", "missing", "denied"])
        argv += [chdir, "/w d"]
    r = ctx.js("main.js", "main", {"argv": argv, "env": env, "home": home, "dir": exists, "outcomes": []})
    ctx.observe([x[0] for x in r["trace"]], r["exit"])
    names = [x[0] for x in r["trace"]]
    if dev is None and home == "":
        ctx.check(r["exit"] not in (0, None) and "start" not in names, "work without a place for the development files")
        return
    ctx.check(r["exit"] == 0, "failure without a reason")
    if what == "command":
        starts = [x for x in r["trace"] if x[0] == "start"]
        ctx.check(len(starts) == 1 and starts[0][1] == "build" and starts[0][4] == want, "another development directory than the one asked for")
        ctx.check((names[0] == "chdir" and r["trace"][0][1] == "/w d") == (chdir is not None and exists == "yes"), "the command does not run in the directory asked for")
    else:
        ctx.check("start" not in names and "ok" not in names, "a command runs that was not asked for")
        ctx.check(names == ["out"], "no answer")


HARNESSES = [
    Harness(run, dict(n=2, m=2, outs=OUT), dict(n=3, m=4, outs=OUT), bounds="2 commands (thorough 3) with any arguments of one character, 8 outcomes for each of the first 2 (4) that run", validate=4),
    Harness(start, dict(n=0, m=0, outs=OUT), bounds="any --devdir of up to 3 characters from option or environment, home directory or none, -C to a directory, a file, nothing, or one without permission", validate=2),
]
