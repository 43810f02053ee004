from symex.api import Harness
import hlib

PROPERTY = "C39"
JS = True
PRELOAD = []
ASSUMPTIONS = [
    "option values do not start with a dash; the words true, false and null after an option are its value",
]
COMMANDS = ["build", "clean", "configure", "rebuild", "install", "list", "remove"]
ALIASES = {"ls": "list", "rm": "remove"}
LOW = "abcdefghijklmnopqrstuvwxyz"


def word(ctx, tag, lens):
    k = ctx.pick(tag + "w", ["cmd", "alias", "sym"])
    if k == "cmd":
        return ctx.choice(tag + "c", COMMANDS)
    if k == "alias":
        return ctx.choice(tag + "a", ["ls", "rm", "toString", "__proto__", "valueOf", "hasOwnProperty"])
    n = ctx.pick(tag + "n", lens)
    w = ctx.str(tag + "s", n, n, LOW)
    ctx.assume(w != "true")
    ctx.assume(w != "false")
    return w


def commands(words):
    """the command queue the words stand for"""
    todo = []
    for w in words:
        name = None
        for a in ALIASES:
            if w == a:
                w = ALIASES[a]
        for c in COMMANDS:
            if w == c:
                name = c
        if name is not None:
            todo.append([name, []])
        elif todo:
            todo[len(todo) - 1][1].append(w)
    return todo


def queue(ctx, n, lens):
    """words only"""
    words = [word(ctx, "w%d" % i, lens) for i in range(n)]
    r = ctx.js("argv.js", "parse", {"argv": ["node", "node-gyp"] + words, "env": []})
    ctx.observe(r["todo"], r["argv"])
    ctx.check(r["argv"] == words, "words of the command line are lost")
    ctx.check(r["todo"] == commands(words), "commands, order or arguments differ from the command line")
    ctx.check(r["opts"] == [], "options from nowhere")


STR = ["arch", "make", "jobs", "python", "msvs-version", "dist-url", "nodedir", "thin"]
BOOL = ["debug", "ensure", "force-process-config"]
SHORT = [["--release", "debug", False], ["--silly", "loglevel", "silly"], ["--verbose", "loglevel", "verbose"], ["--silent", "loglevel", "silent"]]


def put(opts, name, v, known):
    for o in opts:
        if o[0] == name:
            if known:
                o[1] = v
            elif type(o[1]) is list:
                o[1].append(v)
            else:
                o[1] = [o[1], v]
            return
    opts.append([name, v])


def value(ctx, tag, n):
    v = ctx.str(tag + "v", n, 0, "aF4 ./=-'\"$\\" if n < 2 else "aF4 =-\\")
    if len(v):
        ctx.assume(v[0] != "-")
    return v


def item(ctx, tag, n, argv, opts, words, last):
    """one element of a command line: appends its words to argv and what it stands for to opts"""
    k = ctx.pick(tag + "k", ["str", "strsp", "strnone", "bool", "boolval", "unknown", "unknowneq", "short", "C", "word", "dash"])
    if k in ("str", "strsp"):
        name = ctx.choice(tag + "o", STR)
        v = value(ctx, tag, n)
        argv += ["--" + name + "=" + v] if k == "str" else ["--" + name, v]
        put(opts, name, v.strip(), True)
    elif k == "strnone":
        name = ctx.choice(tag + "o", STR)
        argv += ["--" + name] + ([] if last else ["--ensure"])
        put(opts, name, "", True)
        if not last:
            put(opts, "ensure", True, True)
    elif k == "bool":
        name = ctx.choice(tag + "o", BOOL)
        no = ctx.pick(tag + "no", ["", "no-"])
        argv.append("--" + no + name)
        put(opts, name, no == "", True)
    elif k == "boolval":
        name = ctx.choice(tag + "o", BOOL)
        on = ctx.pick(tag + "on", ["true", "false"])
        argv += ["--" + name + "=" + on] if ctx.pick(tag + "eq", [True, False]) else ["--" + name, on]
        put(opts, name, on == "true", True)
    elif k == "unknown":
        name = ctx.choice(tag + "o", ["shared-x", "w"])
        no = ctx.pick(tag + "no", ["", "no-"])
        argv.append("--" + no + name)
        put(opts, name, no == "", False)
    elif k == "unknowneq":
        name = ctx.choice(tag + "o", ["shared-x", "w"])
        v = value(ctx, tag, n)
        argv.append("--" + name + "=" + v)
        put(opts, name, v.strip(), False)
    elif k == "short":
        s = ctx.pick(tag + "s", SHORT)
        argv.append(s[0])
        put(opts, s[1], s[2], True)
    elif k == "C":
        v = value(ctx, tag, n)
        s = ctx.pick(tag + "cj", ["-C", "-j"])
        argv += [s, v]
        put(opts, "directory" if s == "-C" else "jobs", v.strip(), True)
    elif k == "word":
        w = ctx.choice(tag + "c", ["build", "x", "ls"])
        argv.append(w)
        words.append(w)
    else:
        w = ctx.choice(tag + "c", ["--debug", "-f", "configure", "--", "--a=b"])
        argv += ["--", w]
        words.append(w)
        return True
    return False


def options(ctx, n, size, lens):
    """options among words"""
    argv, opts, words = [], [], []
    done = False
    for i in range(n):
        if done:
            w = ctx.choice("r%d" % i, ["-x", "build", "--no-ensure"])
            argv.append(w)
            words.append(w)
        else:
            done = item(ctx, "i%d" % i, size, argv, opts, words, i == n - 1)
    r = ctx.js("argv.js", "parse", {"argv": ["node", "node-gyp"] + argv, "env": []})
    ctx.observe(r["todo"], r["argv"])
    ctx.check(r["argv"] == words, "words of the command line are lost")
    ctx.check(r["todo"] == commands(words), "commands, order or arguments differ from the command line")
    ctx.check(r["opts"] == opts, "options differ from the command line")
    level = [o[1] for o in opts if o[0] == "loglevel"]
    ctx.check(r["level"] == (level[0] if level else "info"), "the log level differs from the command line")


def environment(ctx, n, size, lens):
    """npm_config_ variables"""
    argv, opts, words, env = [], [], [], []
    item(ctx, "i", 1, argv, opts, words, True)
    ctx.assume(argv[0] != "--")
    level = None
    for i in range(n):
        k = ctx.pick("e%d" % i, ["option", "any", "other", "loglevel", "empty"])
        v = ctx.str("v%d" % i, size, 0, "aF= ")
        if k == "option":
            name = ctx.pick("o%d" % i, ["arch", "msvs-version", "force-process-config", "shared-x"])
            key = "npm_config_" + name.replace("-", "_")
        elif k == "any":
            name = ctx.str("n%d" % i, 3, 1, "a_-C")
            key = "npm_config_" + name
            name = name.replace("_", "-")
        elif k == "other":
            name = None
            key = ctx.pick("x%d" % i, ["npm_confi_arch", "xnpm_config_arch", "NPM_CONFIG_arch", "PATH"])
        elif k == "loglevel":
            name = None
            level = v
            key = "npm_config_loglevel"
        else:
            name = None
            key = "npm_config_"
        ctx.assume(all(key != e[0] for e in env))
        env.append([key, v])
        if name is not None:
            put(opts, name, v, True)
    r = ctx.js("argv.js", "parse", {"argv": ["node", "node-gyp"] + argv, "env": env})
    ctx.observe(r["opts"], r["todo"])
    ctx.check(r["argv"] == words, "words of the command line are lost")
    ctx.check(r["todo"] == commands(words), "the environment changes the commands")
    ctx.check(r["opts"] == opts, "options differ from command line and environment")
    own = [o[1] for o in opts if o[0] == "loglevel"]
    ctx.check(r["level"] == (own[0] if own else level if level is not None else "info"), "the log level differs from what was given")


HARNESSES = [
    Harness(queue, dict(n=3, lens=[5]), dict(n=3, lens=[2, 4, 5, 7, 11]), bounds="3 words: commands, aliases, names of object methods, any other lower-case word of 5 (thorough: 2 to 11) letters"),
    Harness(options, dict(n=2, size=1, lens=[2]), dict(n=3, size=2, lens=[2, 5]), bounds="2 options (thorough 3) of every kind with values of up to 1 (2) characters", validate=4),
    Harness(environment, dict(n=1, size=2, lens=[2]), dict(n=2, size=1, lens=[2]), bounds="1 variable (thorough 2) with any name of up to 3 characters after npm_config_, values of up to 2 (1) characters, one option", validate=4),
]
