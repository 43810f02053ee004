from symex.api import Harness
import hlib

PROPERTY = "C01"
PRELOAD = ["gyp.common", "gyp.generator.make", "gyp.generator.ninja"]
ASSUMPTIONS = [
    "shell model: POSIX XCU 2.2 quoting and 2.6.5 splitting with default IFS, no aliases, non-interactive",
    "NUL and surrogate code points cannot occur in arguments",
]


def _words(ctx, out, dollar):
    try:
        return hlib.posix_split(out, dollar)
    except hlib.Bad as e:
        ctx.check(False, "the shell would not read it literally: %s" % e)


def posix_argument(ctx, n):
    """the general encoder: one shell word equal to the argument"""
    f = ctx.fn("gyp.common", "EncodePOSIXShellArgument")
    s = ctx.str("s", n)
    out = f(s)
    ctx.observe(out)
    words = _words(ctx, out, True)
    ctx.check(len(words) == 1, "not exactly one word")
    ctx.check(words[0] == s, "word differs from the argument")


def posix_list(ctx, n, k):
    f = ctx.fn("gyp.common", "EncodePOSIXShellList")
    args = [ctx.str("a%d" % i, n) for i in range(k)]
    out = f(args)
    ctx.observe(out)
    words = _words(ctx, out, True)
    ctx.check(len(words) == k, "number of words changed")
    ctx.check(ctx.And(*[a == b for a, b in zip(words, args)]), "words differ from the arguments")


def make_argument(ctx, n):
    f = ctx.fn("gyp.generator.make", "EscapeShellArgument")
    s = ctx.str("s", n)
    out = f(s)
    ctx.observe(out)
    words = _words(ctx, out, False)
    ctx.check(len(words) == 1, "not exactly one word")
    ctx.check(words[0] == s, "word differs from the argument")


def ninja_argument(ctx, n):
    f = ctx.fn("gyp.generator.ninja", "QuoteShellArgument")
    flavor = ctx.choice("flavor", ["linux", "mac", "freebsd"])
    s = ctx.str("s", n)
    out = f(s, flavor)
    ctx.observe(out)
    words = _words(ctx, out, False)
    ctx.check(len(words) == 1, "not exactly one word")
    ctx.check(words[0] == s, "word differs from the argument")


HARNESSES = [
    Harness(posix_argument, dict(n=4), dict(n=6), "every string of up to n Unicode characters"),
    Harness(posix_list, dict(n=2, k=2), dict(n=2, k=3), "k arguments, each any string of up to n Unicode characters"),
    Harness(make_argument, dict(n=6), dict(n=9), "every string of up to n Unicode characters"),
    Harness(ninja_argument, dict(n=4), dict(n=6), "every string of up to n Unicode characters, three POSIX flavors"),
]
