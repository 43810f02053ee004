from symex.api import Harness
import hlib

PROPERTY = "C23"
PRELOAD = ["packaging.version", "packaging._structures", "gyp.input", "gyp.common"]
ASSUMPTIONS = ["versions are ASCII text", "local version segments are compared with and without numbers up to two parts"]
V = "packaging.version"


def _b(x):
    return bool(x)


def three(a, b):
    """-1, 0 or 1: lists of numbers, the shorter first when one is the start of the other"""
    for x, y in zip(a, b):
        if _b(x < y):
            return -1
        if _b(y < x):
            return 1
    return (len(a) > len(b)) - (len(a) < len(b))


def num(s):
    n = 0
    for c in s:
        n = n * 10 + (ord(c) - 48)
    return n


PHASE = {"a": 1, "alpha": 1, "b": 2, "beta": 2, "c": 3, "rc": 3, "pre": 3, "preview": 3}


class Ver:
    """a version made of parts; the order of PEP 440 computed from them"""

    def __init__(self, ctx, tag, epochs, rels, pres, posts, devs, locs, digits, alphabet="0123456789"):
        d = lambda k: ctx.str(tag + k, digits, 1, alphabet=alphabet)
        t = ""
        self.epoch = 0
        if ctx.pick(tag + "E", epochs):
            e = d("e")
            self.epoch = num(e)
            t += e + "!"
        self.rel = []
        for i in range(ctx.pick(tag + "R", rels)):
            r = d("r%d" % i)
            self.rel.append(num(r))
            t += ("." if i else "") + r
        self.pre = self.post = self.dev = self.loc = None
        p = ctx.pick(tag + "P", pres)
        if p is not None:
            sep, word, sep2, has = p
            t += sep + word + sep2
            n = 0
            if has:
                s = d("p")
                t += s
                n = num(s)
            self.pre = [PHASE[word.lower()], n]
        bare = p is not None and not p[3]
        p = ctx.pick(tag + "Q", posts)
        if p is not None and not (bare and not p[1]):
            sep, word, sep2, has = p
            t += sep + word + sep2
            n = 0
            if has:
                s = d("q")
                t += s
                n = num(s)
            self.post = n
        p = ctx.pick(tag + "D", devs)
        if p is not None:
            sep, word, sep2, has = p
            t += sep + word + sep2
            n = 0
            if has:
                s = d("d")
                t += s
                n = num(s)
            self.dev = n
        l = ctx.pick(tag + "L", locs)
        if l is not None:
            self.loc = []
            for i, (sep, kind) in enumerate(l):
                if kind == "n":
                    s = d("l%d" % i)
                    self.loc.append([1, num(s)])
                else:
                    s = ctx.str(tag + "l%d" % i, 1, 1, alphabet="abA") + "x"
                    self.loc.append([0] + [ord(c) for c in s.lower()])
                t += (sep if i else "+") + s
        self.text = t

    def key(self, n):
        rel = self.rel + [0] * (n - len(self.rel))
        if self.pre is not None:
            phase = self.pre
        elif self.post is None and self.dev is not None:
            phase = [0, 0]
        else:
            phase = [4, 0]
        post = [0, 0] if self.post is None else [1, self.post]
        dev = [1, 0] if self.dev is None else [0, self.dev]
        return [self.epoch] + rel + phase + post + dev

    def cmp(self, o):
        n = max(len(self.rel), len(o.rel))
        r = three(self.key(n), o.key(n))
        if r or (self.loc is None and o.loc is None):
            return r
        if self.loc is None or o.loc is None:
            return -1 if self.loc is None else 1
        for x, y in zip(self.loc, o.loc):
            r = three(x, y)
            if r:
                return r
        return (len(self.loc) > len(o.loc)) - (len(self.loc) < len(o.loc))


def judge(ctx, a, b, va, vb):
    r = a.cmp(b)
    got = [_b(va < vb), _b(va <= vb), _b(va == vb), _b(va != vb), _b(va >= vb), _b(va > vb)]
    want = [r < 0, r <= 0, r == 0, r != 0, r >= 0, r > 0]
    ctx.observe(*got)
    ctx.check(got == want, "the order differs from the standard")
    return r


def _version(ctx, text):
    try:
        return ctx.fn(V, "Version")(text)
    except ValueError:
        return None


CANON = dict(epochs=[False], rels=[1, 2], pres=[None, ("", "a", "", True), ("", "b", "", True), ("", "rc", "", True)], posts=[None, (".", "post", "", True)],
             devs=[None, (".", "dev", "", True)], locs=[None])


def order(ctx, digits, epochs, rels):
    """every combination of optional parts against every other, canonical spellings"""
    k = dict(CANON, epochs=epochs, rels=rels, digits=digits)
    a, b = Ver(ctx, "a", **k), Ver(ctx, "b", **k)
    va, vb = _version(ctx, a.text), _version(ctx, b.text)
    ctx.check(va is not None and vb is not None, "a version is refused")
    judge(ctx, a, b, va, vb)


def hashes(ctx, rels, deep):
    """equal versions hash equally, whatever their spelling"""
    k = dict(epochs=[False, True], rels=rels, pres=[None, ("-", "ALPHA", ".", True), ("", "c", "", False)], posts=[None, ("-", "", "", True)],
             devs=[None, ("", "dev", "", False)], locs=[None], digits=1, alphabet="01")
    a, b = Ver(ctx, "a", **k), Ver(ctx, "b", **dict(k, epochs=[False], rels=rels[-1:], pres=[None, (".", "a", "_", True)] + ([("", "rc", "", True)] if deep else []), posts=[None] + ([(".", "r", "", True)] if deep else []), devs=[None, (".", "dev", "", True)]))
    va, vb = _version(ctx, a.text), _version(ctx, b.text)
    ctx.check(va is not None and vb is not None, "a version is refused")
    r = judge(ctx, a, b, va, vb)
    if r == 0:
        ctx.check(hash(va) == hash(vb), "equal versions hash differently")
        ctx.check(len({va, vb}) == 1, "equal versions hash differently")
    else:
        ctx.check(len({va, vb}) == 2, "different versions are one")


PRES = [None] + [(s, w, s2, h) for s, w, s2, h in [
    ("", "a", "", True), (".", "alpha", "", True), ("-", "b", ".", True), ("_", "BETA", "-", True), ("", "c", "_", True), (".", "RC", "", False), ("-", "pre", "", True), ("", "preview", "", False), ("", "A", "", True)]]
POSTS = [None, (".", "post", "", True), ("", "post", "", False), ("-", "", "", True), ("_", "rev", ".", True), (".", "R", "", True), ("-", "r", "-", True)]
DEVS = [None, (".", "dev", "", True), ("", "DEV", "", False), ("-", "dev", "_", True)]


def spellings(ctx, digits):
    """every spelling of the optional parts means the same as the canonical one"""
    read(ctx, Ver(ctx, "a", [False], [1], PRES, POSTS, DEVS, [None], digits), "", "")


def edges(ctx, digits):
    """epochs, several release parts; surrounding white space and a leading v are ignored"""
    a = Ver(ctx, "a", [False, True], [1, 2, 3], PRES[:2], POSTS[:2], DEVS[:2], [None], digits)
    lead, trail = ctx.pick("around", [("", ""), ("v", ""), (" ", " \n"), ("\tV", " ")])
    read(ctx, a, lead, trail)


def read(ctx, a, lead, trail):
    t = lead + a.text + trail
    va = _version(ctx, t)
    ctx.check(va is not None, "a version is refused")
    v = va
    ctx.observe(v.epoch, v.release, v.pre, v.post, v.dev)
    ctx.check(ctx.And(v.epoch == a.epoch, len(v.release) == len(a.rel), *[x == y for x, y in zip(v.release, a.rel)]), "a part is misread")
    ctx.check((v.pre is None) == (a.pre is None) and (v.post is None) == (a.post is None) and (v.dev is None) == (a.dev is None) and v.local is None, "a part is misread")
    if a.pre:
        ctx.check(v.pre[0] == ["a", "b", "rc"][a.pre[0] - 1] and _b(v.pre[1] == a.pre[1]), "a part is misread")
    if a.post is not None:
        ctx.check(_b(v.post == a.post), "a part is misread")
    if a.dev is not None:
        ctx.check(_b(v.dev == a.dev), "a part is misread")
    ctx.check(v.is_prerelease == (a.pre is not None or a.dev is not None) and v.is_postrelease == (a.post is not None) and v.is_devrelease == (a.dev is not None), "a version is of another kind")
    ctx.check(_b(v.major == a.rel[0]) and (len(a.rel) < 3 or _b(v.minor == a.rel[1]) and _b(v.micro == a.rel[2])), "a part is misread")
    w = _version(ctx, str(v))
    ctx.check(w is not None and _b(w == v), "the normal form is another version")
    norm = ("" if _b(a.epoch == 0) else str(a.epoch) + "!") + ".".join([str(x) for x in a.rel])
    if a.pre:
        norm += ["a", "b", "rc"][a.pre[0] - 1] + str(a.pre[1])
    if a.post is not None:
        norm += ".post" + str(a.post)
    if a.dev is not None:
        norm += ".dev" + str(a.dev)
    ctx.check(_b(str(v) == norm), "the normal form is not the standard's")


LOCS = [None, (("", "n"),), (("", "w"),), (("", "n"), (".", "n")), (("", "w"), ("-", "n")), (("", "n"), ("_", "w")), (("", "w"), (".", "w"))]


def local(ctx, pres):
    """local segments order after the public version, words before numbers, shorter before longer"""
    k = dict(epochs=[False], rels=[1], pres=pres, posts=[None], devs=[None], locs=LOCS, digits=1)
    a, b = Ver(ctx, "a", **k), Ver(ctx, "b", **k)
    va, vb = _version(ctx, a.text), _version(ctx, b.text)
    ctx.check(va is not None and vb is not None, "a version is refused")
    judge(ctx, a, b, va, vb)
    if a.loc is not None:
        ctx.check(va.local is not None and _b(_version(ctx, str(va)) == va), "the normal form is another version")
        ctx.check("+" not in va.public, "the public version keeps the local part")


def grammar(ctx, n, alphabet):
    """text that is not a version is refused; text that is one is read"""
    t = ctx.str("t", n, 0, alphabet=alphabet)
    want = parse(t)
    v = _version(ctx, t)
    ctx.check((v is not None) == (want is not None), "text that is not a version is accepted" if want is None else "a version is refused")
    if want is not None:
        e, rel, pre, post, dev, loc = want
        ctx.observe(v.epoch, v.release, v.pre, v.post, v.dev)
        ctx.check(ctx.And(v.epoch == e, len(v.release) == len(rel), *[x == y for x, y in zip(v.release, rel)]), "a part is misread")
        ctx.check((v.pre is None) == (pre is None) and (pre is None or (v.pre[0] == pre[0] and _b(v.pre[1] == pre[1]))), "a part is misread")
        ctx.check((v.post is None) == (post is None) and (post is None or _b(v.post == post)), "a part is misread")
        ctx.check((v.dev is None) == (dev is None) and (dev is None or _b(v.dev == dev)), "a part is misread")
        ctx.check((v.local is None) == (loc is None), "a part is misread")


def parse(t):
    """PEP 440's grammar, read left to right; None when the text is no version.  Letters: a b c r e v d o p s t only"""
    i, n = 0, len(t)
    while i < n and t[i] in " \t\n":
        i += 1
    while n > i and t[n - 1] in " \t\n":
        n -= 1

    def digits(i):
        j = i
        while j < n and "0" <= t[j] <= "9":
            j += 1
        return j

    def sep(i):
        return i + 1 if i < n and t[i] in "-_." else i

    def word(i, ws):
        for w in ws:
            if i + len(w) <= n and all(t[i + k] == w[k] or t[i + k] == w[k].upper() for k in range(len(w))):
                return i + len(w), w
        return i, None

    def tail(i):
        """an optional separator and number"""
        j = sep(i)
        k = digits(j)
        if k > j:
            return k, num(t[j:k])
        return j, 0     # the standard's expression lets a separator stand without a number
    if i < n and t[i] in "vV":
        i += 1
    e = 0
    j = digits(i)
    if j == i:
        return None
    if j < n and t[j] == "!":
        e = num(t[i:j])
        i = j + 1
        j = digits(i)
        if j == i:
            return None
    rel = [num(t[i:j])]
    i = j
    while i < n and t[i] == "." and digits(i + 1) > i + 1:
        j = digits(i + 1)
        rel.append(num(t[i + 1:j]))
        i = j

    def part(i, ws):
        j, w = word(sep(i), ws)
        if w is None:
            return i, None, None
        k, v = tail(j)
        return k, w, v
    pre = post = dev = loc = None
    i, w, v = part(i, ["alpha", "a", "beta", "b", "preview", "pre", "c", "rc"])
    if w is not None:
        pre = (["a", "b", "rc"][PHASE[w] - 1], v)
    if i + 1 < n and t[i] == "-" and digits(i + 1) > i + 1:
        j = digits(i + 1)
        post = num(t[i + 1:j])
        i = j
    else:
        i, w, v = part(i, ["post", "rev", "r"])
        if w is not None:
            post = v
    i, w, v = part(i, ["dev"])
    if w is not None:
        dev = v
    if i < n and t[i] == "+":
        loc = True
        last = True
        for c in t[i + 1:n]:
            s = c in "-_."
            if not s and not ("0" <= c <= "9" or "a" <= c <= "z" or "A" <= c <= "Z"):
                return None
            if s and last:
                return None
            last = s
        if last:
            return None
        i = n
    return (e, rel, pre, post, dev, loc) if i == n else None


def transitive(ctx, digits):
    """three versions: the order is total, antisymmetric and transitive"""
    k = dict(CANON, rels=[1], pres=[None, ("", "a", "", False)], posts=[None, (".", "post", "", False)], devs=[None, (".", "dev", "", False)], digits=digits)
    vs = [_version(ctx, Ver(ctx, "abc"[i], **k).text) for i in range(3)]
    lt = [[_b(vs[i] < vs[j]) for j in range(3)] for i in range(3)]
    eq = [[_b(vs[i] == vs[j]) for j in range(3)] for i in range(3)]
    ctx.observe(lt, eq)
    for i in range(3):
        ctx.check(eq[i][i] and not lt[i][i], "a version differs from itself")
        for j in range(3):
            ctx.check(lt[i][j] + lt[j][i] + eq[i][j] == 1 and eq[i][j] == eq[j][i], "two versions are not ordered")
            for m in range(3):
                ctx.check(not (lt[i][j] and lt[j][m]) or lt[i][m], "the order is not transitive")


def condition(ctx, digits):
    """a comparison of versions in a build file's condition selects by that order"""
    op = ctx.pick("op", ["<", "<=", "==", "!=", ">=", ">"])
    k = dict(epochs=[False], rels=[1, 2], pres=[None, ("", "rc", "", True)], posts=[None], devs=[None], locs=[None], digits=digits, alphabet="019")
    a, b = Ver(ctx, "a", **k), Ver(ctx, "b", **dict(k, rels=[2], pres=[None]))
    where = ctx.pick("where", ["literal", "variable"])
    if where == "literal":
        cond = "v('" + a.text + "') " + op + " v('" + b.text + "')"
        vs = {}
    else:
        cond = "v(x) " + op + " v('" + b.text + "')"
        vs = {"x": a.text}
    got = ctx.fn("gyp.input", "EvalSingleCondition")(cond, {"r": "then"}, {"r": "else"}, ctx.fn("gyp.input", "PHASE_EARLY"), vs, "a.gyp")
    r = a.cmp(b)
    want = {"<": r < 0, "<=": r <= 0, "==": r == 0, "!=": r != 0, ">=": r >= 0, ">": r > 0}[op]
    ctx.observe(got)
    ctx.check(got["r"] == ("then" if want else "else"), "a condition selects the wrong branch")


HARNESSES = [
    Harness(order, dict(digits=1, epochs=[False], rels=[1, 2]), dict(digits=2, epochs=[False, True], rels=[1, 2]), "all combinations of optional parts of two versions, symbolic numbers"),
    Harness(hashes, dict(rels=[1, 2], deep=False), dict(rels=[1, 2, 3], deep=True), "numbers 0 and 1, several spellings"),
    Harness(spellings, dict(digits=1), dict(digits=2), "all listed spellings of the parts, symbolic numbers"),
    Harness(edges, dict(digits=1), dict(digits=2), "epochs, one to three release parts, text around the version"),
    Harness(local, dict(pres=[None]), dict(pres=[None, ("", "a", "", True)]), "local segments of up to two parts"),
    Harness(grammar, dict(n=5, alphabet="01._-ar!+v"), dict(n=6, alphabet="019.-_arcp!+v "), "every text up to n characters of the alphabet"),
    Harness(transitive, dict(digits=1), dict(digits=1), "three versions"),
    Harness(condition, dict(digits=1), dict(digits=2), "both operands in a condition, as text or through a variable"),
]
