from symex.api import Harness
import hlib

PROPERTY = "C05"
PRELOAD = ["gyp.easy_xml", "gyp.common"]
ASSUMPTIONS = [
    "XML 1.0 reading rules: references, attribute-value and line-end normalisation",
    "characters XML cannot represent at all (control characters, U+FFFE/FFFF, surrogates) are excluded",
    "elements hold either text or elements (mixed content is not used by any caller); white space between elements is not significant",
]
X = "gyp.easy_xml"
CHARS = [(9, 10), (13, 13), (32, 0xD7FF), (0xE002, 0xFFFD), (0x10000, 0x10FFFF)]


def _get(ctx, text):
    try:
        return hlib.xml_parse(text)
    except hlib.Bad as e:
        ctx.check(False, "not well formed: %s" % e)


def _same(ctx, got, want, path=""):
    tag, attrs, kids = got
    ctx.check(tag == want[0], "other tag")
    wa = want[1] if len(want) > 1 and isinstance(want[1], dict) else {}
    wk = [x for x in want[1:] if not isinstance(x, dict)]
    ctx.check(len(attrs) == len(wa), "attributes lost or added")
    for k, v in wa.items():
        ctx.check(k in attrs, "attribute lost")
        ctx.check(attrs[k] == v, "attribute value differs")
    if wk and all(isinstance(x, str) for x in wk):
        ctx.check(all(isinstance(x, str) for x in kids), "text became an element")
        ctx.check("".join(kids) == "".join(wk), "text differs")
        return
    elems = [k for k in kids if not isinstance(k, str)]
    for k in kids:
        if isinstance(k, str):
            for c in k:
                ctx.check(c in " \n\t\r", "text added")
    ctx.check(len(elems) == len(wk), "children lost or added")
    for g, w in zip(elems, wk):
        _same(ctx, g, w)


def values(ctx, n):
    """any text in an attribute and in a text node"""
    f = ctx.fn(X, "XmlToString")
    pretty = ctx.pick("pretty", [False, True])
    a = ctx.str("a", n, alphabet=CHARS)
    t = ctx.str("t", n, alphabet=CHARS)
    tree = ["root", {"A": a, "B": "x"}, ["k", t], ["k2", {"C": "1"}]]
    if t == "":
        tree[2] = ["k"]
    text = f(tree, pretty=pretty)
    ctx.observe(text)
    _same(ctx, _get(ctx, text), tree)


def attribute(ctx, n):
    f = ctx.fn(X, "XmlToString")
    a = ctx.str("a", n, alphabet=CHARS)
    text = f(["r", {"A": a}])
    ctx.observe(text)
    _same(ctx, _get(ctx, text), ["r", {"A": a}])


def text_node(ctx, n):
    f = ctx.fn(X, "XmlToString")
    pretty = ctx.pick("pretty", [False, True])
    a = ctx.str("a", n, minlen=1, alphabet=CHARS)
    b = ctx.str("b", 1, alphabet="a<&>")
    tree = ["r", ["e", a, b]]
    text = f(tree, pretty=pretty)
    ctx.observe(text)
    _same(ctx, _get(ctx, text), tree)


def trees(ctx, depth, width):
    """all small trees, both modes"""
    f = ctx.fn(X, "XmlToString")
    pretty = ctx.pick("pretty", [False, True])
    cnt = [0]

    def gen(d):
        i = cnt[0] = cnt[0] + 1
        node = [["ItemGroup", "a.b", "c"][i % 3]]
        if bool(ctx.bool("attr%d" % i)):
            node.append({"Z": "z<", "A": "1"})
        if d == 0:
            k = ctx.pick("leaf%d" % i, ["", "txt&", "two"])
            if k:
                node.append(k)
            if k == "two":
                node.append(" more")
        else:
            for _ in range(ctx.pick("kids%d" % i, list(range(width + 1)))):
                node.append(gen(d - 1))
        return node
    tree = gen(depth)
    text = f(tree, pretty=pretty)
    ctx.observe(text)
    _same(ctx, _get(ctx, text), tree)


def chain(ctx, depth):
    """deep nesting with a leaf next to every nested element"""
    f = ctx.fn(X, "XmlToString")
    pretty = ctx.pick("pretty", [False, True])
    d = ctx.pick("depth", list(range(1, depth + 1)))
    where = ctx.pick("where", ["before", "after"])
    t = ctx.str("t", 1, minlen=1, alphabet="a<&")
    node = ["leaf", t]
    for i in range(d):
        leaf = ["l%d" % i, {"A": t}]
        node = ["n%d" % i, leaf, node] if where == "before" else ["n%d" % i, node, leaf]
    text = f(node, pretty=pretty)
    ctx.observe(text)
    _same(ctx, _get(ctx, text), node)


def declaration(ctx):
    f = ctx.fn(X, "XmlToString")
    enc = ctx.choice("enc", ["utf-8", "Windows-1252"])
    text = f(["r"], encoding=enc, pretty=bool(ctx.bool("pretty")))
    ctx.observe(text)
    ctx.check(text.startswith('<?xml version="1.0" encoding="' + enc + '"?>'), "declaration differs")
    _same(ctx, _get(ctx, text), ["r"])


HARNESSES = [
    Harness(values, dict(n=2), dict(n=3), "attribute and text each any representable Unicode up to n characters, both modes"),
    Harness(attribute, dict(n=3), dict(n=6), "attribute: any representable Unicode up to n characters"),
    Harness(text_node, dict(n=3), dict(n=5), "text in two pieces"),
    Harness(trees, dict(depth=1, width=2), dict(depth=2, width=1), "all trees of the given depth and children per node, optional attributes, both modes"),
    Harness(chain, dict(depth=4), dict(depth=8), "chains of elements with one leaf each, both modes"),
    Harness(declaration, {}, {}, "two encodings, both modes"),
]
