"""Backtracking regular-expression matcher over SymStr, from CPython's own parse tree."""
import re
import re._parser as sre_parse
import re._constants as K
from .core import S
from .values import (SymStr, SymChoice, char_eq, char_in, chars_of, pred_ranges, And, Or, Not, is_sym,
                     ranges_of)

mk = SymStr.mk

_WORD = None


def _cat_ranges(cat, flags):
    name = str(cat)
    asc = flags & re.ASCII
    if "DIGIT" in name:
        return [(48, 57)] if asc else pred_ranges("isdecimal")
    if "SPACE" in name:
        return [(9, 13), (32, 32)] if asc else pred_ranges("isspace")
    if "WORD" in name:
        if asc:
            return [(48, 57), (65, 90), (95, 95), (97, 122)]
        global _WORD
        if _WORD is None:
            _WORD = ranges_of("".join(chr(i) for i in range(0x2500) if chr(i).isalnum() or i == 95))
        return _WORD
    raise NotImplementedError(name)


def _fold(c):
    """other-case variants of a concrete code point"""
    ch = chr(c)
    return {c, *(ord(x) for x in (ch.lower(), ch.upper()) if len(x) == 1)}


class Prog:
    def __init__(self, pattern, flags=0):
        self.pattern = pattern
        self.tree = sre_parse.parse(pattern, flags)
        self.flags = self.tree.state.flags
        self.ngroups = self.tree.state.groups
        self.groupindex = dict(self.tree.state.groupdict)

    # matching: generators of (pos, groups)
    def m_seq(self, items, k, c, pos, groups):
        if k == len(items):
            yield pos, groups
            return
        op, av = items[k]
        if op is K.LITERAL or op is K.NOT_LITERAL or op is K.ANY or op is K.IN:
            if pos < len(c) and bool(self.one(op, av, c[pos])):
                yield from self.m_seq(items, k + 1, c, pos + 1, groups)
            return
        if op is K.AT:
            if self.at(av, c, pos):
                yield from self.m_seq(items, k + 1, c, pos, groups)
            return
        if op is K.SUBPATTERN:
            g, add, dele, sub = av
            for p2, g2 in self.m_seq(list(sub), 0, c, pos, groups):
                if g is not None:
                    g2 = dict(g2)
                    g2[g] = (pos, p2)
                    g2["last"] = g
                yield from self.m_seq(items, k + 1, c, p2, g2)
            return
        if op is K.BRANCH:
            for alt in av[1]:
                for p2, g2 in self.m_seq(list(alt), 0, c, pos, groups):
                    yield from self.m_seq(items, k + 1, c, p2, g2)
            return
        if op in (K.MAX_REPEAT, K.MIN_REPEAT, K.POSSESSIVE_REPEAT):
            lo, hi, sub = av
            sub = list(sub)
            if op is K.POSSESSIVE_REPEAT:
                for p2, g2 in self.rep(sub, lo, hi, c, pos, groups, 0, True):
                    yield from self.m_seq(items, k + 1, c, p2, g2)
                    return
                return
            for p2, g2 in self.rep(sub, lo, hi, c, pos, groups, 0, op is K.MAX_REPEAT):
                yield from self.m_seq(items, k + 1, c, p2, g2)
            return
        if op is K.ATOMIC_GROUP:
            for p2, g2 in self.m_seq(list(av), 0, c, pos, groups):
                yield from self.m_seq(items, k + 1, c, p2, g2)
                return
            return
        if op in (K.ASSERT, K.ASSERT_NOT):
            d, sub = av
            sub = list(sub)
            found = None
            if d >= 0:
                for r in self.m_seq(sub, 0, c, pos, groups):
                    found = r
                    break
            else:
                lo, hi = sre_parse.SubPattern(self.tree.state, sub).getwidth()
                if pos - lo >= 0:
                    for r in self.m_seq(sub, 0, c, pos - lo, groups):
                        if r[0] == pos:
                            found = r
                            break
            if (found is not None) == (op is K.ASSERT):
                yield from self.m_seq(items, k + 1, c, pos, found[1] if found and op is K.ASSERT else groups)
            return
        if op is K.GROUPREF:
            sp = groups.get(av)
            if sp is None:
                return
            sub = c[sp[0]:sp[1]]
            if pos + len(sub) <= len(c) and bool(And(*[char_eq(a, b) for a, b in zip(sub, c[pos:pos + len(sub)])])):
                yield from self.m_seq(items, k + 1, c, pos + len(sub), groups)
            return
        if op is K.GROUPREF_EXISTS:
            g, yes, no = av
            sub = yes if groups.get(g) is not None else (no or [])
            for p2, g2 in self.m_seq(list(sub), 0, c, pos, groups):
                yield from self.m_seq(items, k + 1, c, p2, g2)
            return
        raise NotImplementedError("regex op %s" % op)

    def rep(self, sub, lo, hi, c, pos, groups, n, greedy):
        if n < lo:
            for p2, g2 in self.m_seq(sub, 0, c, pos, groups):
                yield from self.rep(sub, lo, hi, c, p2, g2, n + 1, greedy)
            return
        more = hi is K.MAXREPEAT or n < hi
        if greedy:
            if more:
                for p2, g2 in self.m_seq(sub, 0, c, pos, groups):
                    if p2 == pos:
                        continue
                    yield from self.rep(sub, lo, hi, c, p2, g2, n + 1, greedy)
            yield pos, groups
        else:
            yield pos, groups
            if more:
                for p2, g2 in self.m_seq(sub, 0, c, pos, groups):
                    if p2 == pos:
                        continue
                    yield from self.rep(sub, lo, hi, c, p2, g2, n + 1, greedy)

    def one(self, op, av, ch):
        ic = self.flags & re.IGNORECASE
        if op is K.ANY:
            if self.flags & re.DOTALL:
                return True
            return Not(char_eq(ch, 10))
        if op is K.LITERAL or op is K.NOT_LITERAL:
            r = Or(*[char_eq(ch, v) for v in (_fold(av) if ic else (av,))])
            return r if op is K.LITERAL else Not(r)
        neg = False
        ors = []
        for o, a in av:
            if o is K.NEGATE:
                neg = True
            elif o is K.LITERAL:
                ors.extend(char_eq(ch, v) for v in (_fold(a) if ic else (a,)))
            elif o is K.RANGE:
                ors.append(char_in(ch, [a]))
                if ic:
                    vs = set()
                    for x in range(a[0], min(a[1], 0x2500) + 1):
                        vs |= _fold(x)
                    ors.append(char_in(ch, ranges_of("".join(map(chr, vs)))))
            elif o is K.CATEGORY:
                r = char_in(ch, _cat_ranges(a, self.flags))
                ors.append(Not(r) if "NOT" in str(a) else r)
            else:
                raise NotImplementedError(o)
        r = Or(*ors)
        return Not(r) if neg else r

    def at(self, av, c, pos):
        n = str(av)
        if n in ("AT_BEGINNING", "AT_BEGINNING_STRING"):
            if n == "AT_BEGINNING" and self.flags & re.MULTILINE:
                return pos == 0 or bool(char_eq(c[pos - 1], 10))
            return pos == 0
        if n == "AT_END":
            if pos == len(c):
                return True
            if self.flags & re.MULTILINE:
                return bool(char_eq(c[pos], 10))
            return pos == len(c) - 1 and bool(char_eq(c[pos], 10))
        if n == "AT_END_STRING":
            return pos == len(c)
        if n in ("AT_BOUNDARY", "AT_NON_BOUNDARY"):
            w = _cat_ranges("CATEGORY_WORD", self.flags)
            a = pos > 0 and bool(char_in(c[pos - 1], w))
            b = pos < len(c) and bool(char_in(c[pos], w))
            return (a != b) == (n == "AT_BOUNDARY")
        raise NotImplementedError(n)

    def match_at(self, s, c, pos, must_end=None):
        for p2, g in self.m_seq(list(self.tree), 0, c, pos, {}):
            if must_end is not None and p2 != must_end:
                continue
            return Match(self, s, c, pos, p2, g)
        return None


class Match:
    def __init__(self, prog, s, c, st, en, groups):
        self.re, self.string, self._c = prog, s, c
        self._g = dict(groups)
        self.lastindex = self._g.pop("last", None)
        self._g[0] = (st, en)

    def _idx(self, g):
        if isinstance(g, str):
            return self.re.groupindex[str(g)]
        return g

    def span(self, g=0):
        return self._g.get(self._idx(g), (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def _one(self, g):
        g = self._idx(g)
        if g >= self.re.ngroups:
            raise IndexError("no such group")
        sp = self._g.get(g)
        return None if sp is None else mk(self._c[sp[0]:sp[1]])

    def group(self, *gs):
        if not gs:
            gs = (0,)
        r = tuple(self._one(g) for g in gs)
        return r[0] if len(r) == 1 else r

    __getitem__ = group

    def groups(self, default=None):
        return tuple(default if self._one(i) is None else self._one(i) for i in range(1, self.re.ngroups))

    def groupdict(self, default=None):
        return {k: (default if self._one(v) is None else self._one(v)) for k, v in self.re.groupindex.items()}

    def expand(self, template):
        return _expand(template, self)

    def __bool__(self):
        return True


def _expand(template, m):
    if is_sym(template):
        template = str(template)
    from .strmodel import s_join
    r = re._parser.parse_template(template, re.compile(m.re.pattern, m.re.flags & ~re.UNICODE | (m.re.flags & re.UNICODE)))
    out = []
    for x in r:
        if isinstance(x, int):
            v = m._one(x)
            out.append("" if v is None else v)
        else:
            out.append(x)
    return s_join("", out)


_CACHE = {}


def prog(pattern, flags=0):
    if type(pattern) is re.Pattern:
        flags = pattern.flags & ~re.UNICODE if isinstance(pattern.pattern, str) else pattern.flags
        pattern = pattern.pattern
    k = (pattern, int(flags))
    p = _CACHE.get(k)
    if p is None:
        p = _CACHE[k] = Prog(pattern, int(flags))
    return p


class SymPattern:
    """compiled pattern whose subject is symbolic"""


def r_match(p, s, pos=0, endpos=None):
    c = chars_of(s)
    if endpos is not None:
        c = c[:endpos]
    return p.match_at(s, c, pos)


def r_fullmatch(p, s, pos=0, endpos=None):
    c = chars_of(s)
    if endpos is not None:
        c = c[:endpos]
    return p.match_at(s, c, pos, must_end=len(c))


def r_search(p, s, pos=0, endpos=None):
    c = chars_of(s)
    if endpos is not None:
        c = c[:endpos]
    for i in range(pos, len(c) + 1):
        m = p.match_at(s, c, i)
        if m:
            return m
    return None


def r_finditer(p, s, pos=0, endpos=None):
    c = chars_of(s)
    if endpos is not None:
        c = c[:endpos]
    i = pos
    must_advance = False
    while i <= len(c):
        m = None
        j = i
        while j <= len(c):
            cand = None
            for p2, g in p.m_seq(list(p.tree), 0, c, j, {}):
                if must_advance and j == i and p2 == i:
                    continue
                cand = Match(p, s, c, j, p2, g)
                break
            if cand:
                m = cand
                break
            j += 1
        if m is None:
            return
        yield m
        e = m.end()
        must_advance = e == m.start()
        i = e


def r_findall(p, s, pos=0, endpos=None):
    out = []
    for m in r_finditer(p, s, pos, endpos):
        if p.ngroups == 1:
            out.append(m.group())
        elif p.ngroups == 2:
            v = m.group(1)
            out.append("" if v is None else v)
        else:
            out.append(m.groups(""))
    return out


def r_subn(p, repl, s, count=0):
    c = chars_of(s)
    out, pos, n = [], 0, 0
    from .strmodel import s_join
    for m in r_finditer(p, s):
        if count and n >= count:
            break
        out.append(mk(c[pos:m.start()]))
        out.append(repl(m) if callable(repl) and not isinstance(repl, str) else _expand(repl, m))
        pos = m.end()
        n += 1
    out.append(mk(c[pos:]))
    return s_join("", out), n


def r_sub(p, repl, s, count=0):
    return r_subn(p, repl, s, count)[0]


def r_split(p, s, maxsplit=0):
    c = chars_of(s)
    out, pos, n = [], 0, 0
    for m in r_finditer(p, s):
        if maxsplit and n >= maxsplit:
            break
        out.append(mk(c[pos:m.start()]))
        out.extend(m.groups())
        pos = m.end()
        n += 1
    out.append(mk(c[pos:]))
    return out


PAT_METHODS = dict(match=r_match, fullmatch=r_fullmatch, search=r_search, finditer=r_finditer,
                   findall=r_findall, sub=r_sub, subn=r_subn, split=r_split)


def pattern_method(pat, name, args, kw):
    args = [a.force() if type(a) is SymChoice else a for a in args]
    return PAT_METHODS[name](prog(pat), *args, **kw)


def r_escape(s):
    special = re._special_chars_map
    out = []
    for ch in chars_of(s):
        if Or(*[char_eq(ch, k) for k in special]):
            out.append(92)
        out.append(ch)
    return mk(out)


def module_func(name):
    def f(pattern, *args, **kw):
        flags = kw.pop("flags", 0)
        nmax = {"match": 1, "search": 1, "fullmatch": 1, "findall": 1, "finditer": 1,
                "sub": 3, "subn": 3, "split": 2}[name]
        args = list(args)
        if len(args) > nmax:
            flags = args.pop()
        if is_sym(pattern):
            pattern = str(pattern)
        if type(pattern) is re.Pattern:
            flags = 0
        return pattern_method(pattern if type(pattern) is re.Pattern else prog(pattern, flags), name, args, kw)
    return f


_orig_prog = prog


def prog(pattern, flags=0):  # noqa: F811
    if isinstance(pattern, Prog):
        return pattern
    return _orig_prog(pattern, flags)
