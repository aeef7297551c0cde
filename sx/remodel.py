"""Model of `re` on strings/bytes with symbolic characters: backtracking over the parsed pattern, forking on
character-class membership. The pattern itself must be concrete."""
import re
import z3
from re import _parser as P
from re import _constants as K
from sx import core
from sx.values import SymStr, SymBytes, is_sym, mkstr, mkbytes, _or, _and, _not, Opaque


def _code(ch, a, b):
    if type(ch) is int:
        return a <= ch <= b
    return ch == a if a == b else z3.And(ch >= a, ch <= b)


def _cat(cat, ch, ascii_):
    n = str(cat)
    neg = "NOT_" in n
    if n.endswith("DIGIT"):
        r = [(48, 57)]
    elif n.endswith("SPACE"):
        r = [(9, 13), (32, 32)] + ([] if ascii_ else [(28, 31), (0x85, 0x85), (0xa0, 0xa0), (0x1680, 0x1680), (0x2000, 0x200a), (0x2028, 0x2029), (0x202f, 0x202f), (0x205f, 0x205f), (0x3000, 0x3000)])
    elif n.endswith("WORD"):
        r = [(48, 57), (65, 90), (95, 95), (97, 122)]
    else:
        core.CTX.unsupported("regex category " + n)
    if not n.endswith("SPACE") and not ascii_:
        if type(ch) is int:
            if ch > 127:
                core.CTX.unsupported("non-ASCII regex category")
        elif core.CTX.branch(ch > 127):
            core.CTX.unsupported("non-ASCII regex category")
    e = _or(*[_code(ch, a, b) for a, b in r])
    return _not(e) if neg else e


class M(object):
    def __init__(self, s, cs, groups, names):
        self.string, self._cs, self._g, self.lastindex = s, cs, groups, None
        self._names = names

    def _idx(self, g):
        return self._names[g] if isinstance(g, str) else g

    def span(self, g=0):
        return self._g.get(self._idx(g), (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def group(self, *gs):
        if len(gs) > 1:
            return tuple(self.group(g) for g in gs)
        a, b = self.span(gs[0] if gs else 0)
        return None if a < 0 else self.string[a:b]

    def __getitem__(self, g):
        return self.group(g)

    def groups(self, default=None):
        return tuple(self.group(i) for i in range(1, self._n + 1))

    @property
    def regs(self):
        return tuple(self.span(i) for i in range(self._n + 1))


def _match(nodes, i, cs, pos, g, flags, k):
    """Continuation-passing backtracking: k(pos, groups) -> result or None."""
    if i == len(nodes):
        return k(pos, g)
    op, av = nodes[i]
    c = core.CTX
    nxt = lambda p, gg: _match(nodes, i + 1, cs, p, gg, flags, k)
    if op is K.LITERAL or op is K.NOT_LITERAL or op is K.ANY or op is K.IN:
        if pos >= len(cs):
            return None
        ch = cs[pos]
        if op is K.LITERAL:
            e = _code(ch, av, av)
            if flags & re.I and chr(av).isalpha():
                e = _or(_code(ch, ord(chr(av).lower()), ord(chr(av).lower())), _code(ch, ord(chr(av).upper()), ord(chr(av).upper())))
        elif op is K.NOT_LITERAL:
            e = _not(_code(ch, av, av))
        elif op is K.ANY:
            e = True if flags & re.S else _not(_code(ch, 10, 10))
        else:
            parts, neg = [], False
            for o, a in av:
                if o is K.NEGATE:
                    neg = True
                elif o is K.LITERAL:
                    parts.append(_code(ch, a, a))
                elif o is K.RANGE:
                    parts.append(_code(ch, a[0], a[1]))
                elif o is K.CATEGORY:
                    parts.append(_cat(a, ch, flags & re.A))
                else:
                    c.unsupported("regex class item %s" % o)
            e = _or(*parts)
            e = _not(e) if neg else e
            if flags & re.I:
                c.unsupported("case-insensitive class")
        ok = e if isinstance(e, bool) else c.branch(e)
        return nxt(pos + 1, g) if ok else None
    if op is K.AT:
        n = str(av)
        if n in ("AT_BEGINNING", "AT_BEGINNING_STRING"):
            if flags & re.M and n == "AT_BEGINNING":
                c.unsupported("multiline regex")
            return nxt(pos, g) if pos == 0 else None
        if n == "AT_END_STRING":
            return nxt(pos, g) if pos == len(cs) else None
        if n == "AT_END":
            if flags & re.M:
                c.unsupported("multiline regex")
            if pos == len(cs):
                return nxt(pos, g)
            if pos == len(cs) - 1:
                e = _code(cs[pos], 10, 10)
                if e if isinstance(e, bool) else c.branch(e):
                    return nxt(pos, g)
            return None
        c.unsupported("regex anchor " + n)
    if op is K.SUBPATTERN:
        gid, add, rem, p = av
        if add or rem:
            c.unsupported("inline regex flags")

        def close(q, gg):
            if gid is not None:
                gg = dict(gg)
                gg[gid] = (pos, q)
            return nxt(q, gg)
        return _match(list(p), 0, cs, pos, g, flags, close)
    if op is K.BRANCH:
        for alt in av[1]:
            r = _match(list(alt), 0, cs, pos, g, flags, nxt)
            if r is not None:
                return r
        return None
    if op is K.MAX_REPEAT or op is K.MIN_REPEAT:
        lo, hi, p = av
        p = list(p)
        greedy = op is K.MAX_REPEAT

        def rep(n, q, gg, last):
            def more():
                if hi is not K.MAXREPEAT and n >= hi:
                    return None
                if n >= lo and q == last:
                    return None
                return _match(p, 0, cs, q, gg, flags, lambda q2, g2: rep(n + 1, q2, g2, q))
            if n < lo:
                return more()
            if greedy:
                r = more()
                return r if r is not None else nxt(q, gg)
            r = nxt(q, gg)
            return r if r is not None else more()
        return rep(0, pos, g, -1)
    c.unsupported("regex op %s" % op)


_cache = {}


def _run(pattern, s, flags, start, anchored, full):
    if isinstance(pattern, re.Pattern):
        flags |= pattern.flags & ~re.U
        pattern = pattern.pattern
    if is_sym(pattern):
        core.CTX.unsupported("symbolic regex pattern")
    key = (pattern, int(flags))
    if key not in _cache:
        _cache[key] = P.parse(pattern, int(flags))
    p = _cache[key]
    fl = p.state.flags
    cs = s.cs if is_sym(s) else tuple(map(ord, s)) if isinstance(s, str) else tuple(s)
    for st in ([start] if anchored else range(start, len(cs) + 1)):
        r = _match(list(p), 0, cs, st, {}, fl, lambda q, g: (q, g) if not full or q == len(cs) else None)
        if r is not None:
            g = dict(r[1])
            g[0] = (st, r[0])
            m = M(s, cs, g, p.state.groupdict)
            m._n = p.state.groups - 1
            return m
    return None


def search(pattern, string, flags=0):
    return _run(pattern, string, flags, 0, False, False)


def match(pattern, string, flags=0):
    return _run(pattern, string, flags, 0, True, False)


def fullmatch(pattern, string, flags=0):
    return _run(pattern, string, flags, 0, True, True)


def finditer(pattern, string, flags=0):
    pos, n = 0, len(string)
    while pos <= n:
        m = _run(pattern, string, flags, pos, False, False)
        if m is None:
            return
        yield m
        pos = m.end() if m.end() > m.start() else m.end() + 1


def findall(pattern, string, flags=0):
    return [m.group() if m._n == 0 else m.group(1) if m._n == 1 else m.groups() for m in finditer(pattern, string, flags)]


def sub(pattern, repl, string, count=0, flags=0):
    if isinstance(repl, str) and not is_sym(repl) and "\\" in repl:
        core.CTX.unsupported("re.sub with group references")
    parts, last, n = [], 0, 0
    for m in finditer(pattern, string, flags):
        if count and n >= count:
            break
        n += 1
        parts.append(string[last:m.start()])
        parts.append(repl(m) if callable(repl) else repl)
        last = m.end()
    parts.append(string[last:])
    return SymStr(()).join(parts)


TABLE = {"search": search, "match": match, "fullmatch": fullmatch, "findall": findall, "finditer": finditer, "sub": sub}
