"""Regular expression matching over strings with symbolic characters.

A backtracking matcher following the semantics of the `re` module, driven by
the parse tree produced by the standard library.  Character tests become
solver decisions.
"""
import re
from re import _constants as C
from re import _parser
from .core import Unsupported
from .core import current
from .core import z3
from .values import CHAR_HI
from .values import SBytes
from .values import SStr
from .values import _ceq
from .values import _elems
from .values import branch
from .values import char_hi
from .values import concrete
from .values import e_and
from .values import e_not
from .values import e_or
from .values import in_set
from .values import is_ascii
from .values import mk_bytes
from .values import mk_str

_cache = {}


class _Fallback(Exception):
    pass


def _cat_values(cat, flags, is_str):
    name = str(cat)
    if "DIGIT" in name:
        r = r'\d'
    elif "SPACE" in name:
        r = r'\s'
    elif "WORD" in name:
        r = r'\w'
    else:
        raise Unsupported("regex category %s" % name)
    key = (r, bool(flags & re.ASCII))
    if key not in _cache:
        p = re.compile(r, flags & re.ASCII)
        _cache[key] = frozenset(c for c in range(128) if p.match(chr(c)))
    return _cache[key], name.startswith("CATEGORY_NOT") or "NOT_" in name


class Matcher:
    def __init__(self, pattern):
        self.pattern = pattern
        self.is_str = isinstance(pattern.pattern, str)
        self.flags = pattern.flags
        self.tree = _parser.parse(pattern.pattern, pattern.flags & ~re.DEBUG)
        self.groups = self.tree.state.groups
        self.groupdict = self.tree.state.groupdict

    # -- character tests

    def _swap(self, c):
        r = z3.If(z3.And(c >= 65, c <= 90), c + 32,
                  z3.If(z3.And(c >= 97, c <= 122), c - 32, c))
        CHAR_HI[r.get_id()] = (r, 127)
        return r

    def test_in(self, items, c):
        if isinstance(c, int):
            return self._native_in(items, c)
        cond = self._in_expr(items, c)
        if self.flags & re.IGNORECASE:
            if char_hi(c) >= 128 and not is_ascii(c):
                return self._native_in(items, current().concretize(c))
            neg = items and items[0][0] is C.NEGATE
            cond2 = self._in_expr(items, self._swap(c))
            cond = e_and([cond, cond2]) if neg else e_or([cond, cond2])
        return branch(cond)

    def _native_in(self, items, ci):
        # concrete character, let the re module decide
        key = (id(items), ci)
        v = self._ncache.get(key)
        if v is None:
            v = self._single(items, ci)
            self._ncache[key] = v
        return v

    _ncache = {}

    def _single(self, items, ci):
        chars = {ci}
        if self.flags & re.IGNORECASE:
            ch = chr(ci)
            chars |= {ord(x) for x in (ch.lower(), ch.upper()) if len(x) == 1}
        neg = False
        res = False
        for op, av in items:
            if op is C.NEGATE:
                neg = True
            elif op is C.LITERAL:
                res = res or av in chars
            elif op is C.RANGE:
                res = res or any(av[0] <= x <= av[1] for x in chars)
            elif op is C.CATEGORY:
                name = str(av)
                r = r'\d' if "DIGIT" in name else r'\s' if "SPACE" in name else r'\w'
                if self.is_str:
                    m = re.match(r, chr(ci), self.flags & re.ASCII) is not None
                else:
                    m = re.match(r.encode(), bytes([ci])) is not None
                if "NOT_" in name:
                    m = not m
                res = res or m
            else:
                raise Unsupported("regex set item %s" % op)
        return res != neg

    def _in_expr(self, items, c):
        parts = []
        neg = False
        for op, av in items:
            if op is C.NEGATE:
                neg = True
            elif op is C.LITERAL:
                parts.append(_ceq(c, av))
            elif op is C.RANGE:
                lo, hi = av
                parts.append(e_and([c >= lo, c <= hi]))
            elif op is C.CATEGORY:
                vals, n = _cat_values(av, self.flags if self.is_str else re.ASCII, self.is_str)
                if self.is_str and char_hi(c) >= 128 and not self.flags & re.ASCII:
                    if not is_ascii(c):
                        raise _Fallback
                e = in_set(c, vals)
                parts.append(e_not(e) if n else e)
            else:
                raise Unsupported("regex set item %s" % op)
        r = e_or(parts)
        return e_not(r) if neg else r

    # -- matcher, continuation passing

    def m_seq(self, nodes, i, pos, groups, k):
        if i == len(nodes):
            return k(pos, groups)
        op, av = nodes[i]
        s = self.s
        n = self.n

        def nxt(p, g):
            return self.m_seq(nodes, i + 1, p, g, k)

        if op is C.LITERAL:
            if pos < n and self.test_in([(C.LITERAL, av)] if not isinstance(s[pos], int) else self._lit(av), s[pos]):
                return nxt(pos + 1, groups)
            return None
        if op is C.NOT_LITERAL:
            if pos < n and self.test_in(self._notlit(av), s[pos]):
                return nxt(pos + 1, groups)
            return None
        if op is C.IN:
            if pos < n and self.test_in(av, s[pos]):
                return nxt(pos + 1, groups)
            return None
        if op is C.ANY:
            if pos < n and (self.flags & re.DOTALL or not branch(_ceq(s[pos], 10))):
                return nxt(pos + 1, groups)
            return None
        if op is C.SUBPATTERN:
            gid, add, rem, sub = av
            if add or rem:
                raise Unsupported("inline regex flags")

            def after(p, g):
                if gid is not None:
                    g = {k: v for k, v in g.items() if k != gid}
                    g[gid] = (pos, p)
                return nxt(p, g)
            return self.m_seq(sub, 0, pos, groups, after)
        if op is C.BRANCH:
            for alt in av[1]:
                r = self.m_seq(alt, 0, pos, groups, nxt)
                if r is not None:
                    return r
            return None
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av
            greedy = op is C.MAX_REPEAT

            def rep(count, p, g, lastp):
                if hi is not C.MAXREPEAT and count >= hi:
                    return nxt(p, g)
                if count >= lo and p == lastp:
                    return nxt(p, g)

                def more():
                    return self.m_seq(
                        sub, 0, p, g,
                        lambda p2, g2: None if (p2 == p and count >= lo) else rep(count + 1, p2, g2, p))
                if count < lo:
                    return self.m_seq(
                        sub, 0, p, g,
                        lambda p2, g2: rep(count + 1, p2, g2, None))
                if greedy:
                    r = more()
                    if r is not None:
                        return r
                    return nxt(p, g)
                r = nxt(p, g)
                if r is not None:
                    return r
                return more()
            return rep(0, pos, groups, None)
        if op is C.AT:
            if av is C.AT_BEGINNING or av is C.AT_BEGINNING_STRING:
                if pos == 0:
                    return nxt(pos, groups)
                if av is C.AT_BEGINNING and self.flags & re.MULTILINE and branch(_ceq(s[pos - 1], 10)):
                    return nxt(pos, groups)
                return None
            if av is C.AT_END:
                if pos == n or (pos == n - 1 and branch(_ceq(s[pos], 10))):
                    return nxt(pos, groups)
                if self.flags & re.MULTILINE and branch(_ceq(s[pos], 10)):
                    return nxt(pos, groups)
                return None
            if av is C.AT_END_STRING:
                return nxt(pos, groups) if pos == n else None
            if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
                w = [(C.CATEGORY, C.CATEGORY_WORD)]
                a = pos > 0 and self.test_in(w, s[pos - 1])
                b = pos < n and self.test_in(w, s[pos])
                if (a != b) == (av is C.AT_BOUNDARY):
                    return nxt(pos, groups)
                return None
            raise Unsupported("regex %s" % av)
        if op in (C.ASSERT, C.ASSERT_NOT):
            direction, sub = av
            if direction < 0:
                lo, hi = sub.getwidth()
                if lo != hi:
                    raise Unsupported("variable lookbehind")
                start = pos - lo
                r = None if start < 0 else self.m_seq(sub, 0, start, groups, lambda p, g: (p, g) if p == pos else None)
            else:
                r = self.m_seq(sub, 0, pos, groups, lambda p, g: (p, g))
            if op is C.ASSERT:
                return None if r is None else nxt(pos, r[1])
            return nxt(pos, groups) if r is None else None
        if op is C.ATOMIC_GROUP:
            r = self.m_seq(av, 0, pos, groups, lambda p, g: (p, g))
            return None if r is None else nxt(*r)
        if op is C.POSSESSIVE_REPEAT:
            lo, hi, sub = av
            p, g = pos, groups
            count = 0
            while hi is C.MAXREPEAT or count < hi:
                r = self.m_seq(sub, 0, p, g, lambda p2, g2: (p2, g2))
                if r is None or (r[0] == p and count >= lo):
                    break
                p, g = r
                count += 1
            return nxt(p, g) if count >= lo else None
        if op is C.GROUPREF:
            if av not in groups:
                return None
            a, b = groups[av]
            ln = b - a
            if pos + ln > n:
                return None
            if branch(e_and(_ceq(s[a + j], s[pos + j]) for j in range(ln))):
                return nxt(pos + ln, groups)
            return None
        if op is C.GROUPREF_EXISTS:
            gid, yes, no = av
            items = yes if gid in groups else no
            if items is None:
                return nxt(pos, groups)
            return self.m_seq(items, 0, pos, groups, nxt)
        raise Unsupported("regex op %s" % op)

    _lits = {}

    def _lit(self, av):
        return self._lits.setdefault(("l", av), [(C.LITERAL, av)])

    def _notlit(self, av):
        return self._lits.setdefault(("n", av), [(C.NEGATE, None), (C.LITERAL, av)])

    def match_at(self, elems, pos, end, *, full=False):
        self.s = elems[:end]
        self.n = len(self.s)

        def final(p, g):
            if full and p != self.n:
                return None
            return (p, g)
        return self.m_seq(self.tree, 0, pos, {}, final)


def matcher(pattern):
    key = (pattern.pattern, pattern.flags)
    m = _cache.get(key)
    if m is None:
        m = _cache[key] = Matcher(pattern)
    return m


class SMatch:
    def __init__(self, pattern, string, start, end, groups):
        self.re = pattern
        self.string = string
        self._m = matcher(pattern)
        self._g = {**groups, 0: (start, end)}
        self.pos = 0
        self.endpos = len(string)

    def _gid(self, g):
        if isinstance(g, str):
            g = str(g)
            if g not in self._m.groupdict:
                raise IndexError("no such group")
            return self._m.groupdict[g]
        if g >= self._m.groups:
            raise IndexError("no such group")
        return g

    def _get(self, g, default=None):
        r = self._g.get(self._gid(g))
        if r is None:
            return default
        return self.string[r[0]:r[1]]

    def group(self, *gs):
        if not gs:
            return self._get(0)
        if len(gs) == 1:
            return self._get(gs[0])
        return tuple(self._get(g) for g in gs)

    __getitem__ = _get

    def groups(self, default=None):
        return tuple(self._get(i, default) for i in range(1, self._m.groups))

    def groupdict(self, default=None):
        return {k: self._get(k, default) for k in self._m.groupdict}

    def start(self, g=0):
        return self._g.get(self._gid(g), (-1, -1))[0]

    def end(self, g=0):
        return self._g.get(self._gid(g), (-1, -1))[1]

    def span(self, g=0):
        return self._g.get(self._gid(g), (-1, -1))

    @property
    def lastindex(self):
        closed = [g for g in self._g if g]
        return closed[-1] if closed else None

    @property
    def lastgroup(self):
        i = self.lastindex
        for k, v in self._m.groupdict.items():
            if v == i:
                return k
        return None

    def expand(self, template):
        return _expand(template, self)

    def __bool__(self):
        return True


def _with_fallback(fn):
    def wrapper(pattern, string, *args, **kw):
        ok = isinstance(string, str) if isinstance(pattern.pattern, str) else isinstance(string, (bytes, bytearray))
        if not ok:
            raise TypeError("expected string or bytes-like object")
        try:
            return fn(pattern, string, *args, **kw)
        except _Fallback:
            return getattr(pattern, fn.__name__.strip("_"))(
                *(concrete(a) for a in _reorder(fn.__name__, string, args)), **kw)
    return wrapper


def _reorder(name, string, args):
    if name.startswith("sub"):
        return (args[0], string, *args[1:])
    return (string, *args)


@_with_fallback
def match(pattern, string, pos=0, endpos=None):
    e = _elems(string)
    end = len(e) if endpos is None else min(endpos, len(e))
    r = matcher(pattern).match_at(e, pos, end)
    return None if r is None else SMatch(pattern, string, pos, r[0], r[1])


@_with_fallback
def fullmatch(pattern, string, pos=0, endpos=None):
    e = _elems(string)
    end = len(e) if endpos is None else min(endpos, len(e))
    r = matcher(pattern).match_at(e, pos, end, full=True)
    return None if r is None else SMatch(pattern, string, pos, r[0], r[1])


@_with_fallback
def search(pattern, string, pos=0, endpos=None):
    e = _elems(string)
    end = len(e) if endpos is None else min(endpos, len(e))
    m = matcher(pattern)
    for start in range(pos, end + 1):
        r = m.match_at(e, start, end)
        if r is not None:
            return SMatch(pattern, string, start, r[0], r[1])
    return None


def _finditer(pattern, string):
    e = _elems(string)
    m = matcher(pattern)
    pos = 0
    last_empty = None
    while pos <= len(e):
        found = None
        for start in range(pos, len(e) + 1):
            def final(p, g, start=start):
                if p == start and last_empty == start:
                    return None
                return (p, g)
            m.s = e
            m.n = len(e)
            r = m.m_seq(m.tree, 0, start, {}, final)
            if r is not None:
                found = (start, r)
                break
        if found is None:
            return
        start, (end, groups) = found
        yield SMatch(pattern, string, start, end, groups)
        pos = end
        last_empty = end


@_with_fallback
def finditer(pattern, string):
    return iter(list(_finditer(pattern, string)))


@_with_fallback
def findall(pattern, string):
    res = []
    for m in _finditer(pattern, string):
        if m._m.groups == 1:
            res.append(m.group())
        elif m._m.groups == 2:
            g = m.group(1)
            res.append("" if g is None else g)
        else:
            res.append(tuple("" if g is None else g for g in m.groups()))
    return res


def _expand(repl, m):
    if not isinstance(repl, str):
        raise Unsupported("bytes template")
    if type(repl) is SStr:
        if branch(repl.contains("\\").e) if not isinstance(repl.contains("\\"), bool) else repl.contains("\\"):
            repl = concrete(repl)
        else:
            return repl
    out = mk_str(())
    i = 0
    while i < len(repl):
        c = repl[i]
        if c != "\\":
            out = out + c
            i += 1
            continue
        c = repl[i + 1]
        if c.isdigit():
            out = out + (m.group(int(c)) or "")
            i += 2
        elif c == "g":
            j = repl.index(">", i)
            name = repl[i + 3:j]
            out = out + (m.group(int(name) if name.isdigit() else name) or "")
            i = j + 1
        elif c in "\\nt":
            out = out + {"\\": "\\", "n": "\n", "t": "\t"}[c]
            i += 2
        else:
            raise re.error("bad escape \\%s" % c)
    return out


@_with_fallback
def sub(pattern, string, repl, count=0):
    return subn(pattern, string, repl, count)[0]


@_with_fallback
def subn(pattern, string, repl, count=0):
    is_str = isinstance(string, str)
    out = mk_str(()) if is_str else mk_bytes(())
    pos = 0
    n = 0
    for m in _finditer(pattern, string):
        if count and n >= count:
            break
        out = out + string[pos:m.start()]
        if callable(repl):
            out = out + repl(m)
        elif is_str and ("\\" in repl if type(repl) is str else True):
            out = out + _expand(repl, m)
        else:
            out = out + repl
        pos = m.end()
        n += 1
    return (out + string[pos:], n)


@_with_fallback
def split(pattern, string, maxsplit=0):
    res = []
    pos = 0
    for m in _finditer(pattern, string):
        if maxsplit and len(res) >= maxsplit:
            break
        res.append(string[pos:m.start()])
        res.extend(m.groups())
        pos = m.end()
    res.append(string[pos:])
    return res


METHODS = dict(
    match=match, fullmatch=fullmatch, search=search, finditer=finditer,
    findall=findall, split=split)
