import re


def rnd(r, alpha, n):
    return "".join(r.choice(alpha) for _ in range(r.randint(0, n)))


def rec(m):
    if m is None:
        return None
    return (m.group(), m.groups(), m.span(), m.groupdict(), m.lastgroup)


def ops(r):
    A = r.choice(["ab-", "aB.- _", "1a0_+", " \tx\n", "é\xdfA\u0130 ab", "/.a", "%2Fa"])
    s = rnd(r, A, 6)
    t = rnd(r, A, 2)
    u = rnd(r, A, 2)
    i = r.randint(-3, 6)
    j = r.randint(-3, 6)
    P = r.choice([r"[-_.]+", r"^[a-z]+$", r"(a|b)*-", r"(?P<x>a+?)(b?)$", r"\d+", r"\s*(\S+)", r"(?i)ab",
                  r"a{1,2}", r"(?!a).", r"(?<=a)b", r"\w+", r".*/(.*)", r"[^/]+", r"(.)\1", r"\ba"])
    yield "lower", lambda s, t, u, i: s.lower(), (s, t, u, i)
    for n in "upper strip lstrip rstrip isdigit isalpha isalnum isspace splitlines".split():
        yield n, (lambda n: lambda s, t, u, i: getattr(s, n)())(n), (s, t, u, i)
    for n in "startswith endswith find rfind count removeprefix removesuffix".split():
        yield n, (lambda n: lambda s, t, u, i: getattr(s, n)(t))(n), (s, t, u, i)
    yield "scmp", lambda s, t, u, i: (s < t, s <= t, s == t, s > t, "ab" < s, s != t), (s, t, u, i)
    if t:
        yield "split", lambda s, t, u, i: s.split(t), (s, t, u, i)
        yield "rsplit", lambda s, t, u, i: s.rsplit(t, 1), (s, t, u, i)
        yield "partition", lambda s, t, u, i: (s.partition(t), s.rpartition(t)), (s, t, u, i)
        yield "replace", lambda s, t, u, i: s.replace(t, u), (s, t, u, i)
        yield "striparg", lambda s, t, u, i: s.strip(t), (s, t, u, i)
    yield "wsplit", lambda s, t, u, i: (s.split(), s.split(None, 1)), (s, t, u, i)
    yield "in", lambda s, t, u, i: (t in s), (s, t, u, i)
    yield "add", lambda s, t, u, i: s + t + "x", (s, t, u, i)
    yield "slice", lambda s, t, u, i: (s[i:], s[:i], s[1:i]), (s, t, u, i)
    yield "join", lambda s, t, u, i: t.join([s, u]), (s, t, u, i)
    yield "enc", lambda s, t, u, i: s.encode("utf-8"), (s, t, u, i)
    yield "encdec", lambda s, t, u, i: s.encode("utf-8").decode("utf-8"), (s, t, u, i)
    yield "fmt", lambda s, t, u, i: "{}-{!r}-{a}".format(s, t, a=i), (s, t, u, i)
    yield "mod", lambda s, t, u, i: "%s-%r-%d" % (s, t, i), (s, t, u, i)
    yield "repr", lambda s, t, u, i: repr([s, (t,), {u: i}]), (s, t, u, i)
    yield "istr", lambda s, t, u, i: str(i), (s, t, u, i)
    yield "int", lambda s, t, u, i: int(s), (s, t, u, i)
    yield "arith", lambda s, t, u, i: (i + 1, i * 3, i % 4, i // 3, -i, abs(i), i & 7, i << 2, i >> 1, 5 - i, i / 2), (s, t, u, i)
    yield "cmp", lambda s, t, u, i: (i < 2, i <= 2, i == 2, i != 2), (s, t, u, i)
    yield "tobytes", lambda s, t, u, i: i.to_bytes(4, "big", signed=True), (s, t, u, i)
    import struct
    yield "pack", lambda s, t, u, i: struct.unpack('!i', struct.pack('!i', i)), (s, t, u, i)

    def dicts(s, t, u, i):
        d = {s: 1, t: 2, u: 3}
        return (sorted(d.values()), d[s], ("a" in d), len(d),
                d.get(u), d.get("ab", 7))
    yield "dict", dicts, (s, t, u, i)

    def sets(s, t, u, i):
        d = {s, t, u}
        e = {t, "a", ""}
        return (len(d), len(d.union(e)), len(d.intersection(e)), len(d.difference(e)))
    yield "set", sets, (s, t, u, i)
    p = re.compile(P)
    yield "re.match " + P, lambda s, t, u, i: rec(p.match(s)), (s, t, u, i)
    yield "re.search " + P, lambda s, t, u, i: rec(p.search(s)), (s, t, u, i)
    yield "re.full " + P, lambda s, t, u, i: rec(p.fullmatch(s)), (s, t, u, i)
    yield "re.findall " + P, lambda s, t, u, i: p.findall(s), (s, t, u, i)
    yield "re.sub " + P, lambda s, t, u, i: p.sub("-", s), (s, t, u, i)
    yield "re.split " + P, lambda s, t, u, i: p.split(s), (s, t, u, i)
    import posixpath
    import urllib.parse as up
    yield "normpath", lambda s, t, u, i: posixpath.normpath(s), (s, t, u, i)
    yield "pjoin", lambda s, t, u, i: posixpath.join(s, t), (s, t, u, i)
    yield "quote", lambda s, t, u, i: up.quote(s), (s, t, u, i)
    yield "unquote", lambda s, t, u, i: up.unquote(s), (s, t, u, i)
    yield "urlsplit", lambda s, t, u, i: tuple(up.urlsplit(s)), (s, t, u, i)
    yield "urljoin", lambda s, t, u, i: up.urljoin(s, t), (s, t, u, i)
    b = s.encode()
    yield "bytes", lambda s, t, u, i: (s.decode(), s.split(b"-"), s.hex(), s[1:2], s.find(b"a"), s.strip(), list(s)), (b, t, u, i)


