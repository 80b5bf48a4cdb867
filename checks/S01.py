"""Stored values survive the serialization unchanged, cut records are refused."""
from devpi_server import fileutil
from devpi_server.readonly import ensure_deeply_readonly
from symdev.harness import Case

UNICODE = (0, 0x10ffff)
TYPES = {"int": int, "str": str, "bytes": bytes, "bool": bool, "none": type(None),
         "float": float, "dict": dict, "list": list, "tuple": tuple, "set": set,
         "frozenset": frozenset}


class Gen:
    def __init__(self, S, strlen, leaf=False):
        self.S = S
        self.n = 0
        self.strlen = strlen
        self.alphabet = UNICODE if leaf else (0x60, 0xff)
        self.hi = 10**24 if leaf else 2**31 + 2

    def name(self):
        self.n += 1
        return "v%d" % self.n

    def make(self, shape):
        S = self.S
        if isinstance(shape, str):
            n = self.name()
            if shape == "int":
                return S.int(n, -2**31, self.hi)
            if shape == "bigint":
                base = S.choice(n + ".base", [2**31, 2**32, 2**53, 2**63, 2**64, 2**80])
                return S.int(n, base - 3, base + 1)
            if shape == "str":
                return S.text(n, 0, self.strlen, self.alphabet)
            if shape == "ascii":
                return S.text(n, 0, self.strlen, (0, 127))
            if shape == "bytes":
                return S.data(n, 0, self.strlen)
            if shape == "bool":
                return S.bool(n)
            if shape == "none":
                return None
            raise ValueError(shape)
        kind, items = shape[0], shape[1:]
        if kind == "list":
            return [self.make(s) for s in items]
        if kind == "tuple":
            return tuple([self.make(s) for s in items])
        if kind == "set":
            return set([self.make(s) for s in items])
        if kind == "frozenset":
            return frozenset([self.make(s) for s in items])
        if kind == "dict":
            d = {}
            for i, s in enumerate(items):
                if isinstance(s, tuple) and s[0] == "kv":
                    d[self.make(s[1])] = self.make(s[2])
                else:
                    d["k%d" % i] = self.make(s)
            return d
        raise ValueError(shape)


def same(S, a, b):
    """ equal value and equal types all the way down """
    ta = kind(a)
    if ta != kind(b):
        return False
    if ta in ("list", "tuple"):
        return len(a) == len(b) and S.all([same(S, x, y) for x, y in zip(a, b)])
    if ta == "dict":
        if len(a) != len(b):
            return False
        for k, v in a.items():
            if k not in b:
                return False
            if not same(S, v, b[k]):
                return False
        return list(a) == list(b)
    if ta in ("set", "frozenset"):
        return a == b
    if ta == "none":
        return True
    return a == b


def kind(x):
    for n, t in (("bool", bool), ("int", int), ("str", str), ("bytes", bytes), ("none", type(None)),
                 ("float", float), ("dict", dict), ("list", list), ("tuple", tuple), ("set", set),
                 ("frozenset", frozenset)):
        if isinstance(x, t):
            return n
    return type(x).__name__


def roundtrip(S, shape, strlen=2):
    value = Gen(S, strlen, isinstance(shape, str)).make(shape)
    kind_, data = S.attempt(fileutil.dumps, value, excs=(fileutil.DataFormatError,))
    S.check(kind_ == "ok", "every storable value can be serialized")
    if "set" not in label(shape):
        S.observe("data", data)
    back = fileutil.loads(data)
    S.check(same(S, value, back), "the value read back equals the value written")
    S.check(fileutil.dumplen(value) == len(data), "announced length is the real length")


def views(S, shape, strlen=1):
    value = Gen(S, strlen, isinstance(shape, str)).make(shape)
    data = fileutil.dumps(value)
    S.check(fileutil.dumps(ensure_deeply_readonly(value)) == data,
            "a readonly view is stored like the value it shows")


def cut(S, shape, strlen=1):
    value = Gen(S, strlen, isinstance(shape, str)).make(shape)
    data = fileutil.dumps(value)
    n = S.choice("cut", list(range(len(data))))
    kind_, res = S.attempt(fileutil.loads, data[:n])
    S.check(kind_ == "err", "a cut record is refused")


def maxlen(S, shape, strlen=2):
    value = Gen(S, strlen, isinstance(shape, str)).make(shape)
    data = fileutil.dumps(value)
    limit = S.int("limit", 0, 64)
    got = fileutil.dumplen(value, maxlen=limit)
    if len(data) > limit:
        S.check(got is None, "too long values are noticed")
    else:
        S.check(got == len(data), "length within the limit is reported")


def unstorable(S, shape):
    if shape == "surrogate":
        c = S.int("c", 0xd800, 0xdfff)
        value = ["a", "b" + chr(c)]
    elif shape == "small":
        value = {"x": S.int("v", -2**31 - 5, -2**31 - 1)}
    else:
        value = {"x": object()}
    kind_, data = S.attempt(fileutil.dumps, value, excs=(fileutil.DumpError,))
    S.check(kind_ == "err", "values which can not be stored are refused")


SHAPES = [
    "int", "bigint", "str", "bytes", "bool", "none",
    ("list",), ("dict",), ("tuple",), ("set",), ("frozenset",),
    ("list", "int", "str"), ("tuple", "bytes", "int", "bool"),
    ("set", "int"), ("frozenset", "str"), ("set", "str", "str"),
    ("dict", "str", "int", "none"),
    ("dict", ("kv", "str", "int"), ("kv", "str", "bool")),
    ("dict", ("kv", "str", ("list", "str", ("tuple", "int", "none")))),
    ("dict", ("set", "str"), ("dict", ("kv", "str", "str"))),
    ("tuple", ("tuple", "int", "int"), ("list", "none"), "str"),
    ("list", ("tuple", "str", "int"), ("tuple", "str", "int")),
    ("list", ("dict",), ("list",), ("tuple",), ("set",), "none", "bool"),
    ("dict", ("kv", ("tuple", "str", "int"), ("frozenset", "int"))),
    # the shapes devpi stores: user, project file entries, links
    ("dict", "ascii", ("dict", ("kv", "ascii", ("dict", "ascii", "bool", ("list", "ascii", "ascii"))))),
    ("dict", "ascii", "none", "int", ("list", ("dict", "ascii", ("list", ("dict", "ascii", ("tuple", "int", "int")))))),
]


def label(shape):
    if isinstance(shape, str):
        return shape
    return "%s(%s)" % (shape[0], ",".join(label(s) for s in shape[1:]))


def cases(tier):
    deep = tier == "thorough"
    res = []
    for n, shape in enumerate(SHAPES):
        res.append(Case("roundtrip %d %s" % (n, label(shape)), roundtrip, shape=shape,
                        strlen=3 if isinstance(shape, str) else 2 if n < 15 else 1))
        res.append(Case("view %d %s" % (n, label(shape)), views, shape=shape))
        if n < 25:
            res.append(Case("cut %d %s" % (n, label(shape)), cut, shape=shape))
        if n < 16:
            res.append(Case("maxlen %d %s" % (n, label(shape)), maxlen, shape=shape))
        if deep:
            res.append(Case("roundtrip3 %d %s" % (n, label(shape)), roundtrip, shape=shape,
                            strlen=5 if isinstance(shape, str) else 3, time_limit=200))
    for s in ("surrogate", "small", "object"):
        res.append(Case("unstorable " + s, unstorable, shape=s))
    return res


ASSUMPTIONS = ["integers are at least -2^31 (smaller ones are refused, which is checked)",
               "floats and complex numbers are not encoded",
               "strings up to the stated length, containers of the listed shapes"]
