"""Values read from the store can not be changed behind its back."""
from devpi_server.readonly import ensure_deeply_readonly
from devpi_server.readonly import get_mutable_deepcopy
from devpi_server.readonly import is_deeply_readonly
from symdev.env import make_xom
from symdev.harness import Case

MUTABLE = (dict, list, set, bytearray)


def build(S, name, depth, kinds):
    kind = S.choice(name + ".kind", kinds if depth else [
        k for k in ("int", "str", "none", "bytes") if k == "int" or k in kinds])
    if kind == "int":
        return S.int(name, -5, 5)
    if kind == "str":
        return S.str(name, 1, "ab")
    if kind == "none":
        return None
    if kind == "bool":
        return S.bool(name)
    if kind == "bytes":
        return S.bytes(name, 1)
    if kind == "set":
        return {S.str(name + "0", 1, "ab"), S.str(name + "1", 1, "ab")}
    if kind == "frozenset":
        return frozenset([S.int(name, -5, 5)])
    if kind == "list":
        return [build(S, name + "0", depth - 1, kinds), S.int(name, -5, 5)]
    if kind == "tuple":
        return (build(S, name + "0", depth - 1, kinds), S.int(name, -5, 5))
    if kind == "dict":
        return {"a": build(S, name + "0", depth - 1, kinds), S.str(name, 1, "ab"): S.int(name + "1", -5, 5)}
    raise ValueError(kind)


def reachable(v, depth=0):
    """ everything which can be got out of a view """
    yield v
    if depth > 6 or isinstance(v, (str, bytes, int, float)) or v is None:
        return
    if hasattr(v, "items"):
        for k, x in v.items():
            yield k
            yield from reachable(x, depth + 1)
        for x in v.values():
            yield from reachable(x, depth + 1)
        for k in v:
            yield from reachable(v[k], depth + 1)
            yield from reachable(v.get(k), depth + 1)
        for k in v.keys():
            yield k
        yield from reachable(v.get("missing", []), depth + 1)
        yield from reachable(v.get("missing", {}), depth + 1)
    elif hasattr(v, "__iter__"):
        n = 0
        for x in v:
            yield from reachable(x, depth + 1)
            n += 1
        if hasattr(v, "__getitem__"):
            for i in range(n):
                yield from reachable(v[i], depth + 1)
            yield from reachable(v[0:n], depth + 1)
            for x in reversed(v):
                yield from reachable(x, depth + 1)


def mutate(v):
    """ change every mutable part of a value """
    if isinstance(v, dict):
        for x in list(v.values()):
            mutate(x)
        v["zz"] = 99
        return True
    if isinstance(v, list):
        for x in list(v):
            mutate(x)
        v.append(99)
        return True
    if isinstance(v, tuple):
        for x in v:
            mutate(x)
        return True
    if isinstance(v, set):
        v.add("zz")
        return True
    return False


def tries(view):
    """ the ways to change a container """
    def setitem():
        view["a"] = 1

    def setitem0():
        view[0] = 1

    def delitem():
        del view["a"]

    def delitem0():
        del view[0]

    def iadd():
        v = view
        v += [1]
        if v is not view:
            raise TypeError("another object")

    def ior():
        v = view
        v |= {"zz": 1} if hasattr(view, "items") else {"zz"}
        if v is not view:
            raise TypeError("another object")
    yield from (setitem, setitem0, delitem, delitem0, iadd, ior)
    for name, args in (
            ("append", (1,)), ("extend", ([1],)), ("insert", (0, 1)), ("remove", (1,)), ("pop", ()),
            ("pop", ("a",)), ("popitem", ()), ("clear", ()), ("update", ({"zz": 1},)), ("update", ({"zz"},)),
            ("setdefault", ("zz", 1)), ("add", ("zz",)), ("discard", ("a",)), ("sort", ()), ("reverse", ())):
        if hasattr(view, name):
            yield lambda name=name, args=args: getattr(view, name)(*args)


def views(S, depth, kinds):
    value = build(S, "v", depth, kinds)
    before = get_mutable_deepcopy(value)
    view = ensure_deeply_readonly(value)
    S.check(is_deeply_readonly(view), "the view is readonly")
    S.check(before == value, "a copy equals its source")
    if not isinstance(value, (frozenset,)):
        S.check(view == value, "the view equals what it shows")
    for x in reachable(view):
        S.check(not isinstance(x, MUTABLE), "nothing mutable can be reached through a view")
        if not isinstance(x, (str, bytes, int, float, frozenset)) and x is not None:
            for t in tries(x):
                S.attempt(t)
    S.check(value == before, "the value behind a view stays as it is")
    again = get_mutable_deepcopy(view)
    S.check(again == before, "a mutable copy of a view equals the value")
    mutate(again)
    S.check(value == before, "changing a copy of a view does not change the value")
    other = get_mutable_deepcopy(value)
    mutate(value)
    S.check(other == before, "changing a value does not change its copy")


def store(S, depth, kinds):
    """ the same through transactions """
    xom = make_xom(S, init=False)
    keyfs = xom.keyfs
    value = {"x": build(S, "v", depth, kinds)}
    before = get_mutable_deepcopy(value)
    with keyfs.write_transaction():
        keyfs.USER(user="u").set(value)
    # the caller still has it
    mutate(value)
    with keyfs.read_transaction():
        got = keyfs.USER(user="u").get()
        S.check(got == before, "a later change of the written value has no effect")
        for x in reachable(got):
            S.check(not isinstance(x, MUTABLE), "values are readonly by default")
        copy = keyfs.USER(user="u").get(readonly=False)
        S.check(copy == before, "the mutable value is equal")
        mutate(copy)
        S.check(keyfs.USER(user="u").get() == before, "changing a mutable value has no effect")
        S.check(keyfs.USER(user="u").get(readonly=False) == before,
                "changing a mutable value has no effect on the next one")
    with keyfs.write_transaction():
        copy = keyfs.USER(user="u").get(readonly=False)
        mutate(copy)
        S.check(keyfs.USER(user="u").get() == before, "a change is only seen once it is set")
        keyfs.USER(user="other").set({"y": 1})
    with keyfs.read_transaction():
        S.check(keyfs.USER(user="u").get() == before, "a change which was not set is not committed")
    with keyfs.get_connection() as conn:
        changes = conn.get_changes(keyfs.get_current_serial() - 1)
        for x in reachable(changes):
            S.check(not isinstance(x, MUTABLE), "recorded changes are readonly")


def refused(S):
    kind = S.choice("kind", ["object", "bytearray", "nested"])
    value = {"object": object(), "bytearray": bytearray(b"x"), "nested": {"a": [object()]}}[kind]
    if kind == "nested":
        view = ensure_deeply_readonly(value)
        k, res = S.attempt(lambda: view["a"][0])
    else:
        k, res = S.attempt(ensure_deeply_readonly, value)
    S.check(k == "err", "unknown types are refused")
    k, res = S.attempt(get_mutable_deepcopy, value)
    S.check(k == "err", "unknown types are not copied")


KINDS = ["int", "none", "str", "bytes", "list", "tuple", "set", "dict", "frozenset"]


def cases(tier):
    res = [
        Case("views", views, depth=2, kinds=KINDS),
        Case("nested", views, depth=3, kinds=["int", "list", "tuple", "dict", "set"], time_limit=100),
        Case("store", store, depth=2, kinds=["int", "str", "none", "list", "tuple", "set", "dict"], time_limit=100),
        Case("refused", refused),
    ]
    if tier == "thorough":
        res += [
            Case("deep", views, depth=4, kinds=["int", "list", "tuple", "dict", "set"], time_limit=700),
            Case("deep store", store, depth=3, kinds=[k for k in KINDS if k != "bytes"], time_limit=700),
        ]
    return res
