"""Parameters of keys and their paths determine each other."""
from symdev.env import make_xom
from symdev.harness import Case

CHARS = "a/+.{}-\n"


def params_of(keyfs, name):
    import string
    key = keyfs.get_key(name)
    return [f for _, f, _, _ in string.Formatter().parse(key.pattern) if f]


KEYS = ["USER", "PROJNAMES", "PROJVERSION", "PROJVERSIONS", "MIRRORNAMESINIT", "PROJSIMPLELINKS",
        "STAGEFILE", "PYPIFILE_NOMD5"]


def make_params(S, keyfs, name, prefix, size, long):
    res = {}
    for n, p in enumerate(params_of(keyfs, name)):
        k = size if p == long else 1
        res[p] = S.text(prefix + p, 1, k, CHARS)
    return res


def roundtrip(S, keyname, size, long):
    xom = make_xom(S, init=False)
    keyfs = xom.keyfs
    params = make_params(S, keyfs, keyname, "p.", size, long)
    slash = S.any(["/" in v for v in params.values()])
    kind, key = S.attempt(keyfs.get_key(keyname), **params)
    if slash:
        S.check(kind == "err", "a parameter can not span path segments")
        return
    S.check(kind == "ok", "key for parameters")
    got = keyfs.get_key(keyname).extract_params(key.relpath)
    newline = S.any([v.endswith("\n") for v in params.values()])
    S.check(len(got) == len(params), "all parameters are found again")
    for k, v in params.items():
        S.check(got[k] == v, "the parameters are found again")
    again = keyfs.get_key_instance(keyname, key.relpath)
    S.check(again == key, "the key is found again by name and path")
    S.check(again.name == keyname, "name of the key")
    for k, v in params.items():
        S.check(again.params[k] == v, "parameters of the key")


def injective(S, keyname, size, long):
    """ different parameters are different keys """
    xom = make_xom(S, init=False)
    keyfs = xom.keyfs
    a = make_params(S, keyfs, keyname, "a.", size, long)
    b = make_params(S, keyfs, keyname, "b.", size, long)
    for v in [*a.values(), *b.values()]:
        S.assume(S.not_("/" in v))
    ka = keyfs.get_key(keyname)(**a)
    kb = keyfs.get_key(keyname)(**b)
    same = S.all([a[k] == b[k] for k in a])
    S.check(S.iff(ka == kb, same), "keys are equal if and only if their parameters are")
    S.check(S.iff(ka.relpath == kb.relpath, same), "paths are equal if and only if the parameters are")


def stored(S, keyname, size, long):
    """ the stored name and path lead to the same key """
    xom = make_xom(S, init=False)
    keyfs = xom.keyfs
    params = make_params(S, keyfs, keyname, "p.", size, long)
    for v in params.values():
        S.assume(S.not_("/" in v))
    with keyfs.write_transaction():
        key = keyfs.get_key(keyname)(**params)
        key.set(key.type())
        v = key.type()
    with keyfs.read_transaction() as tx:
        found = tx.derive_key(key.relpath)
        S.check(found == key, "derived key")
        S.check(found.name == keyname, "name of the derived key")
        for k, v in params.items():
            S.check(found.params[k] == v, "parameters of the derived key")


def cases(tier):
    res = []
    size = 2 if tier == "quick" else 3
    plan = {
        "USER": ["user"],
        "PROJNAMES": ["user", "index"],
        "PROJVERSION": ["index", "project", "version"],
        "PROJVERSIONS": ["project"],
        "MIRRORNAMESINIT": ["user", "index"],
        "PROJSIMPLELINKS": ["project"],
        "STAGEFILE": ["filename", "hashdir_b"],
        "PYPIFILE_NOMD5": ["dirname", "basename"],
    }
    for name, longs in plan.items():
        for long in longs:
            res.append(Case("roundtrip %s %s" % (name, long), roundtrip, keyname=name, size=3, long=long))
            res.append(Case("injective %s %s" % (name, long), injective, keyname=name, size=size, long=long,
                            time_limit=60 if tier == "quick" else 300))
        res.append(Case("stored %s" % name, stored, keyname=name, size=2, long=longs[0]))
    return res


ASSUMPTIONS = ["parameters are non-empty, of up to three characters out of a, slash, plus, dot, braces, "
               "dash and newline"]
