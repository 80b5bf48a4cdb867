"""Login tokens authenticate their user until they expire."""
from checks import auth as h
from devpi_server import replica
from devpi_server.auth import Auth
from symdev.env import make_xom
from symdev.harness import Case
import time


T0 = 1700000000


def setup(S, **kw):
    h.plugin1.reset()
    h.plugin2.reset()
    xom = make_xom(S, plugins=[h.plugin1], **kw)
    h.ideal_hasher(S)
    return xom


class Clock:
    def __init__(self, S):
        self.now = T0
        import itsdangerous.timed
        S.patch(itsdangerous.timed.time, "time", lambda: self.now)


def login(S, xom, auth, name, source):
    """ a token for an existing user, or one known to a plugin only """
    if source == "plugin":
        groups = S.choice("groups", [[], ["dev"], ["dev", "ops"]])
        h.plugin1.request_answer = dict(status="ok", groups=groups)
    else:
        groups = []
    with xom.keyfs.read_transaction():
        proxy = auth.new_proxy_auth(name, "secret")
    h.plugin1.reset()
    S.check(proxy is not None, "login with the right password")
    S.check(proxy["expiration"] == 60 * 60 * 10, "announced expiration")
    return proxy["password"], groups


def expiry(S, source):
    """ accepted for the ten hours after it was issued, and not before or later """
    xom = setup(S)
    clock = Clock(S)
    with xom.keyfs.write_transaction():
        xom.model.create_user("alice", "secret")
    auth = Auth(xom, b"k" * 32)
    token, groups = login(S, xom, auth, "alice", source)
    clock.now = T0 + S.int("age", -100000, 10**6)
    with xom.keyfs.read_transaction():
        res = auth._get_auth_status("alice", token)
    age = clock.now - T0
    valid = S.all([age >= 0, age <= 60 * 60 * 10])
    S.check(S.iff(res["status"] == "ok", valid), "a token is valid until it expires")
    if res["status"] == "ok":
        S.check(res["groups"] == groups, "groups of the login")


def names(S, n, source):
    """ only for the user it was issued for """
    xom = setup(S)
    Clock(S)
    user = S.str("user", n, "abA:")
    other = S.str("other", n, "abA:")
    if source == "db":
        S.assume(S.not_(":" in user))
    with xom.keyfs.write_transaction():
        if source == "db":
            xom.model.create_user(user, "secret")
        if S.choice("other exists", [False, True]):
            for name in ("aa", "ab", "ba", "bb", "a", "b"):
                if xom.model.get_user(name) is None:
                    xom.model.create_user(name, "password")
    auth = Auth(xom, b"k" * 32)
    proxy = Recorder(auth)
    token, groups = login(S, xom, auth, user, source)
    with xom.keyfs.read_transaction():
        res = auth._get_auth_status(other, token)
    S.check(S.iff(res["status"] == "ok", other == user), "a token is only valid for its user")


class Recorder:
    """ the payload of tokens is opaque text for the solver """

    def __init__(self, auth):
        self.serializer = auth.serializer
        self.tokens = {}
        auth.serializer = self

    def dumps(self, obj):
        token = "token%d" % len(self.tokens)
        self.tokens[token] = list(obj)
        return token

    def loads(self, token, max_age=None):
        from itsdangerous import BadSignature
        if token not in self.tokens:
            raise BadSignature("bad")
        return self.tokens[token]


def deleted(S):
    """ tokens of deleted users are refused, those from plugins don't need a user """
    xom = setup(S)
    Clock(S)
    with xom.keyfs.write_transaction():
        xom.model.create_user("alice", "secret")
    auth = Auth(xom, b"k" * 32)
    source = S.choice("source", ["db", "plugin"])
    token, groups = login(S, xom, auth, "alice", source)
    with xom.keyfs.write_transaction():
        xom.model.get_user("alice").delete()
    with xom.keyfs.read_transaction():
        res = auth._get_auth_status("alice", token)
        S.check((res["status"] == "ok") == (source == "plugin"), "token of a deleted user")
        res = auth._get_auth_status("root", token)
        S.check(res["status"] != "ok", "token of another user")


def payloads(S):
    """ other things signed with the same secret are no login tokens """
    xom = setup(S)
    Clock(S)
    with xom.keyfs.write_transaction():
        xom.model.create_user("alice", "secret")
    auth = Auth(xom, b"k" * 32)
    obj = S.choice("obj", [
        None, True, 5, "alice", {"alice": 1}, [], ["alice"], ["alice", []], ["alice", [], True, 1],
        [["alice"], [], True], [None, [], True], {"0": "alice", "1": [], "2": True}])
    token = auth.serializer.dumps(obj)
    with xom.keyfs.read_transaction():
        kind, res = S.attempt(auth._get_auth_status, "alice", token)
    S.check(kind == "err" or res["status"] != "ok", "other signed data is no login token")


def secrets(S):
    """ tokens need the secret for logins of this server """
    xom = setup(S)
    Clock(S)
    import argon2.low_level
    import hashlib
    # stands for the expensive key derivation
    S.patch(argon2.low_level, "hash_secret_raw",
            lambda secret, salt, **kw: hashlib.sha256(secret + b"/" + salt).digest())
    S.patch(xom.config, "basesecret", b"1" * 32)
    S.patch(xom.config, "_key_cache", {})
    with xom.keyfs.write_transaction():
        xom.model.create_user("alice", "secret")
    auth = Auth(xom, xom.config.get_auth_secret())
    by = S.choice("by", ["replica", "other server", "same"])
    if by == "replica":
        serializer = replica.get_auth_serializer(xom.config)
    elif by == "other server":
        S.patch(xom.config, "basesecret", b"2" * 32)
        xom.config._key_cache.clear()
        serializer = Auth(xom, xom.config.get_auth_secret()).serializer
    else:
        serializer = auth.serializer
    token = serializer.dumps(["alice", [], True])
    with xom.keyfs.read_transaction():
        res = auth._get_auth_status("alice", token)
    S.check((res["status"] == "ok") == (by == "same"), "tokens need the secret of this server")


def tampered(S):
    """ a change at any position makes a token invalid """
    xom = setup(S)
    clock = Clock(S)
    with xom.keyfs.write_transaction():
        xom.model.create_user("alice", "secret")
    auth = Auth(xom, b"k" * 32)
    token, groups = login(S, xom, auth, "alice", "db")
    pos = S.choice("pos", list(range(0, len(token))))
    # nothing, or another character
    b = S.choice("b", ["", "A", "w", "."])
    S.assume(b != token[pos])
    forged = token[:pos] + b + token[pos + 1:]
    clock.now = T0 + 10
    with xom.keyfs.read_transaction():
        kind, res = S.attempt(auth._get_auth_status, "alice", forged)
    S.check(kind == "err" or res["status"] != "ok", "a changed token is invalid")


def cases(tier):
    return [
        Case("expiry", expiry, source="db"),
        Case("expiry plugin", expiry, source="plugin"),
        Case("names", names, n=2, source="db"),
        Case("names plugin", names, n=2, source="plugin"),
        Case("deleted", deleted),
        Case("payloads", payloads),
        Case("secrets", secrets),
        Case("tampered", tampered),
    ]
