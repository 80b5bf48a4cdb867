"""Who a request is authenticated as: credentials, plugins, stored passwords."""
from checks import auth as h
from devpi_server import auth as auth_module
from devpi_server import auth_basic
from devpi_server import auth_devpi
from devpi_server.auth import Auth
from devpi_server.auth import AuthException
from devpi_server.view_auth import DevpiSecurityPolicy
from symdev.env import make_xom
from symdev.harness import Case
import binascii


def setup(S, **kw):
    h.plugin1.reset()
    h.plugin2.reset()
    xom = make_xom(S, plugins=[h.plugin1, h.plugin2], **kw)
    hasher = h.ideal_hasher(S)
    return xom, hasher


def root_password(S, xom, password):
    with xom.keyfs.write_transaction():
        xom.model.get_user("root").modify(password=password)


def passwords(S, n, write):
    """ only the stored password is right, for every name """
    xom, hasher = setup(S)
    name = S.str("name", 1, "ab")
    stored = S.text("stored", 1, n, "xy:")
    asname = S.str("asname", 1, "ab")
    given = S.text("given", 0, n, "xy:")
    with xom.keyfs.write_transaction():
        how = S.choice("how", ["new", "salted", "changed", "salted, changed", "none"])
        # users of plugins have no password
        xom.model.create_user(name, None if how == "none" else stored)
        if how.startswith("salted"):
            # as stored by old versions
            salt = auth_module.newsalt() if not S.symbolic else "c2FsdA=="
            pwhash = auth_module.getpwhash(stored, salt)
            with xom.model.get_user(name).key.update() as config:
                config["pwsalt"] = salt
                config["pwhash"] = pwhash
        if how.endswith("changed"):
            stored = S.text("changed", 1, n, "xy:")
            xom.model.get_user(name).modify(password=stored)
    auth = Auth(xom, b"k" * 32)
    tx = xom.keyfs.write_transaction if write else xom.keyfs.read_transaction
    right = S.all([name == asname, stored == given, how != "none"])
    for i in range(2):
        # twice, as the hash may be updated
        with tx():
            res = auth._get_auth_status(asname, given)
        S.check(S.iff(res["status"] == "ok", right), "only the right password of the user")
        if asname != name:
            S.check(res["status"] == "nouser", "unknown user")
        elif not right:
            S.check(res["status"] == "reject", "wrong password")
    with xom.keyfs.read_transaction():
        login = auth.new_proxy_auth(asname, given)
    S.check(S.iff(login is not None, right), "login with the right password only")


STATUS = [None, "ok", "reject", "unknown", "other"]


def answer(S, name, statuses):
    status = S.choice(name, statuses)
    if status is None:
        return None
    res = dict(status=status)
    if status == "ok":
        groups = S.choice(name + ".groups", [None, [], ["a"], ["b", "a"]])
        if groups is not None:
            res["groups"] = list(groups)
        if S.choice(name + ".forged", [False, True]):
            res["from_user_object"] = True
    return res


def plugins(S, which):
    """ the documented combination of plugins and stored users """
    xom, hasher = setup(S)
    root_password(S, xom, "rootpw")
    name = S.choice("name", ["root", "alice", "bob"])
    password = S.str("password", 1, "xy")
    with xom.keyfs.write_transaction():
        xom.model.create_user("alice", "x")
    request = None
    if S.choice("with request", [False, True]):
        request = h.Request(xom)
    if which == "request":
        h.plugin1.request_answer = a1 = answer(S, "answer1", [None, "ok", "reject", "other"])
        h.plugin2.request_answer = a2 = answer(S, "answer2", [None, "ok", "reject"])
        u1 = u2 = None
    elif which == "user":
        a1 = a2 = None
        h.plugin1.user_answer = u1 = answer(S, "user1", ["unknown", "ok", "reject", "other"])
        h.plugin2.user_answer = u2 = answer(S, "user2", ["unknown", "ok", "reject"])
    else:
        h.plugin1.request_answer = a1 = answer(S, "answer1", [None, "ok", "reject"])
        a2 = None
        u1 = None
        u2 = S.choice("error", [None, AuthException("x")])
        h.plugin2.user_answer = u2
        if u2 is None:
            h.plugin2.user_answer = u2 = answer(S, "user2", ["unknown", "ok", "reject"])
    copies = [None if x is None or isinstance(x, Exception) else (x["status"], list(x.get("groups", [])))
              for x in (a1, a2, u1, u2)]
    auth = Auth(xom, b"k" * 32)
    with xom.keyfs.read_transaction():
        res = auth._get_auth_status(name, password, request=request)
    # pluggy asks the plugin registered last first
    first = copies[1] or copies[0]
    groups = []
    own = False
    if name == "root":
        expected = "reject"
        S.check(h.plugin1.asked == [] and h.plugin2.asked == [], "plugins never decide about root")
    elif first is not None:
        expected = "ok" if first[0] == "ok" else "reject"
        groups = first[1]
    elif isinstance(u2, Exception):
        expected = "nouser"
    else:
        known = [c for c in copies[2:] if c is not None and c[0] != "unknown"]
        if any([c[0] != "ok" for c in known]):
            expected = "reject"
        elif known:
            expected = "ok"
            groups = sorted({g for c in known for g in c[1]})
        elif name == "alice":
            own = True
            expected = "ok" if password == "x" else "reject"
        else:
            expected = "nouser"
    S.check(res["status"] == expected, "decision of plugins and stored users")
    if expected == "ok":
        S.check(list(res.get("groups", [])) == groups, "groups")
        S.check(bool(res.get("from_user_object")) == own, "plugins can't pretend to be the user object")


def headers(S, which, n):
    """ user and password of the header, at the first colon """
    xom, hasher = setup(S)
    raw = S.data("raw", 0, n)
    broken = S.choice("broken", [False, True])

    def b64decode(v):
        # base64 itself is trusted
        if broken:
            raise binascii.Error("broken")
        S.check(v == "encoded", "the parameters are decoded")
        return raw
    for mod in (auth_basic, auth_devpi):
        S.patch(mod, "b64decode", b64decode)
    request = h.Request(xom)
    if which == "basic":
        authtype = S.choice("authtype", ["Basic", "basic", "BASIC", "Bearer", "Digest"])
        request.authorization = h.Authorization(authtype, "encoded")
        ignored = authtype.lower() != "basic"
        res = auth_basic.devpiserver_get_credentials(request)
    else:
        value = S.choice("value", [None, "", "encoded", " encoded "])
        if value is not None:
            request.headers["X-Devpi-Auth"] = value
        ignored = not value
        res = auth_devpi.devpiserver_get_credentials(request)
    colon = b":" in raw
    if ignored or broken or not colon:
        S.check(res is None, "no credentials")
        return
    S.check(res is not None, "credentials are found")
    user, password = res
    S.check(S.not_(":" in user), "no colon in the name")
    text = user + ":" + password
    S.check(S.any([_encodes(text, "utf-8", raw), _encodes(text, "latin-1", raw)]),
            "user and password are exactly those which were sent")


def _encodes(text, encoding, raw):
    try:
        return text.encode(encoding) == raw
    except UnicodeEncodeError:
        return False


def identity(S):
    """ the identity of a request is the one its credentials stand for, or none """
    xom, hasher = setup(S)
    with xom.keyfs.write_transaction():
        xom.model.create_user("alice", "pw1")
        xom.model.create_user("bob", "pw2")
    policy = DevpiSecurityPolicy(xom)
    with xom.keyfs.read_transaction():
        token = policy.auth.new_proxy_auth("alice", "pw1")["password"]
    users = {"alice": "pw1", "bob": "pw2"}
    table = {}

    def b64decode(v):
        return table[v]
    for mod in (auth_basic, auth_devpi):
        S.patch(mod, "b64decode", b64decode)
    request = h.Request(xom, policy)

    def credentials(prefix):
        user = S.choice(prefix + ".user", ["alice", "bob", "carol"])
        pw = S.choice(prefix + ".pw", ["pw1", "pw2", token, ""])
        table[prefix] = ("%s:%s" % (user, pw)).encode("ascii")
        ok = users.get(user) == pw or (user == "alice" and pw == token)
        return user if ok else None
    expected = set()
    sent = False
    if S.choice("basic", [False, True]):
        expected.add(credentials("basic"))
        sent = True
        request.authorization = h.Authorization("Basic", "basic")
    if S.choice("devpi", [False, True]):
        expected.add(credentials("devpi"))
        sent = True
        request.headers["X-Devpi-Auth"] = "devpi"
    if not sent:
        expected.add(None)
    with xom.keyfs.read_transaction():
        ident = request.identity
        again = request.identity
    got = None if ident is None else ident.username
    S.check(got in expected, "identity of the request")
    S.check(again is ident, "one identity per request")
    if ident is not None:
        S.check(list(ident.groups) == [], "groups of the identity")


def twice(S):
    """ a decision only depends on the credentials it is about """
    xom, hasher = setup(S)
    root_password(S, xom, "r")
    users = {"alice": "x", "bob": "y", "root": "r"}
    with xom.keyfs.write_transaction():
        xom.model.create_user("alice", "x")
        xom.model.create_user("bob", "y")
    auth = Auth(xom, b"k" * 32)
    request = h.Request(xom)
    for i in range(2):
        name = S.choice("name%d" % i, ["alice", "bob", "root"])
        password = S.str("password%d" % i, 1, "xyr")
        with xom.keyfs.read_transaction():
            if i == 1 and S.choice("login", [False, True]):
                ok = auth.new_proxy_auth(name, password, request=request) is not None
            else:
                ok = auth._get_auth_status(name, password, request=request)["status"] == "ok"
        S.check(S.iff(ok, password == users[name]), "the decision is about the given credentials")


def cases(tier):
    deep = tier == "thorough"
    res = [
        Case("passwords", passwords, n=2, write=False, time_limit=100),
        Case("passwords in write transaction", passwords, n=1, write=True),
        Case("plugins request", plugins, which="request", time_limit=100),
        Case("plugins user", plugins, which="user", time_limit=100),
        Case("plugins both", plugins, which="both", time_limit=100),
        Case("header basic", headers, which="basic", n=5 if deep else 3),
        Case("header devpi", headers, which="devpi", n=5 if deep else 3),
        Case("identity", identity),
        Case("twice", twice),
    ]
    return res


ASSUMPTIONS = [
    "password hashing is ideal: a hash is only valid for its password (argon2 is not encoded)",
    "base64 decoding is a stand-in which yields any bytes",
]
