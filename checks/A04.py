"""User accounts."""
from checks import auth as h
from checks import index
from checks.app import App
from devpi_server import model
from symdev.harness import Case

PUBLIC = ["custom_data", "description", "email", "title"]


def blocked(S, c):
    """ printable ASCII besides letters, digits and -.@_ """
    o = ord(c)
    allowed = S.any([
        S.all([o >= 48, o <= 57]), S.all([o >= 65, o <= 90]), S.all([o >= 97, o <= 122]),
        c == "-", c == ".", c == "@", c == "_", o > 126])
    return S.not_(allowed)


def names(S, n, kind, alphabet):
    """ only harmless names for users and indexes """
    xom = index.setup(S)
    name = S.str("name", n, alphabet)
    bad = S.any([blocked(S, c) for c in name] + [S.eq(name, "."), S.eq(name, "..")])
    with xom.keyfs.write_transaction():
        user = index.make_user(xom)
        users = set(xom.model.get_usernames())
        if kind == "user":
            k, res = S.attempt(xom.model.create_user, name, "pw", excs=(model.InvalidUser, AssertionError))
        else:
            k, res = S.attempt(user.create_stage, name, excs=(model.InvalidIndex, model.InvalidIndexconfig))
        if kind == "user":
            exists = S.any([S.eq(name, x) for x in users])
        else:
            exists = False
        S.check(S.iff(k == "err", S.any([bad, exists])), "names with other ASCII symbols are refused", lambda: repr(name))
    with xom.keyfs.read_transaction():
        if kind == "user":
            k2, found = S.attempt(xom.model.get_user, name, excs=(ValueError,))
            found = k2 == "ok" and found is not None
            S.check(S.iff(found, S.any([k == "ok", exists])), "user exists after creation")
            S.check(S.iff(name in xom.model.get_usernames(), S.any([k == "ok", exists])), "user is listed")
        else:
            found = [x for x in xom.model.get_user("u").get()["indexes"] if x == name]
            S.check(S.iff(bool(found), k == "ok"), "index exists after creation")


def value(S, key, n):
    if key in ("indexes",):
        return S.choice("%s %d" % (key, n), [
            {"x": {"type": "stage", "bases": ["u/x"], "volatile": True}}, {}, {"i": {"type": "mirror", "mirror_url": "http://localhost/"}}])
    if key == "username":
        return "root"
    if key in ("created", "modified"):
        return "1999"
    if key == "unknown":
        return "x"
    if key == "title" or S.choice("%s special %d" % (key, n), [False, True]):
        return S.choice("%s kind %d" % (key, n), ["", None, 1, "x"])
    return S.str("%s %d" % (key, n), 1, "ab\"")


def visible(S, app, name, auth=None):
    reply = app("GET", "/" + name, auth=auth)
    if reply.status == 404:
        return None
    S.check(reply.status == 200, "user can be shown", lambda: str(reply.status))
    for secret in SECRETS:
        S.check(secret not in reply.body, "secrets aren't shown")
    return reply.json["result"]


SECRETS = [b"pwhash", b"pwsalt", b"$ideal", b"s3cret", b"password"]


def account(S, first, keys, second):
    """ what can be set when a user is created or modified """
    xom = index.setup(S)
    with xom.keyfs.write_transaction():
        xom.model.get_user("root").modify(password="rootpw")
        u = index.make_user(xom, "u", password="s3cret1")
        u.create_stage("i")
    app = App(S, xom)
    before_root = _stored(xom, "root")
    want = {}
    password = "s3cret1"
    target = "u"
    if first == "create":
        target = "n"
        doc = {}
        for key in S.choice("keys", keys):
            doc[key] = value(S, key, 0)
        has_password = S.choice("password", [None, "s3cret2", "none"])
        if has_password is not None:
            doc["password"] = None if has_password == "none" else has_password
        reply = app("PUT", "/n" + S.choice("slash", ["", "/"]), json=dict(doc))
        S.check(S.all([x not in reply.body for x in SECRETS[:4]]), "secrets aren't shown")
        if has_password is None:
            S.check(reply.status == 400, "a password is needed", lambda: str(reply.status))
        elif "unknown" in doc:
            S.check(reply.status == 400, "unknown settings are refused", lambda: str(reply.status))
        else:
            S.check(reply.status == 201, "user is created", lambda: str((reply.status, reply.body)))
        if reply.status != 201:
            S.check(_stored(xom, "n") is None, "no user is created")
            return
        for key in PUBLIC:
            if key in doc and doc[key]:
                want[key] = doc[key]
        password = doc["password"]
        indexes = {}
    else:
        indexes = _stored(xom, "u")["indexes"]
    config = _stored(xom, target)
    check_account(S, config, want, indexes)
    created = config.get("created")
    for n in range(1, second + 1):
        doc = {}
        for key in S.choice("keys %d" % n, keys):
            doc[key] = value(S, key, n)
        newpw = S.choice("password %d" % n, ["keep", "s3cret3"])
        if newpw != "keep":
            doc["password"] = newpw
        auth = S.choice("auth %d" % n, [(target, password), ("root", "rootpw")]) if password is not None else ("root", "rootpw")
        reply = app("PATCH", "/" + target, json=dict(doc), auth=auth)
        S.check(reply.status == 200, "user is modified", lambda: str((reply.status, reply.body)))
        S.check(S.all([x not in reply.body for x in SECRETS[:4]]), "secrets aren't shown")
        if newpw != "keep":
            password = newpw
            token = reply.json["result"]["password"]
            with xom.keyfs.read_transaction():
                S.check(app.policy.auth._get_auth_status(target, token)["status"] == "ok", "the new token is valid")
        for key in PUBLIC:
            if key in doc:
                if doc[key]:
                    want[key] = doc[key]
                else:
                    want.pop(key, None)
        config = _stored(xom, target)
        check_account(S, config, want, indexes)
        S.check(config.get("created") == created, "the creation date stays")
    S.check(_stored(xom, "root") == before_root, "other users aren't touched")
    for guess in ("s3cret1", "s3cret2", "s3cret3", ""):
        reply = app("POST", "/+login", json=dict(user=target, password=guess))
        S.check((reply.status == 200) == (guess == password), "only the last password is valid", lambda: repr((guess, password, reply.status)))
    shown = visible_stub(S, xom, target)
    S.check(set(shown) == {"username", "created", "indexes"} | set(want) | ({"modified"} if "modified" in shown else set()), "shown settings")
    S.check(shown["username"] == target, "shown name")


def visible_stub(S, xom, name):
    with xom.keyfs.read_transaction():
        return xom.model.get_user(name).get()


def check_account(S, config, want, indexes):
    S.check(S.eq(config["indexes"], indexes), "indexes can't be changed through the user", lambda: repr(config))
    S.check("username" not in config, "the name can't be set")
    S.check(config.get("created") != "1999" and config.get("modified") != "1999", "dates can't be set")
    for key in PUBLIC:
        S.check((key in config) == (key in want), "settings", lambda: repr((key, config, want)))
        if key in want:
            S.check(S.eq(config[key], want[key]), "value of a setting")


def _stored(xom, name):
    from devpi_server.readonly import get_mutable_deepcopy
    with xom.keyfs.read_transaction():
        user = xom.model.get_user(name)
        if user is None:
            return None
        return get_mutable_deepcopy(user.key.get())


def shown(S):
    """ no view shows passwords or hashes """
    xom = index.setup(S)
    with xom.keyfs.write_transaction():
        xom.model.get_user("root").modify(password="s3cret0")
        u = index.make_user(xom, "u", password="s3cret1")
        u.create_stage("i")
        if S.choice("old scheme", [False, True]):
            u._set(dict(pwsalt="s3cretsalt", pwhash="s3crethash"))
    app = App(S, xom)
    auth = S.choice("auth", [None, ("root", "s3cret0")])
    method, path, json = S.choice("request", [
        ("GET", "/", None), ("GET", "/u", None), ("GET", "/u/", None), ("GET", "/u/i", None), ("GET", "/root", None),
        ("GET", "/+api", None), ("GET", "/u/+api", None), ("GET", "/+status", None),
        ("PATCH", "/u", {"title": "x"}), ("PATCH", "/u/i", {"title": "x"}), ("DELETE", "/u", None),
        ("POST", "/+login", dict(user="u", password="wrong")), ("POST", "/+login", dict(user="root", password="s3cret0"))])
    reply = app(method, path, auth=auth, json=json)
    S.check(reply.status < 500, "no error", lambda: str((reply.status, reply.body)))
    for secret in (b"pwhash", b"pwsalt", b"$ideal", b"s3cret"):
        S.check(secret not in reply.body, "passwords and hashes aren't shown", lambda: repr(reply.body))
        S.check(all(secret.decode() not in v for v in reply.headers.values()), "nor in headers")


def deleted(S):
    """ a deleted user is gone with everything """
    xom = index.setup(S)
    with xom.keyfs.write_transaction():
        xom.model.get_user("root").modify(password="rootpw")
        index.make_user(xom, "u", password="s3cret1").create_stage("i")
        index.make_user(xom, "uu", password="s3cret1").create_stage("i")
    app = App(S, xom)
    token = app("POST", "/+login", json=dict(user="u", password="s3cret1")).json["result"]["password"]
    reply = app("DELETE", "/u", auth=("u", S.choice("auth", ["s3cret1", token])))
    S.check(reply.status == 200, "deleted")
    again = S.choice("again", [False, True])
    if again:
        reply = app("PUT", "/u", json=dict(password="s3cret2"))
        S.check(reply.status == 201, "name can be used again")
    with xom.keyfs.read_transaction():
        S.check(xom.model.get_usernames() == {"root", "uu"} | ({"u"} if again else set()), "users")
        S.check(xom.model.getstage("u/i") is None, "indexes of the user are gone")
        S.check(xom.model.getstage("uu/i") is not None, "indexes of others stay")
    reply = app("POST", "/+login", json=dict(user="u", password="s3cret1"))
    S.check(reply.status == 401, "the old password isn't valid anymore")
    if not again:
        reply = app("PUT", "/u/j", json={}, auth=("u", token))
        S.check(reply.status in (401, 403, 404), "the old token isn't valid anymore", lambda: str(reply.status))


def cases(tier):
    thorough = tier == "thorough"
    keys = [[], ["email"], ["indexes"], ["username", "title"], ["created"], ["modified"], ["unknown"], ["custom_data", "title"]]
    pkeys = [k for k in keys if k != ["unknown"]] + [["unknown"]]
    res = [
        Case("user names", names, kind="user", n=2, alphabet=None, bounds="names of two printable ASCII characters"),
        Case("one character", names, kind="user", n=1, alphabet=(0, 0x9f), bounds="names of one character below U+00A0"),
        Case("index names", names, kind="index", n=2, alphabet=None, bounds="names of two printable ASCII characters"),
        Case("create", account, first="create", keys=[k for k in keys if "username" not in k], second=0, bounds="all settings"),
        Case("modify", account, first="modify", keys=pkeys, second=1, bounds="all settings"),
        Case("create and modify", account, first="create", keys=[["email"]], second=1, bounds="two requests"),
        Case("shown", shown, bounds="all views which show users"),
        Case("deleted", deleted, bounds="delete and create again"),
    ]
    if thorough:
        res += [
            Case("longer user names", names, kind="user", n=4, alphabet=None, time_limit=300, bounds="names of four characters"),
            Case("longer index names", names, kind="index", n=4, alphabet=None, time_limit=300, bounds="names of four characters"),
            Case("two modifications", account, first="modify", keys=pkeys, second=2, time_limit=600, max_paths=100000, bounds="three requests"),
        ]
    return res
