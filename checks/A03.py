"""Who may do what with an index or a user."""
from checks import auth as h
from checks import index
from checks.app import App
from checks.app import upload_form
from symdev.harness import Case

ANON = ":ANONYMOUS:"
AUTH = ":AUTHENTICATED:"
PERMISSIONS = [
    "pkg_read", "upload", "pypi_submit", "toxresult_upload", "index_delete", "index_modify",
    "del_entry", "del_project", "del_verdata", "index_create",
    "user_login", "user_create", "user_modify", "user_delete"]


def entry(S, name, kinds):
    kind = S.choice(name + " kind", kinds)
    if kind == "user":
        return S.str(name, 1, "uvw")
    if kind == "group":
        return ":" + S.str(name, 1, "uvw")
    return dict(anonymous=ANON, authenticated=AUTH, owner="u", root="root")[kind]


def entries(S, name, n, kinds):
    return [entry(S, "%s %d" % (name, i), kinds) for i in range(n)]


def expected(permission, *, owner, context_user, config, restrict, pkg_read):
    """ list of principals, as documented """
    admins = ["root"] if restrict is None else list(restrict)
    owners = ["root", owner] if restrict is None else list(restrict)
    typ = config["type"]
    if permission == "pkg_read":
        return (list(pkg_read) if pkg_read is not None else [ANON]) + ["+replica"] + admins
    if permission in ("upload", "pypi_submit"):
        if typ == "other":
            return []
        return list(config.get("acl_upload", []))
    if permission == "toxresult_upload":
        if typ == "other":
            return []
        return list(config.get("acl_toxresult_upload", [ANON]))
    if permission == "index_modify":
        return [] if typ == "other" else owners
    if permission == "index_delete":
        return owners
    if permission in ("del_entry", "del_project", "del_verdata"):
        return [] if typ == "other" else list(config.get("acl_upload", [])) + owners
    if permission == "user_login":
        return [ANON]
    if permission == "user_create":
        return [ANON] if restrict is None else list(restrict)
    if permission in ("index_create", "user_modify"):
        return owners
    if permission == "user_delete":
        if restrict is None:
            return [] if context_user == "root" else owners
        return [x for x in restrict if not x == context_user]
    raise ValueError(permission)


def is_one_of(S, principals, name, groups):
    """ whether the identity has one of the principals """
    conds = []
    for p in principals:
        if p is ANON or p is AUTH:
            conds.append(p is ANON or name is not None)
            continue
        if name is not None:
            conds.append(S.eq(p, name))
            conds.extend([S.eq(p, ":" + g) for g in groups])
    return S.any(conds)


def permits(S, permissions, types, kinds, n, restricted, context_user="u", denials=False, reads=False):
    """ exactly the documented principals have a permission """
    from devpi_server.view_auth import CredentialsIdentity
    from devpi_server.view_auth import DevpiSecurityPolicy
    from devpi_server.view_auth import RootFactory
    xom = index.setup(S)
    permission = S.choice("permission", permissions)
    config = dict(type=S.choice("type", types), volatile=True)
    if config["type"] == "stage":
        config["bases"] = ()
    if config["type"] != "mirror":
        if permission == "toxresult_upload":
            config["acl_upload"] = [ANON]
            if S.choice("has acl_toxresult_upload", [True, False]):
                config["acl_toxresult_upload"] = entries(S, "toxresult", n, kinds)
        else:
            config["acl_toxresult_upload"] = [ANON]
            if S.choice("has acl_upload", [True, False]):
                config["acl_upload"] = entries(S, "upload", n, kinds)
    else:
        config["mirror_url"] = "http://localhost/"
    restrict = None
    if restricted:
        restrict = frozenset(entries(S, "restrict", restricted, ["user", "group"]))
    S.patch(xom.config, "restrict_modify", restrict)
    if reads:
        h.plugin1.pkg_read = entries(S, "read", S.choice("number of readers", [0, 1]), kinds) if S.choice("plugin for reading", [False, True]) else None
    who = S.choice("identity", ["anonymous", "root", "user"])
    name, groups = None, []
    if who == "root":
        name = "root"
    elif who == "user":
        name = S.str("name", 1, "uvw")
        groups = [S.str("group", 1, "uvw")][:S.choice("groups", [0, 1])]
    denied = None
    if denials:
        denied = (entry(S, "denied", ["user", "group", "anonymous", "authenticated"]), S.choice("denied permission", [permission, "other"]))
        from pyramid.authorization import Authenticated
        from pyramid.authorization import Everyone
        special = {ANON: Everyone, AUTH: Authenticated}
        p = denied[0]
        h.plugin1.denials = [(special[p] if p is ANON or p is AUTH else p, denied[1])]
    policy = DevpiSecurityPolicy(xom)
    with xom.keyfs.write_transaction():
        index.make_user(xom, "u")
        index.lazy_indexes(S, xom, {"u/i": lambda S, name: config})
        matchdict = dict(user=context_user)
        if context_user == "u":
            matchdict["index"] = "i"
        request = h.Request(xom, policy=policy, matchdict=matchdict)
        identity = CredentialsIdentity(name, groups) if name is not None else None
        S.patch(policy, "identity", lambda request: identity)
        got = policy.permits(request, RootFactory(request), permission)
    want = is_one_of(S, expected(
        permission, owner=context_user, context_user=context_user, config=config, restrict=restrict,
        pkg_read=h.plugin1.pkg_read), name, groups)
    if denied is not None and denied[1] == permission:
        want = S.all([want, S.not_(is_one_of(S, [denied[0]], name, groups))])
    S.check(S.iff(bool(got), want), "exactly the documented principals have the permission",
            lambda: repr((permission, name, groups, config, restrict, denied, bool(got))))


LINK = "u/i/+f/3bf/9f5b7a7d1a2f5/p-1.0.zip"

# action -> (permission, request)
ACTIONS = {
    "create index": ("index_create", lambda w: w("PUT", "/u/new", json={})),
    "modify index": ("index_modify", lambda w: w("PATCH", "/u/i", json={"title": "x"})),
    "modify index with a list": ("index_modify", lambda w: w("PATCH", "/u/i/", json=["title=x"])),
    "delete index": ("index_delete", lambda w: w("DELETE", "/u/i")),
    "delete index with slash": ("index_delete", lambda w: w("DELETE", "/u/i/")),
    "delete project": ("del_project", lambda w: w("DELETE", "/u/i/p")),
    "delete version": ("del_verdata", lambda w: w("DELETE", "/u/i/p/1.0")),
    "delete file": ("del_entry", lambda w: w("DELETE", w.link)),
    "upload": ("upload", lambda w: w("POST", "/u/i/", form=upload_form("p", "2.0", "p-2.0.zip", b"2"))),
    "upload docs": ("upload", lambda w: w("POST", "/u/i/", form=upload_form("p", "1.0", "p.zip", b"d", action="doc_upload"))),
    "register": ("upload", lambda w: w("POST", "/u/i/", form=upload_form("q", "1.0", action="submit"))),
    "upload without slash": ("upload", lambda w: w("POST", "/u/i", form=upload_form("p", "2.0", "p-2.0.zip", b"2"))),
    "test result": ("toxresult_upload", lambda w: w("POST", w.link, body=b"{}")),
    "modify user": ("user_modify", lambda w: w("PATCH", "/u", json={"title": "x"})),
    "delete user": ("user_delete", lambda w: w("DELETE", "/u/")),
    "create user": ("user_create", lambda w: w("PUT", "/n", json={"password": "x"})),
    "push": ("upload", lambda w: w("POST", "/v/j", json=dict(name="p", version="1.0", targetindex="u/i"))),
    "push back": ("push", lambda w: w("PUSH", "/u/i/", json=dict(name="p", version="1.0", targetindex="v/j"))),
    "download": ("pkg_read", lambda w: w("GET", w.link, accept="*/*")),
}


class World:
    def __init__(self, app, auth, link):
        self.app = app
        self.auth = auth
        self.link = "/" + link

    def __call__(self, *args, **kw):
        return self.app(*args, auth=self.auth, **kw)


def actions(S, names, who, restrict):
    """ requests without the permission are refused and change nothing """
    xom = index.setup(S)
    app = App(S, xom)
    S.patch(xom.config, "restrict_modify", restrict)
    who = S.choice("identity", who)
    auth, name, groups = dict(
        anonymous=(None, None, []),
        owner=(("u", "pw"), "u", []),
        other=(("v", "pw"), "v", []),
        group=(("w", "pw"), "w", ["g"]),
        root=(("root", "pw"), "root", []),
        wrong=(("u", "wrong"), None, []))[who]
    if groups:
        h.plugin1.request_answer = dict(status="ok", groups=groups)
    options = [[], ["u"], ["v"], [":g"], [ANON], [AUTH]]
    action = S.choice("action", names)
    permission, request = ACTIONS[action]
    config = dict(type="stage", acl_upload=["u"], acl_toxresult_upload=[ANON])
    if permission in ("upload", "push", "del_entry", "del_project", "del_verdata"):
        config["acl_upload"] = S.choice("acl_upload", options)
    if permission == "toxresult_upload":
        config["acl_toxresult_upload"] = S.choice("acl_toxresult_upload", options)
    if permission in ("pkg_read", "push"):
        h.plugin1.pkg_read = S.choice("readers", [None, [], ["v"], [":g"], [AUTH]])
    vconfig = dict(type="stage", acl_upload=["v"])
    with xom.keyfs.write_transaction():
        xom.model.get_user("root").modify(password="pw")
        u = index.make_user(xom, "u")
        u.create_stage("i", **config)
        v = index.make_user(xom, "v")
        v.create_stage("j", **vconfig)
        stage = xom.model.getstage("u/i")
        stage.set_versiondata(dict(name="p", version="1.0"))
        link = stage.store_releasefile("p", "1.0", "p-1.0.zip", b"1").entrypath
        stage = xom.model.getstage("v/j")
        stage.set_versiondata(dict(name="p", version="1.0"))
        stage.store_releasefile("p", "1.0", "p-1.0.zip", b"other")
    pkg_read = h.plugin1.pkg_read

    def has(permission, owner="u", config=config):
        return S.concrete(bool(is_one_of(S, expected(
            permission, owner=owner, context_user=owner, config=config, restrict=restrict, pkg_read=pkg_read), name, groups)))
    if permission == "push":
        want = has("upload", "v", vconfig) and has("pkg_read")
    else:
        want = has(permission)
    before = xom.keyfs.get_current_serial()
    reply = request(World(app, auth, link))
    after = xom.keyfs.get_current_serial()
    S.check((reply.status < 300) == want, "requests succeed exactly with the permission",
            lambda: repr((action, who, config, restrict, pkg_read, reply.status, reply.body[:300])))
    if not want:
        S.check(reply.status in (401, 403, 404), "refused", lambda: repr((action, who, reply.status)))
        S.check(after == before, "refused requests change nothing", lambda: repr((action, who)))
        if permission == "pkg_read":
            S.check(reply.body != b"1", "content isn't sent")
    elif permission == "pkg_read":
        S.check(reply.body == b"1", "content is sent")
    else:
        S.check(after == before + 1, "changes are committed", lambda: repr((action, who)))


KINDS = ["user", "group", "anonymous", "authenticated"]
EVERYBODY = ["anonymous", "wrong", "owner", "other", "group", "root"]


def cases(tier):
    thorough = tier == "thorough"
    index_permissions = PERMISSIONS[1:9]
    res = [
        Case("upload permissions", permits, permissions=["upload", "pypi_submit", "del_entry", "del_project", "del_verdata", "toxresult_upload"],
             types=["stage"], kinds=KINDS, n=1, restricted=0,
             bounds="one entry in each ACL, names of one character"),
        Case("upload permissions of two", permits, permissions=["upload", "del_entry"],
             types=["stage"], kinds=["user", "group"], n=2, restricted=0,
             bounds="two entries in each ACL"),
        Case("other index types", permits, permissions=PERMISSIONS, types=["mirror", "other"], kinds=["anonymous"], n=1, restricted=0,
             bounds="mirrors and indexes of a missing plugin"),
        Case("owner permissions", permits, permissions=["index_delete", "index_modify", "index_create", "user_modify", "user_delete", "user_create", "user_login"],
             types=["stage"], kinds=["user"], n=0, restricted=0, bounds="all identities"),
        Case("restricted", permits, permissions=PERMISSIONS, types=["stage"], kinds=["user"], n=1, restricted=1,
             bounds="one name in --restrict-modify"),
        Case("restricted to two", permits, permissions=PERMISSIONS[8:], types=["stage"], kinds=["user"], n=0, restricted=2,
             bounds="two names in --restrict-modify"),
        Case("root user", permits, permissions=PERMISSIONS[10:], types=["stage"], kinds=["user"], n=0, restricted=0, context_user="root",
             bounds="the root user as object"),
        Case("root user restricted", permits, permissions=PERMISSIONS[10:], types=["stage"], kinds=["user"], n=0, restricted=1, context_user="root",
             bounds="the root user as object, one name in --restrict-modify"),
        Case("read", permits, permissions=["pkg_read"], types=["stage", "mirror"], kinds=KINDS, n=0, restricted=0, reads=True,
             bounds="up to one reader from a plugin"),
        Case("read restricted", permits, permissions=["pkg_read"], types=["stage"], kinds=KINDS, n=0, restricted=1, reads=True,
             bounds="up to one reader from a plugin"),
        Case("denied", permits, permissions=["upload", "index_modify", "user_delete", "pkg_read"], types=["stage"], kinds=["user", "anonymous"], n=1, restricted=0,
             denials=True, bounds="one denial of a plugin"),
    ]
    if thorough:
        res += [
            Case("all permissions of two", permits, permissions=index_permissions, types=["stage"], kinds=KINDS, n=2, restricted=0,
                 time_limit=300, max_paths=100000, bounds="two entries in each ACL"),
            Case("all restricted to two", permits, permissions=PERMISSIONS, types=["stage"], kinds=KINDS, n=2, restricted=2,
                 time_limit=600, max_paths=100000, bounds="two entries in each ACL, two names in --restrict-modify"),
            Case("all denied", permits, permissions=PERMISSIONS, types=["stage"], kinds=KINDS, n=1, restricted=0,
                 denials=True, time_limit=300, max_paths=100000, bounds="one denial of a plugin"),
        ]
    groups = {"users": ["modify user", "delete user", "create user"],
              "indexes": ["create index", "modify index", "modify index with a list", "delete index", "delete index with slash"],
              "delete": ["delete project", "delete version", "delete file"],
              "uploads": ["upload", "upload docs", "register", "upload without slash"],
              "files": ["test result", "download"],
              "push": ["push", "push back"]}
    for g, names in groups.items():
        for restrict in (None, frozenset(["v"])):
            if restrict and g in ("uploads", "files", "push") and not thorough:
                continue
            res.append(Case("requests %s%s" % (g, " restricted" if restrict else ""), actions, names=names, who=EVERYBODY, restrict=restrict,
                            bounds="six identities, six ACLs"))
    return res
