"""Creating and modifying indexes changes the given settings, and only these."""
from checks import auth as h
from checks import index
from checks.app import App
from devpi_server.model import ACLList
from symdev.harness import Case

BAD = object()


def split(text):
    """ items of a comma separated text """
    items = []
    current = ""
    for c in text:
        if c == ",":
            items.append(current)
            current = ""
        else:
            current = current + c
    items.append(current)
    result = []
    for item in items:
        while item and item[0] == " ":
            item = item[1:]
        while item and item[-1] == " ":
            item = item[:-1]
        if item:
            result.append(item)
    return result


SPECIAL = [":ANONYMOUS:", ":AUTHENTICATED:", ":anonymous:", ":Authenticated:"]


def acl(items):
    return [x.upper() if type(x) is str and x in SPECIAL else x for x in items]


def canonical(c):
    return {"A": "a", "_": "-"}.get(c, c)


BOOLS = [(True, True), (False, False), ("yes", True), ("No", False), ("true", True), ("FALSE", False), ("maybe", BAD), (1, BAD), ("", BAD)]


def setting(S, key, n, plain=False):
    """ a value and what should be stored for it """
    name = "%s %d" % (key, n)
    if key in ("volatile", "plug_flag", "mirror_no_project_list", "mirror_use_external_urls"):
        return S.choice(name, BOOLS)
    if key in ("acl_upload", "acl_toxresult_upload", "plug_acl", "plug_list"):
        kind = S.choice(name + " kind", ["text"] if plain else ["text", "list", "special", "number"])
        if kind == "text":
            text = S.str(name, 2 if plain else 3, "a," if plain else "a, ")
            return (text, split(text))
        if kind == "list":
            items = [S.str(name, 2, "ab, ")]
            return (list(items), list(items))
        if kind == "special":
            item = S.choice(name, SPECIAL)
            return (item, [item] if key == "plug_list" else acl([item]))
        return (5, BAD)
    if key == "bases":
        return S.choice(name, [
            ("u/b", ("u/b",)), (["u/b", "u/c"], ("u/b", "u/c")), ("u/c,u/b", ("u/c", "u/b")), ("", ()), ([], ()),
            ("u/none", BAD), ("x/b", BAD), ("u", BAD), ("u/b/c", BAD), (["u/b", "u/none"], BAD), (5, BAD)])
    if key == "mirror_whitelist":
        item = S.str(name, 1, "*aA_")
        return (S.choice(name + " kind", [[item], item]), ["".join([canonical(c) for c in item])])
    if key == "mirror_whitelist_inheritance":
        return S.choice(name, [("union", "union"), ("Intersection", "intersection"), ("other", BAD)])
    if key == "mirror_cache_expiry":
        return S.choice(name, [(5, 5), ("7", 7), ("x", BAD), ("1.5", BAD)])
    if key == "mirror_url":
        return S.choice(name, [("http://a/", "http://a/"), ("https://a/", "https://a/"), ("ftp://a/", BAD), ("/a", BAD), ("xhttp://", BAD)])
    if key == "type":
        return S.choice(name, [("mirror", BAD), ("stage", BAD), ("none", BAD)])
    if key == "unknown":
        return ("x", BAD)
    if key == "projects":
        return (["p"], None)
    if key in ("title", "description", "custom_data", "mirror_web_url_fmt"):
        value = S.str(name, 2, "a\" ")
        return (value, value)
    raise ValueError(key)


def defaults(kind, plugin):
    if kind == "mirror":
        res = dict(type="mirror", volatile=True)
    else:
        res = dict(
            type="stage", volatile=True, acl_upload=["u"], acl_toxresult_upload=[":ANONYMOUS:"], bases=(),
            mirror_whitelist=[], mirror_whitelist_inheritance="intersection")
    if plugin:
        res.update(plug_flag=True, plug_list=["x"], plug_acl=["y"], plug_text="z")
    return res


def stored(xom, name="i"):
    from devpi_server.readonly import get_mutable_deepcopy
    with xom.keyfs.read_transaction():
        return get_mutable_deepcopy(xom.model.get_user("u").key.get()["indexes"]).get(name)


def configure(S, kind, create, modify, style, plugin, plain=False):
    xom = index.setup(S)
    with xom.keyfs.write_transaction():
        u = index.make_user(xom, "u")
        u.create_stage("b")
        u.create_stage("c")
    app = App(S, xom)
    if plugin:
        h.plugin1.defaults = dict(plug_flag=True, plug_list=["x"], plug_acl=ACLList(["y"]), plug_text="z")
    auth = ("u", "pw")
    others = (stored(xom, "b"), stored(xom, "c"))
    want = defaults(kind, plugin)
    doc = {"type": kind} if kind != "stage" else {}
    bad = False
    for key in S.choice("settings", create):
        doc[key], value = setting(S, key, 0, plain)
        if key == "type":
            bad = doc[key] == "none"
            if doc[key] == "mirror":
                want = defaults("mirror", plugin)
        elif value is BAD:
            bad = True
        elif value is not None:
            want[key] = value
    reply = app("PUT", "/u/i", json=dict(doc), auth=auth)
    if bad:
        S.check(reply.status == 400, "wrong settings are refused", lambda: str((doc, reply.status, reply.body)))
        S.check(stored(xom) is None, "no index is created")
        return
    S.check(reply.status == 200, "index is created", lambda: str((doc, reply.status, reply.body)))
    config = stored(xom)
    S.check(S.eq(config, want), "configuration of a new index", lambda: repr((config, want)))
    for n, keys in enumerate(modify, 1):
        old = dict(want)
        bad = False
        doc = {}
        if style == "dict":
            for key in S.choice("settings %d" % n, keys):
                doc[key], value = setting(S, key, n, plain)
                if key == "type":
                    bad = doc[key] != want["type"]
                elif value is BAD:
                    bad = True
                elif value is not None:
                    want[key] = value
        else:
            doc = []
            assigned = set()
            dropped = set()
            for i, key in enumerate(S.choice("settings %d" % n, keys)):
                item, bad1 = action(S, key, want, "%d %d" % (n, i), assigned, dropped)
                doc.append(item)
                bad = bad or bad1
            bad = bad or bool(dropped)
        before = xom.keyfs.get_current_serial()
        reply = app("PATCH", S.choice("path %d" % n, ["/u/i", "/u/i/"]), json=doc, auth=auth)
        config = stored(xom)
        if bad:
            want = old
            S.check(reply.status == 400, "wrong settings are refused", lambda: str((doc, reply.status, reply.body)))
            S.check(xom.keyfs.get_current_serial() == before, "refused changes change nothing")
        else:
            S.check(reply.status == 200, "index is modified", lambda: str((doc, reply.status, reply.body)))
        S.check(S.eq(config, want), "configuration of a modified index", lambda: repr((doc, config, want)))
    S.check((stored(xom, "b"), stored(xom, "c")) == others, "other indexes stay")


def action(S, key, want, n, assigned, dropped):
    """ an item of a list of changes, applied to `want` """
    op = S.choice("op " + n, ["=", "+=", "-=", "drop"])
    if op == "drop":
        if key in defaults("stage", False) or (key in want and key.startswith("plug_") and key != "plug_text"):
            # only an error if there is no new value
            assigned.add(key)
            dropped.add(key)
            return (key + "-=", False)
        if key == "plug_text":
            want.pop(key)
            return (key + "-=", False)
        want.pop(key, None)
        return (key + "-=", False)
    if key != "title" and op != "=" and key in assigned:
        # the new value is a text in that case
        return (key + op + "u/b", True)
    if op == "=":
        assigned.add(key)
        dropped.discard(key)
    if key in ("acl_upload", "mirror_whitelist", "plug_acl"):
        item = S.str("value " + n, 1, "au")
        if op == "=":
            want[key] = [item]
            return (key + "=" + item, False)
        if op == "+=":
            if not any([item == x for x in want[key]]):
                want[key] = want[key] + [item]
            return (key + "+=" + item, False)
        if not any([item == x for x in want[key]]):
            return (key + "-=" + item, True)
        want[key] = [x for x in want[key] if not x == item]
        return (key + "-=" + item, False)
    if key == "bases":
        item = S.choice("value " + n, ["u/b", "u/c"])
        if op == "=":
            want[key] = (item,)
            return (key + "=" + item, False)
        if op == "+=":
            if item not in want[key]:
                want[key] = want[key] + (item,)
            return (key + "+=" + item, False)
        if item not in want[key]:
            return (key + "-=" + item, True)
        want[key] = tuple([x for x in want[key] if x != item])
        return (key + "-=" + item, False)
    if key == "title":
        if op == "=":
            item = S.choice("value " + n, ["a", "a=b", "x+=y"])
            want[key] = item
            return (key + "=" + item, False)
        return (key + op + "a", True)
    raise ValueError(key)


STAGE = ["volatile", "acl_upload", "acl_toxresult_upload", "bases", "mirror_whitelist", "mirror_whitelist_inheritance",
         "title", "unknown", "projects"]
MIRROR = ["volatile", "mirror_url", "mirror_cache_expiry", "mirror_no_project_list", "mirror_use_external_urls",
          "mirror_web_url_fmt", "title", "unknown"]
PLUGIN = ["plug_flag", "plug_list", "plug_acl"]
LISTS = ["acl_upload", "mirror_whitelist", "bases", "title"]


def one(keys):
    return [[k] for k in keys]


def cases(tier):
    res = [
        Case("create", configure, kind="stage", create=one(STAGE + ["type"]), modify=[], style="dict", plugin=False,
             bounds="one setting of each kind, texts of three characters"),
        Case("create mirror", configure, kind="mirror", create=one(MIRROR), modify=[], style="dict", plugin=False,
             bounds="one setting of each kind"),
        Case("create with plugin", configure, kind="stage", create=one(PLUGIN), modify=[], style="dict", plugin=True,
             bounds="one setting of each kind of a plugin"),
        Case("modify", configure, kind="stage", create=[["title"]], modify=[one(STAGE + ["type"])], style="dict", plugin=False,
             bounds="one modified setting of each kind"),
        Case("modify mirror", configure, kind="mirror", create=[["mirror_cache_expiry"]], modify=[one(MIRROR + ["type"])], style="dict", plugin=False,
             bounds="one modified setting of each kind"),
        Case("modify with plugin", configure, kind="stage", create=[["plug_flag"], ["plug_acl"]], modify=[[["title"], ["plug_list"], ["volatile"]]], plain=True,
             style="dict", plugin=True, bounds="settings of a plugin"),
        Case("modify with list", configure, kind="stage", create=[["title"]], modify=[one(LISTS)], style="list", plugin=False,
             bounds="one change"),
        Case("modify twice with list", configure, kind="stage", create=[[]], modify=[[["acl_upload", "bases"], ["bases", "bases"], ["acl_upload", "acl_upload"]]],
             style="list", plugin=False, bounds="two changes in one request"),
        Case("modify plugin with list", configure, kind="stage", create=[["plug_acl"]], modify=[one(["plug_acl", "title"])], plain=True,
             style="list", plugin=True, bounds="one change"),
    ]
    if tier == "thorough":
        res += [
            Case("modify two", configure, kind="stage", create=[[]], modify=[[[a, b] for a in STAGE for b in ("acl_upload", "bases")]], style="dict", plugin=False,
                 time_limit=300, max_paths=100000, bounds="two modified settings"),
            Case("two requests", configure, kind="stage", create=[[]], modify=[one(LISTS), one(LISTS)], style="list", plugin=True,
                 time_limit=500, max_paths=100000, bounds="two requests with one change"),
            Case("two dicts", configure, kind="stage", create=[[]], modify=[one(STAGE), one(STAGE)], style="dict", plugin=True,
                 time_limit=500, max_paths=100000, bounds="two requests with one setting"),
        ]
    return res
