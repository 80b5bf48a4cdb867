"""Files of non-volatile indexes stay as they are."""
from checks import index
from checks.app import App
from checks.app import upload_form
from symdev.harness import Case
import re

CONTENTS = [b"original", b"other"]
FILE = "p-1.0.zip"


class World:
    def __init__(self, S, xom, who):
        self.S = S
        self.xom = xom
        self.app = App(S, xom)
        self.auth = (who, "pw")
        self.docs = None

    def __call__(self, *args, **kw):
        return self.app(*args, auth=self.auth, **kw)


def upload(S, w, n):
    """ (name, version, filename) in several spellings """
    name = S.choice("name %d" % n, ["p", "P"])
    version, filename = S.choice("version %d" % n, [("1.0", FILE), ("1", FILE), ("1.0", "p-1.0.tar.gz"), ("1.0", "P-1.0.zip")])
    c = S.choice("content %d" % n, [0, 1])
    reply = w("POST", S.choice("path %d" % n, ["/u/i/", "/u/i"]), form=upload_form(name, version, filename, CONTENTS[c]))
    if filename == FILE:
        if c == 0:
            # identical content isn't a conflict
            S.check(reply.status == 200, "upload of the identical file is accepted", lambda: str(reply.status))
        else:
            S.check(reply.status == 409, "upload of a different file is a conflict", lambda: str(reply.status))
    return False


def upload_docs(S, w, n):
    version = S.choice("version %d" % n, ["1.0", "", None])
    c = S.choice("content %d" % n, [0, 1])
    reply = w("POST", "/u/i/", form=upload_form("p", version, "x.zip", CONTENTS[c], action="doc_upload"))
    if version == "":
        S.check(reply.status == 400, "empty versions are no valid metadata", lambda: str(reply.status))
    else:
        S.check(reply.status == (200 if c == 0 else 409), "upload of documentation again", lambda: str(reply.status))
    return False


def register(S, w, n):
    reply = w("POST", "/u/i/", form=upload_form("P", "1.0", action="submit", summary="new"))
    S.check(reply.status == 200, "register")
    return False


def push(S, w, n):
    options = S.choice("options %d" % n, [{}, {"no_docs": True}, {"only_docs": True}])
    c = S.choice("pushed content %d" % n, [0, 1])
    with w.xom.keyfs.write_transaction():
        stage = w.xom.model.getstage("v/j")
        stage.set_versiondata(dict(name="p", version="1.0"))
        stage.store_releasefile("p", "1.0", FILE, CONTENTS[c])
        stage.store_doczip("p", "1.0", CONTENTS[c])
    reply = w("POST", "/v/j", json=dict(name="p", version="1.0", targetindex="u/i", **options))
    S.check(reply.status == 409, "push of an existing file is a conflict", lambda: str((reply.status, reply.body)))
    return False


def delete(S, w, n):
    force = S.choice("force %d" % n, [False, True])
    what = S.choice("delete %d" % n, ["file", "version", "project", "index", "user"])
    path = dict(file="/" + w.link, version="/u/i/p/1.0", project="/u/i/P", index="/u/i", user="/u")[what]
    reply = w("DELETE", path + ("?force" if force else ""))
    if force and what in ("file", "version", "project"):
        S.check(reply.status == 200, "forced", lambda: str((what, reply.status)))
        return True
    S.check(reply.status == 403, "deleting from a non-volatile index is refused", lambda: str((what, reply.status)))
    return False


def create(S, w, n):
    what = S.choice("create %d" % n, ["index", "user"])
    reply = w("PUT", "/u/i" if what == "index" else "/u", json={"password": "pw", "volatile": True} if what == "user" else {"volatile": True})
    S.check(reply.status == 409, "can't be created again", lambda: str(reply.status))
    return False


def modify(S, w, n):
    change = S.choice("change %d" % n, [
        {"title": "x"}, {"acl_upload": ["u", "v", "root"]}, ["title=x"], {"bases": "v/j"}, {"volatile": False}, {"mirror_whitelist": "*"},
        {"type": "mirror"}, ["volatile-="], {"type": "mirror", "volatile": True}, {"projects": [], "volatile": "no"},
        {"acl_upload": "v", "unknown": 1, "volatile": True}])
    reply = w("PATCH", "/u/i", json=change)
    bad = isinstance(change, dict) and (change.get("type") == "mirror" or "unknown" in change) or change == ["volatile-="]
    S.check((reply.status == 400) if bad else (reply.status == 200), "modification", lambda: str((change, reply.status)))
    return False


ACTIONS = dict(upload=upload, docs=upload_docs, register=register, push=push, delete=delete, create=create, modify=modify)


def unchanged(S, w):
    reply = w("GET", "/" + w.link, accept="*/*")
    S.check(reply.status == 200 and reply.body == CONTENTS[0], "the file is still served with its content", lambda: str(reply.status))
    reply = w("GET", "/u/i/+simple/p/", accept="text/html")
    hrefs = re.findall(r'href="([^"]+)"', reply.body.decode())
    mine = [x for x in hrefs if x.split("#")[0].rsplit("/", 1)[1] == FILE]
    S.check(len(mine) == 1 and w.hash_spec in mine[0], "the only link with this name on the simple page", lambda: repr(hrefs))
    with w.xom.keyfs.read_transaction():
        stage = w.xom.model.getstage("u/i")
        store = stage.get_linkstore_perstage("p", "1.0")
        docs, = store.get_links(rel="doczip")
        S.check(docs.entry.file_get_content() == CONTENTS[0], "documentation is kept")
        tox, = store.get_links(rel="toxresult")
        S.check(tox.entry.file_get_content() == b"{}", "test results are kept")
        S.check(not stage.ixconfig["volatile"], "the index is still not volatile")


def history(S, steps, who):
    xom = index.setup(S)
    who = S.choice("who", who)
    w = World(S, xom, who)
    with xom.keyfs.write_transaction():
        xom.model.get_user("root").modify(password="pw")
        u = index.make_user(xom, "u")
        stage = u.create_stage("i", volatile=False, acl_upload=["u", "root"])
        v = index.make_user(xom, "v")
        v.create_stage("j")
        stage.set_versiondata(dict(name="p", version="1.0", metadata_version="1.0"))
        link = stage.store_releasefile("p", "1.0", FILE, CONTENTS[0])
        w.link = link.entrypath
        w.hash_spec = link.best_available_hash_spec
        stage.store_toxresult(link, b"{}", filename="tox")
        stage.store_doczip("p", "1.0", CONTENTS[0])
    for n, names in enumerate(steps):
        name = S.choice("request %d" % n, names)
        if ACTIONS[name](S, w, n):
            return
        unchanged(S, w)


def cases(tier):
    both = ["u", "root"]
    ALL = sorted(ACTIONS)
    res = [
        Case("uploads", history, steps=[["upload"]], who=both, bounds="one upload of several spellings"),
        Case("docs and pushes", history, steps=[["docs", "push", "register"]], who=both, bounds="one request"),
        Case("deletes", history, steps=[["delete", "create"]], who=both, bounds="one request"),
        Case("modify", history, steps=[["modify"], ["upload", "delete"]], who=["u"], time_limit=100, bounds="a modification and an upload or delete"),
        Case("two deletes", history, steps=[["delete"], ["delete", "docs"]], who=["u"], time_limit=100, bounds="two requests"),
        Case("upload and delete", history, steps=[["register", "docs"], ["upload", "push"]], who=["u"], time_limit=100, bounds="two requests"),
    ]
    if tier == "thorough":
        res += [
            Case("all of " + a, history, steps=[[a], ALL], who=both, time_limit=300, max_paths=100000, bounds="two requests")
            for a in ALL]
    return res
