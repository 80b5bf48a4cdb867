"""Files of mirrors are only stored if they are what the upstream announced."""
from checks import index
from checks import mirrorlib as m
from checks.app import App
from devpi_server import filestore
from symdev.harness import Case
import io

WANT = b"ab"
NAME = "p-1.0.zip"


class Broken(Exception):
    pass


class Raw:
    """ the body of an answer """

    def __init__(self, pieces, broken):
        self.pieces = list(pieces)
        self.broken = broken

    def read(self, n):
        if not self.pieces:
            if self.broken:
                raise OSError("connection lost")
            return b""
        return self.pieces.pop(0)


def announced(kind):
    """ hash specification of the link """
    if kind is None:
        return ""
    return "%s=%s" % (kind, filestore.get_hash_value(WANT, kind))


def make_link(S, xom, kind):
    from devpi_server.mirror import Link
    spec = announced(kind)
    link = Link("http://up/f/" + NAME + ("#" + spec if spec else ""))
    with xom.keyfs.write_transaction():
        entry = xom.filestore.maplink(link, "u", "m", "p")
        stage = xom.model.getstage("u/m")
        href = entry.relpath + ("#" + spec if spec else "")
        stage._save_cache_links("p", [(NAME, href)], [None], [None], 1, None)
        return entry.relpath


def body(S, n, size, plain):
    """ what the upstream sends """
    content = S.data("content %d" % n, 0, size)
    if plain:
        return content, [content] if len(content) else [], S.choice("connection lost %d" % n, [False, True]), None, {}
    pieces = S.choice("pieces %d" % n, [1, 2])
    if pieces == 2 and len(content) > 1:
        parts = [content[:1], content[1:]]
    else:
        parts = [content] if len(content) else []
    broken = S.choice("connection lost %d" % n, [False, True])
    headers = {}
    length = None
    if S.choice("length sent %d" % n, [False, True]):
        length = S.choice("length %d" % n, list(range(size + 2)))
        headers["content-length"] = str(length)
    if S.choice("last-modified sent %d" % n, [False, True]):
        headers["last-modified"] = "Mon, 01 Jan 2024 00:00:00 GMT"
    return content, parts, broken, length, headers


def answer(parts, broken, headers):
    def make(asked):
        res = m.Response(asked, 200, headers)
        res.raw = Raw(parts, broken)
        return res
    return make


def get(app, path, method="GET", **kw):
    """ status and content, or None if the connection fails """
    try:
        return app(method, "/" + path, accept="*/*", **kw)
    except (OSError, ValueError) as e:
        return e


def stored(xom, path):
    with xom.keyfs.read_transaction():
        entry = xom.filestore.get_file_entry(path)
        if not entry.file_exists():
            return None
        return entry.file_get_content()


def fetch(S, kinds, size, how, again, code=(200,), plain=False):
    xom = index.setup(S)
    m.make_mirror(S, xom, mirror_no_project_list=True)
    with xom.keyfs.write_transaction():
        xom.model.get_user("u").create_stage("i")
    up = m.Upstream(S, xom)
    app = App(S, xom)
    kind = S.choice("hash", kinds)
    path = make_link(S, xom, kind)
    current = None
    for n in range(again):
        if n and S.choice("remove %d" % n, [False, True]):
            # the administrator removes the file
            with xom.keyfs.write_transaction():
                xom.filestore.get_file_entry(path, readonly=False).file_delete()
            have = current
            current = None
        else:
            have = None
        S.check(S.eq(stored(xom, path), current), "the stored file")
        status = S.choice("status %d" % n, code)
        content, parts, broken, length, headers = body(S, n, size, plain)
        up.answers = [answer(parts, broken, headers) if status == 200 else m.status(status)]
        asked = len(up.requests)
        serial = xom.keyfs.get_current_serial()
        pushed_before = pushed(xom)
        request = S.choice("request %d" % n, how)
        if request == "push":
            reply = None
            try:
                reply = app("POST", "/u/m", json=dict(name="p", version="1.0", targetindex="u/i"), auth=("u", "pw"))
            except (OSError, ValueError):
                pass
        else:
            reply = get(app, path, request)
        failed = reply is None or isinstance(reply, Exception)
        if current is not None:
            S.check(len(up.requests) == asked, "stored files aren't requested again")
            if request == "GET":
                S.check(not failed and reply.status == 200 and reply.body == current, "stored files are served")
            elif request == "HEAD":
                S.check(not failed and reply.status == 200 and reply.headers["content-length"] == str(len(current)), "size of stored files")
            else:
                S.check(not failed and reply.status == 200, "stored files are pushed")
                S.check(pushed(xom) == current, "content of pushed files")
            continue
        S.check([x[0] for x in up.requests[asked:]] == ["http://up/f/" + NAME], "the file is requested once")
        if status != 200:
            S.check(not failed and reply.status == (404 if status == 404 and request != "push" else 502), "error", lambda: repr((status, reply.status)))
            S.check(stored(xom, path) is None, "nothing is stored without an answer")
            continue
        if request == "HEAD":
            S.check(not failed and reply.status == 200, "headers of the upstream")
            if length is not None:
                S.check(reply.headers["content-length"] == str(length), "length")
            S.check(stored(xom, path) is None, "nothing is stored by a HEAD request")
            if have is not None:
                return
            continue
        whole = not broken
        if length is not None:
            whole = S.all([whole, length == len(content)])
        if kind is not None:
            right = S.all([whole, content == WANT])
        else:
            right = whole
            if have is not None:
                # the hash is known since the first download
                right = S.all([whole, content == have])
        after = stored(xom, path)
        if right:
            S.check(not failed and reply.status == 200, "the file is delivered")
            if request != "push":
                S.check(reply.body == content, "content of the delivered file")
                if length is not None:
                    S.check(S.eq(int(reply.headers["content-length"]), length), "length of the delivered file")
            S.check(after is not None and S.eq(after, content), "the file is stored")
            with xom.keyfs.read_transaction():
                entry = xom.filestore.get_file_entry(path)
                S.check(entry.validate() is None, "checksum of the stored file")
                S.check(entry.best_available_hash_spec == (announced(kind) if kind else "sha256=" + filestore.get_hash_value(content, "sha256")),
                        "hash of the file")
                if have is None and "last-modified" in headers:
                    S.check(entry.last_modified == headers["last-modified"], "modification time")
                S.check("p" in xom.model.getstage("u/m").key_projects.get(), "the project is known")
                S.check(entry.url == "http://up/f/" + NAME, "url of the file is kept")
            current = after
        else:
            if request == "push":
                S.check(failed or reply.status >= 400, "broken files aren't pushed")
                S.check(pushed(xom) == pushed_before, "broken files aren't pushed")
            else:
                S.check(failed or reply.status >= 400, "a broken download isn't delivered as a whole",
                        lambda: repr((content, length, broken, reply.status, reply.body)))
            S.check(after is None, "broken files aren't stored")
            if have is None:
                with xom.keyfs.read_transaction():
                    entry = xom.filestore.get_file_entry(path)
                    S.check((entry.best_available_hash_spec or "") == announced(kind), "the hash stays", lambda: repr(entry.meta))
                S.check(xom.keyfs.get_current_serial() == serial, "nothing is committed")


def pushed(xom):
    with xom.keyfs.read_transaction():
        stage = xom.model.getstage("u/i")
        for link in stage.get_releaselinks("p"):
            return link.entry.file_get_content()


def cases(tier):
    res = [
        Case("get", fetch, kinds=["sha256", None], size=3, how=["GET"], again=1, bounds="contents up to three bytes in two pieces"),
        Case("get other hashes", fetch, kinds=["md5", "sha512"], size=2, how=["GET"], again=1, bounds="contents up to two bytes in two pieces"),
        Case("get twice", fetch, kinds=["sha256", None], size=2, how=["GET"], again=2, plain=True, bounds="two requests"),
        Case("push twice", fetch, kinds=["sha256", "md5"], size=2, how=["GET", "push"], again=2, plain=True, bounds="two requests, also pushes"),
        Case("head", fetch, kinds=["sha256"], size=2, how=["HEAD"], again=1, bounds="a HEAD request"),
        Case("errors", fetch, kinds=["sha256", None], size=0, how=["GET", "HEAD", "push"], again=1, code=(404, 500, -1, 304), bounds="errors of the upstream"),
        Case("push", fetch, kinds=["sha256", None], size=2, how=["push"], again=1, bounds="a push from the mirror"),
    ]
    if tier == "thorough":
        res += [
            Case("mixed", fetch, kinds=["sha256", "md5", None], size=2, how=["GET", "HEAD", "push"], again=2, code=(200, 404), time_limit=600,
                 max_paths=1000000, bounds="two requests of all kinds"),
        ]
    return res


ASSUMPTIONS = ["hashes are ideal: only the same content has the same hash"]
