"""Documentation is unpacked and served inside of its own folder only."""
from checks import index
from checks import webdocs as w
from checks.app import App
from checks.app import upload_form
from checks.common import run_events
from devpi_common import archive
from symdev.env import reopen
from symdev.harness import Case
import io
import os
import zipfile

ALPHABET = "./a\\"


def setup(S, *opts):
    import devpi_web.main
    xom = index.setup(S, opts=("--indexer-backend", "null", *opts), more=(devpi_web.main,))
    with xom.keyfs.write_transaction():
        index.make_user(xom).create_stage("i", volatile=True)
    return xom


# -- unpacking

def extract(S, kind, n, members):
    """ all what is written is below the given folder """
    names = []
    for i in range(members):
        names.append((S.text("name %d" % i, 1, n, ALPHABET), b"content %d" % i))
    base = S.choice("folder", ["/x/y", "x", "/a", "/x/../a"])
    inside = w.canonical(base)
    rec = w.Recorder(inside)
    S.patch(archive, "Path", w.path_class(S, rec))
    if kind == "zip":
        S.patch(archive, "zipfile", w.Namespace(archive.zipfile, ZipFile=lambda f: w.FakeZip(names, rec)))
        arch = archive.ZipArchive(io.BytesIO())
    else:
        tarfile = archive.tarfile
        fake = w.Namespace(tarfile, open=lambda mode, fileobj: w.FakeTar(names, rec))
        if S.choice("old Python", [False, True]):
            # without extraction filters
            class Old(w.Namespace):
                @property
                def data_filter(self):
                    raise AttributeError("data_filter")
            fake = Old(tarfile, open=fake.open)
            fake._module = None
        S.patch(archive, "tarfile", fake)
        arch = archive.TarArchive(io.BytesIO())
    how, res = S.attempt(arch.extract, base, excs=(ValueError, OSError))
    for path, isdir in rec.all():
        path = w.canonical(path)
        if isdir and (path == "." or (inside + "/").startswith(path.rstrip("/") + "/")):
            # the folder itself is created
            continue
        S.check(path.startswith(inside + "/"), "nothing is written outside of the folder",
                lambda: "%r is written for the members %r of an archive" % (path, [x[0] for x in names]))
    simple = S.all([S.all([c != "." and c != ".." for c in x.split("/")]) for x, _ in names])
    clean = S.all([S.not_(x.startswith("/")) for x, _ in names])
    if members == 2:
        clean = S.all([clean, names[0][0].strip("/") != names[1][0].strip("/")])
    if simple and clean:
        S.check(how == "ok", "archives without strange names can be unpacked")
        for x, content in names:
            if not x.endswith("/"):
                S.check(any([w.canonical(p) == w.canonical(inside + "/" + x) and b"".join(c) == content for p, c in rec.files]),
                        "each file is unpacked")


# -- serving

FILES = {"index.html": b"<html>docs</html>", "a": b"doc a", "aa/a": b"doc aa"}


def doczip(files):
    f = io.BytesIO()
    with zipfile.ZipFile(f, "w") as z:
        for name, content in sorted(files.items()):
            z.writestr(name, content)
    return f.getvalue()


def upload(app, version, content, **kw):
    reply = app("POST", "/u/i", auth=("u", "pw"), form=upload_form("p", version, action="submit", **kw))
    if reply.status != 200:
        return reply
    return app("POST", "/u/i", auth=("u", "pw"), form=upload_form("p", version, "p.zip", content, action="doc_upload"))


class Match:
    """ a route of the URL, with the given relative path """

    def __init__(self, mapper):
        self.mapper = mapper

    def __call__(self, request):
        info = self.mapper(request)
        if info["match"] is not None:
            info["match"].update(request.environ.get("symdev.match", {}))
        return info

    def __getattr__(self, name):
        return getattr(self.mapper, name)


def serving(S, xom, app):
    """ files the solver decides about """
    import devpi_web.views
    import py
    local_module = __import__("py._path.local", fromlist=["local"])
    root = xom.config.server_path
    outside = str(root)

    def find(path):
        found = w.real_file(outside, path)
        if found is None:
            raise FileNotFoundError(2, "No such file")
        return found

    class OS(w.Namespace):
        def stat(self, path):
            return os.stat(find(path))

        def lstat(self, path):
            return os.lstat(find(path))
    S.patch(local_module, "os", OS(os))
    S.patch(devpi_web.views, "mimetypes", w.Namespace(
        devpi_web.views.mimetypes, guess_type=lambda *args, **kw: ("text/html", None)))
    from pyramid.response import Response

    def file_response(path, *args, **kw):
        with open(find(path), "rb") as f:
            return Response(body=f.read())
    S.patch(devpi_web.views, "FileResponse", file_response)
    router = app.app
    while not hasattr(router, "routes_mapper"):
        router = router.app
    router.routes_mapper = Match(router.routes_mapper)


def no_templates(S):
    """ pages aren't rendered """
    import devpi_web.main
    S.patch(devpi_web.main.ThemeChameleonRendererLookup, "__call__", lambda self, info: lambda value, system: "page")


def serve(S, n, packed):
    """ only files of the uploaded archive are delivered """
    xom = setup(S, *(["--keep-docs-packed"] if packed else []))
    no_templates(S)
    app = App(S, xom)
    serving(S, xom, app)
    if packed:
        S.patch(archive, "zipfile", w.Namespace(archive.zipfile, ZipFile=w.SymZip))
    S.check(upload(app, "1.0", doczip(FILES)).status == 200, "upload")
    base = str(xom.config.server_path)
    for path in ("u/i/p/1.0", "u/i/p", "u/i", "u", "", "u/i/p/1.0/a+doc"):
        # other files of the server
        os.makedirs(os.path.join(base, path), exist_ok=True)
        with open(os.path.join(base, path, "a"), "w") as f:
            f.write("secret")
    if S.choice("unpacked before", [False, True]):
        reply = app("GET", "/u/i/p/1.0/+doc/index.html", accept="*/*")
        S.check(reply.status == 200, "documentation is found", lambda: repr(reply.body)[:3000])
    relpath = S.text("relpath", 1, n, "./a+")
    app.extra["symdev.match"] = dict(relpath=relpath)
    view = S.choice("view", ["+doc"])
    try:
        reply = app("GET", "/u/i/p/1.0/%s/x" % view, accept="*/*")
    finally:
        app.extra.clear()
    S.check(reply.status in (200, 404), "found or not")
    if reply.status == 200:
        S.check(reply.body in FILES.values(), "only documentation is delivered", lambda: repr((relpath, reply.body)))
        S.check(S.any([S.all([w.canonical(relpath.strip("/")) == name, reply.body == content]) for name, content in FILES.items()]),
                "the content of the requested file")
    if S.any([relpath == name for name in FILES]):
        S.check(reply.status == 200, "each file of the documentation is delivered")


# -- changes

PAGES = {
    "A": {"index.html": b"index A", "a.html": b"page A"},
    "B": {"b.html": b"page B", "index.html": b"index B"},
}
PATHS = ["index.html", "a.html", "b.html"]


def content_of(kind):
    if kind in PAGES:
        return doczip(PAGES[kind])
    if kind == "outside":
        return doczip({"index.html": b"bad", "../../../evil.html": b"bad"})
    return b"no archive"


class Disk:
    """ writing fails at some file """
    fails_at = None


def faulty_path(disk):
    import pathlib

    class FaultyPath(pathlib.PosixPath):
        def open(self, mode="r", *args, **kw):
            if disk.fails_at is not None and "w" in mode:
                disk.fails_at -= 1
                if disk.fails_at < 0:
                    disk.fails_at = None
                    raise OSError(28, "No space left on device")
            return super().open(mode, *args, **kw)
    return FaultyPath


def page(app, path):
    try:
        return app("GET", "/u/i/p/1.0/+doc/" + path, accept="*/*")
    except Exception as e:
        if type(e).__module__.startswith("symdev"):
            raise
        return e


def history(S, steps, packed=False):
    """ the delivered documentation is that of the current archive """
    xom = setup(S, *(["--keep-docs-packed"] if packed else []))
    no_templates(S)
    app = App(S, xom)
    disk = Disk()
    S.patch(archive, "Path", faulty_path(disk))
    current = "A"
    S.check(upload(app, "1.0", content_of(current)).status == 200, "upload")
    if not packed:
        S.check(page(app, "index.html").status == 200, "unpacked")
    for n in range(steps):
        op = S.choice("operation %d" % n, ["get", "upload", "delete", "events", "restart"])
        if op == "upload":
            current = S.choice("archive %d" % n, ["A", "B", "outside", "other"])
            S.check(upload(app, "1.0", content_of(current)).status == 200, "upload")
        elif op == "delete":
            reply = app("DELETE", "/u/i/p/1.0", auth=("u", "pw"))
            S.check(reply.status == (200 if current else 404), "deletion")
            current = None
        elif op == "events":
            run_events(S, xom)
        elif op == "restart":
            xom = reopen(S, xom)
            app = App(S, xom)
        else:
            failing = S.choice("disk %d" % n, [None, 0, 1])
            disk.fails_at = failing
            reply = page(app, "index.html")
            if isinstance(reply, Exception):
                # can't be unpacked
                S.check(current in ("outside", "other") or failing is not None, "documentation can be unpacked", lambda: repr(reply))
            disk.fails_at = None
    for path in PATHS:
        reply = page(app, path)
        if current in PAGES:
            S.check(not isinstance(reply, Exception), "documentation can be unpacked", lambda: repr(reply))
            expected = PAGES[current].get(path)
            if expected is None:
                S.check(reply.status == 404, "only pages of the current archive", lambda: repr((path, reply.status, reply.body)))
            else:
                S.check(reply.status == 200 and reply.body == expected, "pages of the current archive",
                        lambda: repr((path, reply.status, reply.body)))
        else:
            S.check(isinstance(reply, Exception) or reply.status >= 400 or (current == "outside" and packed),
                    "pages without an archive", lambda: repr((path, reply.status, reply.body)))
    S.check(not os.path.exists(os.path.join(str(xom.config.server_path), "u", "evil.html")), "nothing is written elsewhere")


def versions(S, n):
    """ documentation of different versions doesn't interfere """
    from devpi_web.doczip import get_unpack_path
    xom = setup(S)
    names = []
    paths = []
    with xom.keyfs.write_transaction():
        for i in range(2):
            stage = xom.model.getstage("u/i")
            version = S.text("version %d" % i, 1, n, "./+a")
            kind, res = S.attempt(stage.set_versiondata, dict(name="p", version=version), excs=(ValueError,))
            if kind != "ok":
                return
            names.append(version)
            paths.append(get_unpack_path(stage, "p", version).strpath)
    base = str(xom.config.server_path) + "/u/i/p/"
    for path in paths:
        S.check(path.startswith(base), "below the folder of the project", lambda: repr((names, paths)))
    S.check(S.iff(paths[0] == paths[1], names[0] == names[1]), "own folders", lambda: repr((names, paths)))
    if names[0] != names[1]:
        for a, b in (paths, paths[::-1]):
            S.check(S.not_(a.startswith(b + "/")), "not inside each other", lambda: repr((names, paths)))


def cases(tier):
    deep = tier == "thorough"
    res = [
        Case("unpack zip", extract, kind="zip", n=5, members=1, time_limit=200, bounds="names up to five characters"),
        Case("unpack tar", extract, kind="tar", n=4, members=1, time_limit=200, bounds="names up to four characters"),
        Case("unpack two", extract, kind="zip", n=2, members=2, time_limit=200, bounds="two members"),
        Case("serve unpacked", serve, n=5, packed=False, time_limit=200, bounds="URLs of up to five characters"),
        Case("serve packed", serve, n=4, packed=True, time_limit=200, bounds="URLs of up to four characters"),
    ]
    res += [
        Case("versions", versions, n=2, time_limit=200, bounds="two versions of up to two characters"),
        Case("history", history, steps=3, time_limit=200, bounds="three operations between uploads and requests"),
        Case("history packed", history, steps=2, packed=True, time_limit=200, bounds="two operations between uploads and requests"),
    ]
    if deep:
        res += [
            Case("long versions", versions, n=3, time_limit=600, max_paths=1000000, bounds="two versions of up to three characters"),
            Case("long history", history, steps=4, time_limit=700, max_paths=1000000, bounds="four operations between uploads and requests"),
            Case("unpack long zip", extract, kind="zip", n=7, members=1, time_limit=700, max_paths=1000000, bounds="names up to seven characters"),
            Case("serve long", serve, n=7, packed=False, time_limit=700, max_paths=1000000, bounds="URLs of up to seven characters"),
        ]
    return res


ASSUMPTIONS = [
    "paths are resolved lexically (no symbolic links below the server directory; tar members are left to the data filter of the standard library)",
    "templates aren't rendered, the files which are sent are",
]
