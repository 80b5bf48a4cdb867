"""Credentials of mirrors are sent to the upstream, and not stored or shown."""
from base64 import b64encode
from checks import auth as h
from checks import index
from checks import mirrorlib as m
from checks.app import App
from checks.F01 import Raw
from devpi_server import filestore
from symdev.harness import Case
from urllib.parse import urlsplit

CONTENT = b"content"


def basic(user, password):
    return "Basic " + b64encode(("%s:%s" % (user, password)).encode()).decode()


def denied(code):
    def answer(asked):
        return m.Response(asked, code, {"WWW-Authenticate": "Basic"})
    return answer


def file_answer(asked):
    res = m.Response(asked, 200, {})
    res.raw = Raw([CONTENT], False)
    return res


def no_userinfo(url):
    return "@" not in urlsplit(str(url)).netloc


def leaks(data):
    if isinstance(data, str):
        data = data.encode()
    return b"S3CR" in data


def flow(S, urls, users, steps, rejected):
    xom = index.setup(S)
    scheme, path = S.choice("url", urls)
    user, password = S.choice("credentials", users)
    userinfo = ""
    if user is not None:
        userinfo = user + (":" + password if password is not None else "") + "@"
    m.make_mirror(S, xom, mirror_url="%s://%sup%s" % (scheme, userinfo, path), mirror_no_project_list=False)
    with xom.keyfs.write_transaction():
        xom.model.get_user("u").create_stage("i")
    up = m.Upstream(S, xom)
    app = App(S, xom)
    start = xom.keyfs.get_current_serial()
    expected = basic(user or "", password or "") if user or password else None
    candidates = []
    short = len(steps) > 1 and rejected
    kind = S.choice("kind", ["json", "html"][:1 if short else 2])
    # after redirects the url of the answer may be another one
    final = S.choice("answer url", ["same", "with credentials", "redirected"][:1 if short else 3])
    base = "%s://up/simple/" % scheme
    answer_url = {
        "same": None, "with credentials": "%s://other:S3CR1@up/simple/" % scheme, "redirected": "%s://other.up/simple/" % scheme}[final]
    paths = []
    spec = "sha256=" + filestore.get_hash_value(CONTENT, "sha256")
    for n, names in enumerate(steps):
        name = S.choice("step %d" % n, names)
        good = {
            "projects": m.projects_page(["P", "q"], kind=kind, url=answer_url),
            "links": m.page("p", [("p-1.0.zip", spec.split("=")[1], None, None)], kind=kind, url=answer_url and answer_url + "p/"),
            "file": file_answer, "push": file_answer}[name]
        h.plugin1.mirror_auth = h.plugin2.mirror_auth = None
        h.plugin2.mirror_auth = S.choice("first %d" % n, [None, "Bearer S3CR2"][1 if short else 0:]) if rejected else None
        if h.plugin2.mirror_auth:
            h.plugin1.mirror_auth = S.choice("second %d" % n, [None, "Bearer S3CR3"])
        new = [x for x in (h.plugin2.mirror_auth, h.plugin1.mirror_auth) if x]
        # which of the credentials are accepted by the upstream
        fails = S.choice("rejected %d" % n, [0, 1, 2, 3]) if rejected else 0
        failing = S.choice("failure %d" % n, [None, 500, 404]) if not rejected else None
        status = S.choice("status %d" % n, [401, 403][:1 if short else 2]) if fails else None
        current = candidates[0] if candidates else expected
        want = [current]
        for i in range(fails):
            if candidates:
                candidates.pop(0)
            else:
                candidates.extend(new)
            if not candidates:
                fails = i + 1
                break
            want.append(candidates[0])
        if name in ("links", "file", "push"):
            answers = [m.projects_page(["P"], kind=kind)] if name == "links" and not up.requests else []
        else:
            answers = []
        asked = len(up.requests)
        if answers:
            # the list of projects is needed first
            up.answers = answers
            with xom.keyfs.read_transaction():
                xom.model.getstage("u/m").list_projects_perstage()
            S.check(all([no_userinfo(x[0]) for x in up.requests]), "no credentials in urls of pages")
            asked = len(up.requests)
        success = len(want) > fails and failing is None
        up.answers = [denied(status)] * fails
        if len(want) > fails:
            up.answers = up.answers + [good if failing is None else m.status(failing)]
        reply = None
        if name == "projects":
            with xom.keyfs.read_transaction():
                stage = xom.model.getstage("u/m")
                stage.cache_projectnames.expire()
            reply = app("GET", "/u/m", accept="application/vnd.pypi.simple.v1+json")
        elif name == "links":
            with xom.keyfs.read_transaction():
                xom.model.getstage("u/m").cache_retrieve_times.expire("p")
            reply = app("GET", "/u/m/+simple/p/", accept=S.choice("accept %d" % n, ["text/html", "application/vnd.pypi.simple.v1+json"][:1 if short else 2]))
            if success:
                S.check(reply.status == 200 and b"p-1.0.zip" in reply.body, "the links are served", lambda: str((reply.status, reply.body)))
                with xom.keyfs.read_transaction():
                    paths = [x.path for x in xom.model.getstage("u/m").get_simplelinks_perstage("p")]
        else:
            if not paths:
                S.assume(False)
            if name == "file":
                reply = app("GET", "/" + paths[0], accept="*/*")
            else:
                reply = app("POST", "/u/m", json=dict(name="p", version="1.0", targetindex="u/i"), auth=("u", "pw"))
            if success:
                S.check(reply.status == 200, "the file is served", lambda: str((reply.status, reply.body)))
                if name == "file":
                    S.check(reply.body == CONTENT, "the content")
            paths = []
        S.check(not leaks(reply.body) and not any([leaks(x) for x in reply.headers.values()]), "nothing is shown to clients",
                lambda: repr((reply.status, reply.headers, reply.body)))
        got = up.requests[asked:]
        S.check([x[1].get("Authorization") for x in got] == want, "the credentials are tried in order", lambda: repr((got, want)))
        for url, headers in got:
            if name in ("projects", "links"):
                S.check(no_userinfo(url), "no credentials in urls of pages", lambda: repr(url))
                S.check(url == base + ("p/" if name == "links" else ""), "url of the page", lambda: repr(url))
            elif no_userinfo(url):
                pass
            else:
                S.check(urlsplit(url).username == (user or "") and urlsplit(url).password == password, "only the configured credentials")
    with xom.keyfs.get_connection() as conn:
        for serial in range(start + 1, conn.last_changelog_serial + 1):
            S.check(not leaks(conn.get_raw_changelog_entry(serial)), "nothing is stored in the database")
    for path in ("/u/m/+simple/p/", "/u/m/p", "/u/m/p/1.0", "/u/m/+simple/"):
        up.answers = [m.status(500)] * 2
        reply = app("GET", path, accept="text/html" if "+simple" in path else "application/json")
        S.check(not leaks(reply.body), "nothing is shown in pages", lambda: repr((path, reply.body)))


URLS = [("http", "/simple/"), ("https", "/simple/"), ("http", "/simple")]
USERS = [("user", "S3CR0"), ("S3CR0", None), ("", "S3CR0"), (None, None)]


def cases(tier):
    ALL = ["projects", "links", "file", "push"]
    res = [
        Case("urls", flow, urls=URLS, users=USERS, steps=[["projects", "links"]], rejected=False, bounds="one request for a page"),
        Case("files", flow, urls=URLS[:1], users=USERS[:2], steps=[["links"], ["file", "push"]], rejected=False, bounds="a page and a file"),
        Case("plugins", flow, urls=URLS[:1], users=USERS[::3], steps=[["projects", "links"]], rejected=True, bounds="credentials of two plugins"),
    ]
    for name in ("links", "file"):
        res.append(Case("plugins, " + name, flow, urls=URLS[1:2], users=USERS[:1], steps=[["links"], [name]], rejected=True, time_limit=100,
                        bounds="credentials of two plugins, two requests"))
    if tier == "thorough":
        res.append(Case("deep", flow, urls=URLS, users=USERS, steps=[["links", "projects"], ALL, ALL], rejected=True, time_limit=600, max_paths=1000000,
                        bounds="three requests"))
    return res
