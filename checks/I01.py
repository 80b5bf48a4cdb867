"""Simple pages of mirrors follow their upstream, and survive its failures."""
from checks import index
from checks import mirrorlib as m
from devpi_server import model
from symdev.harness import Case
import threading

EXPIRY = 100
PAGES = [
    (("p-1.0.zip", m.HASH[0], None, None),),
    (("p-1.0.zip", m.HASH[0], ">=3", None), ("p-2.0.tar.gz", m.HASH[1], None, True)),
    (("p-1.0.zip", "", None, None), ("p-3.0.zip", m.HASH[2], None, "bad")),
    (),
]


def expected(n, kind="json"):
    res = []
    for name, h, rp, yanked in PAGES[n]:
        if h:
            path = "u/m/+f/%s/%s/%s" % (h[:3], h[3:16], name)
            href = path + "#sha256=" + h
        else:
            href = path = "u/m/+e/http_up_f/" + name
        if kind == "html" and yanked is True:
            # yanked without a reason
            yanked = ""
        res.append((name, href, rp, yanked))
    return res


class Ref:
    """ what we should know about the project """

    def __init__(self):
        self.links = None     # those in the database
        self.serial = -1
        self.fresh = None     # time of the last check
        self.etag = None
        self.slow = []        # late answers
        self.lock = None      # thread which waits for a late answer


def get_links(stage, project):
    return [(x.key, x.href, x.require_python, x.yanked) for x in stage.get_simplelinks_perstage(project)]


def ask(S, up, ref, stage, n, kinds, pages, thread=1):
    """ one request for the simple links, returns a function to be called if the changes are committed """
    name = "p"
    if ref.lock is not None and ref.lock[0] != thread:
        # the answer for another thread is missing
        asked = len(up.requests)
        how, res = S.attempt(get_links, stage, name, excs=(model.UpstreamError, model.UpstreamNotModified))
        if ref.links is None:
            S.check(how == "err", "an error if another request isn't answered, and there are no links")
        else:
            S.check((how, res) == ("ok", ref.links), "existing links are served if another request isn't answered", lambda: repr((how, res)))
        S.check(len(up.requests) == asked, "no request while another one isn't answered")
        # only one request waits
        ref.lock = None
        return lambda: None
    kind = S.choice("answer %d" % n, kinds)
    etag = None
    serial = None
    if kind.startswith("page"):
        number = S.choice("page %d" % n, pages)
        etag = "etag %d" % n
        if thread != 1 or not S.choice("without serial %d" % n, [False, True]):
            serial = S.int("serial %d" % n, 0, 1000)
        answer = m.page("p", PAGES[number], serial=serial, etag=etag, kind=kind.split()[1])
        if kind.endswith("late"):
            answer = ("late", answer)
    elif kind == "304":
        answer = m.status(304)
    elif kind.startswith("late"):
        answer = ("late", m.status(int(kind.split()[1])))
    else:
        answer = m.status(int(kind))
    up.answers = [answer]
    asked = len(up.requests)
    how, res = S.attempt(get_links, stage, name, excs=(model.UpstreamError, model.UpstreamNotModified))
    contacted = len(up.requests) > asked
    if ref.fresh is not None and up.now - ref.fresh < EXPIRY:
        S.check(not contacted, "no requests while the links are fresh")
        if ref.links is None:
            S.check(how == "err", "projects which aren't found stay not found while that is fresh")
        else:
            S.check((how, res) == ("ok", ref.links), "the cached links", lambda: repr(res))
        return lambda: None
    S.check(len(up.requests) == asked + 1, "one request if the links aren't fresh")
    url, headers = up.requests[-1]
    S.check(url == "http://up/simple/p/", "the url of the project")
    S.check(headers.get("If-None-Match") == ref.etag, "the last known etag is sent", lambda: repr((headers, ref.etag)))
    eff = -1 if serial is None else serial
    now = up.now
    if kind.startswith("page") and not kind.endswith("late"):
        if eff >= ref.serial:
            links = expected(number, kind.split()[1])
            S.check((how, res) == ("ok", links), "new links are served", lambda: repr((res, links)))
            for f in PAGES[number]:
                path = [x[1] for x in links if x[0] == f[0]][0].split("#")[0]
                entry = stage.filestore.get_file_entry(path)
                S.check(bool(entry.meta) and entry.url == "http://up/f/" + f[0], "links lead to the files of the upstream", lambda: repr(entry.meta))
                S.check(entry.best_available_hash_spec == ("sha256=" + f[1] if f[1] else None), "hashes of the files", lambda: repr(entry.meta))
                S.check(entry.project == "p" and entry.version == f[0][2:5], "project and version of the files")

            if ref.links is not None and set(ref.links) == set(links):
                # without changes the old serial is kept, too
                ref.fresh = now
                ref.etag = etag
                return lambda: None

            def done():
                ref.links = links
                ref.serial = eff
                ref.fresh = now
                ref.etag = etag
            return done
    elif kind == "304" and ref.links is not None:
        S.check((how, res) == ("ok", ref.links), "not modified")
        ref.fresh = now
        return lambda: None
    elif kind == "404":
        ref.fresh = now
        ref.etag = None
    elif "late" in kind:
        if kind.startswith("page"):
            ref.slow.append((eff, number, etag, (thread, n)))
        else:
            ref.slow.append((None, int(kind.split()[1]), None, (thread, n)))
        if ref.lock is None:
            ref.lock = (thread, n)
    if ref.links is None:
        S.check(how == "err", "an error if there is no answer, and there are no links")
    else:
        S.check((how, res) == ("ok", ref.links), "existing links are served if the upstream fails", lambda: repr((kind, how, res)))
    return lambda: None


def arrive(S, up, ref, last):
    i = len(ref.slow) - 1 if last else 0
    eff, number, etag, token = ref.slow.pop(i)
    up.arrive(i)
    if ref.lock == token:
        ref.lock = None
    if eff is None:
        if number == 404:
            # that's known from now on
            ref.fresh = up.now
            ref.etag = None
        return
    if eff >= ref.serial:
        links = expected(number)
        if ref.links is None or set(ref.links) != set(links):
            ref.links = links
            ref.serial = eff
            ref.fresh = up.now
            ref.etag = etag


def history(S, steps, kinds, pages, start, threads=False):
    xom = index.setup(S, opts=("--request-timeout", "0"))
    m.make_mirror(S, xom, mirror_cache_expiry=EXPIRY, mirror_no_project_list=True)
    up = m.Upstream(S, xom)
    ref = Ref()
    cleared = False
    S.patch(threading, "get_ident", lambda: thread[0])
    thread = [1]
    if start:
        up.answers = [m.page("p", PAGES[0], serial=500, etag="start")]
        with xom.keyfs.read_transaction():
            get_links(xom.model.getstage("u/m"), "p")
        ref.links, ref.serial, ref.fresh, ref.etag = expected(0), 500, up.now, "start"
    for n, names in enumerate(steps):
        name = S.choice("step %d" % n, names)
        up.now = up.now + S.int("time %d" % n, 0, 500)
        if name == "request":
            with xom.keyfs.read_transaction():
                if threads:
                    thread[0] = S.choice("thread %d" % n, [1, 2]) if n else 1
                ask(S, up, ref, xom.model.getstage("u/m"), n, kinds, pages, thread[0])()
        elif name == "request in write transaction":
            with xom.keyfs.write_transaction():
                done = ask(S, up, ref, xom.model.getstage("u/m"), n, kinds, pages)
            done()
        elif name == "rolled back":
            before = (ref.fresh, ref.etag)
            links = ref.links
            try:
                with xom.keyfs.write_transaction():
                    done = ask(S, up, ref, xom.model.getstage("u/m"), n, kinds, pages)
                    ended = (ref.fresh, ref.etag)
                    done()
                    raise KeyError
            except KeyError:
                pass
            if before == ended:
                after_rollback(S, up, ref, xom, before, links)
                return
        elif name == "arrive":
            if not ref.slow:
                S.assume(False)
            arrive(S, up, ref, len(ref.slow) > 1 and S.choice("last %d" % n, [False, True]))
        elif name == "clear":
            with xom.keyfs.write_transaction():
                xom.model.getstage("u/m").clear_simplelinks_cache("p")
            cleared = True
            ref.links, ref.serial, ref.fresh, ref.etag = None, -1, None, None
        elif name == "delete":
            with xom.keyfs.write_transaction():
                kind, res = S.attempt(xom.model.getstage("u/m").del_project, "p", excs=(KeyError,))
            if not cleared:
                S.check((kind == "ok") == (ref.links is not None), "only known projects can be deleted")
            cleared = False
            if kind == "ok":
                ref.links, ref.serial, ref.fresh, ref.etag = None, -1, None, None
        elif name == "restart":
            from symdev.env import reopen
            xom = reopen(S, xom)
            now = up.now
            up = m.Upstream(S, xom)
            up.now = now
            ref.fresh = ref.etag = None
            ref.slow = []
        with xom.keyfs.read_transaction():
            cached = xom.model.getstage("u/m")._load_cache_links("p")[1]
        S.check(cached == ref.links, "the links in the database", lambda: repr((cached, ref.links)))


def after_rollback(S, up, ref, xom, before, links):
    """ links which were not stored are not fresh """
    up.answers = [m.page("p", PAGES[1], serial=2000)]
    fresh, etag = before
    with xom.keyfs.read_transaction():
        how, res = S.attempt(get_links, xom.model.getstage("u/m"), "p", excs=(model.UpstreamError,))
    if fresh is not None and up.now - fresh < EXPIRY:
        S.check((how, res) == ("ok", links), "the links from before the rollback")
    else:
        S.check((how, res) == ("ok", expected(1)), "a rolled back request has no effect", lambda: repr((how, res)))


SYNC = ["page json", "page html", "304", "404", "500", "-1"]
LATE = ["page json", "page json late", "late 404", "late 500", "404", "304"]


def cases(tier):
    r = ["request"]
    res = [
        Case("first", history, steps=[r], kinds=SYNC, pages=[0, 1, 2, 3], start=False, bounds="the first request"),
        Case("second", history, steps=[r], kinds=SYNC, pages=[0, 1, 2, 3], start=True, bounds="the second request"),
        Case("two", history, steps=[r, r], kinds=SYNC, pages=[0, 1], start=False, time_limit=100, bounds="two requests"),
        Case("three", history, steps=[r, r], kinds=["page json", "304", "404", "500"], pages=[0, 1], start=True, time_limit=100, bounds="three requests"),
        Case("late", history, steps=[r, ["request", "arrive"], ["arrive"]], kinds=LATE[:4], pages=[1, 2], start=True, time_limit=100,
             bounds="answers after the timeout"),
        Case("threads", history, steps=[r, ["request", "arrive"], r], kinds=["page json late", "late 500", "page json"], pages=[1], start=False, threads=True, time_limit=100,
             bounds="answers after the timeout, two threads"),
        Case("late first", history, steps=[r, ["request", "arrive"], ["arrive"]], kinds=LATE[:4], pages=[1, 2], start=False, time_limit=100,
             bounds="answers after the timeout"),
        Case("forgotten", history, steps=[["clear", "delete", "restart"], r], kinds=SYNC[:1] + SYNC[2:5], pages=[0, 1], start=True, time_limit=100,
             bounds="a request after deletion of the project, the cache or a restart"),
        Case("write", history, steps=[["request in write transaction", "rolled back"], r], kinds=SYNC[:1] + SYNC[2:5], pages=[0, 1], start=True, time_limit=100,
             bounds="requests in write transactions"),
    ]
    if tier == "thorough":
        ALL = ["request", "clear", "delete", "restart", "arrive"]
        res += [
            Case("deep", history, steps=[r, r, r, r], kinds=SYNC[:1] + SYNC[2:5], pages=[0, 1], start=False, time_limit=700, max_paths=1000000,
                 bounds="four requests"),
            Case("deep threads", history, steps=[r, ["request", "arrive"], ["request", "arrive"], ["arrive", "request"]], kinds=["page json late", "late 500", "page json"], pages=[1],
                 start=False, threads=True, time_limit=700, max_paths=1000000, bounds="four steps, answers after the timeout, two threads"),
            Case("deep late", history, steps=[r, ALL, ALL, ALL], kinds=LATE, pages=[0, 1], start=True, time_limit=700, max_paths=1000000,
                 bounds="four steps with late answers"),
        ]
    return res
