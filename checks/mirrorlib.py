"""A mirror index with a stand-in for its upstream."""
from checks import index
from devpi_server import mirror
import asyncio
import json

JSON = "application/vnd.pypi.simple.v1+json"


class Response:
    def __init__(self, url, status, headers, text=None):
        self.url = url
        self.status_code = status
        self.headers = headers
        self.text = text
        self.reason = "reason"

    def json(self):
        return json.loads(self.text)

    def close(self):
        pass


class Future:
    """ of the event loop """

    def __init__(self):
        self.value = None
        self.state = "pending"

    def done(self):
        return self.state != "pending"

    def cancel(self):
        self.state = "cancelled"

    def set_result(self, value):
        self.value = value
        self.state = "done"

    def result(self):
        assert self.state == "done"
        return self.value

    def __await__(self):
        while self.state == "pending":
            yield self
        if self.state == "cancelled":
            raise asyncio.CancelledError
        return self.value


class Gate:
    """ an answer of the upstream which takes longer than the timeout """

    def __await__(self):
        yield self


class Upstream:
    """ replaces the HTTP requests and the event loop of a server """

    def __init__(self, S, xom):
        self.S = S
        self.xom = xom
        self.requests = []
        self.answers = []
        self.slow = []       # coroutines which wait for their answer
        self.tasks = []      # coroutines which wait for a result
        self.now = 10 ** 9
        S.patch(mirror.time, "time", lambda: self.now)
        xom.async_httpget = self.async_httpget
        xom.httpget = self.httpget
        xom.run_coroutine_threadsafe = self.run
        xom.create_task = self.create_task
        xom.create_future = Future

    def httpget(self, url, allow_redirects, timeout=None, extra_headers=None):
        self.requests.append((str(url), dict(extra_headers or {})))
        return self.answers.pop(0)(str(url))

    async def async_httpget(self, url, allow_redirects, timeout=None, extra_headers=None):
        self.requests.append((str(url), dict(extra_headers or {})))
        answer = self.answers.pop(0)
        if isinstance(answer, tuple):
            await Gate()
            answer = answer[1]
        res = answer(str(url))
        return res, res.text

    def run(self, coro, timeout=None):
        try:
            coro.send(None)
        except StopIteration as e:
            return e.value
        self.slow.append(coro)
        raise asyncio.TimeoutError

    def create_task(self, coro):
        # runs until it waits for the answer
        self.tasks.append(coro)
        coro.send(None)

    def arrive(self, n=0):
        """ a slow answer is there """
        coro = self.slow.pop(n)
        task = self.tasks.pop(n)
        try:
            coro.send(None)
        except StopIteration:
            pass
        except Exception:
            # the event loop only logs it
            pass
        try:
            # may wait forever, if there is no result
            task.send(None)
        except StopIteration:
            pass


def projects_page(names, etag=None, kind="json", url=None):
    """ the list of projects """
    def answer(asked):
        headers = {}
        if etag is not None:
            headers["ETag"] = etag
        if kind == "json":
            headers["content-type"] = JSON
            text = json.dumps(dict(meta={"api-version": "1.0"}, projects=[dict(name=x) for x in names]))
        else:
            headers["content-type"] = "text/html"
            text = "".join(['<a href="%s%s/">%s</a>\n' % (x if kind == "absolute" else "", x.lower(), x) for x in names])
        return Response(url or asked, 200, headers, text)
    return answer


def page(project, files, serial=None, etag=None, kind="json", url=None):
    """ a simple page: files are tuples of name, hash, requires_python and yanked """
    def answer(asked):
        headers = {}
        if serial is not None:
            headers["X-PYPI-LAST-SERIAL"] = serial
        if etag is not None:
            headers["ETag"] = etag
        if kind == "json":
            headers["content-type"] = JSON
            text = json.dumps(dict(meta={"api-version": "1.0"}, name=project, files=[{
                "filename": f[0], "url": "../../f/" + f[0], "hashes": {"sha256": f[1]} if f[1] else {},
                "requires-python": f[2], "yanked": f[3]} for f in files]))
        else:
            headers["content-type"] = "text/html"
            text = "".join([
                '<a href="../../f/%s%s"%s%s>%s</a>\n' % (
                    f[0], "#sha256=" + f[1] if f[1] else "",
                    ' data-requires-python="%s"' % f[2].replace(">", "&gt;") if f[2] else "",
                    ' data-yanked="%s"' % ("" if f[3] is True else f[3]) if f[3] else "", f[0])
                for f in files])
        return Response(url or asked, 200, headers, text)
    return answer


def status(code):
    def answer(asked):
        return Response(asked, code, {})
    return answer


def make_mirror(S, xom, **kw):
    kw.setdefault("mirror_url", "http://up/simple/")
    with xom.keyfs.write_transaction():
        user = index.make_user(xom, "u")
        user.create_stage("m", type="mirror", **kw)


HASH = ["%x" % i * 64 for i in range(1, 10)]
