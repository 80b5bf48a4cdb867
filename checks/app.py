"""The web application of devpi-server as pyramid builds it, asked with WSGI requests.

The configuration (routes, views, permissions, predicates) is made once per process
by `XOM.create_app`; for each path the router with its tweens and the security policy
are made again for the `xom` of the path. Form fields and JSON documents may hold symbolic
values, they bypass the parsing of request bodies only.
"""
import base64
import io
import json as json_module

_apps = {}


def _caller_package(level=2):
    """ as in pyramid, without the frames of the instrumentation """
    import sys
    from pyramid.path import caller_package
    frame = sys._getframe()
    while frame.f_globals.get("__name__") != "pyramid.config":
        frame = frame.f_back
    while frame.f_globals.get("__name__", "").startswith(("symdev.", "pyramid.")):
        frame = frame.f_back
    module = sys.modules[frame.f_globals["__name__"]]
    return caller_package(0, caller_module=lambda n: module)


class Reply:
    def __init__(self, status, headers, body):
        self.status = status
        self.headers = headers
        self.body = body

    @property
    def json(self):
        return json_module.loads(self.body)


def _patch_request():
    from webob.request import BaseRequest
    if getattr(BaseRequest, "_symdev", False):
        return
    old_json = BaseRequest.json_body
    old_post = BaseRequest.POST

    def json_body(self):
        if "symdev.json" in self.environ:
            return self.environ["symdev.json"][0]
        return old_json.__get__(self, type(self))

    def post(self):
        if "symdev.post" in self.environ:
            return self.environ["symdev.post"]
        return old_post.__get__(self, type(self))
    BaseRequest.json_body = property(json_body, old_json.fset)
    BaseRequest.POST = property(post)
    BaseRequest._symdev = True


class Upload:
    def __init__(self, filename, content):
        self.filename = filename
        self.file = io.BytesIO(content) if isinstance(content, bytes) else content


class App:
    def __init__(self, S, xom):
        _patch_request()
        from devpi_server.middleware import OutsideURLMiddleware
        from devpi_server.view_auth import DevpiSecurityPolicy
        from pyramid.interfaces import ISecurityPolicy
        from pyramid.router import Router
        import logging
        logging.disable(logging.CRITICAL)
        key = id(xom.config)
        if key not in _apps:
            import pyramid.config
            pyramid.config.caller_package = _caller_package
            app = xom.create_app()
            while not isinstance(app, Router):
                app = app.app
            _apps[key] = app.registry
        registry = _apps[key]
        registry["xom"] = xom
        policy = DevpiSecurityPolicy(xom)
        registry.registerUtility(policy, ISecurityPolicy)
        self.registry = registry
        self.policy = policy
        self.xom = xom
        self.extra = {}   # for the environment of requests
        self.app = OutsideURLMiddleware(Router(registry), xom)

    def __call__(self, method, path, *, auth=None, json=None, form=None, body=None, headers=(), accept="application/json"):
        from pyramid.request import Request
        environ = {}
        path, sep, query = path.partition("?")
        req = Request.blank("/", environ=environ, base_url="http://localhost")
        environ = req.environ
        environ.update(self.extra)
        environ["REQUEST_METHOD"] = method
        environ["PATH_INFO"] = path
        environ["QUERY_STRING"] = query
        if accept:
            environ["HTTP_ACCEPT"] = accept
        for k, v in dict(headers).items():
            environ["HTTP_" + k.upper().replace("-", "_")] = v
        if auth is not None:
            cred = base64.b64encode(("%s:%s" % auth).encode()).decode()
            environ["HTTP_AUTHORIZATION"] = "Basic " + cred
        if json is not None:
            environ["symdev.json"] = [json]
            environ["CONTENT_TYPE"] = "application/json"
        if form is not None:
            from webob.multidict import MultiDict
            environ["symdev.post"] = MultiDict(form)
        elif method in ("POST", "PUSH"):
            from webob.multidict import NoVars
            environ["symdev.post"] = NoVars("not a form")
        if body is not None:
            environ["wsgi.input"] = io.BytesIO(body)
            environ["CONTENT_LENGTH"] = str(len(body))
        out = {}

        def start_response(status, response_headers, exc_info=None):
            out["status"] = int(status.split()[0])
            out["headers"] = dict((k.lower(), v) for k, v in response_headers)
        it = self.app(environ, start_response)
        try:
            content = b"".join(list(it))
        finally:
            if hasattr(it, "close"):
                it.close()
        return Reply(out["status"], out["headers"], content)


def upload_form(name, version, filename=None, content=b"", action="file_upload", **extra):
    form = [(":action", action), ("name", name)]
    if version is not None:
        form.append(("version", version))
    if filename is not None:
        form.append(("content", Upload(filename, content)))
    form.extend(extra.items())
    return form
