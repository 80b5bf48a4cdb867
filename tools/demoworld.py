"""A devpi-server in a scratch directory, asked with WSGI requests."""
import atexit
import hashlib
import io
import logging
import shutil
import tempfile
import warnings

warnings.simplefilter("ignore")


class World:
    def __init__(self, *opts, plugins=(), web=False):
        import argon2
        from devpi_server import passwd
        # cheap password hashes
        for name, val in list(vars(passwd).items()):
            if isinstance(val, argon2.PasswordHasher):
                setattr(passwd, name, argon2.PasswordHasher(time_cost=1, memory_cost=8, parallelism=1))
        from devpi_server import (
            auth_basic, auth_devpi, keyfs_sqlite_fs, mirror, model, replica, view_auth, views)
        from devpi_server.config import get_pluginmanager, parseoptions
        from devpi_server.main import XOM, init_default_indexes
        logging.disable(logging.CRITICAL)
        self.dir = tempfile.mkdtemp(prefix="demo-")
        atexit.register(shutil.rmtree, self.dir, True)
        pm = get_pluginmanager(load_entrypoints=False)
        for p in (auth_basic, auth_devpi, mirror, model, replica, view_auth, views, keyfs_sqlite_fs, *plugins):
            pm.register(p)
        self.config = parseoptions(pm, ["devpi-server", "--serverdir", self.dir, *opts])
        self.config.init_nodeinfo()
        self.xom = XOM(self.config)
        init_default_indexes(self.xom)
        with self.xom.keyfs.write_transaction():
            self.xom.model.get_user("root").modify(password="pw")
        self._app = None

    @property
    def app(self):
        if self._app is None:
            from webtest import TestApp
            app = self.xom.create_app()
            # a proxy adds further checks of header types, which webtest does
            self._app = TestApp(app)
        return self._app

    def __call__(self, method, path, auth=None, json=None, form=None, files=(), headers=None):
        import base64
        headers = dict(headers or {})
        headers.setdefault("Accept", "application/json")
        if auth:
            headers["X-Devpi-Auth"] = base64.b64encode(("%s:%s" % (auth, "pw")).encode()).decode()
        if json is not None:
            return self.app.request(
                path, method=method, headers=headers, expect_errors=True,
                body=__import__("json").dumps(json).encode(), content_type="application/json")
        if form is not None:
            return self.app.post(path, form, headers=headers, upload_files=list(files), expect_errors=True)
        return self.app.request(path, method=method, headers=headers, expect_errors=True)

    def user(self, name, **kw):
        with self.xom.keyfs.write_transaction():
            return self.xom.model.create_user(name, "pw", **kw)

    def index(self, user, name, **kw):
        with self.xom.keyfs.write_transaction():
            u = self.xom.model.get_user(user) or self.xom.model.create_user(user, "pw")
            u.create_stage(name, **kw)

    def upload(self, index, name, version, filename, content, auth=None, action="file_upload", **meta):
        form = {":action": action, "name": name, "version": version, **meta}
        return self("POST", "/%s/" % index, auth=auth or index.split("/")[0], form=form,
                    files=[("content", filename, content)])

    def links(self, index, project):
        with self.xom.keyfs.read_transaction():
            return self.xom.model.getstage(index).get_releaselinks(project)


class Answer:
    """ an answer of an upstream """

    def __init__(self, url, status=200, headers=(), text="", body=b""):
        self.url = url
        self.status = self.status_code = self.code = status
        self.reason = "reason"
        self.headers = dict(headers)
        self.text = text
        self.raw = io.BytesIO(body)

    def json(self):
        import json
        return json.loads(self.text)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *args):
        pass


def sha256(content):
    return hashlib.sha256(content).hexdigest()
