"""The environment of devpi-server for harnesses: configuration and a real
`XOM` with the real sqlite storage in a scratch directory.

The same code is used when paths are explored (with instrumented modules) and
when they are replayed (without).
"""
import atexit
import os
import shutil
import tempfile

_cache = {}
_base = None
_owner = None


def scratch():
    """ directory for this process, in memory if possible """
    global _base, _owner
    if _base is None or _owner != os.getpid():
        root = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        _base = tempfile.mkdtemp(prefix="symdev-%d-" % os.getpid(), dir=root)
        _owner = os.getpid()
        _cache.clear()
        import multiprocessing.util
        pid = os.getpid()

        def cleanup(base=_base, pid=pid):
            if os.getpid() == pid:
                shutil.rmtree(base, ignore_errors=True)
        atexit.register(cleanup)
        multiprocessing.util.Finalize(None, cleanup, exitpriority=10)
    return _base


def speed_up():
    from devpi_server import keyfs_sqlite
    BaseStorage = keyfs_sqlite.BaseStorage
    if getattr(BaseStorage, "_symdev_fast", False):
        return
    old = BaseStorage._execute_conn_pragmas

    def _execute_conn_pragmas(self, conn):
        old(self, conn)
        conn.execute("PRAGMA synchronous=OFF")
        conn.execute("PRAGMA journal_mode=MEMORY")
    BaseStorage._execute_conn_pragmas = _execute_conn_pragmas
    BaseStorage._symdev_fast = True


class Env:
    """ a server directory and its configuration, reused by all paths """

    def __init__(self, opts=(), plugins=(), storage="sqlite", init=True, secret=True):
        from devpi_server import auth_basic
        from devpi_server import auth_devpi
        from devpi_server import keyfs_sqlite
        from devpi_server import keyfs_sqlite_fs
        from devpi_server import mirror
        from devpi_server import model
        from devpi_server import replica
        from devpi_server import view_auth
        from devpi_server import views
        from devpi_server.config import get_pluginmanager
        from devpi_server.config import parseoptions
        speed_up()
        n = len(_cache)
        self.dir = os.path.join(scratch(), "server%d" % n)
        self.template = os.path.join(scratch(), "template%d" % n)
        os.makedirs(self.dir)
        pm = get_pluginmanager(load_entrypoints=False)
        store = keyfs_sqlite_fs if storage == "sqlite" else keyfs_sqlite
        for p in (auth_basic, auth_devpi, mirror, model, replica, view_auth, views, store, *plugins):
            pm.register(p)
        args = ["devpi-server", "--serverdir", self.dir, *opts]
        if storage != "sqlite":
            args += ["--storage", "sqlite_db_files"]
        if secret:
            path = os.path.join(scratch(), "secret%d" % n)
            with open(path, "w") as f:
                f.write("YsymdevSecretSymdevSecretSymdevSecretSymdevSecret12345=")
            os.chmod(path, 0o600)
            args += ["--secretfile", path]
        self.config = parseoptions(pm, args)
        self.config.init_nodeinfo()
        self.init = init
        if init:
            xom = self.new_xom()
            from devpi_server.main import init_default_indexes
            init_default_indexes(xom)
            self.close(xom)
        shutil.copytree(self.dir, self.template)
        self.pristine = True

    def close(self, xom):
        keyfs = xom.__dict__.get("keyfs")
        if keyfs is not None:
            tx = getattr(keyfs._threadlocal, "tx", None)
            if tx is not None:
                try:
                    keyfs.rollback_transaction_in_thread()
                except BaseException:
                    pass

    def new_xom(self):
        from devpi_server.main import XOM
        xom = XOM(self.config)
        return xom

    def restore(self):
        if self.pristine:
            self.pristine = False
            return
        for name in os.listdir(self.dir):
            p = os.path.join(self.dir, name)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p)
            else:
                os.unlink(p)
        for name in os.listdir(self.template):
            s = os.path.join(self.template, name)
            d = os.path.join(self.dir, name)
            if os.path.isdir(s):
                shutil.copytree(s, d)
            else:
                shutil.copyfile(s, d)


def get_env(**kw):
    scratch()
    key = tuple(sorted((k, v if isinstance(v, str) else tuple(v) if isinstance(v, (list, tuple)) else v)
                       for k, v in kw.items()))
    e = _cache.get(key)
    if e is None:
        e = _cache[key] = Env(**kw)
    return e


def make_xom(S, **kw):
    """ a fresh server state for this path """
    from devpi_server.log import thread_clear_log
    thread_clear_log()
    e = get_env(**kw)
    e.restore()
    xom = e.new_xom()
    S.on_end(lambda: e.close(xom))
    return xom


def reopen(S, xom):
    """ the same server directory opened again, as after a restart """
    e = [e for e in _cache.values() if e.config is xom.config][0]
    e.close(xom)
    xom2 = e.new_xom()
    S.on_end(lambda: e.close(xom2))
    return xom2
