"""Helpers shared by the harnesses."""
import builtins
import os
import queue
import shutil
import sqlite3
import threading


class Crash(BaseException):
    """ the process ends here, nothing it does afterwards has an effect """


class CrashConnection(sqlite3.Connection):
    plan = None

    def commit(self):
        plan = CrashConnection.plan
        if plan is not None:
            plan.point("before db commit")
        super().commit()
        if plan is not None:
            plan.point("after db commit")


class CrashPlan:
    """ ends the process at the step with the given (symbolic) number """

    def __init__(self, S, at, fail=None):
        self.S = S
        self.fail = fail   # names of steps which fail with an error instead
        self.at = at
        self.count = 0
        self.armed = False
        self.dead = False
        self.where = None
        self.conns = []
        self.install()

    def point(self, what):
        if not self.armed:
            return
        if self.dead:
            raise Crash
        if self.fail is not None and what not in self.fail:
            return
        n = self.count
        self.count += 1
        if self.fail is not None:
            if self.at == n:
                self.where = what
                raise OSError(28, "No space left on device")
            return
        if self.at == n:
            self.dead = True
            self.where = what
            raise Crash

    def install(self):
        S = self.S
        if S.symbolic:
            from symdev import sqlshim
            sqlshim.register(CrashConnection)
        plan = self

        def wrap(owner, name):
            orig = getattr(owner, name)

            def wrapper(*args, **kw):
                plan.point("before " + name)
                res = orig(*args, **kw)
                plan.point("after " + name)
                return res
            S.patch(owner, name, wrapper)
        for name in ("replace", "rename", "remove", "unlink", "link", "rmdir", "makedirs", "mkdir"):
            wrap(os, name)
        for name in ("move", "copyfile", "copy", "rmtree"):
            wrap(shutil, name)
        orig_open = builtins.open

        def open_wrapper(file, mode="r", *args, **kw):
            if "w" not in mode and "+" not in mode and "a" not in mode and "x" not in mode:
                return orig_open(file, mode, *args, **kw)
            plan.point("before open")
            f = orig_open(file, mode, *args, **kw)
            plan.point("after open")
            return f
        S.patch(builtins, "open", open_wrapper)
        orig_connect = sqlite3.connect

        def connect(*args, **kw):
            kw["factory"] = CrashConnection
            conn = orig_connect(*args, **kw)
            plan.conns.append(conn)
            return conn
        S.patch(sqlite3, "connect", connect)
        CrashConnection.plan = self

        def off():
            CrashConnection.plan = None
        S.on_end(off)

    def arm(self):
        self.armed = True

    def end(self):
        """ the process is gone """
        self.armed = False
        self.dead = False
        conns, self.conns = self.conns, []
        for conn in conns:
            try:
                conn.rollback()
            except sqlite3.Error:
                pass
            conn.close()


class Worker:
    """ a thread which runs one function at a time while we wait """

    def __init__(self, S):
        self.todo = queue.Queue()
        self.done = queue.Queue()
        self.thread = threading.Thread(target=self._run, daemon=True)
        self.thread.start()
        S.on_end(self.stop)

    def _run(self):
        while 1:
            f = self.todo.get()
            if f is None:
                self.done.put(None)
                return
            try:
                self.done.put(("ok", f()))
            except BaseException as e:
                self.done.put(("err", e))

    def __call__(self, f):
        self.todo.put(f)
        kind, res = self.done.get()
        if kind == "err":
            raise res
        return res

    def stop(self):
        if self.thread.is_alive():
            self.todo.put(None)
            self.done.get()


class EventThread:
    """ stands for the thread of the notifier, ends when there is nothing to do """
    name = "notifier"

    class Done(Exception):
        pass

    def is_alive(self):
        return False

    def exit_if_shutdown(self):
        pass

    def sleep(self, secs):
        raise self.Done


def run_events(S, xom):
    """ all subscribers are called for all changes """
    keyfs = xom.keyfs
    thread = keyfs.notifier.thread = EventThread()

    def wait_tx_serial(serial, **kw):
        raise thread.Done
    keyfs.wait_tx_serial = wait_tx_serial
    from devpi_server import mythread
    S.patch(mythread, "Shutdown", thread.Done)
    try:
        keyfs.notifier.thread_run()
    except thread.Done:
        pass
    finally:
        del keyfs.wait_tx_serial
    S.check(keyfs.notifier.read_event_serial() == keyfs.get_current_serial(), "all events are processed")
