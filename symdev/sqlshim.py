"""Symbolic values in the (real) sqlite database and in files.

sqlite only compares keys for equality here, so a symbolic key is stored as a
token, after deciding whether it equals any other value which was stored or
looked up on the path.  Blobs are stored as tokens which are replaced again
when they are read.
"""
import builtins
import io
import os
import sqlite3
import tempfile

from . import shims
from . import values as V
from .shims import HANDLERS
from .values import SBytes
from .values import SStr
from .values import branch
from .values import concrete
from .values import is_sym


class State:
    def __init__(self):
        self.reset()

    def reset(self):
        self.strs = {}       # concrete strings bound so far
        self.syms = []       # (SStr, token)
        self.blobs = []


ST = State()
PRE = "\x01sym:"
BPRE = b"\x01sym:"


def bind(v):
    t = type(v)
    if t is SStr:
        for s, tok in ST.syms:
            if s is v or (len(s) == len(v) and branch(_c(V.seq_eq(s.elems, v.elems)))):
                return tok
        for s in ST.strs:
            if len(s) == len(v) and branch(_c(V.seq_eq(v.elems, tuple(map(ord, s))))):
                return s
        tok = "%s%d" % (PRE, len(ST.syms))
        ST.syms.append((v, tok))
        return tok
    if t is SBytes:
        ST.blobs.append(v)
        return b"%s%d" % (BPRE, len(ST.blobs) - 1)
    if t is str:
        if v not in ST.strs:
            for s, tok in ST.syms:
                if len(s) == len(v) and branch(_c(V.seq_eq(s.elems, tuple(map(ord, v))))):
                    return tok
            ST.strs[v] = True
        return v
    if is_sym(v):
        return concrete(v)
    return v


def _c(e):
    return e


def bind_params(params):
    if isinstance(params, dict):
        return {k: bind(v) for k, v in params.items()}
    return [bind(v) for v in params]


def unbind(v):
    if type(v) is str and v.startswith(PRE):
        return ST.syms[int(v[len(PRE):])][0]
    if type(v) is bytes and v.startswith(BPRE):
        return ST.blobs[int(v[len(BPRE):])]
    return v


def unrow(row):
    if row is None:
        return None
    return tuple(unbind(x) for x in row)


class SCursor:
    def __init__(self, c):
        self.c = c

    def execute(self, q, params=()):
        self.c.execute(q, bind_params(params))
        return self

    def executemany(self, q, seq):
        self.c.executemany(q, [bind_params(p) for p in seq])
        return self

    def fetchone(self):
        return unrow(self.c.fetchone())

    def fetchall(self):
        return [unrow(r) for r in self.c.fetchall()]

    def fetchmany(self, *a):
        return [unrow(r) for r in self.c.fetchmany(*a)]

    def __iter__(self):
        for r in self.c:
            yield unrow(r)

    def close(self):
        self.c.close()

    def __getattr__(self, name):
        return getattr(self.c, name)


HANDLERS[(sqlite3.Connection, "cursor")] = lambda conn, *a: SCursor(conn.cursor(*a))
HANDLERS[(sqlite3.Connection, "execute")] = lambda conn, q, p=(): SCursor(
    conn.execute(q, bind_params(p)))
HANDLERS[(sqlite3.Connection, "executemany")] = lambda conn, q, seq: SCursor(
    conn.executemany(q, [bind_params(p) for p in seq]))
HANDLERS[(sqlite3.Cursor, "execute")] = lambda c, q, p=(): SCursor(c).execute(q, p)


# -- files: written content which is symbolic is kept in memory, a token with a
#    reference to it is what reaches the disk

FPRE = b"\x01symfile:"


class SFile(shims.SBytesIO):
    def __init__(self, f, path):
        self.f = f
        self.path = path
        data = f.read() if f.readable() else b""
        super().__init__(untoken(data))
        self.name = getattr(f, "name", path)
        self.mode = f.mode
        self.dirty = False

    def write(self, data):
        self.dirty = True
        return super().write(data)

    def truncate(self, *a):
        self.dirty = True
        return super().truncate(*a)

    def flush(self):
        if not self.dirty:
            return
        content = self.getvalue()
        if is_sym(content):
            ST.blobs.append(content)
            content = b"%s%d" % (FPRE, len(ST.blobs) - 1)
        self.f.seek(0)
        self.f.truncate()
        self.f.write(content)
        self.f.flush()
        self.dirty = False

    def close(self):
        if self.closed:
            return
        self.closed = True
        self.flush()
        self.f.close()

    def fileno(self):
        self.flush()
        return self.f.fileno()


def untoken(data):
    if data.startswith(FPRE):
        return ST.blobs[int(data[len(FPRE):])]
    return data


_open = builtins.open


@shims.handler(builtins.open, io.open)
def s_open(file, mode="r", *args, **kw):
    file = concrete(file)
    if "b" in mode and isinstance(file, (str, os.PathLike)):
        f = _open(file, mode, *args, **kw)
        if "a" in mode:
            return f
        return SFile(f, os.fspath(file))
    f = _open(file, mode, *args, **kw)
    return f


def file_size(path):
    with _open(path, "rb") as f:
        data = f.read(len(FPRE) + 16)
        if data.startswith(FPRE):
            return len(untoken(data + f.read()))
        return os.fstat(f.fileno()).st_size


@shims.handler(os.path.getsize)
def s_getsize(path):
    path = concrete(path)
    if os.path.isfile(path):
        return file_size(path)
    return os.path.getsize(path)


@shims.handler(tempfile.TemporaryFile, tempfile.SpooledTemporaryFile)
def s_tempfile(*args, **kw):
    return shims.SBytesIO()


_old_reset = shims.reset


def reset():
    _old_reset()
    ST.reset()


shims.reset = reset


def register(cls):
    """ a subclass of sqlite3.Connection """
    for (t, name), h in list(HANDLERS_for(sqlite3.Connection)):
        HANDLERS[(cls, name)] = h


def HANDLERS_for(t):
    return [(k, h) for k, h in HANDLERS.items() if isinstance(k, tuple) and k[0] is t]
