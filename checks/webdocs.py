"""Stand-ins for archives and the file system, for names the solver decides about."""
import io
import os
import pathlib
import posixpath
import types
import zipfile


class Escape(Exception):
    """ something outside of the scratch directory was touched """


def canonical(path):
    """ the location the operating system would use, without symbolic links """
    if type(path) is str:
        return posixpath.normpath(path)
    from symdev.instrument import twin_module
    return twin_module("posixpath").normpath(path)


class Recorder:
    """ what would have been written """

    def __init__(self, folder):
        self.folder = folder
        self.dirs = []
        self.files = []

    def all(self):
        return [(x, True) for x in self.dirs] + [(x[0], False) for x in self.files]


def path_class(S, rec):
    """ `pathlib.Path` whose effects are only recorded """
    if S.symbolic:
        from symdev.instrument import twin_module
        base = twin_module("pathlib").PosixPath
    else:
        base = pathlib.PosixPath

    class RecordingPath(base):
        __slots__ = ()

        def mkdir(self, mode=0o777, parents=False, exist_ok=False):
            rec.dirs.append(str_(self))

        def open(self, mode="r", *args, **kw):
            if not set(mode) & set("wax+"):
                raise FileNotFoundError(mode)
            if canonical(str_(self)) == rec.folder:
                raise IsADirectoryError(21, "Is a directory")
            return Writer(rec, str_(self))

        def write_bytes(self, data):
            with self.open("wb") as f:
                f.write(data)

        def touch(self, *args, **kw):
            rec.files.append((str_(self), []))

        def resolve(self, strict=False):
            return type(self)(canonical(str_(self)))

        def absolute(self):
            return self

        def is_symlink(self):
            return False

        def _unexpected(self, *args, **kw):
            raise Escape("unexpected use of the file system")

        stat = lstat = unlink = rmdir = rename = replace = symlink_to = hardlink_to = chmod = write_text = _unexpected

        def exists(self):
            return False

        is_dir = is_file = exists

        def __repr__(self):
            return "RecordingPath(%r)" % (str_(self),)
    return RecordingPath


def str_(path):
    return path if not hasattr(path, "__fspath__") else type(path).__fspath__(path)


class Writer(io.RawIOBase):
    def __init__(self, rec, path):
        self.item = (path, [])
        rec.files.append(self.item)

    def writable(self):
        return True

    def write(self, data):
        self.item[1].append(bytes(data))
        return len(data)


class FakeZip:
    """ a zip file with the given members, as `zipfile.ZipFile` """

    def __init__(self, members, rec):
        self.members = members
        self.rec = rec

    def namelist(self):
        return [x[0] for x in self.members]

    def infolist(self):
        return [types.SimpleNamespace(filename=n, is_dir=lambda n=n: n.endswith("/"), file_size=len(c))
                for n, c in self.members]

    def getinfo(self, name):
        for info in self.infolist():
            if info.filename == name:
                return info
        raise KeyError(name)

    def read(self, name):
        name = getattr(name, "filename", name)
        for n, c in reversed(self.members):
            if n == name:
                return c
        raise KeyError(name)

    def open(self, name, mode="r"):
        return io.BytesIO(self.read(name))

    def extract(self, member, path=None, pwd=None):
        # as documented: absolute names are made relative, ".." is removed
        name = getattr(member, "filename", member)
        parts = [x for x in name.split("/") if x not in ("", ".", "..")]
        target = str_(path) + "/" + "/".join(parts)
        if name.endswith("/"):
            self.rec.dirs.append(target)
        else:
            self.rec.files.append((target, [self.read(name)]))
        return target

    def extractall(self, path=None, members=None, pwd=None):
        for name in (self.namelist() if members is None else members):
            self.extract(name, path)

    def close(self):
        pass


class FakeTar:
    def __init__(self, members, rec):
        self.members = [types.SimpleNamespace(name=n, content=c) for n, c in members]
        self.rec = rec

    def getmembers(self):
        return list(self.members)

    def getnames(self):
        return [m.name for m in self.members]

    def extractall(self, path=".", members=None, *, numeric_owner=False, filter=None):
        for m in (self.members if members is None else members):
            self.extract(m, path, filter=filter)

    def extract(self, member, path="", set_attrs=True, *, numeric_owner=False, filter=None):
        name = member.name
        base = canonical(str_(path))
        if filter == "data":
            # as documented: leading slashes are removed, names outside are refused
            name = name.lstrip("/")
            target = canonical(base + "/" + name)
            if not (target == base or target.startswith(base + "/")):
                raise ValueError("outside destination")
        target = base + "/" + name if not name.startswith("/") else name
        if canonical(target) == self.rec.folder:
            return
        self.rec.files.append((target, [member.content]))

    def close(self):
        pass


class SymZip(zipfile.ZipFile):
    """ real zip files, asked for names the solver decides about """

    def _real(self, name):
        name = getattr(name, "filename", name)
        for n in self.namelist():
            if n == name:
                return n
        raise KeyError("There is no item named %s in the archive" % type(name))

    def open(self, name, *args, **kw):
        return super().open(self._real(name), *args, **kw)

    def getinfo(self, name):
        return super().getinfo(self._real(name))


class Namespace:
    """ a module with some replaced names """

    def __init__(self, module, **kw):
        self.__dict__.update(kw)
        self._module = module

    def __getattr__(self, name):
        return getattr(self._module, name)


def real_file(root, path):
    """ the existing file below `root` for a path, or None """
    if type(path) is str:
        return path if os.path.lexists(path) else None
    path = canonical(path)
    for base, dirs, files in os.walk(root):
        for n in [base] + [os.path.join(base, f) for f in files]:
            if path == n:
                return n
    return None
