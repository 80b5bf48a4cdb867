"""The content of a private index follows the operations on it."""
from checks import index
from devpi_server import model
from symdev.harness import Case

CONTENTS = [b"content 0", b"content 1"]


class Ref:
    """ what an index should contain """

    def __init__(self, volatile):
        self.volatile = volatile
        self.versions = {}   # version -> {"meta": {}, "files": {basename: n}, "docs": n or None, "tox": {basename: n}}
        self.project = False

    def copy(self):
        r = Ref(self.volatile)
        r.project = self.project
        r.versions = {
            v: dict(meta=dict(d["meta"]), files=dict(d["files"]), docs=d["docs"], tox=dict(d["tox"]))
            for v, d in self.versions.items()}
        return r


class Refused(Exception):
    pass


def new_version(ref, v):
    ref.project = True
    return ref.versions.setdefault(v, dict(meta={}, files={}, docs=None, tox={}))


def op_register(S, ref, stage, n):
    v = S.choice("version %d" % n, ["1.0", "2.0"])
    rp = S.choice("requires_python %d" % n, [None, ">=3", ">=2"])
    meta = dict(name="P", version=v)
    if rp is not None:
        meta["requires_python"] = rp
    stage.set_versiondata(dict(meta))
    new_version(ref, v)["meta"].update(meta)


def op_upload(S, ref, stage, n):
    v = S.choice("version %d" % n, ["1.0", "2.0"])
    ext = S.choice("ext %d" % n, ["zip", "tar.gz"])
    c = S.choice("content %d" % n, [0, 1])
    basename = "P-%s.%s" % (v, ext)
    ok = v in ref.versions
    if ok and basename in ref.versions[v]["files"] and not ref.volatile:
        ok = False
    kind, res = S.attempt(stage.store_releasefile, "p", v, basename, CONTENTS[c],
                          excs=(model.MissesRegistration, model.NonVolatile))
    S.check((kind == "ok") == ok, "upload is possible for registered versions, and new files or volatile indexes")
    if ok:
        d = ref.versions[v]
        d["files"][basename] = c
        d["tox"].pop(basename, None)


def op_docs(S, ref, stage, n):
    v = S.choice("version %d" % n, ["1.0", ""])
    c = S.choice("content %d" % n, [0, 1])
    target = v or (max(ref.versions) if ref.versions else None)
    ok = target is not None
    if ok and target in ref.versions and ref.versions[target]["docs"] is not None and not ref.volatile:
        ok = False
    kind, res = S.attempt(stage.store_doczip, "p", v, CONTENTS[c],
                          excs=(model.MissesVersion, model.NonVolatile))
    S.check((kind == "ok") == ok, "documentation upload")
    if ok:
        fresh = target not in ref.versions
        d = new_version(ref, target)
        if fresh:
            d["meta"] = dict(name="p", version=target)
        d["docs"] = c


def pick_file(S, ref, n, kinds):
    pool = []
    for v in sorted(ref.versions):
        d = ref.versions[v]
        for b in sorted(d["files"]):
            pool.append((v, b, "releasefile"))
        if "doczip" in kinds and d["docs"] is not None:
            pool.append((v, "p-%s.doc.zip" % v, "doczip"))
        if "toxresult" in kinds:
            for b in sorted(d["tox"]):
                pool.append((v, b, "toxresult"))
    if not pool:
        raise Refused
    return S.choice("file %d" % n, pool)


def link_for(stage, v, basename, rel):
    store = stage.get_linkstore_perstage("p", v)
    if rel == "toxresult":
        release, = store.get_links(rel="releasefile", basename=basename)
        return store.get_links(rel=rel, for_entrypath=release)[0]
    link, = store.get_links(rel=rel, basename=basename)
    return link


def op_tox(S, ref, stage, n):
    v, basename, rel = pick_file(S, ref, n, ())
    link = link_for(stage, v, basename, rel)
    have = ref.versions[v]["tox"].get(basename, 0)
    stage.store_toxresult(link, b"{}", filename="tox-%s-%d" % (basename, n))
    ref.versions[v]["tox"][basename] = have + 1


def op_del_entry(S, ref, stage, n):
    v, basename, rel = pick_file(S, ref, n, ("doczip", "toxresult"))
    link = link_for(stage, v, basename, rel)
    stage.del_entry(link.entry)
    d = ref.versions[v]
    if rel == "releasefile":
        del d["files"][basename]
        d["tox"].pop(basename, None)
    elif rel == "doczip":
        d["docs"] = None
    else:
        d["tox"][basename] -= 1
        if not d["tox"][basename]:
            del d["tox"][basename]
    if not d["files"] and d["docs"] is None and not d["tox"]:
        drop_version(ref, v)


def drop_version(ref, v):
    del ref.versions[v]
    if not ref.versions:
        ref.project = False


def op_del_version(S, ref, stage, n):
    v = S.choice("version %d" % n, ["1.0", "2.0"])
    kind, res = S.attempt(stage.del_versiondata, "p", v, excs=(model.NotFound,))
    S.check((kind == "ok") == (v in ref.versions), "version can be deleted if it exists")
    if kind == "ok":
        drop_version(ref, v)


def op_del_project(S, ref, stage, n):
    kind, res = S.attempt(stage.del_project, "p", excs=(KeyError,))
    S.check((kind == "ok") == ref.project, "project can be deleted if it exists")
    if kind == "ok":
        ref.versions = {}
        ref.project = False


OPS = dict(register=op_register, upload=op_upload, docs=op_docs, tox=op_tox,
           del_entry=op_del_entry, del_version=op_del_version, del_project=op_del_project)


def compare(S, ref, stage, seen):
    S.check(set(stage.list_projects_perstage()) == ({"p"} if ref.project else set()), "projects")
    S.check(stage.has_project_perstage("p") == ref.project, "has project")
    S.check(set(stage.list_versions_perstage("p")) == set(ref.versions), "versions")
    exists = {}
    simple = []
    for v, d in ref.versions.items():
        verdata = stage.get_versiondata_perstage("p", v)
        meta = {k: x for k, x in verdata.items() if k[0] != "+"}
        S.check(meta == d["meta"], "metadata", lambda: repr((meta, d["meta"])))
        store = stage.get_linkstore_perstage("p", v)
        links = store.get_links()
        releases = [x for x in links if x.rel == "releasefile"]
        S.check({x.basename for x in releases} == set(d["files"]) and len(releases) == len(d["files"]), "release files")
        docs = [x for x in links if x.rel == "doczip"]
        S.check(len(docs) == (d["docs"] is not None), "documentation")
        for x in docs:
            S.check(x.entry.file_get_content() == CONTENTS[d["docs"]], "content of documentation")
        tox = 0
        for x in releases:
            S.check(x.entry.file_exists(), "linked file exists")
            content = CONTENTS[d["files"][x.basename]]
            S.check(x.entry.file_get_content() == content, "content")
            S.check(x.matches_checksum(content), "checksum of the link")
            S.check(x.entry.validate() is None, "checksum of the entry")
            S.check(x.entry.project == "p" and x.entry.version == v, "project and version of the entry")
            mine = store.get_links(rel="toxresult", for_entrypath=x)
            S.check(len(mine) == d["tox"].get(x.basename, 0), "test results of a file")
            tox += len(mine)
            simple.append((x.basename, x.entrypath, d["meta"].get("requires_python")))
        S.check(len(links) == len(releases) + len(docs) + tox, "no other links")
        for x in links:
            exists[x.entrypath] = True
            seen.add(x.entrypath)
            S.check(x.entry.file_exists() and bool(x.entry.meta), "linked files exist")
    for v in ("1.0", "2.0"):
        if v not in ref.versions:
            S.check(not stage.get_versiondata_perstage("p", v), "no metadata of deleted versions")
    got = sorted([(x.key, x.path, x.require_python) for x in stage.get_simplelinks_perstage("p")], key=repr)
    S.check(got == sorted(simple, key=repr), "links of the simple page", lambda: repr((got, simple)))
    for path in seen:
        if path not in exists:
            entry = stage.filestore.get_file_entry(path)
            S.check(entry is None or (not entry.meta and not entry.file_exists()), "files which are not linked anymore are gone",
                    lambda: path)


def history(S, ops, volatile, start, separate):
    xom = index.setup(S)
    with xom.keyfs.write_transaction():
        user = index.make_user(xom)
        user.create_stage("i", volatile=volatile)
    ref = Ref(volatile)
    seen = set()
    with xom.keyfs.write_transaction():
        stage = xom.model.getstage("u/i")
        if start:
            stage.set_versiondata(dict(name="P", version="1.0", requires_python=">=3"))
            new_version(ref, "1.0")["meta"] = dict(name="P", version="1.0", requires_python=">=3")
            for i, basename in enumerate(start):
                stage.store_releasefile("p", "1.0", basename, CONTENTS[i])
                ref.versions["1.0"]["files"][basename] = i
            if "P-1.0.zip" in start:
                stage.store_toxresult(link_for(stage, "1.0", "P-1.0.zip", "releasefile"), b"{}", filename="tox-start")
                ref.versions["1.0"]["tox"]["P-1.0.zip"] = 1
            compare(S, ref, stage, seen)

    def step(stage, n, names):
        name = S.choice("op %d" % n, names)
        OPS[name](S, ref, stage, n)
    try:
        if separate:
            for n, names in enumerate(ops):
                before = ref.copy()
                with xom.keyfs.write_transaction():
                    step(xom.model.getstage("u/i"), n, names)
                with xom.keyfs.read_transaction():
                    compare(S, ref, xom.model.getstage("u/i"), seen)
        else:
            with xom.keyfs.write_transaction():
                for n, names in enumerate(ops):
                    stage = xom.model.getstage("u/i")
                    step(stage, n, names)
                    compare(S, ref, stage, seen)
    except Refused:
        S.assume(False)
    with xom.keyfs.read_transaction():
        compare(S, ref, xom.model.getstage("u/i"), seen)


ALL = ["register", "upload", "docs", "tox", "del_entry", "del_version", "del_project"]
FILES = ("P-1.0.zip", "P-1.0.tar.gz")


def whole_index(S, kind):
    """ deleting an index or a user deletes all their content, and nothing else """
    xom = index.setup(S)
    paths = {}
    with xom.keyfs.write_transaction():
        for username in ("u", "v"):
            user = index.make_user(xom, username)
            for ixname in ("i", "j"):
                stage = user.create_stage(ixname, volatile=S.choice("volatile %s" % ixname, [True, False]) if username == "u" else True)
                name = "p" if username == "v" else S.choice("project on %s/%s" % (username, ixname), ["p", "P_q", None])
                if name is None:
                    continue
                stage.set_versiondata(dict(name=name, version="1.0"))
                link = stage.store_releasefile(name, "1.0", "%s-1.0.zip" % name, CONTENTS[0])
                paths[link.entrypath] = stage.name
                if ixname == "i":
                    link = stage.store_doczip(name, "1.0", CONTENTS[1])
                    paths[link.entrypath] = stage.name
    with xom.keyfs.write_transaction():
        if kind == "index":
            xom.model.getstage("u/i").delete()
            gone = {"u/i"}
        else:
            xom.model.get_user("u").delete()
            gone = {"u/i", "u/j"}
    recreate = S.choice("create again", [False, True])
    if recreate:
        with xom.keyfs.write_transaction():
            if kind == "user":
                index.make_user(xom, "u")
            xom.model.get_user("u").create_stage("i")
    with xom.keyfs.read_transaction():
        for username in ("u", "v"):
            user = xom.model.get_user(username)
            S.check((user is None) == (kind == "user" and username == "u" and not recreate), "users")
            S.check((username in xom.model.get_usernames()) == (user is not None), "list of users")
            for ixname in ("i", "j"):
                name = "%s/%s" % (username, ixname)
                stage = xom.model.getstage(name)
                there = name not in gone or (recreate and name == "u/i")
                S.check((stage is not None) == there, "indexes")
                if stage is not None and name in gone:
                    S.check(set(stage.list_projects_perstage()) == set(), "a new index is empty")
        for path, name in paths.items():
            entry = xom.filestore.get_file_entry(path)
            S.check(entry.file_exists() == (name not in gone), "files of deleted indexes are gone, others stay")
            S.check(bool(entry.meta) == (name not in gone), "file metadata")
            if name not in gone:
                S.check(entry.validate() is None, "other files are intact")
        for key in xom.keyfs.tx.conn.iter_relpaths_at([xom.keyfs.PROJVERSION, xom.keyfs.PROJVERSIONS, xom.keyfs.PROJNAMES],
                                                      xom.keyfs.tx.at_serial):
            value = key.value
            if value and any([key.relpath.startswith(x + "/") for x in gone]):
                S.check(False, "nothing is left of a deleted index", lambda: repr((key.relpath, value)))


def cases(tier):
    res = [
        *[Case("from empty, " + op, history, ops=[["register"], [op], ALL], volatile=True, start=(),
               separate=True, time_limit=200, bounds="register and two operations from an empty index")
          for op in ("docs", "register")],
        *[Case("from empty, upload, " + op, history, ops=[["register"], ["upload"], [op]], volatile=True, start=(),
               separate=True, time_limit=200, bounds="register, upload and one operation from an empty index")
          for op in ALL],
        Case("with files", history, ops=[ALL], volatile=True, start=FILES, separate=False,
             time_limit=200, bounds="one operation on an index with two files and a test result"),
        Case("two deletes", history, ops=[["del_entry", "del_version", "upload"], ["del_entry", "upload", "docs", "tox", "del_project"]],
             volatile=True, start=FILES, separate=False, time_limit=200,
             bounds="two operations in one transaction on an index with two files"),
        Case("docs and deletion", history, ops=[["docs"], ["del_entry"], ["del_entry", "upload", "docs"]],
             volatile=True, start=FILES[1:], separate=True, time_limit=200, bounds="documentation, a deletion and another operation on an index with a file"),
        Case("non-volatile", history, ops=[["upload", "docs", "del_entry", "register"], ["upload", "docs"]], volatile=False, start=FILES[:1],
             separate=True, time_limit=200, bounds="two operations on a non-volatile index"),
        Case("delete index", whole_index, kind="index", time_limit=100, bounds="two users with two indexes each"),
        Case("delete user", whole_index, kind="user", time_limit=100, bounds="two users with two indexes each"),
    ]
    if tier == "thorough":
        res += [
            Case("three from empty", history, ops=[["register"], ALL, ALL, ALL], volatile=True, start=(),
                 separate=True, time_limit=700, max_paths=1000000, bounds="register and three operations"),
            Case("three with files", history, ops=[ALL, ALL, ALL], volatile=True, start=FILES, separate=False,
                 time_limit=700, max_paths=1000000, bounds="three operations in one transaction"),
            Case("three separate", history, ops=[ALL, ALL, ALL], volatile=True, start=FILES, separate=True,
                 time_limit=700, max_paths=1000000, bounds="three operations in separate transactions"),
            Case("three non-volatile", history, ops=[ALL, ALL, ALL], volatile=False, start=FILES, separate=True,
                 time_limit=700, max_paths=1000000, bounds="three operations on a non-volatile index"),
        ]
    return res
