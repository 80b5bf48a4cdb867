"""What an index with bases shows: merged links, versions and metadata."""
from checks import index
from devpi_server import mirror
from devpi_server import model
from devpi_server.model import SimpleLinks
from symdev.harness import Case


def stages(S, xom, names):
    configs = {}
    for i, name in enumerate(names):
        if name == "m":
            config = dict(type="mirror", mirror_url="http://localhost/")
        else:
            config = dict(
                type="stage", volatile=True, mirror_whitelist=["*"],
                bases=tuple("u/" + x for x in names[i + 1:i + 2]))
        configs["u/" + name] = lambda S, name, config=config: config
    return index.lazy_indexes(S, xom, configs)


def patch(S, name, f):
    for cls in (model.PrivateStage, mirror.MirrorStage):
        S.patch(cls, name, f)


def links(S, names, num, upstream_error, digits="129"):
    """ for each file name the link of the first index, newest version first """
    xom = index.setup(S)
    data = {}
    stale = {}
    for name, most in zip(names, num):
        n = S.choice("files of " + name, list(range(most + 1)))
        data[name] = []
        for i in range(n):
            digit = S.str("digit %d of %s" % (i, name), 1, digits)
            ext = S.choice("ext %d of %s" % (i, name), ["zip", "tar.gz"])
            fn = "p-1." + digit + "." + ext
            for other in data[name]:
                S.assume(other[0] != fn)
            data[name].append((fn, "u/%s/+f/%s/" % (name, i) + fn + "#sha256=" + name, None, None))
        stale[name] = S.choice("stale " + name, [False, True]) if name == "m" else False
    error = None
    if upstream_error:
        error = S.choice("error", [None, model.UpstreamError("x"), model.UpstreamNotFoundError("x")])

    def get(self, project):
        if self.index == "m" and error is not None:
            raise error
        return SimpleLinks(data[self.index], stale=stale[self.index])
    patch(S, "get_simplelinks_perstage", get)
    patch(S, "has_project_perstage", lambda self, project: len(data[self.index]) > 0)
    with xom.keyfs.read_transaction():
        lazy = stages(S, xom, names)
        result = lazy.getstage("u/" + names[0]).get_simplelinks("p")
    got = [(x.key, x.href) for x in result]
    served = [name for name in names if data[name] and not (name == "m" and error is not None)]
    expected = []
    for name in served:
        for fn, href, _, _ in data[name]:
            if not any([fn == other for other, _ in expected]):
                expected.append((fn, href))
    S.check(len(got) == len(expected), "number of links")
    for item in expected:
        S.check(any([S.eq(item, other) for other in got]), "link of the first index with the file",
                lambda: repr((got, expected)))
    for (fn1, _), (fn2, _) in zip(got, got[1:]):
        S.check(fn1[4] >= fn2[4], "newest version first", lambda: repr(got))
    S.check(result.stale == any([stale[name] for name in served]), "marked as stale")


def versions(S, names, num, pool):
    """ versions are the union, the latest one is found """
    xom = index.setup(S)
    data = {}
    for name in names:
        n = S.choice("versions of " + name, list(range(num + 1)))
        data[name] = set()
        for i in range(n):
            data[name].add(S.choice("version %d of %s" % (i, name), pool))
    error = S.choice("error", [False, True])

    def get(self, project):
        if self.index == "m" and error:
            raise self.UpstreamError("x")
        return data[self.index]
    patch(S, "list_versions_perstage", get)
    patch(S, "has_project_perstage", lambda self, project: len(data[self.index]) > 0)
    with xom.keyfs.read_transaction():
        lazy = stages(S, xom, names)
        stage = lazy.getstage("u/" + names[0])
        res = stage.list_versions("p")
        latest = stage.get_latest_version("p")
        stable = stage.get_latest_version("p", stable=True)
        own = stage.get_latest_version_perstage("p")
    expected = set()
    for name in names:
        if not (name == "m" and error):
            expected = expected | data[name]
    S.check(set(res) == expected, "versions of all indexes")
    S.check(latest == (max(expected, key=POOL.index) if expected else None), "latest version")
    finals = {v for v in expected if v in STABLE}
    S.check(stable == (max(finals or expected, key=POOL.index) if expected else None) or (not finals and stable is None),
            "latest stable version", lambda: repr((expected, stable)))
    mine = data[names[0]]
    S.check(own == (max(mine, key=POOL.index) if mine else None), "latest version of the index itself")


POOL = ["1.0.dev1", "1.0a1", "1.0", "1.0.post1", "1.9", "1.10rc1", "1.10"]
STABLE = ["1.0", "1.0.post1", "1.9", "1.10"]


def versiondata(S, names):
    """ the metadata of the first index, with the others as shadowed """
    xom = index.setup(S)
    data = {}
    for name in names:
        kind = S.choice("data of " + name, ["none", "other version", "data"])
        data[name] = (kind, dict(name="p", version="1.0", summary=S.str("summary of " + name, 1)))

    def get(self, project, version, readonly=True):
        kind, d = data[self.index]
        if kind == "data" and version == "1.0":
            return d
        return {}
    patch(S, "get_versiondata_perstage", get)
    patch(S, "has_project_perstage", lambda self, project: data[self.index][0] != "none")
    copies = {name: dict(d) for name, (kind, d) in data.items()}
    with xom.keyfs.read_transaction():
        lazy = stages(S, xom, names)
        stage = lazy.getstage("u/" + names[0])
        for i in range(2):
            res = stage.get_versiondata("p", "1.0")
            having = [copies[name] for name in names if data[name][0] == "data"]
            if not having:
                S.check(res == {}, "no data")
                continue
            shadowing = res.pop("+shadowing", [])
            S.check(S.eq(dict(res), having[0]), "data of the first index")
            S.check(S.eq([dict(x) for x in shadowing], having[1:]), "shadowed data")
    for name in names:
        S.check(S.eq(dict(data[name][1]), copies[name]), "data of an index isn't changed")


def filtered(S, names):
    """ what the filters of an index type remove is never shown """
    xom = index.setup(S)
    pool = ["1.0", "2.0", "3.0"]
    keep = {v: S.choice("keep " + v, [False, True]) for v in pool}
    keep_project = S.choice("keep project", [False, True])
    data = {name: [v for v in pool if S.choice("%s has %s" % (name, v), [False, True])] for name in names}
    patch(S, "list_versions_perstage", lambda self, project: set(data[self.index]))
    patch(S, "has_project_perstage", lambda self, project: len(data[self.index]) > 0)
    patch(S, "get_versiondata_perstage", lambda self, project, version, readonly=True:
          dict(name="p", version=version) if version in data[self.index] else {})
    patch(S, "get_simplelinks_perstage", lambda self, project:
          SimpleLinks([("p-%s.zip" % v, "u/%s/p-%s.zip" % (self.index, v), None, None) for v in data[self.index]]))
    patch(S, "list_projects_perstage", lambda self: ["p"] if data[self.index] else [])
    S.patch(model.StageCustomizer, "get_versions_filter_iter", lambda self, project, versions:
            iter([keep[v] for v in versions]))
    S.patch(model.StageCustomizer, "get_simple_links_filter_iter", lambda self, project, links:
            iter([keep[x.version] for x in links]))
    S.patch(model.StageCustomizer, "get_projects_filter_iter", lambda self, projects:
            iter([keep_project for x in projects]))
    with xom.keyfs.read_transaction():
        lazy = stages(S, xom, names)
        stage = lazy.getstage("u/" + names[0])
        versions = stage.list_versions("p")
        latest = stage.get_latest_version("p")
        links = [x.version for x in stage.get_simplelinks("p")]
        datas = {v: bool(stage.get_versiondata("p", v)) for v in pool}
        has = stage.has_project("p")
        projects = [list(ps) for _, ps in stage.list_projects()]
    there = {v for v in pool if any([v in data[name] for name in names])}
    shown = {v for v in there if keep[v] and keep_project}
    S.check(set(versions) == shown, "versions")
    S.check(set(links) == shown, "links")
    S.check(latest == (max(shown) if shown else None), "latest version")
    S.check({v for v in pool if datas[v]} == shown, "metadata")
    S.check(bool(has) == (keep_project and bool(there)), "has project")
    S.check(any([ps for ps in projects]) == (keep_project and bool(there)), "projects")


def cases(tier):
    res = [
        Case("links", links, names="ab", num=(1, 2), upstream_error=False, time_limit=200, max_paths=60000,
             bounds="two indexes with up to one and two files"),
        Case("links with mirror", links, names="abm", num=(1, 1, 1), upstream_error=True, digits="12", time_limit=100,
             bounds="two indexes and a mirror with up to one file each"),
        Case("versions", versions, names="am", num=2, time_limit=100, pool=POOL[1:3] + POOL[4:],
             bounds="an index and a mirror with up to two versions each of " + ", ".join(POOL[1:3] + POOL[4:])),
        Case("metadata", versiondata, names="abm", time_limit=60, bounds="two indexes and a mirror"),
        Case("filters", filtered, names="ab", time_limit=60, bounds="two indexes, three versions"),
    ]
    if tier == "thorough":
        res += [
            Case("more links", links, names="ab", num=(2, 2), upstream_error=False, time_limit=700, max_paths=600000,
                 bounds="two indexes with up to two files each"),
            Case("more versions", versions, names="abm", num=2, pool=POOL, time_limit=700, max_paths=600000,
                 bounds="two indexes and a mirror with up to two versions each"),
        ]
    return res
