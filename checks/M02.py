"""Which projects of a mirror are served through private indexes."""
from checks import auth as h
from checks import index
from devpi_server.model import Unknown
from devpi_server import mirror
from devpi_server import model
from devpi_server.model import SimpleLinks
from symdev.harness import Case


LAYOUTS = {
    "one": {"a": ("m",)},
    "two": {"a": ("b", "m"), "b": ()},
    "chain": {"a": ("b",), "b": ("m",)},
    "two mirrors": {"a": ("b", "m", "n"), "b": ()},
    "three": {"a": ("b", "c"), "b": ("m",), "c": ()},
}


def sro(layout):
    order = []
    mirrors = []
    todo = ["a"]
    while todo:
        x = todo.pop(0)
        if x in order:
            continue
        order.append(x)
        for b in layout[x]:
            if b in ("m", "n"):
                if b not in mirrors:
                    mirrors.append(b)
            else:
                todo.append(b)
    return order, mirrors


def whitelist(S, layout, entries, upstream, op):
    """ a private project hides the one of the mirror unless it is whitelisted """
    xom = index.setup(S)
    layout = LAYOUTS[layout]
    order, mirrors = sro(layout)
    inheritance = S.choice("inheritance", ["union", "intersection", None])
    configs = {}
    private = {}
    lists = {}
    for i, name in enumerate(order):
        n = S.choice("entries of " + name, list(range(entries[i] + 1)))
        lists[name] = [S.str("entry %d of %s" % (j, name), 1, "*po") for j in range(n)]
        private[name] = S.choice(name + " has the project", [False, True])
        config = dict(type="stage", volatile=True, bases=tuple("u/" + b for b in layout[name]))
        if lists[name] or S.choice("empty whitelist of " + name, [True]):
            config["mirror_whitelist"] = lists[name]
        if name == "a":
            if inheritance is not None:
                config["mirror_whitelist_inheritance"] = inheritance
        else:
            # only the setting of the index which is asked counts
            config["mirror_whitelist_inheritance"] = "union"
        configs["u/" + name] = config
    known = {}
    for name in mirrors:
        known[name] = S.choice("state of " + name, upstream)
        configs["u/" + name] = dict(
            type="mirror", mirror_url="http://localhost/",
            mirror_no_project_list=known[name] == "unknown")
    asked = []

    def has_project(self, project):
        asked.append(self.index)
        if self.index in private:
            return private[self.index]
        state = known[self.index]
        if state == "error":
            raise self.UpstreamError("x")
        return {"yes": True, "no": False, "unknown": Unknown, "links error": True}[state]

    fetched = []

    def links(self, project):
        fetched.append(self.index)
        if self.index in known and known[self.index] == "links error":
            raise self.UpstreamError("x")
        return SimpleLinks([("p-1.%s.zip" % self.index, self.index, None, None)])

    def versions(self, project):
        fetched.append(self.index)
        if self.index in known and known[self.index] == "links error":
            raise self.UpstreamError("x")
        return {self.index}
    S.patch(model.PrivateStage, "has_project_perstage", has_project)
    S.patch(mirror.MirrorStage, "has_project_perstage", has_project)
    S.patch(model.PrivateStage, "get_simplelinks_perstage", links)
    S.patch(mirror.MirrorStage, "get_simplelinks_perstage", links)
    S.patch(model.PrivateStage, "list_versions_perstage", versions)
    S.patch(mirror.MirrorStage, "list_versions_perstage", versions)

    # what is expected
    merged = None
    listed = False
    hidden = False
    for name in order:
        here = {}
        for x in "po*":
            here[x] = S.any([e == x for e in lists[name]])
        if merged is None:
            merged = here
        elif inheritance == "intersection":
            merged = {x: S.all([merged[x], here[x]]) for x in here}
        else:
            merged = {x: S.any([merged[x], here[x]]) for x in here}
        listed = S.any([listed, merged["p"], merged["*"]])
        hidden = hidden or private[name]
    serve = S.any([not hidden, listed])
    spelling = "p"
    with xom.keyfs.read_transaction():
        lazy = index.lazy_indexes(S, xom, {
            k: (lambda S, name, c=c: c) for k, c in configs.items()})
        stage = lazy.getstage("u/a")
        if op == "info":
            # the information shown to users
            kind, info = S.attempt(stage.get_mirror_whitelist_info, spelling, excs=(model.UpstreamError,))
            if kind == "err":
                S.check(any([known[m] == "error" for m in mirrors]), "no error without an unreachable mirror")
                return
            m = mirrors[0]
            blocked = S.all([not_(S, serve)])
            if known[m] in ("yes", "links error"):
                S.check(S.iff(info["blocked_by_mirror_whitelist"] is not None, blocked), "information about blocking")
                if info["blocked_by_mirror_whitelist"] is None:
                    S.check(info["has_mirror_base"] is True, "information about the base")
                else:
                    S.check(info["blocked_by_mirror_whitelist"] == "u/" + m, "which base is blocked")
                    S.check(info["has_mirror_base"] is not True, "a blocked mirror is no base")
            elif known[m] == "no":
                S.check(info["has_mirror_base"] is not True, "project which isn't on the mirror")
            return
        if op == "links":
            res = [x.href for x in stage.get_simplelinks(spelling, sorted_links=False)]
        else:
            res = stage.list_versions(spelling)
        result = set(res)
    for name in order:
        S.check((name in result) == private[name], "projects of private indexes are served")
    for m in mirrors:
        if known[m] == "yes":
            S.check(S.iff(m in result, serve), "mirror is only used if nothing is hidden or it's whitelisted",
                    lambda: repr((m, result, lists, private, inheritance)))
        elif known[m] == "unknown":
            # a mirror without a list of projects is not asked for private ones
            S.check(S.implies(m in result, serve), "mirror without project list and private project")
            if not hidden:
                S.check(m in result, "mirror without project list is asked")
        else:
            S.check(m not in result, "nothing from a mirror without the project or with errors")
        S.check(S.implies(m in fetched, serve), "a blocked mirror is never asked for files")
        S.check(S.implies(m in asked, serve), "a blocked mirror is never asked for the project")


def not_(S, x):
    return S.not_(x)


def spelling(S, n):
    """ entries and names are compared in their normalized form """
    xom = index.setup(S)
    entry = S.str("entry", n, "pP-_.")
    project = S.str("project", n, "pP-_.")
    S.assume(project[0] not in "-_.")
    S.assume(project[n - 1] not in "-_.")
    S.patch(model.PrivateStage, "has_project_perstage", lambda self, project: True)
    S.patch(mirror.MirrorStage, "has_project_perstage", lambda self, project: True)
    S.patch(model.PrivateStage, "list_versions_perstage", lambda self, project: {"1"})
    S.patch(mirror.MirrorStage, "list_versions_perstage", lambda self, project: {"2"})
    with xom.keyfs.write_transaction():
        user = index.make_user(xom)
        user.create_stage("m", type="mirror", mirror_url="http://localhost/")
        user.create_stage("a", bases=["u/m"], mirror_whitelist=[entry])
    with xom.keyfs.read_transaction():
        stage = xom.model.getstage("u/a")
        versions = stage.list_versions(project)

    def norm(s):
        out = ""
        for c in s:
            if c in "-_.":
                if not out.endswith("-"):
                    out = out + "-"
            else:
                out = out + c.lower()
        return out
    same = norm(entry) == norm(project)
    S.check(S.iff("2" in versions, same), "whitelist is compared with normalized names")


def cases(tier):
    res = []
    for op in ("links", "versions", "info"):
        for layout, entries in (("one", (2,)), ("two", (1, 1)), ("chain", (1, 1)), ("two mirrors", (1, 1))):
            if layout == "two mirrors" and op != "links":
                continue
            res.append(Case(
                "%s %s" % (layout, op), whitelist, layout=layout, entries=entries, op=op,
                upstream=["yes", "no", "unknown", "error", "links error"] if layout != "two mirrors" else ["yes", "error"],
                time_limit=100, bounds="indexes %r, whitelists with up to %r entries" % (LAYOUTS[layout], entries)))
    res.append(Case("spelling", spelling, n=3, time_limit=100, bounds="names of three letters p, P, -, _ and ."))
    if tier == "thorough":
        for op in ("links", "info"):
            res.append(Case("three %s" % op, whitelist, layout="three", entries=(1, 1, 1), op=op,
                            upstream=["yes", "unknown"], time_limit=600, max_paths=200000,
                            bounds="three indexes, one whitelist entry each"))
            res.append(Case("two long %s" % op, whitelist, layout="two", entries=(2, 2), op=op,
                            upstream=["yes", "unknown"], time_limit=600, max_paths=200000,
                            bounds="two indexes, two whitelist entries each"))
    return res
