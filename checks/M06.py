"""Pushing a release copies all of it, and nothing else."""
from checks import index
from checks.app import App
from symdev.harness import Case

CONTENTS = [b"content 0", b"content 1"]
FILES = ["p-1.0.zip", "p-1.0.tar.gz"]


def snapshot(xom, name):
    """ version -> metadata, files, test results and documentation """
    res = {}
    with xom.keyfs.read_transaction():
        stage = xom.model.getstage(name)
        for project in sorted(stage.list_projects_perstage()):
            simple = sorted([(x.key, x.path, x.require_python) for x in stage.get_simplelinks_perstage(project)], key=repr)
            res[project] = ("simple", simple)
            for v in sorted(stage.list_versions_perstage(project)):
                verdata = stage.get_versiondata_perstage(project, v)
                meta = {k: x for k, x in verdata.items() if k[0] != "+"}
                store = stage.get_linkstore_perstage(project, v)
                files = {}
                tox = {}
                docs = []
                for link in store.get_links():
                    entry = link.entry
                    content = entry.file_get_content() if entry.file_exists() else None
                    valid = entry.file_exists() and entry.validate() is None and link.matches_checksum(content)
                    logs = [dict(x) for x in link.get_logs()]
                    if link.rel == "releasefile":
                        files[link.basename] = (content, valid, dict(entry.hashes), entry.last_modified, logs, entry.project, entry.version)
                    elif link.rel == "toxresult":
                        release, = store.get_links(entrypath=link.for_entrypath)
                        tox.setdefault(release.basename, []).append((content, valid, logs))
                    else:
                        docs.append((content, valid, logs))
                res[project, v] = (meta, files, tox, docs)
    return res


def without_logs(snap):
    res = {}
    for key, value in snap.items():
        if value[0] == "simple":
            res[key] = value
            continue
        (meta, files, tox, docs) = value
        res[key] = (meta, {k: x[:4] for k, x in files.items()}, {k: [y[:2] for y in x] for k, x in tox.items()}, [x[:2] for x in docs])
    return res


def entry_logs(logs, what):
    return [(x["what"], x["who"], x.get("src"), x.get("dst")) for x in logs if x["what"] in what]


def push(S, source, options, target, who, names, other_version):
    xom = index.setup(S)
    app = App(S, xom)
    who = S.choice("who", who)
    volatile, allowed = S.choice("target", target)
    have = S.choice("source", source)
    with xom.keyfs.write_transaction():
        xom.model.get_user("root").modify(password="pw")
        u = index.make_user(xom, "u")
        v = index.make_user(xom, "v")
        src = u.create_stage("a")
        dst = v.create_stage("b", volatile=volatile, acl_upload=["v", "u"] if allowed else ["v"])
        requires = S.choice("requires_python", [None, ">=3"])
        meta = dict(name="P", version="1.0", summary="s")
        if requires:
            meta["requires_python"] = requires
        src.set_versiondata(dict(meta))
        links = {}
        for i, basename in enumerate(FILES):
            if basename in have:
                link = src.store_releasefile("p", "1.0", basename, CONTENTS[i], last_modified="Mon, 01 Jan 2024 00:00:0%d GMT" % i)
                link.add_log("upload", "u", dst="u/a")
                links[basename] = link
        for i, basename in enumerate(FILES):
            if basename in links and "tox %d" % i in have:
                tox = src.store_toxresult(links[basename], b"{%d}" % i, filename="tox%d" % i)
                tox.add_log("upload", "u", dst="u/a")
        if "docs" in have:
            src.store_doczip("p", "1.0", CONTENTS[0]).add_log("upload", "u", dst="u/a")
        # another version isn't pushed
        src.set_versiondata(dict(name="p", version="2.0"))
        src.store_releasefile("p", "2.0", "p-2.0.zip", CONTENTS[1])
        before = S.choice("existing", ["nothing", "file", "same file", "other version", "docs"] if other_version else ["nothing"])
        if before in ("file", "same file", "docs"):
            dst.set_versiondata(dict(name="p", version="1.0", author="a"))
            if before == "docs":
                dst.store_doczip("p", "1.0", CONTENTS[1])
            else:
                dst.store_releasefile("p", "1.0", FILES[0], CONTENTS[0 if before == "same file" else 1])
        elif before == "other version":
            dst.set_versiondata(dict(name="P", version="0.9"))
            dst.store_releasefile("p", "0.9", "p-0.9.zip", CONTENTS[0])
    source_before = snapshot(xom, "u/a")
    target_before = snapshot(xom, "v/b")
    serial = xom.keyfs.get_current_serial()
    name, version = S.choice("name", names)
    option = S.choice("option", options)
    doc = dict(option)
    if name is not None:
        doc["name"] = name
    if version is not None:
        doc["version"] = version
    doc.setdefault("targetindex", "v/b")
    reply = app(S.choice("method", ["POST", "PUSH"]) if other_version else "POST", S.choice("path", ["/u/a", "/u/a/"]) if not other_version else "/u/a",
                json=dict(doc), auth=(who, "pw"))
    info = lambda: repr((doc, have, before, reply.status, reply.body))  # noqa: E731
    only_docs = doc.get("only_docs")
    no_docs = doc.get("no_docs")
    files = [] if only_docs else [x for x in FILES if x in have]
    docs = "docs" in have and not no_docs
    may = who == "v" or (who == "u" and allowed)
    unknown = set(doc) - {"name", "version", "targetindex", "only_docs", "no_docs"}
    exists = version == "1.0" and name in ("p", "P")
    conflict = not volatile and ((before in ("file", "same file") and FILES[0] in files) or (before == "docs" and docs))
    S.check(snapshot(xom, "u/a") == source_before, "the source stays as it is", info)
    ok = may and exists and not unknown and not (only_docs and no_docs) and (files or docs) and doc["targetindex"] == "v/b"
    if not ok:
        S.check(reply.status >= 400, "refused", info)
        S.check(reply.status < 500, "refused without failure", info)
        S.check(xom.keyfs.get_current_serial() == serial, "nothing is changed if the push is refused", info)
        return
    target_after = snapshot(xom, "v/b")
    if conflict:
        S.check(reply.status == 409, "conflict", info)
        for key, value in without_logs(target_before).items():
            if value[0] == "simple":
                continue
            new = without_logs(target_after).get(key)
            S.check(new is not None, "versions stay", info)
            for part in (1, 2):
                for k, x in value[part].items():
                    S.check(new[part].get(k) == x, "existing files of the target stay", info)
            S.check(value[3] == [] or new[3] == value[3], "existing documentation of the target stays", info)
        return
    S.check(reply.status == 200, "pushed", info)
    result = reply.json["result"]
    meta, got, tox, gotdocs = target_after["p", "1.0"]
    smeta, sfiles, stox, sdocs = source_before["p", "1.0"]
    old = target_before.get(("p", "1.0"), ({}, {}, {}, []))
    S.check(meta == dict(old[0], **smeta), "metadata of the release", lambda: repr((meta, smeta)))
    S.check(set(got) == set(files) | set(old[1]), "the files of the release, no others", info)
    for basename in files:
        new = got[basename]
        same = before == "same file" and basename == FILES[0] and not volatile
        S.check(new[0] == sfiles[basename][0], "content of the file", info)
        S.check(new[1], "valid checksums", info)
        S.check(new[2] == sfiles[basename][2], "hashes", info)
        S.check(new[5:] == ("p", "1.0"), "project and version", info)
        if not same:
            S.check(new[3] == sfiles[basename][3], "modification time", lambda: repr((new, sfiles)))
        logs = entry_logs(new[4], ("upload", "push"))
        S.check(logs[-2:] == [("upload", "u", None, "u/a"), ("push", who, "u/a", "v/b")], "history of the file", lambda: repr(logs))
        S.check([x[:2] for x in tox.get(basename, [])] == [x[:2] for x in stox.get(basename, [])], "test results of the file",
                lambda: repr((tox, stox)))
        for _, _, logs in tox.get(basename, []):
            logs = entry_logs(logs, ("upload", "push"))
            S.check(logs == [("upload", "u", None, "u/a"), ("push", who, "u/a", "v/b")], "history of the test result", lambda: repr(logs))
        S.check(len([x for x in result if x[1] == "store_releasefile" and x[2].endswith("/" + basename)]) == 1, "the file is reported", info)
    for basename in old[1]:
        if basename not in files:
            S.check(got[basename] == old[1][basename], "other files of the target stay", info)
    if docs:
        S.check([x[:2] for x in gotdocs] == [(CONTENTS[0], True)], "documentation", info)
        logs = entry_logs(gotdocs[0][2], ("upload", "push"))
        S.check(logs[-2:] == [("upload", "u", None, "u/a"), ("push", who, "u/a", "v/b")], "history of the documentation", lambda: repr(logs))
    else:
        S.check(gotdocs == old[3], "no documentation", info)
    S.check(set(target_after) == set(target_before) | {"p", ("p", "1.0")}, "only the version is pushed", info)
    for key, value in target_before.items():
        if key not in ("p", ("p", "1.0")):
            S.check(target_after[key] == value, "other versions of the target stay", info)
    simple = {x[0]: x for x in target_after["p"][1]}
    for basename in files:
        S.check(simple[basename][2] == requires, "requires_python of the links", info)
    for basename in old[1]:
        S.check(basename in simple, "links of existing files", info)


ONE = [("p", "1.0")]
NAMES = [("p", "1.0"), ("P", "1.0"), ("p", "2"), ("q", "1.0"), (None, "1.0"), ("p", None)]
OPTIONS = [{}, {"no_docs": True}, {"only_docs": True}, {"no_docs": True, "only_docs": True}]
WRONG = [{"targetindex": "v"}, {"targetindex": "v/b/c"}, {"targetindex": "v/none"}, {"targetindex": ""}, {"foo": 1}, {"targetindex": "v/b", "posturl": "x"}]
ALL = tuple(FILES) + ("docs", "tox 0", "tox 1")
SOURCES = [
    (), ("docs",), (FILES[0],), (FILES[1], "tox 1"), tuple(FILES), tuple(FILES) + ("tox 0",), tuple(FILES) + ("docs",), ALL]


def cases(tier):
    res = [
        Case("contents", push, source=SOURCES, options=OPTIONS, target=[(True, True)], who=["u"], names=ONE, other_version=False,
             time_limit=100, bounds="releases with up to two files, test results and documentation"),
        Case("existing, volatile", push, source=SOURCES[-3:], options=OPTIONS[:3], target=[(True, True)], who=["u"], names=ONE, other_version=True,
             time_limit=100, bounds="targets with and without existing versions"),
        Case("existing", push, source=SOURCES[-3:], options=OPTIONS[:3], target=[(False, True)], who=["u"], names=ONE, other_version=True,
             time_limit=100, bounds="non-volatile targets with and without existing versions"),
        Case("permissions", push, source=[ALL], options=OPTIONS[:1], target=[(True, True), (True, False), (False, False)],
             who=["u", "v", "root", "x"], names=[("p", "1.0"), ("P", "1.0")], other_version=False, bounds="all users"),
        Case("names", push, source=SOURCES[-2:], options=OPTIONS[:2], target=[(True, True)], who=["u"], names=NAMES, other_version=False,
             bounds="all spellings"),
        Case("wrong options", push, source=[ALL], options=WRONG, target=[(True, True), (False, False)], who=["u", "root"], names=ONE, other_version=False,
             bounds="wrong targets and options"),
    ]
    if tier == "thorough":
        res += [
            Case("all", push, source=SOURCES, options=OPTIONS, target=[(True, True), (False, True), (True, False)], who=["u", "v"],
                 names=NAMES[:4], other_version=True, time_limit=700, max_paths=1000000, bounds="all combinations"),
        ]
    return res
