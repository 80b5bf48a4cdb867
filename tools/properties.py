S = "server/devpi_server/"
PROPS = [
    dict(
        id="S01", title="Stored values survive serialization, cut records are refused",
        statement="Every value the server can store (nested dictionaries, lists, tuples, sets, strings, bytes, "
                  "integers, booleans, none) is read back equal and with the same types after it was serialized, and "
                  "a readonly view is stored like the value it shows. A serialized record which was cut short is "
                  "refused, never read as another value. Values which cannot be represented are refused when written, "
                  "and the announced serialized size is the real size.",
        over=["inputs"], quant="all values of the listed container shapes with arbitrary leaves; all cut positions",
        why="The tests serialize a handful of literals; the guarantee is about every value and every prefix.",
        mech=[("binary serializer", S + "fileutil.py::load"), ("binary serializer", S + "fileutil.py::dumps"),
              ("size computation", S + "fileutil.py::dumplen")],
        observe=["result of serializing and reading back", "error on a cut record"]),
    dict(
        id="S03", title="Key/value transactions are isolated snapshots with one serial each",
        statement="A transaction sees the state of the store at its start plus its own writes, whatever others commit "
                  "meanwhile, and the state at any earlier serial can still be read unchanged later and after a restart. "
                  "A committed write transaction that changed something creates exactly one new serial; an aborted or "
                  "doomed one, or one which writes the values already stored, creates none and leaves no trace. "
                  "Nothing can be written in a read transaction.",
        over=["histories", "inputs", "schedules"],
        quant="all histories of up to four write transactions over aliasing keys and values, with a concurrent reader",
        why="Histories, aliasing of keys, equality of values and cache states multiply; the tests use a few fixed ones.",
        mech=[("transaction cache and commit", S + "keyfs.py::Transaction"),
              ("history lookup and caches", S + "keyfs_sqlite.py::BaseConnection.get_relpath_at"),
              ("typed keys", S + "keyfs_types.py::TypedKey")],
        observe=["values, existence and serial seen in transactions"]),
    dict(
        id="S04", title="A crash at any step of a commit leaves metadata and files consistent",
        statement="When the process ends at any step of a write transaction that stores, replaces or deletes files, "
                  "after a restart the store shows either the complete state before or the complete state after that "
                  "transaction: every file with metadata exists with the content and checksum of that metadata, and "
                  "deleted files are gone. A transaction whose commit returned is never lost, and recovery can itself "
                  "be interrupted and repeated. A transaction failing with an error before its commit leaves the old state.",
        over=["crash_points", "histories", "fault_sequences"],
        quant="every crash point of transactions with up to two file operations on up to two files, plus a crash in recovery",
        why="No test ends the process inside a commit; the steps between database and file system are never separated.",
        mech=[("commit order of database and files", S + "keyfs_sqlite.py::Writer.commit"),
              ("temporary files and renames", S + "keyfs_sqlite_fs.py::Connection"),
              ("recovery at startup", S + "filestore_fs.py::check_pending_renames")],
        observe=["files and metadata after the server directory is opened again"]),
    dict(
        id="S05", title="Change events are delivered in serial order, none lost over restarts",
        statement="Subscribers to key changes are called for every committed change of their keys, in the order of the "
                  "serials, with the right value and previous serial, also when other subscribers raise errors. "
                  "After a crash or restart at any point processing continues with the first serial which was not "
                  "fully processed; only that serial may be announced twice. "
                  "A serial with a file which is still missing (and not deleted later) waits until the file is there.",
        over=["histories", "crash_points", "schedules"],
        quant="all histories of up to three write transactions, all crash points of the notification thread",
        why="The tests never end the notifier between two steps and only cover a few orders of writes and notifications.",
        mech=[("event loop", S + "keyfs.py::TxNotificationThread.tick"),
              ("calls of subscribers", S + "keyfs.py::TxNotificationThread._execute_hooks"),
              ("event serial on disk", S + "fileutil.py::write_int_to_file")],
        observe=["sequence of events seen by a subscriber", "event serial"]),
    dict(
        id="S06", title="Stored values can't be changed through values read from the store",
        statement="Values read from the store are deeply readonly: no operation on them or on anything reachable from "
                  "them changes the stored or cached state, and they compare equal to the value they show. "
                  "A mutable copy is equal, but independent at every depth; changing it, or the object passed to a "
                  "write after the write transaction, never changes what is stored.",
        over=["inputs"], quant="all nestings of containers up to depth 3 with arbitrary leaves",
        why="Aliasing shows up only for particular nestings and orders of operations.",
        mech=[("readonly views", S + "readonly.py::ensure_deeply_readonly"),
              ("mutable copies", S + "readonly.py::get_mutable_deepcopy"),
              ("values in transactions", S + "keyfs.py::Transaction.get")],
        observe=["stored values after operations on values which were read"]),
    dict(
        id="S07", title="Storage keys and their parameters determine each other",
        statement="The path of a storage key determines its parameters and the parameters its path: creating a key from "
                  "parameters and parsing its path gives the same parameters back, and different parameters never share "
                  "a path. Parameters which contain a slash, and would span path segments, are refused.",
        over=["inputs"], quant="all parameter values up to the stated length, including pattern characters and newlines",
        why="Collisions need unusual names; the tests use ordinary ones.",
        mech=[("typed keys with parameters", S + "keyfs_types.py::PTypedKey"),
              ("registered keys", S + "model.py::add_keys")],
        observe=["key instance", "path of a key"]),
    dict(
        id="A01", title="Login tokens are honoured only for their user, within their lifetime",
        statement="A token returned by a login authenticates exactly the user it was created for, with exactly the "
                  "groups of that login, for at most the configured lifetime, and only on servers with the same secret. "
                  "An expired, altered or truncated token, a token of another user, one whose payload has another "
                  "shape, or one for a user of the user database which was deleted since is never accepted.",
        over=["inputs", "histories"], quant="all user names, groups, ages, payload shapes, secrets and single alterations within the stated lengths",
        why="Tests try one valid, one expired and one foreign token; alterations and payload shapes are unbounded.",
        mech=[("token creation and check", S + "auth.py::Auth"),
              ("use in requests", S + "view_auth.py::DevpiSecurityPolicy")],
        observe=["auth status for credentials", "identity of a request"]),
    dict(
        id="A02", title="Passwords and authentication plugins decide logins as documented",
        statement="A login succeeds exactly if the first plugin with an opinion accepts it, or no plugin has one and the "
                  "password equals the one last set for the user. A plugin which rejects wins over every other "
                  "source; an error in a plugin never lets anybody in. The root user is never decided by plugins. "
                  "Groups are the union of those the accepting plugins returned. "
                  "Each decision is about the credentials given, also when a request needs several of them.",
        over=["inputs", "histories"], quant="all answers of up to two plugins of both kinds, all users, passwords and sequences of two decisions",
        why="The combinations of plugin answers, users and earlier decisions multiply.",
        mech=[("credential validation", S + "auth.py::Auth._validate"),
              ("plugin results", S + "auth.py::Auth._legacy_auth"),
              ("user passwords", S + "model.py::User.validate")],
        observe=["auth status", "login token"]),
    dict(
        id="M01", title="The resolution order has each index once, itself first, mirrors last",
        statement="For every configuration of bases, also with several ways to the same base, cycles, repeated or "
                  "missing bases, the resolution order of an index ends and contains every index reachable through "
                  "its bases exactly once: itself first, then the private indexes level by level in the order of "
                  "the bases, and mirrors after all private indexes. Bases excluded by a plugin are left out.",
        over=["inputs"], quant="all graphs of bases over up to three (thorough: four) indexes and two mirrors",
        why="Tests use a few fixed inheritance chains, no diamonds, repetitions or cycles.",
        mech=[("resolution order", S + "model.py::BaseStage.sro")],
        observe=["list of indexes a project is looked up in"]),
    dict(
        id="M02", title="Private projects hide those of mirrors unless they are whitelisted",
        statement="If a private index in the resolution order has a project, nothing of the same project is taken from "
                  "a mirror and the mirror isn't even asked, except if the project or '*' is on the whitelist merged "
                  "over the resolution order by the inheritance setting of the index asked for. Names are compared "
                  "in normalized form, files of private indexes are always served, "
                  "and the information shown to users agrees with what is served.",
        over=["inputs"], quant="all whitelists, inheritance settings, project locations and mirror states on the stated layouts",
        why="Dependency confusion needs one particular combination of whitelists and locations; tests sample a few.",
        mech=[("lookup through bases", S + "model.py::BaseStage.op_sro_check_mirror_whitelist"),
              ("information for users", S + "model.py::BaseStage.get_mirror_whitelist_info"),
              ("whitelist normalization", S + "model.py::normalize_whitelist_name")],
        observe=["links and versions served", "requests to mirrors"]),
    dict(
        id="M03", title="Indexes show the merged content of their bases, first index wins",
        statement="The links of an index are those of all indexes in its resolution order: for each file name exactly the "
                  "link of the first index which has it, newest version first, marked stale if a part is stale. Versions "
                  "are the union, latest and latest stable version follow the version order, metadata is that of the "
                  "first index with the others as shadowed, and nothing removed by a filter of the index type appears "
                  "in any of them. An unreachable base leaves the rest visible.",
        over=["inputs"], quant="all contents of up to three indexes within the stated numbers of files and versions",
        why="Shadowing, ordering and filters interact; tests check single combinations.",
        mech=[("links", S + "model.py::BaseStage.get_simplelinks"),
              ("versions", S + "model.py::BaseStage.list_versions"),
              ("metadata", S + "model.py::BaseStage.get_versiondata"),
              ("version order", "common/devpi_common/metadata.py::Version")],
        observe=["links, versions and metadata of an index"]),
    dict(
        id="A03", title="Only the documented users may change indexes, users and files",
        statement="Whether a request may upload, push, register, delete or modify something depends on the identity and "
                  "groups of the requester and the configuration exactly as documented: ACLs with users, groups, "
                  ":ANONYMOUS: and :AUTHENTICATED:, the owner and root, --restrict-modify, readers given by plugins, "
                  "and denials of plugins which win over everything. Indexes of unknown types and mirrors accept no "
                  "uploads. A refused request changes nothing.",
        over=["inputs"], quant="all identities, groups, ACL entries and options within the stated numbers of entries; all kinds of modifying requests",
        why="Tests try a few identities with single ACLs; the product of identities, ACLs, options and requests is not covered.",
        mech=[("ACLs of indexes", S + "model.py::BaseStage.__acl__"), ("ACLs of users and root", S + "view_auth.py::RootFactory"),
              ("permission decision", S + "view_auth.py::DevpiSecurityPolicy.permits"),
              ("protected views", S + "views.py::PyPIView")],
        observe=["status of the request", "state of the server afterwards"]),
    dict(
        id="A04", title="User accounts have safe names, and only given public settings change",
        statement="Users and indexes are only created with names of letters, digits, -.@_ and non-ASCII characters, other than . and .. . Creating or modifying a user changes exactly "
                  "the given known settings, the password validates exactly as last given, and unknown settings are "
                  "refused. A creation never takes over an existing user. No view shows the password hash or salt, "
                  "and a deleted user is completely gone when the name is used again.",
        over=["inputs", "histories"], quant="all names of the stated lengths, all combinations of settings, sequences of two or three requests",
        why="Names are unbounded strings; the tests try a few forbidden letters and single settings.",
        mech=[("user settings", S + "model.py::User"), ("user names", S + "model.py::is_valid_name"),
              ("requests", S + "views.py::PyPIView.user_create"), ("user creation", S + "model.py::RootModel.create_user")],
        observe=["user JSON", "logins", "status of the request"]),
    dict(
        id="M04", title="Released files of non-volatile indexes can't be replaced or removed",
        statement="Whatever sequence of requests anybody sends, a file or documentation once stored in a non-volatile "
                  "index keeps its content and link, unless the index is made volatile or the deletion is forced: other content under the "
                  "same file name is a conflict, also when it is given for another spelling of the name or version, "
                  "pushed, or after a deletion attempt. Uploading the identical file again is accepted.",
        over=["histories", "inputs"], quant="all sequences of one or two requests of all kinds in several spellings",
        why="A detour over another version, spelling or kind of request has to be guessed by a test.",
        mech=[("uploads", S + "views.py::PyPIView.submit"), ("storing files", S + "model.py::PrivateStage.store_releasefile"),
              ("link creation", S + "model.py::LinkStore.create_linked_entry"), ("deletion", S + "views.py::PyPIView.del_versiondata")],
        observe=["downloads", "simple page", "status of the request"]),
    dict(
        id="M05", title="A private index contains exactly what the operations on it left there",
        statement="After every sequence of registrations, uploads of files, documentation and test results, and deletions of files, "
                  "versions, projects, indexes and users, the projects, versions, metadata, links, simple page and "
                  "files are those a simple reference model predicts: nothing removed is still reachable, nothing "
                  "else disappears, and refused operations have no effect.",
        over=["histories"], quant="all sequences of up to three operations, in one or several transactions, from empty and filled indexes",
        why="Stale links and forgotten files appear after particular sequences of operations.",
        mech=[("private index", S + "model.py::PrivateStage"), ("links", S + "model.py::LinkStore"),
              ("files", S + "filestore.py::FileEntry")],
        observe=["projects, versions, metadata, links and files of the index"]),
    dict(
        id="M06", title="Pushing a release copies all of it, and nothing else",
        statement="A push of a release to another index copies its metadata, all files with their hashes, test results, and "
                  "documentation unless excluded, with a log entry, and leaves the source and everything else in the target as they "
                  "were. Without the permission to upload to the target, or for releases or targets which don't exist, nothing "
                  "changes. If a non-volatile target already has one of the files, the push is a conflict and what was there stays.",
        over=["inputs"], quant="all combinations of release contents, targets, options, spellings and users of the stated sets",
        why="Contents of the release and of the target, options and permissions multiply.",
        mech=[("push", S + "views.py::PyPIView.pushrelease"), ("copied files", S + "model.py::LinkStore.new_reflink"),
              ("storing", S + "filestore.py::FileStore.store")],
        observe=["content of both indexes", "status of the request"]),
    dict(
        id="M07", title="Modifying an index changes the given settings, and only these",
        statement="Creating an index stores the given settings in normalized form with the documented defaults, modifying "
                  "it with a dictionary or a list of changes (=, +=, -=, drop) changes exactly those, also "
                  "settings of plugins, and anything invalid or unknown is refused without any effect. "
                  "The type of an index never changes.",
        over=["inputs", "histories"], quant="all values of three characters for each kind of setting; up to two changes",
        why="Each kind of setting has its own conversion; tests use one well-formed value of each.",
        mech=[("normalization", S + "model.py::BaseStage.normalize_indexconfig_value"),
              ("modification", S + "model.py::BaseStage.modify"), ("requests", S + "views.py::PyPIView.index_modify")],
        observe=["index configuration"]),
    dict(
        id="I01", title="Simple pages of mirrors follow the upstream and survive its failures",
        statement="The links of a mirrored project are those of the newest complete upstream page, which is asked for again "
                  "exactly when the cache expired. If the upstream fails, answers nonsense, an older serial or "
                  "too late, the last known links are served and marked stale, or an error if there are none, never an empty "
                  "or mixed page. A late answer is used afterwards unless a newer one came first, and no lock is kept.",
        over=["histories", "fault_sequences", "inputs"], quant="all histories of two to four requests over kinds of answers, timings, serials and pages",
        why="Sequences of failures, late answers and expiry times aren't tried beyond a few pairs.",
        mech=[("simple pages", S + "mirror.py::MirrorStage.get_simplelinks_perstage"),
              ("updates", S + "mirror.py::MirrorStage._update_simplelinks"),
              ("fetching", S + "mirror.py::MirrorStage._async_fetch_releaselinks"), ("cache expiry", S + "mirror.py::ProjectUpdateCache")],
        observe=["simple page", "requests to the upstream"]),
    dict(
        id="I02", title="Mirror credentials go to the upstream only, never into views or storage",
        statement="Credentials of a mirror, from its URL or from plugins, are sent with the requests to the mirror and "
                  "otherwise appear nowhere: not in simple pages, project lists, "
                  "file metadata, the change log or answers to downloads and pushes (the index configuration, shown as it was set, and redirects "
                  "to the upstream excepted). Credentials of plugins are only tried after the upstream asked for some, "
                  "each once and in order.",
        over=["inputs", "histories", "fault_sequences"], quant="all URL forms, users and passwords of the stated sets; up to three requests with rejections",
        why="A leak needs credentials in one particular place of one particular answer.",
        mech=[("credentials", S + "mirror.py::MirrorStage"), ("URLs", "common/devpi_common/url.py::URL"),
              ("mirror files", S + "filestore.py::FileStore.maplink")],
        observe=["headers sent to the upstream", "links and values stored"]),
    dict(
        id="F01", title="Files of mirrors are only kept if they are what the upstream announced",
        statement="A file fetched from a mirror, by a download or push, is stored and delivered as complete "
                  "exactly if its body matches the announced hash and the size; otherwise the client doesn't get a "
                  "complete file and nothing is stored, and the next request asks again. A stored file is served without asking the "
                  "upstream.",
        over=["inputs", "fault_sequences", "histories"], quant="all bodies up to three bytes in two pieces, all announced hash types, sizes and errors; two requests",
        why="Cuts, wrong sizes and wrong contents at every position are sampled by single tests.",
        mech=[("streaming to disk and client", S + "views.py::iter_fetch_remote_file"),
              ("fetching for a push", S + "views.py::iter_cache_remote_file"), ("checksums", S + "filestore.py::Digests.exception_for")],
        observe=["bytes received by the client", "file in the store"]),
    dict(
        id="W01", title="Documentation is confined to its own folder and is that of the current archive",
        statement="Unpacking an archive only ever writes below the given folder, whatever the names of its members are; archives "
        "with names outside are refused. A documentation URL only ever delivers files of the documentation archive of that version: "
        "never other files of the server, whatever the relative path in the URL is, and a file with exactly the name of a member is "
        "delivered with the content of that member. The folders of different versions are separate and below the folder of their "
        "project. After uploads, replacements, deletions, failed or interrupted unpacking and restarts, the delivered pages are those "
        "of the archive which is currently stored, and there are none without an archive.",
        over=["archive member names", "URL paths", "histories of uploads", "disk faults"],
        quant="All member names and URL paths up to a length, all pairs of versions up to a length, all histories of uploads, deletions, requests with disk errors, event processing and restarts up to a length.",
        why="Tests use well-formed archives and URLs; hostile names and failures between two uploads aren't tried.",
        mech=[("unpacking", "common/devpi_common/archive.py::ZipArchive.extract"), ("tar", "common/devpi_common/archive.py::TarArchive.extract"),
              ("folder of a version", "web/devpi_web/doczip.py::get_unpack_path"), ("fresh content", "web/devpi_web/doczip.py::unpack_docs"),
              ("delivery", "web/devpi_web/views.py::doc_serve")],
        observe=["written paths", "response body"]),
]
