From 5047169917ced2420261e0da88884515dc5fc46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:27 +0000
Subject: [PATCH 01/18] fix: commit the database before renaming or removing
 files

With the files changed first, a crash before the database commit left the
last committed metadata pointing to files which were already replaced or
removed. The recovery at startup replays the renames of the last committed
serial, so the database has to come first.
---
 server/devpi_server/keyfs_sqlite.py    |  9 +++++++--
 server/devpi_server/keyfs_sqlite_fs.py | 10 ++++++++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/server/devpi_server/keyfs_sqlite.py b/server/devpi_server/keyfs_sqlite.py
index 5a0a500..e42e07f 100644
--- a/server/devpi_server/keyfs_sqlite.py
+++ b/server/devpi_server/keyfs_sqlite.py
@@ -347,6 +347,12 @@ class Connection(BaseConnection):
         self.dirty_files.clear()
         return (files_commit, files_del)
 
+    def _commit_with_dirty_files(self, rel_renames):
+        # the files are part of the database transaction
+        result = self._write_dirty_files(rel_renames)
+        self.commit()
+        return result
+
     def _drop_dirty_files(self):
         return
 
@@ -652,8 +658,7 @@ class Writer:
         rel_renames = self.conn._get_rel_renames()
         entry = (self.changes, rel_renames)
         self.conn.write_changelog_entry(commit_serial, entry)
-        (files_commit, files_del) = self.conn._write_dirty_files(rel_renames)
-        self.conn.commit()
+        (files_commit, files_del) = self.conn._commit_with_dirty_files(rel_renames)
         self.storage.last_commit_timestamp = time.time()
         return LazyChangesFormatter(self.changes, files_commit, files_del)
 
diff --git a/server/devpi_server/keyfs_sqlite_fs.py b/server/devpi_server/keyfs_sqlite_fs.py
index e571271..a26a1b4 100644
--- a/server/devpi_server/keyfs_sqlite_fs.py
+++ b/server/devpi_server/keyfs_sqlite_fs.py
@@ -156,6 +156,16 @@ class Connection(BaseConnection):
         self.dirty_files.clear()
         return result
 
+    def _commit_with_dirty_files(self, rel_renames):
+        # The database has to be committed before any file is touched,
+        # otherwise a crash in between loses files which are still
+        # referenced by the last committed serial.
+        self.commit()
+        # From here on the temporary files belong to the committed serial,
+        # they must not be removed by a rollback after an error.
+        self.dirty_files.clear()
+        return self._write_dirty_files(rel_renames)
+
     def _drop_dirty_files(self):
         drop_dirty_files(self.dirty_files)
         self.dirty_files.clear()
-- 
2.43.0


From 78cde07a57268facf1cd8c6fca3d9e2a33257a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:38 +0000
Subject: [PATCH 02/18] fix: don't mix up temporary files of different
 transactions in crash recovery

The name of the temporary file only depended on the path, the process and
the thread. When a thread replaced a file it committed just before and the
process ended before the new commit, the recovery found the unfinished
temporary file under the name recorded for the last serial and replaced the
committed file with it.
---
 server/devpi_server/keyfs_sqlite_fs.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/server/devpi_server/keyfs_sqlite_fs.py b/server/devpi_server/keyfs_sqlite_fs.py
index a26a1b4..3da6a86 100644
--- a/server/devpi_server/keyfs_sqlite_fs.py
+++ b/server/devpi_server/keyfs_sqlite_fs.py
@@ -10,6 +10,7 @@ from .filestore_fs import commit_renames
 from .filestore_fs import make_rel_renames
 from .fileutil import get_write_file_ensure_dir, loads
 from hashlib import sha256
+from uuid import uuid4
 from zope.interface import alsoProvides
 from zope.interface import implementer
 import errno
@@ -20,11 +21,11 @@ import threading
 
 
 class DirtyFile(object):
-    def __init__(self, path):
+    def __init__(self, path, unique=""):
         self.path = path
         # use hash of path, pid and thread id to prevent conflicts
-        key = "%s%i%i" % (
-            path, os.getpid(), threading.current_thread().ident)
+        key = "%s%i%i%s" % (
+            path, os.getpid(), threading.current_thread().ident, unique)
         digest = sha256(key.encode('utf-8')).hexdigest()
         if sys.platform == 'win32':
             # on windows we have to shorten the digest, otherwise we reach
@@ -37,7 +38,10 @@ class DirtyFile(object):
 
     @classmethod
     def from_content(cls, path, content_or_file):
-        self = DirtyFile(path)
+        # The names are recorded with the committed serial and used for crash
+        # recovery. What a later unfinished transaction left behind for the
+        # same path must not be mistaken for it.
+        self = DirtyFile(path, unique=uuid4().hex)
         if hasattr(content_or_file, "devpi_srcpath"):
             dirname = os.path.dirname(self.tmppath)
             if not os.path.exists(dirname):
@@ -85,10 +89,13 @@ class Connection(BaseConnection):
     def io_file_set(self, path, content_or_file):
         path = self._basedir.join(path).strpath
         assert not path.endswith("-tmp")
+        old = self.dirty_files.get(path)
         if IStorageFile.providedBy(content_or_file):
             self.dirty_files[path] = DirtyFile(path)
         else:
             self.dirty_files[path] = DirtyFile.from_content(path, content_or_file)
+        if old is not None and old.tmppath != self.dirty_files[path].tmppath:
+            os.remove(old.tmppath)
 
     def io_file_new_open(self, path):
         path = self._basedir.join(path).strpath
-- 
2.43.0


From 70dedb79ac5607d1a383c794050fefe66df4abf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:41 +0000
Subject: [PATCH 03/18] fix: reuse the cached password validation only for the
 same credentials

The result was stored on the request without the user name and password
it belongs to, so another decision in the same request got the result of
the first one.
---
 server/devpi_server/auth.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/server/devpi_server/auth.py b/server/devpi_server/auth.py
index 7eb74e2..34cf0c0 100644
--- a/server/devpi_server/auth.py
+++ b/server/devpi_server/auth.py
@@ -91,13 +91,18 @@ class Auth:
             # we got no user model
             return dict(status="nouser")
         # none of the plugins returned valid groups, check our own data
-        # first get a potentially cached value
-        result = getattr(request, '__devpiserver_user_validate_result', notset)
+        # first get a potentially cached value, it's only valid for the
+        # same credentials
+        result = notset
+        credentials = (authuser, authpassword)
+        if getattr(request, '__devpiserver_user_validate_credentials', None) == credentials:
+            result = getattr(request, '__devpiserver_user_validate_result', notset)
         if result is notset:
             result = user.validate(authpassword)
             # cache result on request if available
             if request is not None:
                 # we have to use setattr to avoid name mangling of prefix dunder
+                setattr(request, '__devpiserver_user_validate_credentials', credentials)
                 setattr(request, '__devpiserver_user_validate_result', result)
         if result:
             return dict(status="ok", from_user_object=True)
-- 
2.43.0


From 5b090a6e094a0f6d985c8d3b78d8fa3a792aceb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:13 +0000
Subject: [PATCH 04/18] fix: yield each index only once in the resolution order

A base which is reachable in more than one way was only remembered when it
was processed, so it was added again by other indexes in the meantime.
---
 server/devpi_server/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/server/devpi_server/model.py b/server/devpi_server/model.py
index 6605057..ca8949c 100644
--- a/server/devpi_server/model.py
+++ b/server/devpi_server/model.py
@@ -1144,11 +1144,11 @@ class BaseStage(object):
                         "Index %s base %s excluded via devpiserver_sro_skip.",
                         self.name, base)
                     continue
+                # prevent duplicates of bases which aren't processed yet
+                seen.add(base)
                 if current_stage.ixconfig['type'] == 'mirror':
+                    # mirrors are processed last
                     todo_mirrors.append(current_stage)
-                    # mirrors are processed last,
-                    # but we need to prevent duplicates
-                    seen.add(base)
                 else:
                     todo.append(current_stage)
         for stage in todo_mirrors:
-- 
2.43.0


From 9e8fad7361ccac2fd38d24a2108680aa5572b42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:25 +0000
Subject: [PATCH 05/18] fix: don't allow replacing files of non-volatile
 indexes via another version

---
 server/devpi_server/model.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/server/devpi_server/model.py b/server/devpi_server/model.py
index ca8949c..cf3db23 100644
--- a/server/devpi_server/model.py
+++ b/server/devpi_server/model.py
@@ -1400,6 +1400,16 @@ class PrivateStage(BaseStage):
                     raise MissesRegistration("%s-%s", project, version)
             else:
                 raise MissesRegistration("%s-%s", project, version)
+        if not self.ixconfig.get("volatile"):
+            # a file must not be replaced by one with the same name, which
+            # is uploaded for another version of the project
+            for link_info in self.get_simplelinks_perstage(project):
+                if link_info.key != filename:
+                    continue
+                exc = NonVolatile("rel=releasefile basename=%s on stage %s" % (
+                    filename, self.name))
+                exc.link = self._make_elink(project, link_info)
+                raise exc
         linkstore = self.get_linkstore_perstage(project, version, readonly=False)
         link = linkstore.create_linked_entry(
             rel="releasefile",
-- 
2.43.0


From a7889c7d78bba207ab30e3891ba1086c6d36c964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:36 +0000
Subject: [PATCH 06/18] fix: update links of existing files if requires_python
 of their version changes

---
 server/devpi_server/model.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/server/devpi_server/model.py b/server/devpi_server/model.py
index cf3db23..ae303d0 100644
--- a/server/devpi_server/model.py
+++ b/server/devpi_server/model.py
@@ -1274,7 +1274,15 @@ class PrivateStage(BaseStage):
         if self.customizer.readonly:
             raise ReadonlyIndex("index is marked read only")
         validate_metadata(metadata)
+        (project, version) = (metadata["name"], metadata["version"])
+        old_versiondata = self.get_versiondata_perstage(project, version)
+        old_requires_python = old_versiondata.get("requires_python")
         self._set_versiondata(metadata)
+        if "+elinks" not in old_versiondata:
+            return
+        if metadata.get("requires_python", old_requires_python) != old_requires_python:
+            # the simple links contain the value for each existing file
+            self._regen_simplelinks(project)
 
     def key_projversions(self, project):
         return self.keyfs.PROJVERSIONS(user=self.username,
-- 
2.43.0


From 28645930024e02985c58c947b264040ad2c74011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:05 +0000
Subject: [PATCH 07/18] fix: reject logins of users without a password

---
 server/devpi_server/model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/server/devpi_server/model.py b/server/devpi_server/model.py
index ae303d0..234ca4d 100644
--- a/server/devpi_server/model.py
+++ b/server/devpi_server/model.py
@@ -410,7 +410,10 @@ class User:
         if not userconfig:
             return False
         salt = userconfig.get("pwsalt")
-        pwhash = userconfig["pwhash"]
+        pwhash = userconfig.get("pwhash")
+        if pwhash is None:
+            # the user has no password, it was authenticated by a plugin
+            return False
         valid, newhash = verify_and_update_password_hash(password, pwhash, salt)
         if valid:
             if newhash and self.keyfs.tx.write:
-- 
2.43.0


From 84d71e8bd57798a76e9a7ec075ab0c42a744c160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:05 +0000
Subject: [PATCH 08/18] fix: ignore indexes and other internal settings when
 creating a user

---
 server/devpi_server/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/server/devpi_server/model.py b/server/devpi_server/model.py
index 234ca4d..9d102f0 100644
--- a/server/devpi_server/model.py
+++ b/server/devpi_server/model.py
@@ -146,6 +146,8 @@ class RootModel:
                 "username '%s' contains characters that aren't allowed. "
                 "Any ascii symbol besides -.@_ is blocked." % username)
         user = User(self, username)
+        user.validate_config(**kwargs)
+        kwargs = user.get_cleaned_config(**kwargs)
         kwargs.update(created=strftime("%Y-%m-%dT%H:%M:%SZ", gmtime()))
         user._modify(password=password, **kwargs)
         userlist.add(username)
-- 
2.43.0


From c6a449b2748282856f1af348ab7f7469251bb815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:05 +0000
Subject: [PATCH 09/18] fix: don't allow users and indexes which are named like
 relative directories

---
 server/devpi_server/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/devpi_server/model.py b/server/devpi_server/model.py
index 9d102f0..d24be7a 100644
--- a/server/devpi_server/model.py
+++ b/server/devpi_server/model.py
@@ -297,6 +297,9 @@ name_char_blocklist_regexp = re.compile(
 
 
 def is_valid_name(name):
+    if name in (".", ".."):
+        # the names are used in paths of files
+        return False
     return not name_char_blocklist_regexp.search(name)
 
 
-- 
2.43.0


From e1017d9b524526d14f231fbeedee2a251fb8d81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:23 +0000
Subject: [PATCH 10/18] fix: keep settings of plugins when other settings of an
 index are modified

---
 server/devpi_server/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/devpi_server/model.py b/server/devpi_server/model.py
index d24be7a..72f8c8b 100644
--- a/server/devpi_server/model.py
+++ b/server/devpi_server/model.py
@@ -746,6 +746,9 @@ class BaseStage(object):
                     "existing index configuration keys for '%s': %s"
                     % (index_type, ", ".join(sorted(conflicting))))
             for key, value in defaults.items():
+                if key not in kwargs and key in self.ixconfig:
+                    # keep the current value on modifications
+                    continue
                 new_value = kwargs.pop(key, value)
                 if isinstance(value, bool):
                     new_value = ensure_boolean(new_value)
-- 
2.43.0


From 81b1e832035ced98d7868ab17f606ba134a3fd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:23 +0000
Subject: [PATCH 11/18] fix: refuse to add to or remove from index settings
 which aren't lists

---
 server/devpi_server/views.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/devpi_server/views.py b/server/devpi_server/views.py
index 32d85ce..3f8b56f 100644
--- a/server/devpi_server/views.py
+++ b/server/devpi_server/views.py
@@ -942,6 +942,9 @@ class PyPIView:
         if isinstance(json, list):
             ixconfig = stage.get()
             for op, key, value in get_actions(json):
+                if op in ('add', 'del') and not isinstance(ixconfig.get(key), (list, tuple)):
+                    apireturn(
+                        400, "The '%s' setting is not a list" % key)
                 if op == 'del':
                     if value not in ixconfig[key]:
                         apireturn(
-- 
2.43.0


From c5dcb3bed6a1fa58ef41f276625ff8da74c775fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:43 +0000
Subject: [PATCH 12/18] fix: remove all occurrences of a value from lists of an
 index config

A value which occurred several times, for example in acl_upload, was still
in effect after it was removed.
---
 server/devpi_server/views.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/server/devpi_server/views.py b/server/devpi_server/views.py
index 3f8b56f..25018e3 100644
--- a/server/devpi_server/views.py
+++ b/server/devpi_server/views.py
@@ -949,11 +949,8 @@ class PyPIView:
                     if value not in ixconfig[key]:
                         apireturn(
                             400, "The '%s' setting doesn't have value '%s'" % (key, value))
-                    if isinstance(ixconfig[key], tuple):
-                        ixconfig[key] = tuple(
-                            x for x in ixconfig[key] if x != value)
-                    else:
-                        ixconfig[key].remove(value)
+                    ixconfig[key] = type(ixconfig[key])(
+                        x for x in ixconfig[key] if x != value)
                 elif op == 'add':
                     if value not in ixconfig[key]:
                         if isinstance(ixconfig[key], tuple):
-- 
2.43.0


From 08ea448d0043376be682dea8f8d6303d7a35e316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:15 +0000
Subject: [PATCH 13/18] fix: don't replace links of mirrors by older ones which
 arrive late

An answer of the upstream which arrives after the timeout is processed in
the background. The lock for the project isn't held reliably in that time,
so newer links may have been stored by another request.
The background task also waited forever with the lock held if the request
failed after the timeout.
---
 server/devpi_server/mirror.py | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/server/devpi_server/mirror.py b/server/devpi_server/mirror.py
index f5b58b7..44a1143 100644
--- a/server/devpi_server/mirror.py
+++ b/server/devpi_server/mirror.py
@@ -681,6 +681,15 @@ class MirrorStage(BaseStage):
                                      project)
 
         with self.keyfs.write_transaction(allow_restart=True):
+            (is_expired, current_links, cache_serial) = self._load_cache_links(project)
+            if current_links is not None and info["serial"] < cache_serial:
+                # another request, which was answered earlier than ours,
+                # already stored a newer state
+                threadlog.warn(
+                    "ignoring links for %r with serial %s, "
+                    "as newer links with serial %s are stored",
+                    project, info["serial"], cache_serial)
+                return self.SimpleLinks(current_links, stale=True)
             # on the master we need to write the updated links.
             maplink = partial(
                 self.filestore.maplink,
@@ -701,13 +710,20 @@ class MirrorStage(BaseStage):
 
     async def _update_simplelinks_in_future(self, newlinks_future, project, lock):
         threadlog.debug("Awaiting simple links for %r", project)
-        info = await newlinks_future
+        try:
+            info = await newlinks_future
+        except asyncio.CancelledError:
+            threadlog.debug("No simple links for %r", project)
+            if lock is not None:
+                lock.release()
+            return
         threadlog.debug("Got simple links for %r", project)
 
         newlinks = join_links_data(
             info["key_hrefs"], info["requires_python"], info["yanked"])
         with self.keyfs.write_transaction():
-            self.keyfs.tx.on_finished(lock.release)
+            if lock is not None:
+                self.keyfs.tx.on_finished(lock.release)
             # fetch current links
             (is_expired, links, cache_serial) = self._load_cache_links(project)
             if links is None or set(links) != set(newlinks):
@@ -773,11 +789,20 @@ class MirrorStage(BaseStage):
         # the async loop has no transaction
         _key_from_link = partial(
             key_from_link, self.keyfs, user=self.user.name, index=self.index)
+
+        async def fetch_releaselinks():
+            try:
+                await self._async_fetch_releaselinks(
+                    newlinks_future, project, cache_serial, _key_from_link)
+            finally:
+                # if we failed after the timeout, then the background task
+                # must not wait forever and keep the lock
+                if not newlinks_future.done():
+                    newlinks_future.cancel()
+
         try:
             self.xom.run_coroutine_threadsafe(
-                self._async_fetch_releaselinks(
-                    newlinks_future, project, cache_serial, _key_from_link),
-                timeout=self.timeout)
+                fetch_releaselinks(), timeout=self.timeout)
         except asyncio.TimeoutError:
             if not self.xom.is_replica():
                 # we process the future in the background
-- 
2.43.0


From b1583061d03700c139e581a07dc1a2f35a4d9029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:43 +0000
Subject: [PATCH 14/18] fix: allow pushing files for which only other hashes
 are known

If a mirror doesn't provide SHA256 hashes, then pushing its files to another
index failed with an internal error.
---
 server/devpi_server/filestore.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/server/devpi_server/filestore.py b/server/devpi_server/filestore.py
index 58dc52d..0060225 100644
--- a/server/devpi_server/filestore.py
+++ b/server/devpi_server/filestore.py
@@ -371,6 +371,13 @@ class FileStore:
         if dir_hash_spec is None:
             if hashes is None:
                 hashes = get_hashes(content_or_file)
+            else:
+                hashes = Digests(hashes)
+            missing_hash_types = hashes.get_missing_hash_types()
+            if missing_hash_types:
+                # for example a file from a mirror which only provides MD5
+                hashes.update(get_hashes(
+                    content_or_file, hash_types=missing_hash_types))
             dir_hash_spec = hashes.get_default_spec()
         hashdir_a, hashdir_b = make_splitdir(dir_hash_spec)
         key = self.keyfs.STAGEFILE(
-- 
2.43.0


From 1086162b612e2bad3278e299e13a0d9e26d052dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:38 +0000
Subject: [PATCH 15/18] fix: reject archive members with ".." when extracting

---
 common/devpi_common/archive.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/common/devpi_common/archive.py b/common/devpi_common/archive.py
index 6877b6e..7f11139 100644
--- a/common/devpi_common/archive.py
+++ b/common/devpi_common/archive.py
@@ -98,6 +98,10 @@ class TarArchive(BaseArchive):
             except ValueError as e:
                 raise ValueError(
                     f"archive name {member.name!r} out of bound") from e
+            if ".." in target.parts[len(to_path.parts):]:
+                # relative_to is purely lexical
+                msg = f"archive name {member.name!r} out of bound"
+                raise ValueError(msg)
         if hasattr(tarfile, 'data_filter'):
             self._archive.extractall(str(to_path), members=members, filter='data')  # type: ignore[call-arg,unused-ignore]
         else:
@@ -133,6 +137,10 @@ class ZipArchive(BaseArchive):
             except ValueError as e:
                 raise ValueError(
                     f"archive name {name!r} out of bound") from e
+            if ".." in fpath.parts[len(basedir.parts):]:
+                # relative_to is purely lexical
+                msg = f"archive name {name!r} out of bound"
+                raise ValueError(msg)
             if name.endswith((os.sep, "/")):
                 fpath.mkdir(parents=True, exist_ok=True)
             else:
-- 
2.43.0


From dc71640856f6d58edd969685a38ffaa6a8f5397f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:38 +0000
Subject: [PATCH 16/18] fix: only serve files inside the folder of unpacked
 documentation

---
 web/devpi_web/doczip.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/web/devpi_web/doczip.py b/web/devpi_web/doczip.py
index 3eceec4..2c170c3 100644
--- a/web/devpi_web/doczip.py
+++ b/web/devpi_web/doczip.py
@@ -76,7 +76,9 @@ def docs_file_exists(stage, name, version, entry, relpath):
                     return False
     else:
         doc_path = unpack_docs(stage, name, version, entry)
-        if doc_path.join(relpath).isfile():
+        path = doc_path.join(relpath)
+        # the relative path comes from the URL and may contain ".."
+        if path.relto(doc_path) and path.isfile():
             return True
     return False
 
-- 
2.43.0


From 807574c9d03dd265991f3b3a0ad2ca18da2990a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:38 +0000
Subject: [PATCH 17/18] fix: reject "." and ".." as version of projects

---
 common/devpi_common/validation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/common/devpi_common/validation.py b/common/devpi_common/validation.py
index 0c2595b..2f5e1d5 100644
--- a/common/devpi_common/validation.py
+++ b/common/devpi_common/validation.py
@@ -79,3 +79,7 @@ def validate_metadata(data):
     # mentioned in documentation; ensure name and version are valid for URLs
     if re.search('[<>%#"]', data['name'] + data['version']):
         raise ValueError('Invalid package name or version (URL safety)')
+
+    # the version is used as a segment of paths and URLs
+    if data['version'] in ('.', '..'):
+        raise ValueError('Invalid version')
-- 
2.43.0


From d2810f9219c418e8f6758fb5be5607fd028d2d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:38 +0000
Subject: [PATCH 18/18] fix: don't treat partially unpacked documentation as
 complete

---
 web/devpi_web/doczip.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/web/devpi_web/doczip.py b/web/devpi_web/doczip.py
index 2c170c3..90e3a49 100644
--- a/web/devpi_web/doczip.py
+++ b/web/devpi_web/doczip.py
@@ -97,6 +97,10 @@ def unpack_docs(stage, name, version, entry):
         hash_file.seek(0)
         if hash_file.read().strip() == get_entry_hash_spec(entry):
             return unpack_path
+        # don't trust partially unpacked docs after an error
+        hash_file.seek(0)
+        hash_file.truncate()
+        hash_file.flush()
         if unpack_path.exists():
             try:
                 unpack_path.remove()
-- 
2.43.0

