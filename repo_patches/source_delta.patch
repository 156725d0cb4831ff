From 163dfa99d52c537d5f6b8d808c988b2efeeca55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:31 +0000
Subject: [PATCH 01/14] fix: serialize write transactions at connection time in
 postgresql backend

Two write transactions could start from the same serial, the one which
committed last silently undid the changes of the other to the same key.
---
 postgresql/devpi_postgresql/main.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/postgresql/devpi_postgresql/main.py b/postgresql/devpi_postgresql/main.py
index 124a53e..9538635 100644
--- a/postgresql/devpi_postgresql/main.py
+++ b/postgresql/devpi_postgresql/main.py
@@ -484,6 +484,11 @@ class Connection:
         q = 'SELECT pg_advisory_xact_lock(1);'
         self._sqlconn.run(q)
 
+    def _session_lock(self):
+        # released when the connection is closed
+        q = 'SELECT pg_advisory_lock(1);'
+        self._sqlconn.run(q)
+
     def _write_dirty_files(self):
         for path, f in self.dirty_files.items():
             if f is None:
@@ -611,6 +616,15 @@ class Storage:
             timeout=60)
         sqlconn.text_factory = bytes
         conn = Connection(sqlconn, self)
+        if write:
+            # serialize all writers at connection time, so a write transaction
+            # can't start from a state which is changed by another writer
+            # before it commits
+            try:
+                conn._session_lock()
+            except BaseException:
+                conn.close()
+                raise
         if closing:
             return contextlib.closing(conn)
         return conn
-- 
2.43.0


From 701c8ee3a99af32e4bf50bcc96f5511181d1428c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:31 +0000
Subject: [PATCH 02/14] fix: no serials are skipped after failed commits in
 postgresql backend

A failed import on a replica made it store the next changelog entry of the
primary under another serial than on the primary.
---
 postgresql/devpi_postgresql/main.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/postgresql/devpi_postgresql/main.py b/postgresql/devpi_postgresql/main.py
index 9538635..007e193 100644
--- a/postgresql/devpi_postgresql/main.py
+++ b/postgresql/devpi_postgresql/main.py
@@ -710,7 +710,11 @@ class Writer:
     def __enter__(self):
         self.conn.begin()
         self.conn._lock()
-        q = """SELECT nextval('changelog_serial_seq');"""
+        # the sequence isn't affected by rollbacks, so it has to be set to
+        # the next serial, or each failed commit would leave a gap
+        q = """
+            SELECT setval('changelog_serial_seq', (
+                SELECT COALESCE(MAX(serial) + 1, 0) FROM changelog));"""
         self.commit_serial = self.conn.fetchscalar(q)
         self.log = thread_push_log("fswriter%s:" % self.commit_serial)
         self.changes = {}
-- 
2.43.0


From 3b26cc612f80609e7657576aade8149255d74baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:31 +0000
Subject: [PATCH 03/14] fix: replace content when a file is set twice in a
 transaction

The database backends kept the remains of the first content, or appended
the second one.
---
 postgresql/devpi_postgresql/main.py | 4 ++++
 server/devpi_server/keyfs_sqlite.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/postgresql/devpi_postgresql/main.py b/postgresql/devpi_postgresql/main.py
index 007e193..9c7dfea 100644
--- a/postgresql/devpi_postgresql/main.py
+++ b/postgresql/devpi_postgresql/main.py
@@ -303,6 +303,10 @@ class Connection:
         f = self.dirty_files.get(path, None)
         if f is None:
             f = SpooledTemporaryFile(max_size=1048576)
+        else:
+            # replace previous content
+            f.seek(0)
+            f.truncate()
         if not isinstance(content_or_file, bytes) and not callable(getattr(content_or_file, "seekable", None)):
             content_or_file = content_or_file.read()
             if len(content_or_file) > 1048576:
diff --git a/server/devpi_server/keyfs_sqlite.py b/server/devpi_server/keyfs_sqlite.py
index 5a0a500..56a8026 100644
--- a/server/devpi_server/keyfs_sqlite.py
+++ b/server/devpi_server/keyfs_sqlite.py
@@ -254,6 +254,10 @@ class Connection(BaseConnection):
         f = self.dirty_files.get(path, None)
         if f is None:
             f = SpooledTemporaryFile(max_size=1048576)
+        else:
+            # replace previous content
+            f.seek(0)
+            f.truncate()
         if isinstance(content_or_file, bytes):
             f.write(content_or_file)
             f.seek(0)
-- 
2.43.0


From 2268b009ed74bebd5fc6670d1416b916b5eafa2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:14 +0000
Subject: [PATCH 04/14] fix: server can start again after it died during a
 commit

SQLite has to roll back its journal in that case, which isn't possible with
the read only connection which is opened first.
---
 server/devpi_server/keyfs_sqlite.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/server/devpi_server/keyfs_sqlite.py b/server/devpi_server/keyfs_sqlite.py
index 56a8026..37d31f9 100644
--- a/server/devpi_server/keyfs_sqlite.py
+++ b/server/devpi_server/keyfs_sqlite.py
@@ -379,8 +379,19 @@ class BaseStorage(object):
         self._changelog_cache = LRUCache(changelog_cache_size)  # is thread safe
         self._relpath_cache = LRUCache(relpath_cache_size)  # is thread safe
         self.last_commit_timestamp = time.time()
+        self._rollback_journal()
         self.ensure_tables_exist()
 
+    def _rollback_journal(self):
+        # if the process died during a commit, sqlite has to roll back the
+        # journal when the database is opened the next time, which fails on
+        # the read only connections we use for reading
+        if not self.sqlpath.exists():
+            return
+        sqlconn = self._get_sqlconn("file:%s?mode=rw" % self.sqlpath)
+        with contextlib.closing(sqlconn):
+            sqlconn.execute("SELECT COUNT(*) FROM sqlite_master").fetchone()
+
     def _get_sqlconn_uri_kw(self, uri):
         return sqlite3.connect(
             uri, timeout=60, isolation_level=None, uri=True)
-- 
2.43.0


From 80db1122b93a0f6fd757ffa7c41c74efcc9d04eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:58 +0000
Subject: [PATCH 05/14] fix: a crash during a commit doesn't damage the
 previous state

Files were replaced and removed before the commit to the database, so a crash
in between left metadata for files which were gone or had other content. If
one of them was stored by the last commit, the server couldn't start again.
---
 server/devpi_server/filestore_fs.py    | 16 +++++++++++
 server/devpi_server/keyfs_sqlite.py    |  8 ++++--
 server/devpi_server/keyfs_sqlite_fs.py | 38 +++++++++++++++++++++++---
 3 files changed, 56 insertions(+), 6 deletions(-)

diff --git a/server/devpi_server/filestore_fs.py b/server/devpi_server/filestore_fs.py
index 597fb69..40a1882 100644
--- a/server/devpi_server/filestore_fs.py
+++ b/server/devpi_server/filestore_fs.py
@@ -124,6 +124,22 @@ def make_rel_renames(basedir, pending_renames):
             yield dest[len(basedir) + 1:]
 
 
+def split_renames(basedir, pending_renames):
+    # split into renames for which the destination doesn't exist yet, and
+    # the ones which replace or remove existing files
+    new = []
+    existing = []
+    for relpath in pending_renames:
+        suffix = tmpsuffix_for_path(relpath)
+        if suffix is None or os.path.exists(
+            os.path.join(basedir, relpath[:-len(suffix)])
+        ):
+            existing.append(relpath)
+        else:
+            new.append(relpath)
+    return (new, existing)
+
+
 tmp_file_matcher = re.compile(r"(.*?)(-[0-9a-fA-F]{8,64})?(-tmp)$")
 
 
diff --git a/server/devpi_server/keyfs_sqlite.py b/server/devpi_server/keyfs_sqlite.py
index 37d31f9..c340005 100644
--- a/server/devpi_server/keyfs_sqlite.py
+++ b/server/devpi_server/keyfs_sqlite.py
@@ -134,6 +134,11 @@ class BaseConnection:
     def commit(self):
         self._sqlconn.commit()
 
+    def _commit_with_dirty_files(self, rel_renames):
+        result = self._write_dirty_files(rel_renames)
+        self.commit()
+        return result
+
     def rollback(self):
         try:
             self._sqlconn.rollback()
@@ -667,8 +672,7 @@ class Writer:
         rel_renames = self.conn._get_rel_renames()
         entry = (self.changes, rel_renames)
         self.conn.write_changelog_entry(commit_serial, entry)
-        (files_commit, files_del) = self.conn._write_dirty_files(rel_renames)
-        self.conn.commit()
+        (files_commit, files_del) = self.conn._commit_with_dirty_files(rel_renames)
         self.storage.last_commit_timestamp = time.time()
         return LazyChangesFormatter(self.changes, files_commit, files_del)
 
diff --git a/server/devpi_server/keyfs_sqlite_fs.py b/server/devpi_server/keyfs_sqlite_fs.py
index e571271..c851f38 100644
--- a/server/devpi_server/keyfs_sqlite_fs.py
+++ b/server/devpi_server/keyfs_sqlite_fs.py
@@ -8,6 +8,7 @@ from .filestore_fs import LazyChangesFormatter
 from .filestore_fs import check_pending_renames
 from .filestore_fs import commit_renames
 from .filestore_fs import make_rel_renames
+from .filestore_fs import split_renames
 from .fileutil import get_write_file_ensure_dir, loads
 from hashlib import sha256
 from zope.interface import alsoProvides
@@ -148,13 +149,29 @@ class Connection(BaseConnection):
 
     def _write_dirty_files(self, rel_renames):
         basedir = str(self.storage.basedir)
-        # If we crash in the remainder, the next restart will
+        with self.storage._files_lock:
+            result = commit_renames(basedir, rel_renames)
+        self.dirty_files.clear()
+        return result
+
+    def _commit_with_dirty_files(self, rel_renames):
+        basedir = str(self.storage.basedir)
+        # Files which would be replaced or removed are still needed if the
+        # commit isn't finished, so only new files are put into place before.
+        # If we crash after the commit, the next restart will
         # - call check_pending_renames which will replay any remaining
         #   renames from the changelog entry, and
         # - initialize next_serial from the max committed serial + 1
-        result = commit_renames(basedir, rel_renames)
-        self.dirty_files.clear()
-        return result
+        # The next writer waits for the lock until we are done with the files.
+        with self.storage._files_lock:
+            (new, existing) = split_renames(basedir, rel_renames)
+            (files_commit, _) = commit_renames(basedir, new)
+            for relpath in files_commit:
+                self.dirty_files.pop(os.path.join(basedir, relpath), None)
+            self.commit()
+            self.dirty_files.clear()
+            (replaced, files_del) = commit_renames(basedir, existing)
+        return (files_commit + replaced, files_del)
 
     def _drop_dirty_files(self):
         drop_dirty_files(self.dirty_files)
@@ -192,6 +209,19 @@ class Storage(BaseStorage):
                 )
             """))
 
+    def __init__(self, *args, **kw):
+        self._files_lock = threading.Lock()
+        super().__init__(*args, **kw)
+
+    def get_connection(self, closing=True, write=False, timeout=30):
+        conn = super().get_connection(
+            closing=closing, write=write, timeout=timeout)
+        if write:
+            # the previous writer might not be done with its files
+            with self._files_lock:
+                pass
+        return conn
+
     def perform_crash_recovery(self):
         # get last changes and verify all renames took place
         with self.get_connection() as conn:
-- 
2.43.0


From 88731fdfd3fe7acfb69634ca36d2216101ba3678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:32 +0000
Subject: [PATCH 06/14] fix: roll back the changes of requests which are
 refused

A push to a non-volatile index which failed with a conflict left the files
pushed before the conflict and the metadata on the target, and an upload
refused with a conflict changed the metadata of the release.
---
 server/devpi_server/views.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/devpi_server/views.py b/server/devpi_server/views.py
index 32d85ce..90cbf3f 100644
--- a/server/devpi_server/views.py
+++ b/server/devpi_server/views.py
@@ -252,6 +252,10 @@ def tween_keyfs_transaction(handler, registry):
                 threadlog.error(
                     "Keyfs timeout: %s", msg)
                 return HTTPInternalServerError(msg)
+            if write and response.status_code >= 400:
+                # a refused or failed request must not change anything,
+                # but the code may have made changes before it noticed
+                tx.doom()
         set_header_devpi_serial(response, tx)
         return response
     return request_tx_handler
-- 
2.43.0


From 42f09f5226bc760c2080dac4660de6fbc173f711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:41 +0000
Subject: [PATCH 07/14] fix: do not overwrite a test result when another one
 was removed

The file name contains the number of test results, which is in use already if
an earlier one was deleted within the same second.
---
 server/devpi_server/model.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/server/devpi_server/model.py b/server/devpi_server/model.py
index 6605057..01000a1 100644
--- a/server/devpi_server/model.py
+++ b/server/devpi_server/model.py
@@ -1691,9 +1691,16 @@ class LinkStore:
         base_entry = links[0].entry
         if filename is None:
             other_reflinks = self.get_links(rel=rel, for_entrypath=for_entrypath)
+            used_basenames = {x.basename for x in other_reflinks}
             timestamp = strftime("%Y%m%d%H%M%S", gmtime())
-            filename = "%s.%s-%s-%d" % (
-                base_entry.basename, rel, timestamp, len(other_reflinks))
+            count = len(other_reflinks)
+            while True:
+                filename = "%s.%s-%s-%d" % (
+                    base_entry.basename, rel, timestamp, count)
+                if filename not in used_basenames:
+                    break
+                # the number can be in use if an earlier one was deleted
+                count += 1
         entry = self._create_file_entry(
             filename, content_or_file,
             hashes=hashes,
-- 
2.43.0


From 5caf54b6b5f0486fb4f233ee0a39f41634861cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:30 +0000
Subject: [PATCH 08/14] fix: consult each inherited index only once

---
 server/devpi_server/model.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/server/devpi_server/model.py b/server/devpi_server/model.py
index 01000a1..baf4afb 100644
--- a/server/devpi_server/model.py
+++ b/server/devpi_server/model.py
@@ -1124,12 +1124,11 @@ class BaseStage(object):
         """ return stage resolution order. """
         todo = [self]
         todo_mirrors = []
-        seen = set()
+        seen = {self.name}
         devpiserver_sro_skip = self.xom.config.hook.devpiserver_sro_skip
         while todo:
             stage = todo.pop(0)
             yield stage
-            seen.add(stage.name)
             for base in stage.ixconfig.get("bases", ()):
                 if base in seen:
                     continue
@@ -1144,11 +1143,11 @@ class BaseStage(object):
                         "Index %s base %s excluded via devpiserver_sro_skip.",
                         self.name, base)
                     continue
+                # an index can be reachable on several ways
+                seen.add(base)
                 if current_stage.ixconfig['type'] == 'mirror':
+                    # mirrors are processed last
                     todo_mirrors.append(current_stage)
-                    # mirrors are processed last,
-                    # but we need to prevent duplicates
-                    seen.add(base)
                 else:
                     todo.append(current_stage)
         for stage in todo_mirrors:
-- 
2.43.0


From 7a0840b141020cba9fc2cd5683998f71ac2c3319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:37 +0000
Subject: [PATCH 09/14] fix: changed requires_python metadata is reflected on
 the simple page

---
 server/devpi_server/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/devpi_server/model.py b/server/devpi_server/model.py
index baf4afb..9588401 100644
--- a/server/devpi_server/model.py
+++ b/server/devpi_server/model.py
@@ -1289,6 +1289,7 @@ class PrivateStage(BaseStage):
         version = metadata["version"]
         key_projversion = self.key_projversion(project, version)
         versiondata = key_projversion.get(readonly=False)
+        requires_python = versiondata.get('requires_python')
         versiondata.update(metadata)
         key_projversion.set(versiondata)
         threadlog.info("set_metadata %s-%s", project, version)
@@ -1297,6 +1298,9 @@ class PrivateStage(BaseStage):
             versions.add(version)
             self.key_projversions(project).set(versions)
         self.add_project_name(project)
+        if versiondata.get('requires_python') != requires_python and versiondata.get("+elinks"):
+            # the simple links contain requires_python of each file
+            self._regen_simplelinks(project)
 
     def add_project_name(self, project):
         project = normalize_name(project)
-- 
2.43.0


From 350e1b66ae04eb094cd48cf35a32e1b504024b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:13 +0000
Subject: [PATCH 10/14] fix: leave no simple links of removed projects behind

An index deleted and created again as a mirror failed with
KeyError('serial') for every project stored there before.
---
 server/devpi_server/model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/server/devpi_server/model.py b/server/devpi_server/model.py
index 9588401..34fdb40 100644
--- a/server/devpi_server/model.py
+++ b/server/devpi_server/model.py
@@ -1372,7 +1372,12 @@ class PrivateStage(BaseStage):
         project = normalize_name(project_input)
         links = []
         requires_python = []
-        for version in self.list_versions_perstage(project):
+        versions = self.list_versions_perstage(project)
+        if not versions:
+            # leave nothing behind, the index might be recreated as a mirror
+            self.key_projsimplelinks(project).delete()
+            return
+        for version in versions:
             linkstore = self.get_linkstore_perstage(project, version)
             releases = linkstore.get_links("releasefile")
             links.extend(map(make_key_and_href, releases))
-- 
2.43.0


From 589fdbff164b2975a63690ed4b0b34a85ff7d5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:17 +0000
Subject: [PATCH 11/14] fix: replicas ignore superseded file changes

The queue is not processed in the order of serials: the removal of a file
which was added again later deleted the new one, and a file removed while
it was downloaded stayed forever.
---
 server/devpi_server/replica.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/server/devpi_server/replica.py b/server/devpi_server/replica.py
index 765d38a..dcbf727 100644
--- a/server/devpi_server/replica.py
+++ b/server/devpi_server/replica.py
@@ -958,6 +958,11 @@ class FileReplicationThread:
             f.devpi_srcpath = path
         return f
 
+    def is_file_expected(self, conn, key):
+        # the queue doesn't process changes in the order of their serials
+        (_, _, val) = conn.get_relpath_at(key.relpath, conn.last_changelog_serial)
+        return FileEntry(key, val).last_modified is not None
+
     def importer(self, serial, key, val, back_serial, session):
         threadlog.debug("FileReplicationThread.importer for %s, %s", key, val)
         keyfs = self.xom.keyfs
@@ -967,7 +972,8 @@ class FileReplicationThread:
             if back_serial >= 0:
                 with keyfs.get_connection(write=True) as conn:
                     # file was deleted, still might never have been replicated
-                    if conn.io_file_exists(entry._storepath):
+                    # and it might have been added again in a newer serial
+                    if not self.is_file_expected(conn, key) and conn.io_file_exists(entry._storepath):
                         threadlog.info("mark for deletion: %s", relpath)
                         conn.io_file_delete(entry._storepath)
                         conn.commit_files_without_increasing_serial()
@@ -1081,6 +1087,9 @@ class FileReplicationThread:
             # in case there were errors before, we can now remove them
             self.shared_data.errors.remove(entry)
             with keyfs.get_connection(write=True) as conn:
+                if not self.is_file_expected(conn, key):
+                    threadlog.info("deleted while downloading: %s", relpath)
+                    return
                 conn.io_file_set(entry._storepath, f)
                 # on Windows we need to close the file
                 # before the transaction closes
-- 
2.43.0


From c2bf3c8019d85e088f160068fd4370085411542e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:17 +0000
Subject: [PATCH 12/14] fix: replicas remove files whose deletion was not
 processed before a restart

---
 server/devpi_server/replica.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/server/devpi_server/replica.py b/server/devpi_server/replica.py
index dcbf727..d89c1df 100644
--- a/server/devpi_server/replica.py
+++ b/server/devpi_server/replica.py
@@ -1174,8 +1174,6 @@ class InitialQueueThread(object):
             relpaths = tx.iter_relpaths_at(keys, tx.at_serial)
             for item in relpaths:
                 self.thread.exit_if_shutdown()
-                if item.value is None:
-                    continue
                 if self.shared_data.queue.qsize() > self.shared_data.num_threads:
                     # let the queue be processed before filling it further
                     self.shared_data.wait()
@@ -1187,7 +1185,11 @@ class InitialQueueThread(object):
                 processed = processed + 1
                 key = keyfs.get_key_instance(item.keyname, item.relpath)
                 entry = FileEntry(key, item.value)
-                if entry.file_exists() or not entry.last_modified:
+                if item.value is None:
+                    # the deletion might not have been processed before a restart
+                    if not entry.file_exists():
+                        continue
+                elif entry.file_exists() or not entry.last_modified:
                     continue
                 index_type = self.shared_data.get_index_type_for(key, None)
                 # note the negated serial for the PriorityQueue
-- 
2.43.0


From a688bf72c0191596e9c54563e5f1c9d9d0644604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:17 +0000
Subject: [PATCH 13/14] fix: replicas retry interrupted file downloads

---
 server/devpi_server/replica.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/server/devpi_server/replica.py b/server/devpi_server/replica.py
index d89c1df..867bed6 100644
--- a/server/devpi_server/replica.py
+++ b/server/devpi_server/replica.py
@@ -1082,7 +1082,10 @@ class FileReplicationThread:
                     url=r.url,
                     message=str(err),
                     relpath=entry.relpath))
-                return
+                if isinstance(err, ChecksumError):
+                    return
+                # and raise for retrying later
+                raise
 
             # in case there were errors before, we can now remove them
             self.shared_data.errors.remove(entry)
-- 
2.43.0


From 8c4aabab44d67b99c387444cde8931c109228cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:17 +0000
Subject: [PATCH 14/14] fix: replicas do not store a requested file which was
 deleted meanwhile

---
 server/devpi_server/views.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server/devpi_server/views.py b/server/devpi_server/views.py
index 90cbf3f..9f6d125 100644
--- a/server/devpi_server/views.py
+++ b/server/devpi_server/views.py
@@ -1867,6 +1867,12 @@ def iter_remote_file_replica(stage, entry, url):
         else:
             # we need a direct write connection to use the io_file_* methods
             with xom.keyfs.get_connection(write=True, timeout=300) as conn:
+                (_, _, val) = conn.get_relpath_at(
+                    entry.key.relpath, conn.last_changelog_serial)
+                if val is None:
+                    threadlog.info(
+                        "deleted while downloading: %s", entry.relpath)
+                    return
                 conn.io_file_set(entry._storepath, f)
                 # on Windows we need to close the file
                 # before the transaction closes
-- 
2.43.0

