From fb7f83c05ed82d1a65830a695d6cdf521abece00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:02 +0000
Subject: [PATCH 01/28] fix: write configuration and workspace metadata
 atomically

---
 bead/tech/fs.py          | 38 ++++++++++++++++++++++++++++++++++++++
 bead/tech/persistence.py |  5 +++--
 bead/workspace.py        |  5 +----
 bead_cli/environment.py  |  3 +--
 4 files changed, 43 insertions(+), 8 deletions(-)

diff --git a/bead/tech/fs.py b/bead/tech/fs.py
index e0ecac6..c5a9516 100644
--- a/bead/tech/fs.py
+++ b/bead/tech/fs.py
@@ -1,9 +1,11 @@
 import contextlib
+import errno
 import os
 from pathlib import Path
 import shutil
 import stat
 import tempfile
+import uuid
 
 
 def ensure_directory(path: Path):
@@ -20,6 +22,42 @@ def write_file(path: Path, content: bytes | str):
         path.write_text(content, encoding='utf-8')
 
 
+def sync_directory(path: Path):
+    '''
+    Make changes to the entries of a directory durable (where it is supported).
+    '''
+    if os.name != 'posix':
+        return
+    fd = os.open(path, os.O_RDONLY)
+    try:
+        os.fsync(fd)
+    except OSError as e:
+        # not all (network) file systems can do this
+        if e.errno not in (errno.EINVAL, errno.ENOTSUP):
+            raise
+    finally:
+        os.close(fd)
+
+
+def replace_file(path: Path, content: str):
+    '''
+    Write file atomically: a crash leaves either the old or the new content.
+    '''
+    path = Path(os.path.realpath(path))
+    temp = path.with_name(f'.{uuid.uuid4().hex}.tmp')
+    try:
+        with open(temp, 'x', encoding='utf-8') as f:
+            f.write(content)
+            f.flush()
+            os.fsync(f.fileno())
+        os.replace(temp, path)
+    except BaseException:
+        with contextlib.suppress(OSError):
+            temp.unlink()
+        raise
+    sync_directory(path.parent)
+
+
 def read_file(path: Path):
     return path.read_text(encoding='utf-8')
 
diff --git a/bead/tech/persistence.py b/bead/tech/persistence.py
index 81e21a0..5f18eca 100644
--- a/bead/tech/persistence.py
+++ b/bead/tech/persistence.py
@@ -5,6 +5,8 @@ Functions to persist python structures or load them.
 import io
 import json
 
+from . import fs
+
 # json is used for serializing objects for persistence as it is
 # - in the standard library from >=2.6 (including 3.*)
 # - 2.7 version decodes strings as unicode, unlike e.g. the csv module
@@ -55,5 +57,4 @@ def file_load(path):
 
 
 def file_dump(content, path):
-    with open(path, 'w') as f:
-        dump(content, f)
+    fs.replace_file(path, dumps(content))
diff --git a/bead/workspace.py b/bead/workspace.py
index b661690..275eb36 100644
--- a/bead/workspace.py
+++ b/bead/workspace.py
@@ -91,12 +91,9 @@ class Workspace(Bead):
 
         self.create_directories()
 
-        bead_meta = {
+        self.meta = {
             meta.KIND: kind,
             meta.INPUTS: {}}
-        fs.write_file(
-            dir / layouts.Workspace.BEAD_META,
-            persistence.dumps(bead_meta))
 
         assert self.is_valid
 
diff --git a/bead_cli/environment.py b/bead_cli/environment.py
index 93e4262..cdfabd7 100644
--- a/bead_cli/environment.py
+++ b/bead_cli/environment.py
@@ -35,8 +35,7 @@ class Environment:
             self._content = persistence.load(f)
 
     def save(self):
-        with open(self.filename, 'w') as f:
-            persistence.dump(self._content, f)
+        persistence.file_dump(self._content, self.filename)
 
     def get_boxes(self):
         def box(box_spec):
-- 
2.43.0


From 338bf3d2c85bb43be8b525c557fc0b94138ba067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:34 +0000
Subject: [PATCH 02/28] fix: publish a saved bead atomically, once it is
 complete and durable

---
 bead/tech/fs.py   | 27 +++++++++++++++++++++++++++
 bead/workspace.py |  8 ++------
 2 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/bead/tech/fs.py b/bead/tech/fs.py
index c5a9516..6ecf0e5 100644
--- a/bead/tech/fs.py
+++ b/bead/tech/fs.py
@@ -58,6 +58,33 @@ def replace_file(path: Path, content: str):
     sync_directory(path.parent)
 
 
+@contextlib.contextmanager
+def new_file(path: Path):
+    '''
+    Yield a temporary path to be written, which then becomes the new file `path`.
+
+    `path` comes into existence only when its content is complete and durable.
+    '''
+    temp = path.with_name(f'.{uuid.uuid4().hex}.tmp')
+    try:
+        yield temp
+        with open(temp, 'rb+') as f:
+            os.fsync(f.fileno())
+        try:
+            os.link(temp, path)
+        except FileExistsError:
+            raise
+        except OSError:
+            # no hard links on this file system
+            if os.path.exists(path):
+                raise
+            os.rename(temp, path)
+    finally:
+        with contextlib.suppress(FileNotFoundError):
+            temp.unlink()
+    sync_directory(path.parent)
+
+
 def read_file(path: Path):
     return path.read_text(encoding='utf-8')
 
diff --git a/bead/workspace.py b/bead/workspace.py
index 275eb36..f3f26b0 100644
--- a/bead/workspace.py
+++ b/bead/workspace.py
@@ -112,12 +112,8 @@ class Workspace(Bead):
         '''
         zipfilename = fs.Path(zipfilename)
         assert not zipfilename.exists()
-        try:
-            _ZipCreator().create(zipfilename, self, freeze_time, comment)
-        except (RuntimeError, Exception):
-            if zipfilename.exists():
-                zipfilename.unlink()
-            raise
+        with fs.new_file(zipfilename) as temp:
+            _ZipCreator().create(temp, self, freeze_time, comment)
 
     def has_input(self, input_nick):
         '''
-- 
2.43.0


From 9bad4925a88d480cfd0e09cf1ec993d3964b0355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:12 +0000
Subject: [PATCH 03/28] fix: an input directory is complete whenever it exists

---
 bead/workspace.py | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/bead/workspace.py b/bead/workspace.py
index f3f26b0..8903a51 100644
--- a/bead/workspace.py
+++ b/bead/workspace.py
@@ -147,17 +147,23 @@ class Workspace(Bead):
         Make output data files in archive available under input directory
         '''
         input_dir = self.directory / layouts.Workspace.INPUT
-        fs.make_writable(input_dir)
-        try:
+        destination_dir = input_dir / input_nick
+        # the input directory appears only when it is complete
+        with fs.temp_dir(self.directory / layouts.Workspace.META) as temp_dir:
+            unpacked = temp_dir / 'input'
+            archive.unpack_data_to(unpacked)
+            for f in fs.all_subpaths(unpacked):
+                if f != unpacked:
+                    fs.make_readonly(f)
             self.add_input(
                 input_nick,
                 archive.kind, archive.content_id, archive.freeze_time_str)
-            destination_dir = input_dir / input_nick
-            archive.unpack_data_to(destination_dir)
-            for f in fs.all_subpaths(destination_dir):
-                fs.make_readonly(f)
-        finally:
-            fs.make_readonly(input_dir)
+            fs.make_writable(input_dir)
+            try:
+                os.rename(unpacked, destination_dir)
+                fs.make_readonly(destination_dir)
+            finally:
+                fs.make_readonly(input_dir)
 
     def unload(self, input_nick):
         '''
@@ -165,11 +171,15 @@ class Workspace(Bead):
         '''
         assert self.has_input(input_nick)
         input_dir = self.directory / layouts.Workspace.INPUT
-        fs.make_writable(input_dir)
-        try:
-            fs.rmtree(input_dir / input_nick)
-        finally:
-            fs.make_readonly(input_dir)
+        # the input directory disappears before any of its files
+        with fs.temp_dir(self.directory / layouts.Workspace.META) as temp_dir:
+            fs.make_writable(input_dir)
+            try:
+                fs.make_writable(input_dir / input_nick)
+                os.rename(input_dir / input_nick, temp_dir / 'input')
+            finally:
+                fs.make_readonly(input_dir)
+            fs.rmtree(temp_dir / 'input')
 
     def __repr__(self):
         # default values are printed as repr of the value
-- 
2.43.0


From d2d73da9c62b6150fa18114d65622eeb61a769dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:17 +0000
Subject: [PATCH 04/28] fix: edit --review makes the workspace valid only after
 its output is extracted

---
 bead_cli/workspace.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bead_cli/workspace.py b/bead_cli/workspace.py
index 98de29d..72423ae 100644
--- a/bead_cli/workspace.py
+++ b/bead_cli/workspace.py
@@ -156,13 +156,14 @@ class CmdEdit(Command):
         if os.path.exists(workspace.directory):
             die(f'Workspace "{workspace.name}" directory already exists'
                 ' - do you have an old checkout?')
-        bead.unpack_to(workspace)
-        assert workspace.is_valid
-
         if review:
+            # before unpacking the rest: that makes it a valid workspace as its last step
             output_directory = workspace.directory / layouts.Workspace.OUTPUT
             bead.unpack_data_to(output_directory)
 
+        bead.unpack_to(workspace)
+        assert workspace.is_valid
+
         print(f'Extracted source into {workspace.directory}')
         # XXX: try to load smaller inputs?
         if workspace.inputs:
-- 
2.43.0


From 79afb910212b741c027fd96741391308a55ba62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:24 +0000
Subject: [PATCH 05/28] fix: report unreadable content and malformed metadata
 as a damaged archive

---
 bead/ziparchive.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bead/ziparchive.py b/bead/ziparchive.py
index 9ccf20a..87e7a70 100644
--- a/bead/ziparchive.py
+++ b/bead/ziparchive.py
@@ -58,7 +58,14 @@ class ZipArchive(Archive):
             - has freezed name
             - has inputs (even if empty)
         '''
-        if not all(self._checks()):
+        try:
+            is_valid = all(self._checks())
+        except InvalidArchive:
+            raise
+        except Exception as e:
+            # damaged in a way, that it is not even possible to check
+            raise InvalidArchive(self.archive_filename) from e
+        if not is_valid:
             raise InvalidArchive
 
     def _checks(self):
-- 
2.43.0


From ab255900e498cd55b84a5917db9313ecdd6e7ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:01 +0000
Subject: [PATCH 06/28] fix: a malformed file in a box does not prevent access
 to its beads

---
 bead/box_rawfs.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/bead/box_rawfs.py b/bead/box_rawfs.py
index 6ccce4f..d6d8648 100644
--- a/bead/box_rawfs.py
+++ b/bead/box_rawfs.py
@@ -5,7 +5,6 @@ from . import tech
 from .bead import Archive
 from .bead import Bead
 from .box_query import QueryCondition
-from .exceptions import InvalidArchive
 from .ziparchive import ZipArchive
 
 Path = tech.fs.Path
@@ -91,14 +90,15 @@ class RawFilesystemResolver:
                 # Cache the archive as we process it
                 bead = self._bead_from_archive(archive)
                 self._cache_bead_and_path(bead, path)
-            except InvalidArchive:
+            except Exception:
                 # TODO: log/report problem
                 pass
             else:
                 yield archive
 
     def _bead_from_archive(self, archive: Archive) -> Bead:
-        """Create a Bead instance from Archive metadata."""
+        """Create a Bead instance from Archive metadata (fails, if it is malformed)."""
+        archive.freeze_time
         bead = Bead()
         bead.kind = archive.kind
         bead.name = archive.name
@@ -125,7 +125,8 @@ class RawFilesystemResolver:
                     bead = self._bead_from_archive(archive)
                     self._cache_bead_and_path(bead, path)
                     return path
-            except InvalidArchive:
+            except Exception:
+                # not a bead, whatever it is
                 continue
 
         raise LookupError(f"Bead not found: name='{name}', content_id='{content_id}'")
@@ -137,6 +138,6 @@ class RawFilesystemResolver:
             bead = self._bead_from_archive(archive)
             # Cache the new bead and its path
             self._cache_bead_and_path(bead, archive_path)
-        except InvalidArchive:
+        except Exception:
             # Skip invalid archives
             pass
-- 
2.43.0


From b32b2290cf25ccb0f4452e739a709fe2ee99d700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:08 +0000
Subject: [PATCH 07/28] fix: find beads having glob special characters in their
 name

---
 bead/box_rawfs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bead/box_rawfs.py b/bead/box_rawfs.py
index d6d8648..3a43a56 100644
--- a/bead/box_rawfs.py
+++ b/bead/box_rawfs.py
@@ -1,3 +1,4 @@
+import glob
 from typing import Iterable
 from typing import Iterator
 
@@ -56,7 +57,7 @@ class RawFilesystemResolver:
     def _glob_bead_files(self, bead_name: str = '') -> Iterator[Path]:
         """Glob for bead files in box directory, optionally filtered by bead name."""
         if bead_name:
-            pattern = bead_name + '_????????T????????????[-+]????.zip'
+            pattern = glob.escape(bead_name) + '_????????T????????????[-+]????.zip'
         else:
             pattern = '*.zip'
         return self.box_directory.glob(pattern)
-- 
2.43.0


From 4dce26084bad3878fb031f4daaacbe8dfdefc1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:15 +0000
Subject: [PATCH 08/28] fix: index freeze times exactly

---
 bead/box_index.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/bead/box_index.py b/bead/box_index.py
index b24c653..ad9b7ea 100644
--- a/bead/box_index.py
+++ b/bead/box_index.py
@@ -2,6 +2,7 @@
 SQLite-based index for bead storage and retrieval.
 '''
 
+import datetime
 import sqlite3
 from contextlib import closing
 from pathlib import Path
@@ -125,18 +126,18 @@ def find_file_path(conn, name, content_id):
 
 def timestamp_to_unix_utc_microseconds(timestamp):
     """Convert timestamp to UTC unix microseconds for database storage."""
-    if hasattr(timestamp, 'timestamp'):
-        return int(timestamp.timestamp() * 1_000_000)
-    elif isinstance(timestamp, str):
+    if isinstance(timestamp, str):
         from .tech.timestamp import time_from_timestamp
-        dt = time_from_timestamp(timestamp)
-        return int(dt.timestamp() * 1_000_000)
+        timestamp = time_from_timestamp(timestamp)
+    if hasattr(timestamp, 'timestamp'):
+        # exact, unlike the float returned by .timestamp()
+        epoch = datetime.datetime.fromtimestamp(0, tz=datetime.timezone.utc)
+        return (timestamp - epoch) // datetime.timedelta(microseconds=1)
     return timestamp
 
 
 def unix_microseconds_to_timestamp_str(unix_microseconds):
     """Convert unix microseconds back to ISO string for Bead objects."""
-    import datetime
     dt = datetime.datetime.fromtimestamp(unix_microseconds / 1_000_000, tz=datetime.timezone.utc)
     return dt.isoformat().replace('+00:00', '+0000')
 
-- 
2.43.0


From 351f9e41e62810972bcffffec1b161ba774e2024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:21 +0000
Subject: [PATCH 09/28] fix: open the index of boxes having URI special
 characters in their path

---
 bead/box_index.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bead/box_index.py b/bead/box_index.py
index ad9b7ea..6040a37 100644
--- a/bead/box_index.py
+++ b/bead/box_index.py
@@ -3,7 +3,9 @@ SQLite-based index for bead storage and retrieval.
 '''
 
 import datetime
+import os
 import sqlite3
+import urllib.parse
 from contextlib import closing
 from pathlib import Path
 
@@ -25,9 +27,13 @@ def create_update_connection(index_path: Path):
     return closing(conn)
 
 
+def read_only_uri(index_path: Path):
+    return f'file:{urllib.parse.quote(os.fsencode(index_path))}?mode=ro'
+
+
 def create_query_connection(index_path: Path):
     '''Create read-only database connection for queries.'''
-    conn = sqlite3.connect(f"file:{index_path}?mode=ro", uri=True)
+    conn = sqlite3.connect(read_only_uri(index_path), uri=True)
     return closing(conn)
 
 
@@ -230,7 +236,7 @@ def can_read_index(box_directory: Path) -> bool:
     """Test if SQLite index can be read."""
     index_path = box_directory / '.index.sqlite'
     try:
-        with closing(sqlite3.connect(f"file:{index_path}?mode=ro", uri=True)):
+        with closing(sqlite3.connect(read_only_uri(index_path), uri=True)):
             pass
         return True
     except Exception:
-- 
2.43.0


From f40b04ec81bd6900d4074446ec753be4c18e072e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:55 +0000
Subject: [PATCH 10/28] fix: timestamps in the repeated hour at the end of
 daylight saving time

---
 bead/tech/timestamp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bead/tech/timestamp.py b/bead/tech/timestamp.py
index 72056a5..b6f20aa 100644
--- a/bead/tech/timestamp.py
+++ b/bead/tech/timestamp.py
@@ -1,5 +1,6 @@
 from datetime import datetime
 from datetime import timedelta
+from datetime import timezone
 from datetime import tzinfo
 import re
 import time as _time
@@ -195,7 +196,7 @@ def timestamp():
         - when parsed back, can be compared with others
           even from different time zones
     '''
-    return datetime.now(Local).strftime('%Y%m%dT%H%M%S%f%z')
+    return datetime.now(timezone.utc).astimezone().strftime('%Y%m%dT%H%M%S%f%z')
 
 
 # a not so forgiving parser
-- 
2.43.0


From 4a8c4f65da616ae54e75a300cc8b09d5b058ace4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:02 +0000
Subject: [PATCH 11/28] fix: refuse to extract archive members to outside of
 the target directory

---
 bead/ziparchive.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/bead/ziparchive.py b/bead/ziparchive.py
index 87e7a70..e56256f 100644
--- a/bead/ziparchive.py
+++ b/bead/ziparchive.py
@@ -186,9 +186,16 @@ class ZipArchive(Archive):
         zip_dir_prefix = zip_dir + '/'
         zip_dir_prefix_len = len(zip_dir_prefix)
 
-        for zip_path in self.zipfile.namelist():
-            if not zip_path.startswith(zip_dir_prefix):
-                continue
+        zip_paths = [
+            zip_path
+            for zip_path in self.zipfile.namelist()
+            if zip_path.startswith(zip_dir_prefix)]
+        for zip_path in zip_paths:
+            relative_path = tech.fs.Path(zip_path[zip_dir_prefix_len:])
+            # must not be extracted to outside of fs_dir
+            if relative_path.anchor or '..' in relative_path.parts:
+                raise InvalidArchive(self.archive_filename)
+        for zip_path in zip_paths:
             fs_path = fs_dir / zip_path[zip_dir_prefix_len:]
             self.extract_file(zip_path, fs_path)
 
-- 
2.43.0


From c44347290000fbdc670dd456f303b9cd7d3f5cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:10 +0000
Subject: [PATCH 12/28] fix: index and reindex report when the index can not be
 updated

---
 bead/box_index.py | 59 +++++++++++++++++++++++++++++++----------------
 1 file changed, 39 insertions(+), 20 deletions(-)

diff --git a/bead/box_index.py b/bead/box_index.py
index 6040a37..44c0e01 100644
--- a/bead/box_index.py
+++ b/bead/box_index.py
@@ -269,8 +269,11 @@ class BoxIndex:
         if self.index_path.exists():
             self.index_path.unlink()
         
+        with create_update_connection(self.index_path):
+            pass
+
         for zip_path in self.box_directory.glob('*.zip'):
-            self.index_archive_file(zip_path)
+            self._index_archive_file(zip_path)
     
     def sync(self):
         '''Add new files to index and remove deleted files.'''
@@ -286,45 +289,61 @@ class BoxIndex:
                 
                 # Add new files to index
                 if str(relative_path) not in indexed_files:
-                    self.index_archive_file(archive_path)
+                    self._index_archive_file(archive_path)
             
             # Remove files from index that no longer exist
             orphaned_files = indexed_files - current_files
             for file_path in orphaned_files:
                 orphaned_archive_path = self.box_directory / file_path
-                self.unindex_archive_file(orphaned_archive_path)
-        except Exception:
-            pass
+                self._unindex_archive_file(orphaned_archive_path)
+        except Exception as e:
+            raise BoxIndexError(f"Failed to update index: {e}")
     
     def index_archive_file(self, archive_path: Path):
         '''Add single bead to index.'''
+        try:
+            self._index_archive_file(archive_path)
+        except Exception:
+            pass
+
+    def _index_archive_file(self, archive_path: Path):
+        '''Add single file to index, ignoring it, if it is not a valid bead.'''
         try:
             archive = ZipArchive(archive_path, box_name='')
             archive.validate()
-            
-            relative_path = archive_path.relative_to(self.box_directory)
-            
-            with create_update_connection(self.index_path) as conn:
+            inputs = archive.inputs
+            archive.content_id
+        except Exception:
+            return
+
+        relative_path = archive_path.relative_to(self.box_directory)
+
+        with create_update_connection(self.index_path) as conn:
+            try:
                 insert_bead_record(conn, archive, relative_path)
                 delete_bead_inputs(conn, archive.name, archive.content_id)
-                
-                for input_spec in archive.inputs:
+
+                for input_spec in inputs:
                     insert_input_record(conn, archive.name, archive.content_id, input_spec)
-                
-                conn.commit()
-        except Exception:
-            pass
+            except (sqlite3.InterfaceError, sqlite3.ProgrammingError, sqlite3.IntegrityError, ValueError, OverflowError):
+                # it has metadata, that can not be stored
+                return
+
+            conn.commit()
     
     def unindex_archive_file(self, archive_path: Path):
         '''Remove bead from index by file path.'''
         try:
-            relative_path = archive_path.relative_to(self.box_directory)
-            
-            with create_update_connection(self.index_path) as conn:
-                delete_bead_record(conn, str(relative_path))
-                conn.commit()
+            self._unindex_archive_file(archive_path)
         except Exception:
             pass
+
+    def _unindex_archive_file(self, archive_path: Path):
+        relative_path = archive_path.relative_to(self.box_directory)
+
+        with create_update_connection(self.index_path) as conn:
+            delete_bead_record(conn, str(relative_path))
+            conn.commit()
     
     def get_beads(self, conditions, box_name: str) -> list[Bead]:
         '''Query beads from index.'''
-- 
2.43.0


From e4e1220a422e2252a6ac80f648c16dc212cecb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:53 +0000
Subject: [PATCH 13/28] fix: refuse names, that could not be read back

---
 bead_cli/input.py     | 3 ++-
 bead_cli/workspace.py | 4 ++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/bead_cli/input.py b/bead_cli/input.py
index 199683f..06ad03e 100644
--- a/bead_cli/input.py
+++ b/bead_cli/input.py
@@ -4,6 +4,7 @@ from typing import TYPE_CHECKING
 from bead.box import resolve
 from bead.box import search
 from bead.exceptions import InvalidArchive
+from bead.meta import InputName
 from bead.workspace import Workspace
 
 from . import arg_help
@@ -67,7 +68,7 @@ class CmdAdd(Command):
         bead_ref_base = args.bead_ref_base
         workspace = get_workspace(args)
 
-        if os.path.dirname(input_nick):
+        if os.path.dirname(input_nick) or not InputName.is_wellformed(input_nick):
             die(f'Invalid input name: {input_nick}')
 
         if bead_ref_base is USE_INPUT_NICK:
diff --git a/bead_cli/workspace.py b/bead_cli/workspace.py
index 72423ae..9ba19d6 100644
--- a/bead_cli/workspace.py
+++ b/bead_cli/workspace.py
@@ -5,6 +5,7 @@ from bead import layouts
 from bead import tech
 from bead.exceptions import BoxError
 from bead.exceptions import InvalidArchive
+from bead.meta import BeadName
 from bead.workspace import Workspace
 
 from . import arg_help
@@ -37,6 +38,7 @@ def assert_may_be_valid_name(name):
         and '/' not in name
         and '\\' not in name
         and ':' not in name
+        and BeadName.is_wellformed(name)
     )
     if not valid_syntax:
         die(f'Invalid name "{name}"')
@@ -90,6 +92,8 @@ class CmdSave(Command):
         box_name = args.box_name
         workspace = args.workspace
         assert_valid_workspace(workspace)
+        if not BeadName.is_wellformed(workspace.name):
+            die(f'Invalid name "{workspace.name}"')
         # XXX: (usability) save - support saving directly to a directory outside of workspace
         if box_name is USE_THE_ONLY_BOX:
             boxes = env.get_boxes()
-- 
2.43.0


From 8352e98423ff85c188a4a1411af9c9d0c188250b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:15 +0000
Subject: [PATCH 14/28] fix: save a verifiable bead, when files are changing
 during the save

---
 bead/workspace.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bead/workspace.py b/bead/workspace.py
index 8903a51..1c9b9d7 100644
--- a/bead/workspace.py
+++ b/bead/workspace.py
@@ -220,7 +220,10 @@ class _ZipCreator:
         self.zipfile.write(path, zip_path)
         self.add_hash(
             zip_path,
-            securehash.file(open(path, 'rb'), os.path.getsize(path)))
+            # hash what is archived - the file could be changing
+            securehash.file(
+                self.zipfile.open(zip_path),
+                self.zipfile.getinfo(zip_path).file_size))
 
     def add_path(self, path, zip_path):
         if os.path.isdir(path):
-- 
2.43.0


From e6a080b7727c55e9c65050fe6847ac2c518816ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:54 +0000
Subject: [PATCH 15/28] fix: load an input from another box, when the first
 copy found is damaged

---
 bead_cli/input.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/bead_cli/input.py b/bead_cli/input.py
index 06ad03e..d4c3f56 100644
--- a/bead_cli/input.py
+++ b/bead_cli/input.py
@@ -222,19 +222,17 @@ def _load(env, workspace, input):
     assert input is not None
     if not workspace.is_loaded(input.name):
         content_id = input.content_id
-        archive = None
         for box in env.get_boxes():
             # Only try to find by exact content_id match
             try:
                 bead = box.search().by_content_id(content_id).first()
                 archive = box.resolve(bead)
-                break
-            except LookupError:
+            except (LookupError, InvalidArchive, ValueError):
+                # not in this box or the archive is not the indexed one any more
                 continue
-        if archive is None:
-            warning(f'Could not find bead for input "{input.name}" - not loaded!')
-            return
-        _check_load_with_feedback(workspace, input.name, archive)
+            if _check_load_with_feedback(workspace, input.name, archive):
+                return
+        warning(f'Could not find bead for input "{input.name}" - not loaded!')
     else:
         print(f'"{input.name}" is already loaded - skipping')
 
@@ -244,6 +242,7 @@ def _check_load_with_feedback(workspace: Workspace, input_nick, archive):
         verify_with_feedback(archive)
     except InvalidArchive:
         warning(f'Bead for {input_nick} is found but damaged - not loading.')
+        return False
     else:
         if workspace.is_loaded(input_nick):
             print(f'Removing current data from {input_nick}')
@@ -251,6 +250,7 @@ def _check_load_with_feedback(workspace: Workspace, input_nick, archive):
         print(f'Loading new data to {input_nick} ...', end='', flush=True)
         workspace.load(input_nick, archive)
         print(' Done')
+        return True
 
 
 class CmdUnload(Command):
-- 
2.43.0


From bb9f038fbd010e5f8d8240940fa68823b2966cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:41 +0000
Subject: [PATCH 16/28] fix: beads with malformed input metadata or names are
 not listed, so they can not break others

---
 bead/bead.py      | 11 +++++++++++
 bead/box_index.py |  3 ++-
 bead/box_rawfs.py |  3 ++-
 bead/meta.py      | 10 +++++++++-
 4 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/bead/bead.py b/bead/bead.py
index 0b034b2..0761f4a 100644
--- a/bead/bead.py
+++ b/bead/bead.py
@@ -5,6 +5,7 @@ from typing import Sequence
 from .exceptions import InvalidArchive
 from .meta import BeadName
 from .meta import InputSpec
+from .meta import is_text
 from .tech.timestamp import time_from_timestamp
 
 
@@ -43,6 +44,16 @@ class Bead:
                 return input
 
 
+def check_metadata(bead: Bead):
+    '''
+    Fail, when there is metadata, that can not be worked with.
+    '''
+    for spec in (bead, *bead.inputs):
+        if not all(is_text(value) for value in (spec.name, spec.kind, spec.content_id, spec.freeze_time_str)):
+            raise InvalidArchive
+        spec.freeze_time.utcoffset()
+
+
 class Archive(Bead, metaclass=ABCMeta):
     '''
     Provide high-level access to content of a bead.
diff --git a/bead/box_index.py b/bead/box_index.py
index 44c0e01..5426ba8 100644
--- a/bead/box_index.py
+++ b/bead/box_index.py
@@ -10,6 +10,7 @@ from contextlib import closing
 from pathlib import Path
 
 from .bead import Bead
+from .bead import check_metadata
 from .box_query import QueryCondition
 from .exceptions import BoxIndexError
 from .meta import InputSpec
@@ -311,8 +312,8 @@ class BoxIndex:
         try:
             archive = ZipArchive(archive_path, box_name='')
             archive.validate()
+            check_metadata(archive)
             inputs = archive.inputs
-            archive.content_id
         except Exception:
             return
 
diff --git a/bead/box_rawfs.py b/bead/box_rawfs.py
index 3a43a56..7fb3800 100644
--- a/bead/box_rawfs.py
+++ b/bead/box_rawfs.py
@@ -5,6 +5,7 @@ from typing import Iterator
 from . import tech
 from .bead import Archive
 from .bead import Bead
+from .bead import check_metadata
 from .box_query import QueryCondition
 from .ziparchive import ZipArchive
 
@@ -99,7 +100,7 @@ class RawFilesystemResolver:
 
     def _bead_from_archive(self, archive: Archive) -> Bead:
         """Create a Bead instance from Archive metadata (fails, if it is malformed)."""
-        archive.freeze_time
+        check_metadata(archive)
         bead = Bead()
         bead.kind = archive.kind
         bead.name = archive.name
diff --git a/bead/meta.py b/bead/meta.py
index f36faf8..c6a083a 100644
--- a/bead/meta.py
+++ b/bead/meta.py
@@ -43,6 +43,14 @@ INPUT_CONTENT_ID   = 'content_id'
 INPUT_FREEZE_TIME  = 'freeze_time'
 
 
+def is_text(value) -> bool:
+    try:
+        value.encode('utf-8')
+    except (AttributeError, UnicodeError):
+        return False
+    return True
+
+
 class ValidatingStr(str):
     def __init__(self, string: str = ''):
         if not self.is_wellformed(string):
@@ -58,7 +66,7 @@ class BeadName(ValidatingStr):
     @classmethod
     def is_wellformed(cls, string: str) -> bool:
         # check, that string can be a path in current directory
-        return string not in ('', '.', '..') and '/' not in string and '__' not in string
+        return string not in ('', '.', '..') and '/' not in string and '__' not in string and is_text(string)
 
 
 assert type(BeadName('asd')) is BeadName
-- 
2.43.0


From 425234ddfe8b4923f7d68ad12e571316e40d7069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:02 +0000
Subject: [PATCH 17/28] fix: an archive with unreadable manifest is an
 InvalidArchive, not an unexpected error

---
 bead/ziparchive.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bead/ziparchive.py b/bead/ziparchive.py
index e56256f..bf7cbb0 100644
--- a/bead/ziparchive.py
+++ b/bead/ziparchive.py
@@ -119,7 +119,10 @@ class ZipArchive(Archive):
     @property
     def content_id(self):
         if self._content_id is None:
-            self._content_id = self.calculate_content_id()
+            try:
+                self._content_id = self.calculate_content_id()
+            except Exception as e:
+                raise InvalidArchive(self.archive_filename) from e
         return self._content_id
 
     def calculate_content_id(self):
-- 
2.43.0


From 0baff6c3f37b4ffdf4d20340816b45b4c0a60598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:53 +0000
Subject: [PATCH 18/28] fix: indexing fails when the box can not be listed,
 instead of forgetting its beads

---
 bead/box_index.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/bead/box_index.py b/bead/box_index.py
index 5426ba8..0a4d70c 100644
--- a/bead/box_index.py
+++ b/bead/box_index.py
@@ -3,6 +3,7 @@ SQLite-based index for bead storage and retrieval.
 '''
 
 import datetime
+import fnmatch
 import os
 import sqlite3
 import urllib.parse
@@ -255,6 +256,13 @@ def ensure_index(box_directory: Path) -> bool:
         return False
 
 
+def archive_paths(box_directory: Path) -> list[Path]:
+    '''
+    Potential archives in the box - unlike Path.glob fails, when the directory can not be read.
+    '''
+    return [box_directory / name for name in fnmatch.filter(os.listdir(box_directory), '*.zip')]
+
+
 class BoxIndex:
     '''
     SQLite-based index for a bead box implementing BoxResolver protocol.
@@ -273,7 +281,7 @@ class BoxIndex:
         with create_update_connection(self.index_path):
             pass
 
-        for zip_path in self.box_directory.glob('*.zip'):
+        for zip_path in archive_paths(self.box_directory):
             self._index_archive_file(zip_path)
     
     def sync(self):
@@ -284,7 +292,7 @@ class BoxIndex:
 
             # Get current files in directory
             current_files = set()
-            for archive_path in self.box_directory.glob('*.zip'):
+            for archive_path in archive_paths(self.box_directory):
                 relative_path = archive_path.relative_to(self.box_directory)
                 current_files.add(str(relative_path))
                 
-- 
2.43.0


From 24cf6c0bee9ce3dcfc5977dec4dac91fb06cf981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:24 +0000
Subject: [PATCH 19/28] fix: an archive having input names that are paths is
 invalid

After edit, loading, unloading or deleting such inputs could touch files
outside of the workspace.
---
 bead/ziparchive.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bead/ziparchive.py b/bead/ziparchive.py
index bf7cbb0..e8bb375 100644
--- a/bead/ziparchive.py
+++ b/bead/ziparchive.py
@@ -8,6 +8,7 @@ from . import meta
 from . import tech
 from . import zipopener
 from .bead import Archive
+from .bead import check_metadata
 from .exceptions import InvalidArchive
 
 # technology modules
@@ -76,7 +77,11 @@ class ZipArchive(Archive):
 
     def _has_well_formed_meta(self):
         meta = self.meta
-        return all(key in meta for key in META_KEYS)
+        if not all(key in meta for key in META_KEYS):
+            return False
+        # e.g. names of inputs must not be paths
+        check_metadata(self)
+        return True
 
     def _bead_creation_time_is_in_the_past(self):
         read_time = timestamp.time_from_timestamp
-- 
2.43.0


From 19b293aaa17c146b7efea064f34cbfe6e14c82ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:09 +0000
Subject: [PATCH 20/28] fix: unloading an input that was replaced with a
 symbolic link leaves the link's target alone

---
 bead/tech/fs.py   | 4 ++++
 bead/workspace.py | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/bead/tech/fs.py b/bead/tech/fs.py
index 6ecf0e5..85379f4 100644
--- a/bead/tech/fs.py
+++ b/bead/tech/fs.py
@@ -126,6 +126,10 @@ def all_subpaths(dir: Path, followlinks=False):
 
 
 def rmtree(root: Path, *args, **kwargs):
+    if os.path.islink(root):
+        # its target is not ours
+        os.unlink(root)
+        return
     for path in all_subpaths(root, followlinks=False):
         if not os.path.islink(path):
             make_writable(path)
diff --git a/bead/workspace.py b/bead/workspace.py
index 1c9b9d7..b12fb23 100644
--- a/bead/workspace.py
+++ b/bead/workspace.py
@@ -175,7 +175,8 @@ class Workspace(Bead):
         with fs.temp_dir(self.directory / layouts.Workspace.META) as temp_dir:
             fs.make_writable(input_dir)
             try:
-                fs.make_writable(input_dir / input_nick)
+                if not os.path.islink(input_dir / input_nick):
+                    fs.make_writable(input_dir / input_nick)
                 os.rename(input_dir / input_nick, temp_dir / 'input')
             finally:
                 fs.make_readonly(input_dir)
-- 
2.43.0


From 7701bb24d86f854b5a34d7e737d53c38d9f08d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:33 +0000
Subject: [PATCH 21/28] fix: times given relative to now are right around
 daylight saving changes

---
 bead/tech/timestamp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bead/tech/timestamp.py b/bead/tech/timestamp.py
index b6f20aa..cce17d4 100644
--- a/bead/tech/timestamp.py
+++ b/bead/tech/timestamp.py
@@ -229,7 +229,7 @@ def time_from_user(timeish):
         pass
     try:
         # fall back to interpreting it as a time-delta added to `now`
-        return datetime.now(Local) + parse_timedelta(timeish)
+        return datetime.now(timezone.utc) + parse_timedelta(timeish)
     except ValueError:
         raise ValueError(
             'Can not interpret string either as time or as delta', timeish)
-- 
2.43.0


From 50710e27d7af21636ff678b468812417a675d0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:23 +0000
Subject: [PATCH 22/28] fix: web works with a bead that is in more than one box

---
 bead_cli/web/sketch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bead_cli/web/sketch.py b/bead_cli/web/sketch.py
index b66f94a..bac9233 100644
--- a/bead_cli/web/sketch.py
+++ b/bead_cli/web/sketch.py
@@ -45,7 +45,8 @@ class Sketch:
         edges = tuple(
             itertools.chain.from_iterable(
                 generate_input_edges(bead_index, bead)
-                for bead in beads))
+                # a bead can be in more than one box
+                for bead in tuple(bead_index.values())))
         return cls(tuple(bead_index.values()), edges)
 
     @classmethod
-- 
2.43.0


From a1a73dbaef12f7bfd9eb01396e7f429dd18d8912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:39 +0000
Subject: [PATCH 23/28] fix: the content id of a valid archive covers its
 metadata

---
 bead/ziparchive.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bead/ziparchive.py b/bead/ziparchive.py
index e8bb375..8bb3b6f 100644
--- a/bead/ziparchive.py
+++ b/bead/ziparchive.py
@@ -102,7 +102,8 @@ class ZipArchive(Archive):
         for name in self.zipfile.namelist():
             is_data = name.startswith(data_dir_prefix)
             is_code = name.startswith(code_dir_prefix)
-            if is_data or is_code:
+            is_meta = name == layouts.Archive.BEAD_META
+            if is_data or is_code or is_meta:
                 if name not in manifest:
                     # unexpected extra file!
                     return name
-- 
2.43.0


From 5508b4429a606f61bdf115c2536ee980940d473e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:29 +0000
Subject: [PATCH 24/28] fix: beads are not missed while their box is being
 indexed

---
 bead/box.py       |  3 +-
 bead/box_index.py | 95 ++++++++++++++++++++++++++++++++++-------------
 2 files changed, 71 insertions(+), 27 deletions(-)

diff --git a/bead/box.py b/bead/box.py
index 7085d41..fe21b8e 100644
--- a/bead/box.py
+++ b/bead/box.py
@@ -450,7 +450,8 @@ class Box:
         zipfilename = self.directory / f'{workspace.name}_{freeze_time}.zip'
         workspace.pack(zipfilename, freeze_time=freeze_time, comment=ARCHIVE_COMMENT)
         
-        # Add to resolver
+        # Add to resolver - there could be an index by now
+        self.resolver = self._create_resolver()
         self.resolver.index_archive_file(zipfilename)
         
         return zipfilename
diff --git a/bead/box_index.py b/bead/box_index.py
index 0a4d70c..8fd1baf 100644
--- a/bead/box_index.py
+++ b/bead/box_index.py
@@ -70,8 +70,6 @@ def create_schema(conn):
             FOREIGN KEY (bead_name, bead_content_id) REFERENCES beads(name, content_id)
         )
     ''')
-    
-    conn.commit()
 
 
 def get_indexed_files(conn):
@@ -229,9 +227,12 @@ def load_bead_inputs(conn, name, content_id):
 
 
 def index_path_exists(box_directory: Path) -> bool:
-    """Check if SQLite index file exists in box directory."""
+    """Check if SQLite index file exists in box directory (it is empty until the box is first indexed)."""
     index_path = box_directory / '.index.sqlite'
-    return index_path.exists()
+    try:
+        return index_path.stat().st_size > 0
+    except OSError:
+        return False
 
 
 def can_read_index(box_directory: Path) -> bool:
@@ -271,22 +272,52 @@ class BoxIndex:
     def __init__(self, box_directory: Path):
         self.box_directory = Path(box_directory)
         self.index_path = self.box_directory / '.index.sqlite'
-        ensure_index(self.box_directory)
+        if index_path_exists(self.box_directory):
+            ensure_index(self.box_directory)
     
     def rebuild(self):
         '''Rebuild index from scratch by scanning all files.'''
-        if self.index_path.exists():
+        try:
+            self._fill()
+        except sqlite3.DatabaseError as e:
+            if 'locked' in str(e) or not self.index_path.exists():
+                raise
+            # it is damaged or not writable
             self.index_path.unlink()
-        
-        with create_update_connection(self.index_path):
-            pass
+            self._fill()
+        # beads, that were saved by those, who have not yet seen the index
+        self.sync()
+
+    def _fill(self):
+        '''
+        Replace the content of the index with that of the box, in one step.
+
+        The box remains usable in the meantime.
+        '''
+        # this is the slow part, do not lock out others
+        beads = {path: self._read_archive_file(path) for path in archive_paths(self.box_directory)}
+        with closing(sqlite3.connect(str(self.index_path))) as conn:
+            conn.execute('BEGIN IMMEDIATE')
+            conn.execute('DROP TABLE IF EXISTS inputs')
+            conn.execute('DROP TABLE IF EXISTS beads')
+            create_schema(conn)
+            for path in archive_paths(self.box_directory):
+                bead = beads[path] if path in beads else self._read_archive_file(path)
+                if bead is not None:
+                    conn.execute('SAVEPOINT bead')
+                    if not self._insert(conn, path, bead):
+                        conn.execute('ROLLBACK TO bead')
+                    conn.execute('RELEASE bead')
+            if conn.execute('PRAGMA integrity_check').fetchone()[0] != 'ok':
+                raise sqlite3.DatabaseError('Index is damaged')
+            conn.commit()
 
-        for zip_path in archive_paths(self.box_directory):
-            self._index_archive_file(zip_path)
-    
     def sync(self):
         '''Add new files to index and remove deleted files.'''
         try:
+            if not index_path_exists(self.box_directory):
+                self._fill()
+
             with create_query_connection(self.index_path) as conn:
                 indexed_files = get_indexed_files(conn)
 
@@ -317,29 +348,41 @@ class BoxIndex:
 
     def _index_archive_file(self, archive_path: Path):
         '''Add single file to index, ignoring it, if it is not a valid bead.'''
+        bead = self._read_archive_file(archive_path)
+        if bead is not None:
+            with create_update_connection(self.index_path) as conn:
+                if self._insert(conn, archive_path, bead):
+                    conn.commit()
+
+    def _read_archive_file(self, archive_path: Path):
+        '''Metadata of the bead to be indexed or None, if it is not a valid bead.'''
         try:
             archive = ZipArchive(archive_path, box_name='')
             archive.validate()
             check_metadata(archive)
-            inputs = archive.inputs
+            bead = Bead()
+            bead.name = archive.name
+            bead.content_id = archive.content_id
+            bead.kind = archive.kind
+            bead.freeze_time_str = archive.freeze_time_str
+            bead.inputs = archive.inputs
+            return bead
         except Exception:
-            return
+            return None
 
+    def _insert(self, conn, archive_path: Path, bead: Bead) -> bool:
+        '''Insert all records of a bead, unless it has metadata, that can not be stored.'''
         relative_path = archive_path.relative_to(self.box_directory)
+        try:
+            insert_bead_record(conn, bead, relative_path)
+            delete_bead_inputs(conn, bead.name, bead.content_id)
 
-        with create_update_connection(self.index_path) as conn:
-            try:
-                insert_bead_record(conn, archive, relative_path)
-                delete_bead_inputs(conn, archive.name, archive.content_id)
-
-                for input_spec in inputs:
-                    insert_input_record(conn, archive.name, archive.content_id, input_spec)
-            except (sqlite3.InterfaceError, sqlite3.ProgrammingError, sqlite3.IntegrityError, ValueError, OverflowError):
-                # it has metadata, that can not be stored
-                return
+            for input_spec in bead.inputs:
+                insert_input_record(conn, bead.name, bead.content_id, input_spec)
+        except (sqlite3.InterfaceError, sqlite3.ProgrammingError, sqlite3.IntegrityError, ValueError, OverflowError):
+            return False
+        return True
 
-            conn.commit()
-    
     def unindex_archive_file(self, archive_path: Path):
         '''Remove bead from index by file path.'''
         try:
-- 
2.43.0


From 5b55da68cdc446d33188392a92d1cb38de1f0b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:31 +0000
Subject: [PATCH 25/28] fix: status finds the exact version among versions
 having the same time

---
 bead_cli/workspace.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bead_cli/workspace.py b/bead_cli/workspace.py
index 9ba19d6..217f826 100644
--- a/bead_cli/workspace.py
+++ b/bead_cli/workspace.py
@@ -215,8 +215,12 @@ def print_inputs(env, workspace, verbose):
             # find by kind, then check for exact match
             for box in boxes:
                 try:
-                    # First search by kind and freeze time to find best match
-                    best_bead = box.search().by_kind(input.kind).at_or_older(input.freeze_time).newest()
+                    try:
+                        # there can be more than one version with the same freeze time
+                        best_bead = box.search().by_kind(input.kind).by_content_id(input.content_id).first()
+                    except LookupError:
+                        # search by kind and freeze time to find best match
+                        best_bead = box.search().by_kind(input.kind).at_or_older(input.freeze_time).newest()
                     has_box = True
                     # Check if the best match is also an exact content_id match
                     if best_bead.content_id == input.content_id:
-- 
2.43.0


From 5ff8c81fd1be4d6136bfb5cc1bc1af4eff3a7750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:19 +0000
Subject: [PATCH 26/28] fix: a box below a directory closed for the user does
 not prevent access to the others

---
 bead/box_rawfs.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bead/box_rawfs.py b/bead/box_rawfs.py
index 7fb3800..821b5cf 100644
--- a/bead/box_rawfs.py
+++ b/bead/box_rawfs.py
@@ -61,7 +61,11 @@ class RawFilesystemResolver:
             pattern = glob.escape(bead_name) + '_????????T????????????[-+]????.zip'
         else:
             pattern = '*.zip'
-        return self.box_directory.glob(pattern)
+        try:
+            yield from self.box_directory.glob(pattern)
+        except PermissionError:
+            # the box is in a directory, that is closed for the user (glob copes only with a closed box)
+            return
 
     def get_beads(self, conditions, box_name: str) -> list[Bead]:
         """Retrieve beads matching conditions by scanning filesystem."""
-- 
2.43.0


From b2050a40eeea45098547d90cb82b77bd3bf47738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:06 +0000
Subject: [PATCH 27/28] fix: an interrupted discard does not leave something
 that works as a workspace having less files

---
 bead_cli/workspace.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bead_cli/workspace.py b/bead_cli/workspace.py
index 217f826..b9ae5e0 100644
--- a/bead_cli/workspace.py
+++ b/bead_cli/workspace.py
@@ -283,6 +283,11 @@ class CmdDiscard(Command):
         if not args.force:
             assert_valid_workspace(workspace)
         directory = workspace.directory
+        # if interrupted, what is left must not work as a workspace, that has less files
+        meta_directory = directory / layouts.Workspace.META
+        if os.path.lexists(meta_directory):
+            tech.fs.make_writable(directory)
+            os.rename(meta_directory, directory / f'.{tech.identifier.uuid()}.discarded')
         # on non-posix systems (Windows) it might happen, that we can not remove
         # the directory we are in -> ignore errors
         tech.fs.rmtree(directory, ignore_errors=os.name != 'posix')
-- 
2.43.0


From eee544af0e0c98a910fb7fecbc66648f94f00754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:39 +0000
Subject: [PATCH 28/28] fix: an index whose damage shows in an error message
 can be rebuilt

---
 bead/box_index.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bead/box_index.py b/bead/box_index.py
index 8fd1baf..400ac2a 100644
--- a/bead/box_index.py
+++ b/bead/box_index.py
@@ -279,7 +279,8 @@ class BoxIndex:
         '''Rebuild index from scratch by scanning all files.'''
         try:
             self._fill()
-        except sqlite3.DatabaseError as e:
+        except (sqlite3.DatabaseError, UnicodeDecodeError) as e:
+            # (UnicodeDecodeError: the error message has a damaged name)
             if 'locked' in str(e) or not self.index_path.exists():
                 raise
             # it is damaged or not writable
-- 
2.43.0

